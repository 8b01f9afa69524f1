//! Consumers completed by #[vrf], run on accounts given to them: what they call the program with,
//! and which accounts they refuse. Compiled once against the current Anchor and once against the
//! one of older clients.
use super::consume_env::{consumer, info, program_stubs, AccountInfo, AccountMeta, AnchorSerialize, Instruction, Pubkey, ToAccountMetas};
use super::sdkcalls::{hex, Gen, Recorder};
use consumer::{accounts, Args, Meta};
use serde_json::json;
use std::sync::Mutex;

/// what a program was called with: the instruction, the accounts handed over, the seeds it signs with
type Call = (Instruction, Vec<Pubkey>, Vec<Vec<Vec<u8>>>);
static CALLS: Mutex<Vec<Call>> = Mutex::new(vec![]);
struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_invoke_signed(&self, i: &Instruction, a: &[AccountInfo], s: &[&[&[u8]]]) -> super::consume_env::ProgramResult {
        let seeds = s.iter().map(|x| x.iter().map(|y| y.to_vec()).collect()).collect();
        CALLS.lock().unwrap().push((i.clone(), a.iter().map(|x| *x.key).collect(), seeds));
        Ok(())
    }
}

fn run(metas: &[AccountMeta], data: &[u8], system: Pubkey, program: impl Fn(&Pubkey) -> bool) -> bool {
    let mut store: Vec<(AccountMeta, u64, Vec<u8>, bool)> = metas
        .iter()
        .map(|m| {
            let p = program(&m.pubkey);
            (m.clone(), 1_000_000_000, if p { vec![] } else { vec![0u8; 8] }, p)
        })
        .collect();
    let infos: Vec<AccountInfo> = store.iter_mut().map(|(m, l, d, x)| info(&m.pubkey, m.is_signer, m.is_writable, l, d, &system, *x)).collect();
    // the borrow checker cannot see that accounts and their contents live equally long
    let infos: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(&infos[..]) };
    static ID: Pubkey = consumer::ID;
    let data: &'static [u8] = unsafe { std::mem::transmute(data) };
    consumer::entry(&ID, infos, data).is_ok()
}

pub fn consume(r: &mut Recorder, g: &mut Gen, rounds: usize) {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    for n in 0..rounds {
        let (payer, queue, other) = (g.key(), format!("q{}", g.below(12)), format!("o{}", g.below(12)));
        let mut pk = |x: &str| Pubkey::from(r.names.key(x));
        let (pkey, qkey, vrf, sys, hashes, forged) = (pk(&payer), pk(&queue), pk("vrf"), pk("sys"), pk("slot hashes"), pk(&other));
        let identity = Pubkey::find_program_address(&[b"identity"], &consumer::ID).0;
        // one of the accounts is not the one it should be
        let wrong = ["", "", "id", "vrf", "slot hashes", "sys"][g.below(6)];
        let pick = |x: &str, right: Pubkey| if wrong == x { forged } else { right };
        let (program_identity, vrf_program) = (pick("id", identity), pick("vrf", vrf));
        let (slot_hashes, system_program) = (pick("slot hashes", hashes), pick("sys", sys));
        let (payer_, oracle_queue, form) = (pkey, qkey, n % 3);
        let accs = match form {
            0 => accounts::Ask { payer: payer_, oracle_queue, program_identity, vrf_program, slot_hashes, system_program }.to_account_metas(None),
            1 => accounts::AskSome { payer: payer_, oracle_queue, program_identity, vrf_program, slot_hashes, system_program }.to_account_metas(None),
            _ => accounts::AskOwn { payer: payer_, oracle_queue, program_identity, vrf_program, slot_hashes, system_program }.to_account_metas(None),
        };
        let k = [0, 1, 2, 8, 20][g.below(5)];
        let metas: Vec<(String, bool, bool)> = (0..k).map(|_| (g.key(), g.below(2) == 0, g.below(2) == 0)).collect();
        let (nd, na, prio) = ([0, 1, 8][g.below(3)], [0, 1, 255, 256, 512][g.below(5)], g.below(2) as u8);
        let (seed, disc, args) = (g.bytes(32), g.bytes(nd), g.bytes(na));
        let a = Args {
            prio,
            seed: seed.clone().try_into().unwrap(),
            disc: disc.clone(),
            metas: metas.iter().map(|m| Meta { key: Pubkey::from(r.names.key(&m.0)), signer: m.1, writable: m.2 }).collect(),
            args: args.clone(),
        };
        let mut data = vec![[1u8, 2, 3][form]];
        a.serialize(&mut data).unwrap();
        CALLS.lock().unwrap().clear();
        // a forged program still is a program
        let ok = run(&accs, &data, sys, |x| *x == vrf || *x == sys || (*x == forged && (wrong == "vrf" || wrong == "sys")));
        let calls = std::mem::take(&mut *CALLS.lock().unwrap());
        let v = json!({"payer": payer, "queue": queue, "prog": "consumer", "prio": prio, "seed": hex(&seed), "disc": hex(&disc), "args": hex(&args),
            "metas": metas.iter().map(|m| json!({"k": m.0, "s": m.1, "w": m.2})).collect::<Vec<_>>()});
        let by = r.by.clone();
        r.out.push(json!({"by": by, "f": "consumer", "form": form, "wrong": wrong, "asks": if ok { calls.len() as i64 } else { -1 }}));
        if !ok || wrong != "" {
            continue;
        }
        for (ix, given, seeds) in &calls {
            let acc: Vec<_> = ix.accounts.iter().map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable)).collect();
            let mut keys: Vec<&str> = vec![&payer, &queue, "consumer"];
            keys.extend(metas.iter().map(|m| &m.0[..]));
            r.instruction("request", v.clone(), &keys, &[], ix.program_id.to_bytes(), &acc, &ix.data);
            let given: Vec<String> = given.iter().map(|x| r.names.name(&x.to_bytes())).collect();
            let signer = |s: &Vec<Vec<u8>>| Pubkey::create_program_address(&s.iter().map(|x| &x[..]).collect::<Vec<_>>(), &consumer::ID);
            let signers: Vec<String> = seeds.iter().map(|s| signer(s).map(|x| r.names.name(&x.to_bytes())).unwrap_or_default()).collect();
            let o = r.out.last_mut().unwrap().as_object_mut().unwrap();
            o.insert("given".into(), json!(given));
            o.insert("signers".into(), json!(signers));
        }
    }
}
