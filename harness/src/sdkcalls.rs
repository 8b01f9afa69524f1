//! Calls of the SDK's client functions with generated arguments, recorded for ClientJudge.
//! Compiled against the SDK as it is by default and, in /verif/compat, against the SDK built
//! for older clients; everything here goes through the SDK's own types.
use ephemeral_vrf_sdk as sdk;
use ephemeral_vrf_sdk::compat::{Instruction, Pubkey};
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use std::collections::HashMap;
use std::str::FromStr;

pub struct Gen(pub u64);
impl Gen {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^ (x >> 33)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn key(&mut self) -> String {
        format!("k{}", self.below(12))
    }
    pub fn index(&mut self) -> u64 {
        [0, 0, 1, 2, 127, 128, 254, 255, self.below(256) as u64][self.below(9)]
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

const FIXED: &[(&str, &str)] = &[
    ("vrf", "Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz"),
    ("dlp", "DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh"),
    ("default queue", "Cuj97ggrhhidhbu39TijNVqE74xvKJ69gDervRUXAxGh"),
    ("default ephemeral queue", "5hBR571xnXppuCPveTrctfTU7tJLSN94nq7kv7FRK5Tc"),
    ("slot hashes", "SysvarS1otHashes111111111111111111111111111"),
    ("sys", "11111111111111111111111111111111"),
    ("magic", "Magic11111111111111111111111111111111111111"),
    ("magic context", "MagicContext1111111111111111111111111111111"),
    ("consumer", "CDiutifqugEkabdqwc5TK3FmSAgFpkP3RPE1642BCEhi"),
    ("loader", "BPFLoaderUpgradeab1e11111111111111111111111"),
];
const PREFIXES: &[&str] = &[
    "delegation", "delegation-metadata", "state-diff", "commit-state-record", "buffer", "undelegate-buffer", "fees-vault",
    "v-fees-vault", "p-conf", "balance", "identity", "oracles", "oracle", "queue",
];

/// Names of addresses.
pub struct Names {
    back: HashMap<[u8; 32], String>,
    done: std::collections::HashSet<String>,
}
impl Names {
    pub fn new() -> Self {
        let mut n = Names { back: HashMap::new(), done: Default::default() };
        n.derive(&[], &[]);
        for (name, _) in FIXED {
            let k = n.key(name);
            n.back.entry(k).or_insert(name.to_string());
        }
        n
    }
    /// The address with that name: a fixed one, or "k1", "k2", ...
    pub fn key(&mut self, name: &str) -> [u8; 32] {
        let k: [u8; 32] = match FIXED.iter().find(|f| f.0 == name) {
            Some(f) => Pubkey::from_str(f.1).unwrap().to_bytes(),
            None => Sha256::digest(name.as_bytes()).into(),
        };
        self.back.entry(k).or_insert(name.to_string());
        k
    }
    /// Names every address that derives from a known seed and at most one of the keys (and index).
    pub fn derive(&mut self, keys: &[&str], idx: &[u8]) {
        let mut progs = vec!["vrf", "dlp", "loader"];
        progs.extend(keys);
        let mut terms: Vec<(String, Vec<Vec<u8>>)> = PREFIXES.iter().map(|p| (format!("'{p}'"), vec![p.as_bytes().to_vec()])).collect();
        for k in keys.iter().chain(&["vrf"]) {
            let kb = self.key(k).to_vec();
            terms.push((k.to_string(), vec![kb.clone()]));
            for p in PREFIXES {
                terms.push((format!("'{p}',{k}"), vec![p.as_bytes().to_vec(), kb.clone()]));
                for i in idx {
                    terms.push((format!("'{p}',{k},#{i}"), vec![p.as_bytes().to_vec(), kb.clone(), vec![*i]]));
                }
            }
        }
        for prog in progs {
            for (t, seeds) in &terms {
                let term = format!("{prog}({t})");
                if !self.done.insert(term.clone()) {
                    continue;
                }
                let pk = Pubkey::from(self.key(prog));
                let s: Vec<&[u8]> = seeds.iter().map(|x| &x[..]).collect();
                let a = Pubkey::find_program_address(&s, &pk).0.to_bytes();
                self.back.entry(a).or_insert(term);
            }
        }
    }
    pub fn name(&self, k: &[u8; 32]) -> String {
        self.back.get(k).cloned().unwrap_or_else(|| format!("?{}", hex(&k[..6])))
    }
}

pub struct Recorder {
    pub names: Names,
    pub out: Vec<Value>,
    pub by: String,
}
impl Recorder {
    pub fn new(by: &str) -> Self {
        Recorder { names: Names::new(), out: vec![], by: by.into() }
    }
    fn hexes(&mut self, keys: &[&str]) -> Map<String, Value> {
        let mut h = Map::new();
        h.insert("vrf".into(), json!(hex(&self.names.key("vrf"))));
        for k in keys {
            h.insert(k.to_string(), json!(hex(&self.names.key(k))));
        }
        h
    }
    pub fn address(&mut self, f: &str, a: Value, keys: &[&str], idx: &[u8], got: [u8; 32]) {
        self.names.derive(keys, idx);
        let k = self.names.name(&got);
        self.out.push(json!({"by": self.by, "f": f, "a": a, "key": k}));
    }
    #[allow(clippy::too_many_arguments)]
    pub fn instruction(&mut self, f: &str, a: Value, keys: &[&str], idx: &[u8], prog: [u8; 32], acc: &[([u8; 32], bool, bool)], data: &[u8]) {
        self.names.derive(keys, idx);
        let acc: Vec<Value> = acc.iter().map(|x| json!({"k": self.names.name(&x.0), "s": x.1, "w": x.2})).collect();
        let p = self.names.name(&prog);
        let h = self.hexes(keys);
        self.out.push(json!({"by": self.by, "f": f, "a": a, "hex": h, "prog": p, "acc": acc, "data": hex(data)}));
    }
    fn ix(&mut self, f: &str, a: Value, keys: &[&str], i: &Instruction) {
        let acc: Vec<_> = i.accounts.iter().map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable)).collect();
        self.instruction(f, a, keys, &[], i.program_id.to_bytes(), &acc, &i.data);
    }
}

pub fn sdk(r: &mut Recorder, g: &mut Gen, rounds: usize) {
    use sdk::{consts, pda};
    for (f, k) in [
        ("const vrf program", consts::VRF_PROGRAM_ID),
        ("const vrf program", sdk::id()),
        ("const delegation program", consts::DELEGATION_PROGRAM_ID),
        ("const default queue", consts::DEFAULT_QUEUE),
        ("const default ephemeral queue", consts::DEFAULT_EPHEMERAL_QUEUE),
        ("const identity", consts::VRF_PROGRAM_IDENTITY),
    ] {
        r.address(f, json!({"none": 0}), &[], &[], k.to_bytes());
    }
    r.address("fees vault", json!({"none": 0}), &[], &[], pda::fees_vault_pda().to_bytes());
    for _ in 0..rounds {
        let (k, p) = (g.key(), g.key());
        let i = g.index();
        let (kk, pp) = (Pubkey::from(r.names.key(&k)), Pubkey::from(r.names.key(&p)));
        let one = json!({"k": k});
        for (f, got) in [
            ("delegation record", pda::delegation_record_pda_from_delegated_account(&kk)),
            ("delegation metadata", pda::delegation_metadata_pda_from_delegated_account(&kk)),
            ("commit state", pda::commit_state_pda_from_delegated_account(&kk)),
            ("commit record", pda::commit_record_pda_from_delegated_account(&kk)),
            ("undelegate buffer", pda::undelegate_buffer_pda_from_delegated_account(&kk)),
            ("validator fees vault", pda::validator_fees_vault_pda_from_validator(&kk)),
            ("program config", pda::program_config_from_program_id(&kk)),
        ] {
            r.address(f, one.clone(), &[&k], &[], got.to_bytes());
        }
        let b = pda::delegate_buffer_pda_from_delegated_account_and_owner_program(&kk, &pp);
        r.address("delegate buffer", json!({"k": k, "p": p}), &[&k, &p], &[], b.to_bytes());
        let e = pda::ephemeral_balance_pda_from_payer(&kk, i as u8);
        r.address("ephemeral balance", json!({"k": k, "i": i}), &[&k], &[i as u8], e.to_bytes());
        for prio in [0, 1] {
            let (payer, queue, prog) = (g.key(), g.key(), g.key());
            let n = [0, 1, 2, 3, 8, 20, 21][g.below(7)];
            let metas: Vec<(String, bool, bool)> = (0..n).map(|_| (g.key(), g.below(2) == 0, g.below(2) == 0)).collect();
            let nd = [0, 1, 4, 7, 8, 9, 12][g.below(7)];
            let na = [0, 1, 31, 255, 256, 257, 511, 512, 513, 700][g.below(10)];
            let (mut seed, disc, args) = (g.bytes(32), g.bytes(nd), g.bytes(na));
            match g.below(6) {
                0 => seed = vec![0; 32],
                1 => seed = vec![255; 32],
                2 => seed[1..].fill(0),
                _ => {}
            }
            let mut seed32 = [0u8; 32];
            seed32.copy_from_slice(&seed);
            let mut p = sdk::instructions::RequestRandomnessParams {
                payer: r.names.key(&payer).into(),
                oracle_queue: r.names.key(&queue).into(),
                callback_program_id: r.names.key(&prog).into(),
                callback_discriminator: disc.clone(),
                caller_seed: seed32,
                ..Default::default()
            };
            // empty lists may be left out
            if n > 0 || g.below(2) == 0 {
                p.accounts_metas = Some(
                    metas
                        .iter()
                        .map(|m| sdk::types::SerializableAccountMeta { pubkey: r.names.key(&m.0).into(), is_signer: m.1, is_writable: m.2 })
                        .collect(),
                );
            }
            if na > 0 || g.below(2) == 0 {
                p.callback_args = Some(args.clone());
            }
            let ix = if prio == 1 {
                sdk::instructions::create_request_randomness_ix(p)
            } else {
                sdk::instructions::create_request_regular_randomness_ix(p)
            };
            let a = json!({"payer": payer, "queue": queue, "prog": prog, "prio": prio, "seed": hex(&seed), "disc": hex(&disc), "args": hex(&args),
                "metas": metas.iter().map(|m| json!({"k": m.0, "s": m.1, "w": m.2})).collect::<Vec<_>>()});
            let mut keys: Vec<&str> = vec![&payer, &queue, &prog];
            keys.extend(metas.iter().map(|m| &m.0[..]));
            r.ix("request", a, &keys, &ix);
        }
    }
}
