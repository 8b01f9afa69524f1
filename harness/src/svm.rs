//! A small, faithful emulation of the Solana transaction runtime around the real
//! program entry point: instruction-level privileges, ownership and lamport rules,
//! cross-program invocation, realloc limits, re-entrancy, rent-state checks and
//! all-or-nothing transactions.  The System program, the delegation program, the
//! Magic program and the consumer programs are emulated natively; the VRF program is
//! the code in /repo/program.
use crate::names as nm;
use ephemeral_vrf_api::ID as VRF;
use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_sysvar::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_system_interface::instruction::SystemInstruction;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const SYS: Pubkey = Pubkey::new_from_array([0u8; 32]);
pub const MAX_INCREASE: usize = 10_240;
pub const RELAY_MAGIC: &[u8; 8] = b"\xffRELAY!\xff";
pub const REC_LEN: usize = 96;
pub const META_LEN: usize = 200;

#[derive(Clone, Debug, PartialEq)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}
impl Acct {
    pub fn empty() -> Self {
        Acct { lamports: 0, data: vec![], owner: SYS, executable: false }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    System,
    Vrf,
    Dlp,
    Magic,
    /// accepts every callback
    Consumer,
    /// rejects every callback
    Failing,
    /// on a callback calls back into the VRF program (re-entrancy)
    Reentrant,
    /// on a callback forwards the identity signature to `nm::VICTIM` with forged data
    Evil,
    /// an Anchor program that uses the SDK
    Anchor,
}

#[derive(Clone)]
pub struct World {
    pub accts: BTreeMap<Pubkey, Arc<Acct>>,
    pub slot: u64,
    pub progs: Arc<BTreeMap<Pubkey, Kind>>,
}
impl World {
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).map(|a| (**a).clone()).unwrap_or_else(Acct::empty)
    }
    pub fn put(&mut self, k: Pubkey, a: Acct) {
        self.accts.insert(k, Arc::new(a));
    }
    pub fn time(&self) -> i64 {
        1_700_000_000 + (self.slot / 2) as i64
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    /// the program that makes the call (default: a transaction)
    pub by: Pubkey,
    pub prog: Pubkey,
    pub accts: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ok: bool,
    pub err: String,
    pub panicked: bool,
    pub calls: Vec<Call>,
}

struct Frame {
    program: Pubkey,
    metas: Vec<AccountMeta>,
    lamport_sum: u128,
}

struct Ctx {
    world: World,
    stack: Vec<Frame>,
    calls: Vec<Call>,
    panicked: bool,
    err: String,
}

thread_local! {
    static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
}
#[allow(clippy::mut_from_ref)]
fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX.with(|c| c.get()) }
}

pub fn rent_min(n: usize) -> u64 {
    Rent::default().minimum_balance(n)
}

type R = Result<(), String>;

fn sum(world: &World, metas: &[AccountMeta]) -> u128 {
    let mut seen = BTreeSet::new();
    let mut t = 0u128;
    for m in metas {
        if seen.insert(m.pubkey) {
            t += world.accts.get(&m.pubkey).map(|a| a.lamports as u128).unwrap_or(0);
        }
    }
    t
}

/// Duplicate metas share the union of their privileges.
pub fn merge(metas: &[AccountMeta]) -> Vec<AccountMeta> {
    let mut p: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for m in metas {
        let e = p.entry(m.pubkey).or_default();
        e.0 |= m.is_signer;
        e.1 |= m.is_writable;
    }
    metas
        .iter()
        .map(|m| {
            let (s, w) = p[&m.pubkey];
            AccountMeta { pubkey: m.pubkey, is_signer: s, is_writable: w }
        })
        .collect()
}

fn run(program: Pubkey, metas: Vec<AccountMeta>, data: &[u8]) -> R {
    let c = ctx();
    if c.stack.len() >= 5 {
        return Err("CallDepth".into());
    }
    if let Some(top) = c.stack.last() {
        if top.program != program && c.stack.iter().any(|f| f.program == program) {
            return Err("ReentrancyNotAllowed".into());
        }
        if sum(&c.world, &top.metas) != top.lamport_sum {
            return Err("UnbalancedInstruction(caller)".into());
        }
    }
    let kind = match c.world.progs.get(&program) {
        Some(k) => *k,
        None => return Err("UnsupportedProgramId".into()),
    };
    let s0 = sum(&c.world, &metas);
    c.stack.push(Frame { program, metas: metas.clone(), lamport_sum: s0 });
    let r = match kind {
        Kind::System => system(&metas, data),
        Kind::Vrf => real(&VRF, &metas, data, &|p, i, d| ephemeral_vrf_program::process_instruction(p, i, d)),
        Kind::Anchor => anchor(&program, &metas, data),
        Kind::Dlp => dlp(&metas, data),
        Kind::Magic => {
            record(program, &metas, data);
            Ok(())
        }
        k => native(program, k, &metas, data),
    };
    let c = ctx();
    let f = c.stack.pop().unwrap();
    r?;
    if sum(&c.world, &f.metas) != f.lamport_sum {
        return Err("UnbalancedInstruction".into());
    }
    Ok(())
}

fn record(program: Pubkey, metas: &[AccountMeta], data: &[u8]) {
    let st = &ctx().stack;
    let by = if st.len() < 2 { Pubkey::default() } else { st[st.len() - 2].program };
    ctx().calls.push(Call {
        by,
        prog: program,
        accts: metas.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect(),
        data: data.to_vec(),
    });
}

// ---------------------------------------------------------------- System program
fn signed(metas: &[AccountMeta], k: &Pubkey) -> bool {
    metas.iter().any(|m| m.pubkey == *k && m.is_signer)
}
fn writable(metas: &[AccountMeta], k: &Pubkey) -> bool {
    metas.iter().any(|m| m.pubkey == *k && m.is_writable)
}
fn sys_transfer(metas: &[AccountMeta], from: &Pubkey, to: &Pubkey, n: u64) -> R {
    let w = &mut ctx().world;
    if !signed(metas, from) {
        return Err("transfer: from must sign".into());
    }
    let mut a = w.get(from);
    if !a.data.is_empty() {
        return Err("transfer: from must not carry data".into());
    }
    if a.lamports < n {
        return Err("transfer: insufficient lamports".into());
    }
    if n > 0 {
        if a.owner != SYS {
            return Err("ExternalAccountLamportSpend".into());
        }
        if !writable(metas, from) || !writable(metas, to) {
            return Err("ReadonlyLamportChange".into());
        }
        a.lamports -= n;
        w.put(*from, a);
        let mut b = w.get(to);
        b.lamports += n;
        w.put(*to, b);
    }
    Ok(())
}
fn sys_allocate(metas: &[AccountMeta], k: &Pubkey, space: u64) -> R {
    let w = &mut ctx().world;
    if !signed(metas, k) {
        return Err("allocate: must sign".into());
    }
    let mut a = w.get(k);
    if !a.data.is_empty() || a.owner != SYS {
        return Err("allocate: already in use".into());
    }
    if space > 10 * 1024 * 1024 {
        return Err("allocate: too large".into());
    }
    if space > 0 && !writable(metas, k) {
        return Err("ReadonlyDataModified".into());
    }
    a.data = vec![0; space as usize];
    w.put(*k, a);
    Ok(())
}
fn sys_assign(metas: &[AccountMeta], k: &Pubkey, owner: &Pubkey) -> R {
    let w = &mut ctx().world;
    let mut a = w.get(k);
    if a.owner == *owner {
        return Ok(());
    }
    if !signed(metas, k) {
        return Err("assign: must sign".into());
    }
    if a.owner != SYS || !writable(metas, k) || a.data.iter().any(|b| *b != 0) {
        return Err("ModifiedProgramId".into());
    }
    a.owner = *owner;
    w.put(*k, a);
    Ok(())
}
fn system(metas: &[AccountMeta], data: &[u8]) -> R {
    let ix: SystemInstruction = bincode::deserialize(data).map_err(|_| "sys: bad data")?;
    let need = |n: usize| if metas.len() < n { Err("sys: accounts".to_string()) } else { Ok(()) };
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            need(2)?;
            let (from, to) = (metas[0].pubkey, metas[1].pubkey);
            if ctx().world.get(&to).lamports > 0 {
                return Err("create: already in use".into());
            }
            if !signed(metas, &to) {
                return Err("create: to must sign".into());
            }
            sys_allocate(metas, &to, space)?;
            sys_assign(metas, &to, &owner)?;
            sys_transfer(metas, &from, &to, lamports)
        }
        SystemInstruction::Transfer { lamports } => {
            need(2)?;
            sys_transfer(metas, &metas[0].pubkey, &metas[1].pubkey, lamports)
        }
        SystemInstruction::Allocate { space } => {
            need(1)?;
            sys_allocate(metas, &metas[0].pubkey, space)
        }
        SystemInstruction::Assign { owner } => {
            need(1)?;
            sys_assign(metas, &metas[0].pubkey, &owner)
        }
        _ => Err("sys: unsupported".into()),
    }
}

// ---------------------------------------------------------------- VRF program (real code)
fn put_u64(v: &mut Vec<u8>, n: u64) {
    v.extend_from_slice(&n.to_le_bytes());
}
/// The Anchor program: its callback is recorded like those of the other consumers.
fn anchor(program: &Pubkey, metas: &[AccountMeta], data: &[u8]) -> R {
    if ctx().stack.len() == 1 && data.starts_with(RELAY_MAGIC) {
        return native(*program, Kind::Anchor, metas, data);
    }
    if ctx().stack.len() > 1 {
        record(*program, metas, data);
    }
    #[cfg(feature = "anchor")]
    return real(program, metas, data, &|p, i, d| {
        // the borrow checker cannot see that accounts and their contents live equally long
        type Whole = (&'static Pubkey, &'static [AccountInfo<'static>], &'static [u8]);
        let (p, i, d): Whole = unsafe { std::mem::transmute((p, i, d)) };
        consumer::entry(p, i, d)
    });
    #[cfg(not(feature = "anchor"))]
    Ok(())
}
type Entry<'a> = &'a dyn for<'b> Fn(&Pubkey, &[AccountInfo<'b>], &[u8]) -> Result<(), ProgramError>;
/// Runs a program's code.
fn real(program: &Pubkey, metas: &[AccountMeta], data: &[u8], entry: Entry) -> R {
    // serialize exactly as the loader does (aligned, with realloc padding)
    let mut pos: BTreeMap<Pubkey, usize> = BTreeMap::new();
    let mut v: Vec<u8> = Vec::new();
    put_u64(&mut v, metas.len() as u64);
    {
        let w = &ctx().world;
        for (i, m) in metas.iter().enumerate() {
            if let Some(j) = pos.get(&m.pubkey) {
                v.push(*j as u8);
                v.extend_from_slice(&[0; 7]);
                continue;
            }
            pos.insert(m.pubkey, i);
            let a = w.get(&m.pubkey);
            v.push(0xff);
            v.push(m.is_signer as u8);
            v.push(m.is_writable as u8);
            v.push(a.executable as u8);
            v.extend_from_slice(&[0; 4]);
            v.extend_from_slice(m.pubkey.as_ref());
            v.extend_from_slice(a.owner.as_ref());
            put_u64(&mut v, a.lamports);
            put_u64(&mut v, a.data.len() as u64);
            v.extend_from_slice(&a.data);
            v.resize(v.len() + MAX_INCREASE, 0);
            while v.len() % 8 != 0 {
                v.push(0);
            }
            put_u64(&mut v, u64::MAX);
        }
    }
    put_u64(&mut v, data.len() as u64);
    v.extend_from_slice(data);
    v.extend_from_slice(program.as_ref());
    // 8-aligned buffer, with guard space
    let mut buf: Vec<u64> = vec![0; v.len() / 8 + 2];
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), buf.as_mut_ptr() as *mut u8, v.len()) };
    drop(v);
    let (pid, infos, idata) =
        unsafe { solana_program::entrypoint::deserialize(buf.as_mut_ptr() as *mut u8) };
    let (pid, infos, idata): (&Pubkey, Vec<AccountInfo>, &[u8]) = (pid, infos, idata);
    let r = guarded(|| entry(pid, &infos[..], idata));
    match r {
        Err(_) => {
            let c = ctx();
            c.panicked = true;
            // drop frames left by a panic inside a CPI is impossible: natives do not panic
            return Err("panic".into());
        }
        Ok(Err(e)) => {
            let c = ctx();
            if c.err.is_empty() {
                c.err = format!("{e:?}");
            }
            return Err(format!("{e:?}"));
        }
        Ok(Ok(())) => {}
    }
    push_changes(program, &infos, metas)
}

/// Write the caller's view of its accounts into the world, under the runtime's rules.
fn push_changes(program: &Pubkey, infos: &[AccountInfo], metas: &[AccountMeta]) -> R {
    let w = &mut ctx().world;
    let mut seen = BTreeSet::new();
    for info in infos {
        if !seen.insert(*info.key) {
            continue;
        }
        let wr = match metas.iter().find(|m| m.pubkey == *info.key) {
            Some(m) => m.is_writable,
            None => return Err("MissingAccount".into()),
        };
        let old = w.get(info.key);
        let mut new = old.clone();
        new.lamports = unsafe { **info.lamports.as_ptr() };
        new.data = unsafe { (*info.data.as_ptr()).to_vec() };
        new.owner = *info.owner;
        if new == old {
            continue;
        }
        let owned = old.owner == *program;
        if new.lamports != old.lamports {
            if !wr {
                return Err("ReadonlyLamportChange".into());
            }
            if new.lamports < old.lamports && !owned {
                return Err("ExternalAccountLamportSpend".into());
            }
        }
        if new.data != old.data {
            if !wr {
                return Err("ReadonlyDataModified".into());
            }
            if !owned {
                return Err("ExternalAccountDataModified".into());
            }
        }
        if new.owner != old.owner && (!owned || !wr || new.data.iter().any(|b| *b != 0)) {
            return Err("ModifiedProgramId".into());
        }
        w.put(*info.key, new);
    }
    Ok(())
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> R {
    let (caller, cmetas) = {
        let f = ctx().stack.last().ok_or("no frame")?;
        (f.program, f.metas.clone())
    };
    let mut signers = BTreeSet::new();
    for s in seeds {
        let k = Pubkey::create_program_address(s, &caller).map_err(|_| "InvalidSeeds")?;
        signers.insert(k);
    }
    let metas = merge(&ix.accounts);
    for m in &metas {
        let cm = cmetas.iter().find(|x| x.pubkey == m.pubkey).ok_or("MissingAccount")?;
        if m.is_writable && !cm.is_writable {
            return Err("PrivilegeEscalation(writable)".into());
        }
        if m.is_signer && !cm.is_signer && !signers.contains(&m.pubkey) {
            return Err("PrivilegeEscalation(signer)".into());
        }
        let exec = ctx().world.get(&m.pubkey).executable;
        if !exec && !infos.iter().any(|i| *i.key == m.pubkey) {
            return Err("MissingAccount(info)".into());
        }
    }
    if !cmetas.iter().any(|x| x.pubkey == ix.program_id) {
        return Err("MissingAccount(program)".into());
    }
    if !ctx().world.get(&ix.program_id).executable {
        return Err("AccountNotExecutable".into());
    }
    let used: Vec<AccountInfo> = infos
        .iter()
        .filter(|i| metas.iter().any(|m| m.pubkey == *i.key))
        .cloned()
        .collect();
    push_changes(&caller, &used, &cmetas)?;
    run(ix.program_id, metas, &ix.data)?;
    // pull the callee's changes back into the caller's view
    for info in &used {
        let a = ctx().world.get(info.key);
        **info.try_borrow_mut_lamports().map_err(|_| "borrow")? = a.lamports;
        if info.data_len() != a.data.len() {
            info.resize(a.data.len()).map_err(|_| "InvalidRealloc")?;
        }
        info.try_borrow_mut_data().map_err(|_| "borrow")?.copy_from_slice(&a.data);
        if *info.owner != a.owner {
            info.assign(&a.owner);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- natives
fn native_cpi(ix: &Instruction, extra_signers: &[Pubkey]) -> R {
    let (_caller, cmetas) = {
        let f = ctx().stack.last().ok_or("no frame")?;
        (f.program, f.metas.clone())
    };
    let metas = merge(&ix.accounts);
    for m in &metas {
        let cm = cmetas.iter().find(|x| x.pubkey == m.pubkey).ok_or("MissingAccount")?;
        if m.is_writable && !cm.is_writable {
            return Err("PrivilegeEscalation(writable)".into());
        }
        if m.is_signer && !cm.is_signer && !extra_signers.contains(&m.pubkey) {
            return Err("PrivilegeEscalation(signer)".into());
        }
    }
    if !cmetas.iter().any(|x| x.pubkey == ix.program_id) {
        return Err("MissingAccount(program)".into());
    }
    run(ix.program_id, metas, &ix.data)
}

fn native(program: Pubkey, kind: Kind, metas: &[AccountMeta], data: &[u8]) -> R {
    if ctx().stack.len() == 1 && data.len() > 8 && &data[..8] == RELAY_MAGIC {
        let ix: Instruction = bincode::deserialize(&data[8..]).map_err(|_| "relay data")?;
        let id = nm::identity_of(&program);
        return native_cpi(&ix, &[id]);
    }
    record(program, metas, data);
    match kind {
        Kind::Failing => Err("consumer failed".into()),
        Kind::Reentrant => {
            let ix = Instruction { program_id: VRF, accounts: vec![], data: vec![0; 8] };
            let f = ctx().stack.last_mut().unwrap();
            f.metas.push(AccountMeta::new_readonly(VRF, false));
            native_cpi(&ix, &[])
        }
        // calls every consumer among its accounts, with forged data and all it holds
        Kind::Evil => {
            if ctx().stack.len() >= 4 || data.is_empty() {
                return Ok(());
            }
            let forged: Vec<u8> = data.iter().map(|b| b ^ 0x42).collect();
            let mut seen = vec![program];
            for m in metas {
                if nm::CONSUMERS.iter().any(|c| nm::pk(c) == m.pubkey) && !seen.contains(&m.pubkey) && !ctx().stack.iter().any(|f| f.program == m.pubkey) {
                    seen.push(m.pubkey);
                    let ix = Instruction { program_id: m.pubkey, accounts: metas.to_vec(), data: forged.clone() };
                    native_cpi(&ix, &[])?;
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- delegation program
#[derive(borsh::BorshDeserialize, borsh::BorshSerialize)]
struct DelegateArgs {
    commit_frequency_ms: u32,
    seeds: Vec<Vec<u8>>,
    validator: Option<[u8; 32]>,
}
fn mv(from: &Pubkey, to: &Pubkey, n: u64) -> R {
    let w = &mut ctx().world;
    let mut a = w.get(from);
    if a.lamports < n {
        return Err("dlp: insufficient lamports".into());
    }
    a.lamports -= n;
    w.put(*from, a);
    let mut b = w.get(to);
    b.lamports += n;
    w.put(*to, b);
    Ok(())
}
fn dlp(metas: &[AccountMeta], data: &[u8]) -> R {
    let this = nm::pk("dlp");
    if data.len() < 8 {
        return Err("dlp: data".into());
    }
    record(this, metas, data);
    match data[0] {
        0 => {
            if metas.len() != 7 {
                return Err("dlp: accounts".into());
            }
            let k: Vec<Pubkey> = metas.iter().map(|m| m.pubkey).collect();
            let (payer, q, owner, buf, rec, meta) = (k[0], k[1], k[2], k[3], k[4], k[5]);
            if !metas[0].is_signer || !metas[1].is_signer {
                return Err("dlp: signer".into());
            }
            for i in [0usize, 1, 4, 5] {
                if !metas[i].is_writable {
                    return Err("dlp: writable".into());
                }
            }
            let w = &ctx().world;
            if w.get(&q).owner != this {
                return Err("dlp: delegated account owner".into());
            }
            if rec != nm::pda(&[b"delegation", q.as_ref()], &this)
                || meta != nm::pda(&[b"delegation-metadata", q.as_ref()], &this)
                || buf != nm::pda(&[b"buffer", q.as_ref()], &owner)
            {
                return Err("dlp: pda".into());
            }
            if w.get(&buf).owner != owner {
                return Err("dlp: buffer owner".into());
            }
            if w.get(&rec).owner != SYS || w.get(&meta).owner != SYS {
                return Err("dlp: already delegated".into());
            }
            let args: DelegateArgs =
                borsh::from_slice(&data[8..]).map_err(|_| "dlp: args")?;
            let seeds: Vec<&[u8]> = args.seeds.iter().map(|s| s.as_slice()).collect();
            if nm::pda(&seeds, &owner) != q {
                return Err("dlp: seeds".into());
            }
            for (key, len, body) in [
                (rec, REC_LEN, [&owner.to_bytes()[..], &args.validator.unwrap_or([0xff; 32]), &args.commit_frequency_ms.to_le_bytes()].concat()),
                (meta, META_LEN, borsh::to_vec(&args.seeds).unwrap()),
            ] {
                let w = &mut ctx().world;
                let mut a = w.get(&key);
                let due = rent_min(len).saturating_sub(a.lamports);
                a.owner = this;
                a.data = vec![0; len];
                a.data[..body.len()].copy_from_slice(&body);
                w.put(key, a);
                mv(&payer, &key, due)?;
            }
            let w = &mut ctx().world;
            let b = w.get(&buf).data;
            let mut a = w.get(&q);
            if a.data.len() != b.len() {
                return Err("dlp: buffer length".into());
            }
            a.data = b;
            w.put(q, a);
            Ok(())
        }
        3 => {
            // [payer s w, q w, owner program, undelegate buffer w, rec w, meta w, system]
            let k: Vec<Pubkey> = metas.iter().map(|m| m.pubkey).collect();
            let (payer, q, owner, ub, rec, meta) = (k[0], k[1], k[2], k[3], k[4], k[5]);
            let qa = ctx().world.get(&q);
            let ra = ctx().world.get(&rec);
            if qa.owner != this || ra.owner != this {
                return Err("dlp: not delegated".into());
            }
            if ra.data[..32] != owner.to_bytes() {
                return Err("dlp: owner program".into());
            }
            let seeds_raw = ctx().world.get(&meta).data;
            let mut sl: &[u8] = &seeds_raw;
            let seeds: Vec<Vec<u8>> =
                borsh::BorshDeserialize::deserialize(&mut sl).map_err(|_| "dlp: meta")?;
            // hand the content over in a buffer only this program can sign for
            let len = qa.data.len();
            ctx().world.put(
                ub,
                Acct { lamports: 0, data: qa.data.clone(), owner: this, executable: false },
            );
            mv(&payer, &ub, rent_min(len))?;
            let bal = qa.lamports;
            let mut gone = qa.clone();
            gone.data = vec![];
            gone.owner = SYS;
            ctx().world.put(q, gone);
            mv(&q, &payer, bal)?;
            let mut d = vec![196, 28, 41, 206, 48, 37, 51, 167];
            d.extend_from_slice(&borsh::to_vec(&seeds).unwrap());
            let ix = Instruction {
                program_id: owner,
                accounts: vec![
                    AccountMeta::new(q, false),
                    AccountMeta::new(ub, true),
                    AccountMeta::new(payer, true),
                    AccountMeta::new_readonly(SYS, false),
                ],
                data: d,
            };
            native_cpi(&ix, &[ub])?;
            let after = ctx().world.get(&q);
            if after.owner != owner || after.data != qa.data {
                return Err("dlp: owner program did not restore the account".into());
            }
            if bal < after.lamports {
                return Err("dlp: lamports".into());
            }
            mv(&payer, &q, bal - after.lamports)?;
            for key in [ub, rec, meta] {
                let a = ctx().world.get(&key);
                mv(&key, &payer, a.lamports)?;
                ctx().world.put(key, Acct::empty());
            }
            Ok(())
        }
        _ => Err("dlp: unsupported".into()),
    }
}

// ---------------------------------------------------------------- transactions
pub fn exec(world: &World, ixs: &[Instruction], tx_signers: &BTreeSet<Pubkey>) -> (World, Outcome) {
    let mut c = Box::new(Ctx {
        world: world.clone(),
        stack: vec![],
        calls: vec![],
        panicked: false,
        err: String::new(),
    });
    CTX.with(|p| p.set(&mut *c as *mut Ctx));
    // message-level privileges: union over the whole transaction
    let mut priv_: BTreeMap<Pubkey, bool> = BTreeMap::new();
    let mut err = String::new();
    for ix in ixs {
        for m in &ix.accounts {
            *priv_.entry(m.pubkey).or_default() |= m.is_writable;
            if m.is_signer && !tx_signers.contains(&m.pubkey) {
                err = "SignatureFailure".into();
            }
        }
    }
    if ixs.iter().any(|ix| !world.get(&ix.program_id).executable) {
        err = "InvalidProgramForExecution".into();
    }
    if err.is_empty() {
        for ix in ixs {
            let metas: Vec<AccountMeta> = ix
                .accounts
                .iter()
                .map(|m| AccountMeta {
                    pubkey: m.pubkey,
                    is_signer: tx_signers.contains(&m.pubkey),
                    is_writable: priv_[&m.pubkey],
                })
                .collect();
            if let Err(e) = run(ix.program_id, metas, &ix.data) {
                err = e;
                break;
            }
        }
    }
    let c_ref = ctx();
    if err.is_empty() {
        for (k, w) in &priv_ {
            if !*w {
                continue;
            }
            let (a, b) = (world.get(k), c_ref.world.get(k));
            if a == b || b.lamports == 0 || b.lamports >= rent_min(b.data.len()) {
                continue;
            }
            if a.lamports < rent_min(a.data.len()) && a.data.len() == b.data.len() && b.lamports <= a.lamports {
                continue;
            }
            err = "InsufficientFundsForRent".into();
        }
    }
    CTX.with(|p| p.set(std::ptr::null_mut()));
    let out = Outcome {
        ok: err.is_empty(),
        err: if c.err.is_empty() || err.is_empty() { err.clone() } else { format!("{err} <- {}", c.err) },
        panicked: c.panicked,
        calls: if err.is_empty() { std::mem::take(&mut c.calls) } else { vec![] },
    };
    if out.ok {
        let mut w = std::mem::replace(&mut c.world, World { accts: BTreeMap::new(), slot: 0, progs: Default::default() });
        w.accts.retain(|_, a| a.lamports > 0);
        (w, out)
    } else {
        (world.clone(), out)
    }
}

// ---------------------------------------------------------------- syscalls
struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> Result<(), ProgramError> {
        cpi(ix, infos, seeds).map_err(|e| {
            let c = ctx();
            if c.err.is_empty() {
                c.err = e;
            }
            ProgramError::Custom(0xdead)
        })
    }
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        let w = &ctx().world;
        let c = Clock {
            slot: w.slot,
            epoch_start_timestamp: 1_700_000_000,
            epoch: 0,
            leader_schedule_epoch: 1,
            unix_timestamp: w.time(),
        };
        unsafe { *(var as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        unsafe { *(var as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        ctx().stack.len() as u64
    }
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            old(i)
        }
    }));
}
thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
/// Run code under test; a panic is data.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    let was = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ());
    QUIET.with(|q| q.set(was));
    r
}
