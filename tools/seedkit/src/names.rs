//! Symbolic names of accounts, keys and programs.  Every public key that the specification
//! mentions has a name; the harness translates in both directions.
use ephemeral_vrf_api::ID as VRF;
use sha2::{Digest, Sha256};
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, Signer};
use std::collections::HashMap;
use std::sync::{OnceLock, RwLock};

pub const VICTIM: &str = "pv";
pub const WALLETS: &[&str] =
    &["adm", "alice", "bob", "mallory", "o1", "o2", "o3", "o4", "adm2"];
pub const CONSUMERS: &[&str] = &["p1", "p2", "p3", "pf", "pr", "px", "pv"];
pub const ORACLES: &[&str] = &["o1", "o2", "o3", "o4", "mallory", "alice"];
pub const QIDX: &[u8] = &[0, 1, 255];

#[derive(Default)]
struct Reg {
    fwd: HashMap<String, Pubkey>,
    back: HashMap<Pubkey, String>,
}
fn reg() -> &'static RwLock<Reg> {
    static R: OnceLock<RwLock<Reg>> = OnceLock::new();
    R.get_or_init(|| RwLock::new(Reg::default()))
}

pub fn h32(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn keypair(name: &str) -> Keypair {
    Keypair::new_from_array(h32(&[b"mbt-wallet", name.as_bytes()]))
}
pub fn pda(seeds: &[&[u8]], prog: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(seeds, prog).0
}
pub fn identity_of(prog: &Pubkey) -> Pubkey {
    if let Some(n) = back(prog) {
        return pk(&format!("id:{n}"));
    }
    pda(&[b"identity"], prog)
}
pub fn dlp() -> Pubkey {
    solana_program::pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh")
}
pub fn loader() -> Pubkey {
    solana_program::pubkey!("BPFLoaderUpgradeab1e11111111111111111111111")
}

fn compute(name: &str) -> Pubkey {
    if let Some(r) = name.strip_prefix("od:") {
        return pda(&[b"oracle", pk(r).as_ref()], &VRF);
    }
    if let Some(r) = name.strip_prefix("q:") {
        let (o, i) = r.rsplit_once(':').expect("queue name");
        return pda(&[b"queue", pk(o).as_ref(), &[i.parse::<u8>().expect("queue index")]], &VRF);
    }
    if let Some(r) = name.strip_prefix("id:") {
        return pda(&[b"identity"], &pk(r));
    }
    if let Some(r) = name.strip_prefix("buf:") {
        return pda(&[b"buffer", pk(r).as_ref()], &VRF);
    }
    if let Some(r) = name.strip_prefix("rec:") {
        return pda(&[b"delegation", pk(r).as_ref()], &dlp());
    }
    if let Some(r) = name.strip_prefix("meta:") {
        return pda(&[b"delegation-metadata", pk(r).as_ref()], &dlp());
    }
    if let Some(r) = name.strip_prefix("undbuf:") {
        return pda(&[b"undelegate-buffer", pk(r).as_ref()], &dlp());
    }
    match name {
        "sys" => Pubkey::new_from_array([0; 32]),
        "vrf" => VRF,
        "dlp" => dlp(),
        "magic" => solana_program::pubkey!("Magic11111111111111111111111111111111111111"),
        "mctx" => solana_program::pubkey!("MagicContext1111111111111111111111111111111"),
        "eq" => solana_program::pubkey!("5hBR571xnXppuCPveTrctfTU7tJLSN94nq7kv7FRK5Tc"),
        "vrfid" => solana_program::pubkey!("9irBy75QS2BN81FUgXuHcjqceJJRuc9oDkAe8TKVvvAw"),
        "sh" => solana_program::pubkey!("SysvarS1otHashes111111111111111111111111111"),
        "oracles" => pda(&[b"oracles"], &VRF),
        "pd" => pda(&[VRF.as_ref()], &loader()),
        // program data account of some other program, whose authority is mallory
        "fpd" => pda(&[pk("p1").as_ref()], &loader()),
        // a look-alike of the slot hashes sysvar, owned by mallory's program
        "fsh" => Pubkey::new_from_array(h32(&[b"fake slot hashes"])),
        // accounts with a private key that mallory had assigned to the delegation program
        "kb" => keypair("kb").pubkey(),
        // consumer accounts referenced by callbacks
        n if n.starts_with("acc") => Pubkey::new_from_array(h32(&[b"mbt-acc", n.as_bytes()])),
        n if CONSUMERS.contains(&n) => Pubkey::new_from_array(h32(&[b"mbt-prog", n.as_bytes()])),
        // not a point of the curve
        "offcurve" => pda(&[b"off"], &pk("p1")),
        n => keypair(n).pubkey(),
    }
}

pub fn pk(name: &str) -> Pubkey {
    if let Some(k) = reg().read().unwrap().fwd.get(name) {
        return *k;
    }
    let k = compute(name);
    let mut r = reg().write().unwrap();
    r.fwd.insert(name.to_string(), k);
    r.back.entry(k).or_insert_with(|| name.to_string());
    k
}
pub fn back(k: &Pubkey) -> Option<String> {
    reg().read().unwrap().back.get(k).cloned()
}
pub fn name_of(k: &Pubkey) -> String {
    back(k).unwrap_or_else(|| format!("?{}", &k.to_string()[..8]))
}

pub fn queue_names() -> Vec<String> {
    let mut v = vec![];
    for o in ORACLES {
        for i in QIDX {
            v.push(format!("q:{o}:{i}"));
        }
    }
    v.push("eq".into());
    v
}

/// Register every name, so that reverse lookups are stable.
pub fn init() {
    for n in WALLETS.iter().chain(CONSUMERS) {
        pk(n);
    }
    for n in [
        "sys", "vrf", "dlp", "magic", "mctx", "eq", "vrfid", "sh", "oracles", "pd", "fpd", "fsh", "kb",
        "offcurve", "acc1", "acc2", "acc3", "acc4",
    ] {
        pk(n);
    }
    for n in CONSUMERS {
        pk(&format!("id:{n}"));
    }
    for o in ORACLES {
        pk(&format!("od:{o}"));
    }
    for q in queue_names() {
        for p in ["", "buf:", "rec:", "meta:", "undbuf:"] {
            pk(&format!("{p}{q}"));
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

/// Deterministic generator (splitmix64), seeded from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}
