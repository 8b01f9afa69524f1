//! Events of the specification, executed against the real program, and the projection of
//! the real accounts to the specification's state.
use crate::names as nm;
use crate::names::{hex, pk, unhex};
use crate::svm::{self, Acct, Call, Kind, World};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::scalar::Scalar;
use ephemeral_vrf_api::ID as VRF;
use serde_json::{json, Map, Value};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const UNIT: u64 = 80;

#[derive(Clone)]
pub struct Node {
    pub world: World,
    /// request ids observed in queues, in the order of appearance: "r1", "r2", ...
    pub ids: Arc<Vec<[u8; 32]>>,
    pub done: Arc<Vec<String>>,
}

// ---------------------------------------------------------------- keys
pub fn vk_secret(name: &str) -> Scalar {
    Scalar::from_bytes_mod_order(nm::h32(&[b"mbt-vk", name.as_bytes()]))
}
pub fn vk_bytes(name: &str) -> [u8; 32] {
    if name == "v:bad" {
        return [0xff; 32];
    }
    use std::sync::{OnceLock, RwLock};
    static C: OnceLock<RwLock<BTreeMap<String, [u8; 32]>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(b) = c.read().unwrap().get(name) {
        return *b;
    }
    let b = (vk_secret(name) * G).compress().to_bytes();
    c.write().unwrap().insert(name.to_string(), b);
    b
}
pub const VKS: &[&str] = &[
    "v:o1", "v:o2", "v:o3", "v:o4", "v:o1b", "v:o2b", "v:mallory", "v:alice", "v:bad",
];
fn vk_name(b: &[u8]) -> String {
    for n in VKS {
        if vk_bytes(n) == b {
            return n.to_string();
        }
    }
    if b.iter().all(|x| *x == 0) {
        return "v:zero".into();
    }
    format!("?{}", hex(&b[..4]))
}

// ---------------------------------------------------------------- genesis
pub fn pd_data(auth: Option<Pubkey>) -> Vec<u8> {
    // UpgradeableLoaderState::ProgramData { slot, upgrade_authority_address }
    let mut v = vec![3, 0, 0, 0];
    v.extend_from_slice(&7u64.to_le_bytes());
    match auth {
        Some(k) => {
            v.push(1);
            v.extend_from_slice(k.as_ref());
        }
        None => {
            v.push(0);
            v.extend_from_slice(&[0; 32]);
        }
    }
    v.extend_from_slice(b"elf");
    v
}
pub fn sh_data(slot: u64, salt: u8) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&2u64.to_le_bytes());
    for s in [slot.saturating_sub(1), slot.saturating_sub(2)] {
        v.extend_from_slice(&s.to_le_bytes());
        v.extend_from_slice(&nm::h32(&[b"slot hash", &s.to_le_bytes(), &[salt]]));
    }
    v
}
fn acct(owner: Pubkey, data: Vec<u8>) -> Acct {
    Acct { lamports: svm::rent_min(data.len()), data, owner, executable: false }
}

pub fn genesis(slot: u64) -> Node {
    let mut progs = BTreeMap::new();
    progs.insert(pk("sys"), Kind::System);
    progs.insert(pk("vrf"), Kind::Vrf);
    progs.insert(pk("dlp"), Kind::Dlp);
    progs.insert(pk("magic"), Kind::Magic);
    for c in nm::CONSUMERS {
        let k = match *c {
            "pf" => Kind::Failing,
            "pr" => Kind::Reentrant,
            "px" => Kind::Evil,
            _ => Kind::Consumer,
        };
        progs.insert(pk(c), k);
    }
    let mut w = World { accts: BTreeMap::new(), slot, progs: Arc::new(progs.clone()) };
    for k in progs.keys() {
        let mut a = acct(nm::loader(), vec![1; 36]);
        a.executable = true;
        w.put(*k, a);
    }
    for n in nm::WALLETS {
        let lamports = if *n == "bob" { 40_000 * UNIT } else { 125_000_000 * UNIT };
        w.put(pk(n), Acct { lamports, data: vec![], owner: svm::SYS, executable: false });
    }
    w.put(pk("pd"), acct(nm::loader(), pd_data(Some(pk("adm")))));
    w.put(pk("fpd"), acct(nm::loader(), pd_data(Some(pk("mallory")))));
    w.put(
        pk("sh"),
        acct(solana_program::pubkey!("Sysvar1111111111111111111111111111111111111"), sh_data(slot, 0)),
    );
    w.put(pk("fsh"), acct(pk("px"), sh_data(slot, 9)));
    w.put(pk("mctx"), acct(pk("magic"), vec![0; 64]));
    for n in ["acc1", "acc2", "acc3", "acc4"] {
        w.put(pk(n), acct(pk("p1"), vec![7; 16]));
    }
    // a delegation-program account whose private key mallory holds: its content is the
    // oracle data account mallory would like to have
    let mut forged = vec![0u8; 56];
    forged[0] = 1;
    forged[8..40].copy_from_slice(&vk_bytes("v:mallory"));
    w.put(pk("kb"), acct(nm::dlp(), forged));
    // the default ephemeral queue
    let mut q = vec![0u8; 3000];
    q[0] = 3;
    w.put(pk("eq"), acct(VRF, q));
    Node { world: w, ids: Arc::new(vec![]), done: Arc::new(vec![]) }
}

// ---------------------------------------------------------------- projection
fn u32at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
fn u16at(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap())
}
pub struct RawItem {
    pub off: usize,
    pub end: usize,
    pub slot: u64,
    pub id: [u8; 32],
    pub prog: Pubkey,
    pub prio: u8,
    pub disc: Vec<u8>,
    pub metas: Vec<(Pubkey, u8)>,
    pub args: Vec<u8>,
}
/// The account layout, read independently of the code under test.
pub fn parse_items(acc: &[u8]) -> Option<(u32, u8, Vec<RawItem>)> {
    if acc.len() < 12 {
        return None;
    }
    let (n, cursor, idx) = (u32at(acc, 0), u32at(acc, 4) as usize, acc[8]);
    let mut v = vec![];
    let mut c = 16;
    let end = cursor.min(acc.len());
    while c + 96 <= end {
        let it = &acc[c..c + 96];
        let (do_, mo, ao) = (u32at(it, 72) as usize, u32at(it, 76) as usize, u32at(it, 80) as usize);
        let (dl, ml, al) =
            (u16at(it, 84) as usize, u16at(it, 86) as usize, u16at(it, 88) as usize);
        let fin = c + 96 + dl + 33 * ml + al;
        let used = it[91];
        if used == 1 {
            if fin > acc.len() || do_ + dl > acc.len() || mo + 33 * ml > acc.len() || ao + al > acc.len() {
                return None;
            }
            v.push(RawItem {
                off: c,
                end: fin,
                slot: u64::from_le_bytes(it[..8].try_into().unwrap()),
                id: it[8..40].try_into().unwrap(),
                prog: Pubkey::try_from(&it[40..72]).unwrap(),
                prio: it[90],
                disc: acc[do_..do_ + dl].to_vec(),
                metas: (0..ml)
                    .map(|i| {
                        let m = &acc[mo + 33 * i..mo + 33 * i + 33];
                        (Pubkey::try_from(&m[..32]).unwrap(), m[32])
                    })
                    .collect(),
                args: acc[ao..ao + al].to_vec(),
            });
        }
        c = (fin + 7) & !7;
    }
    Some((n, idx, v))
}

pub fn modelled() -> &'static BTreeSet<Pubkey> {
    use std::sync::OnceLock;
    static M: OnceLock<BTreeSet<Pubkey>> = OnceLock::new();
    M.get_or_init(|| {
        let mut s = BTreeSet::new();
        for n in nm::WALLETS {
            s.insert(pk(n));
        }
        for o in nm::ORACLES {
            s.insert(pk(&format!("od:{o}")));
        }
        for q in nm::queue_names() {
            for p in ["", "buf:", "rec:", "meta:", "undbuf:"] {
                s.insert(pk(&format!("{p}{q}")));
            }
        }
        s.insert(pk("oracles"));
        s
    })
}

impl Node {
    pub fn id_name(&self, id: &[u8; 32]) -> String {
        match self.ids.iter().position(|x| x == id) {
            Some(i) => format!("r{}", i + 1),
            None => format!("?{}", hex(&id[..6])),
        }
    }
    pub fn id_bytes(&self, name: &str) -> [u8; 32] {
        if let Some(n) = name.strip_prefix('r').and_then(|s| s.parse::<usize>().ok()) {
            if n >= 1 && n <= self.ids.len() {
                return self.ids[n - 1];
            }
        }
        nm::h32(&[b"unknown id", name.as_bytes()])
    }
    /// ids present in any queue that have no name yet
    pub fn learn(&mut self) -> Vec<String> {
        let mut new = vec![];
        for q in nm::queue_names() {
            if let Some(a) = self.world.accts.get(&pk(&q)) {
                if a.data.len() > 8 {
                    if let Some((_, _, items)) = parse_items(&a.data[8..]) {
                        for it in items {
                            if !self.ids.contains(&it.id) {
                                Arc::make_mut(&mut self.ids).push(it.id);
                                new.push(format!("r{}", self.ids.len()));
                            }
                        }
                    }
                }
            }
        }
        new
    }

    pub fn project(&self) -> Value {
        let w = &self.world;
        let mut bad: Vec<String> = vec![];
        let mut bal = Map::new();
        let mut frac = vec![];
        for k in modelled() {
            if let Some(a) = w.accts.get(k) {
                let n = nm::name_of(k);
                bal.insert(n.clone(), json!(a.lamports / UNIT));
                if a.lamports % UNIT != 0 {
                    frac.push(n);
                }
            }
        }
        // registry
        let ra = w.get(&pk("oracles"));
        let mut reg = json!({"st": "none", "list": [], "size": 0});
        if ra.owner == VRF {
            let d = &ra.data;
            let okd = d.len() >= 12 && d[..8] == [0u8; 8] && d.len() == 12 + 32 * u32at(d, 8) as usize;
            if okd {
                let l: Vec<Value> = (0..u32at(d, 8) as usize)
                    .map(|i| {
                        json!(nm::name_of(&Pubkey::try_from(&d[12 + 32 * i..44 + 32 * i]).unwrap()))
                    })
                    .collect();
                reg = json!({"st": "live", "list": l, "size": d.len()});
            } else {
                reg = json!({"st": "bad", "list": [], "size": d.len()});
            }
        } else if !ra.data.is_empty() || ra.owner != svm::SYS {
            bad.push("oracles".into());
        }
        // oracle data
        let mut od = Map::new();
        for o in nm::ORACLES {
            let n = format!("od:{o}");
            let a = w.get(&pk(&n));
            if a.owner == VRF {
                let d = &a.data;
                if d.len() == 56 && d[..8] == [1, 0, 0, 0, 0, 0, 0, 0] {
                    od.insert(
                        o.to_string(),
                        json!({"st": "live", "vk": vk_name(&d[8..40]),
                            "reg": u64::from_le_bytes(d[40..48].try_into().unwrap()).min(1_000_000_000),
                            "open": u64::from_le_bytes(d[48..56].try_into().unwrap()).min(1_000_000_000)}),
                    );
                } else {
                    od.insert(o.to_string(), json!({"st": "bad", "vk": "", "reg": 0, "open": 0}));
                }
            } else if !a.data.is_empty() || a.owner != svm::SYS {
                bad.push(n);
            }
        }
        // queues
        let mut qs = Map::new();
        for n in nm::queue_names() {
            let a = w.get(&pk(&n));
            let own = if a.owner == VRF {
                "vrf"
            } else if a.owner == nm::dlp() {
                "dlp"
            } else {
                if !a.data.is_empty() || a.owner != svm::SYS {
                    bad.push(n);
                }
                continue;
            };
            let d = &a.data;
            let mut v = json!({"st": "bad", "own": own, "size": d.len(), "idx": 0, "n": 0, "items": []});
            if d.iter().all(|b| *b == 0) {
                v["st"] = json!("part");
            } else if d.len() >= 20 && d[..8] == [3, 0, 0, 0, 0, 0, 0, 0] {
                if let Some((cnt, idx, items)) = parse_items(&d[8..]) {
                    v["st"] = json!("live");
                    v["idx"] = json!(idx);
                    v["n"] = json!(cnt);
                    v["items"] = items
                        .iter()
                        .map(|it| {
                            json!({"id": self.id_name(&it.id), "slot": it.slot.min(1_000_000_000), "prio": it.prio,
                                "prog": nm::name_of(&it.prog), "disc": hex(&it.disc),
                                "metas": it.metas.iter().map(|(k, x)| json!({"k": nm::name_of(k), "w": *x == 1})).collect::<Vec<_>>(),
                                "args": hex(&it.args), "off": it.off, "end": it.end})
                        })
                        .collect();
                }
            }
            qs.insert(n, v);
        }
        // everything else must never change
        let mut parts: Vec<u8> = vec![];
        for (k, a) in &w.accts {
            if *k == pk("pd") || *k == pk("sh") || *k == pk("fsh") {
                continue;
            }
            if !modelled().contains(k) {
                parts.extend_from_slice(k.as_ref());
                parts.extend_from_slice(&a.lamports.to_le_bytes());
                parts.extend_from_slice(a.owner.as_ref());
                parts.extend_from_slice(&a.data);
            } else if nm::WALLETS.iter().any(|n| pk(n) == *k) && (!a.data.is_empty() || a.owner != svm::SYS) {
                bad.push(nm::name_of(k));
            }
        }
        let pd = w.get(&pk("pd"));
        let auth = if pd.data.len() > 45 && pd.data[12] == 1 {
            nm::name_of(&Pubkey::try_from(&pd.data[13..45]).unwrap())
        } else {
            "none".to_string()
        };
        bad.sort();
        json!({"slot": w.slot, "auth": auth, "reg": reg, "od": od, "q": qs, "bal": bal,
            "frac": frac, "bad": bad, "raw": hex(&nm::h32(&[&parts])[..6]),
            "seen": (1..=self.ids.len()).map(|i| format!("r{i}")).collect::<Vec<_>>(),
            "done": *self.done})
    }
}

// ---------------------------------------------------------------- instruction payloads
fn s<'a>(x: &'a Value, k: &str) -> &'a str {
    x[k].as_str().unwrap_or_else(|| panic!("string field {k} in {x}"))
}
fn n(x: &Value, k: &str) -> u64 {
    x[k].as_u64().unwrap_or_else(|| panic!("number field {k} in {x}"))
}
pub fn hash_to_point(input: &[u8]) -> curve25519_dalek::RistrettoPoint {
    Scalar::from_bytes_mod_order(nm::h32(&[b"VRF-Ephem-HashToPoint", input])) * G
}
fn challenge(parts: [&[u8]; 5]) -> Scalar {
    let h = nm::h32(&[b"VRF-Ephem-Challenge", parts[0], parts[1], parts[2], parts[3], parts[4]]);
    Scalar::from_bytes_mod_order(nm::h32(&[b"VRF-Ephem-HashToScalar", &h]))
}
/// (output, commitment_base, commitment_hash, s) for the proof described by `x`
pub fn proof(x: &Value, over: &[u8; 32]) -> [[u8; 32]; 4] {
    let by = s(x, "by");
    let sk = vk_secret(by);
    let (o, (cb, ch, sc)) = ephemeral_vrf::vrf::compute_vrf(sk, over);
    let mut p = [o.to_bytes(), cb.to_bytes(), ch.to_bytes(), sc.to_bytes()];
    let bump = |b: &[u8; 32]| -> [u8; 32] {
        (curve25519_dalek::ristretto::CompressedRistretto(*b).decompress().unwrap() + G).compress().to_bytes()
    };
    let one = Scalar::ONE;
    match s(x, "tam") {
        "none" => {}
        "out" => p[0] = bump(&p[0]),
        "cb" => p[1] = bump(&p[1]),
        "ch" => p[2] = bump(&p[2]),
        "s" => p[3] = (Scalar::from_bytes_mod_order(p[3]) + one).to_bytes(),
        "swap" => p.swap(1, 2),
        "zero" => p = [[0; 32]; 4],
        // the holder of the key satisfies the base equation for a wrong output
        "half1" => {
            let h = hash_to_point(over);
            let k = Scalar::from(77u64);
            let out = ((sk + one) * h).compress().to_bytes();
            let (rb, rh) = ((k * G).compress().to_bytes(), (k * h).compress().to_bytes());
            let pkb = vk_bytes(by);
            let c = challenge([&out, &rb, &rh, &pkb, over]);
            p = [out, rb, rh, (k + c * sk).to_bytes()];
        }
        // someone without the key satisfies the hash equation only
        "half2" => {
            let h = hash_to_point(over);
            let k = Scalar::from(78u64);
            let fake = sk + one;
            let out = (fake * h).compress().to_bytes();
            let (rb, rh) = ((k * G).compress().to_bytes(), (k * h).compress().to_bytes());
            let pkb = vk_bytes(by);
            let c = challenge([&out, &rb, &rh, &pkb, over]);
            p = [out, rb, rh, (k + c * fake).to_bytes()];
        }
        t => panic!("tamper {t}"),
    }
    p
}
fn tag(t: u8) -> Vec<u8> {
    vec![t, 0, 0, 0, 0, 0, 0, 0]
}
fn seed_bytes(x: &Value) -> [u8; 32] {
    nm::h32(&[b"caller seed", &n(x, "seed").to_le_bytes()])
}
fn identity_key(name: &str) -> Pubkey {
    pk(name)
}

fn payload(node: &Node, ix: &str, x: &Value) -> Vec<u8> {
    match ix {
        "init" => tag(0),
        "modify" => {
            let mut v = tag(1);
            v.extend_from_slice(identity_key(s(x, "id")).as_ref());
            v.extend_from_slice(&vk_bytes(s(x, "vk")));
            v.push(n(x, "op") as u8);
            v
        }
        "initq" => {
            let mut v = tag(2);
            v.extend_from_slice(&(n(x, "size") as u32).to_le_bytes());
            v.extend_from_slice(&[n(x, "idx") as u8, 0, 0, 0]);
            v
        }
        "request" => {
            let mut v = tag(if n(x, "prio") == 1 { 3 } else { 8 });
            v.extend_from_slice(&seed_bytes(x));
            v.extend_from_slice(pk(s(x, "prog")).as_ref());
            let vecs = |v: &mut Vec<u8>, b: &[u8]| {
                v.extend_from_slice(&(b.len() as u32).to_le_bytes());
                v.extend_from_slice(b);
            };
            vecs(&mut v, &unhex(s(x, "disc")));
            let m = x["metas"].as_array().unwrap();
            v.extend_from_slice(&(m.len() as u32).to_le_bytes());
            for a in m {
                v.extend_from_slice(pk(s(a, "k")).as_ref());
                v.push(a["s"].as_bool().unwrap() as u8);
                v.push(a["w"].as_bool().unwrap() as u8);
            }
            vecs(&mut v, &unhex(s(x, "args")));
            v
        }
        "provide" => {
            let mut v = tag(4);
            v.extend_from_slice(&node.id_bytes(s(x, "input")));
            for p in proof(x, &node.id_bytes(s(x, "over"))) {
                v.extend_from_slice(&p);
            }
            v
        }
        "delegate" => [tag(5), vec![n(x, "idx") as u8]].concat(),
        "undelegate" => [tag(6), vec![n(x, "idx") as u8]].concat(),
        "close" => [tag(7), vec![n(x, "idx") as u8]].concat(),
        "purge" => [tag(9), vec![n(x, "idx") as u8]].concat(),
        "pund" => {
            let mut v = vec![196, 28, 41, 206, 48, 37, 51, 167];
            let t = s(x, "target");
            let seeds: Vec<Vec<u8>> = if let Some(r) = t.strip_prefix("q:") {
                let (o, i) = r.rsplit_once(':').unwrap();
                vec![b"queue".to_vec(), pk(o).to_bytes().to_vec(), vec![i.parse().unwrap()]]
            } else if let Some(o) = t.strip_prefix("od:") {
                vec![b"oracle".to_vec(), pk(o).to_bytes().to_vec()]
            } else {
                vec![b"oracles".to_vec()]
            };
            v.extend_from_slice(&borsh::to_vec(&seeds).unwrap());
            v
        }
        "raw" => unhex(s(x, "data")),
        _ => panic!("payload for {ix}"),
    }
}

/// The instruction(s) a client builder of the repository produces for the event.
pub fn built(node: &Node, ev: &Value) -> Option<Instruction> {
    use ephemeral_vrf_api::prelude as api;
    let x = &ev["x"];
    let b = ev["b"].as_str().unwrap_or("");
    if b.is_empty() {
        return None;
    }
    let key = |f: &str| pk(s(&ev["o"], f));
    Some(match (b, s(ev, "ix")) {
        ("api", "init") => api::initialize(key("signer")),
        ("api", "modify") if n(x, "op") == 0 => {
            api::add_oracle(key("signer"), pk(s(x, "id")), vk_bytes(s(x, "vk")))
        }
        ("api", "modify") => api::remove_oracle(key("signer"), pk(s(x, "id"))),
        ("api", "initq") => {
            let v = api::initialize_oracle_queue(
                key("signer"),
                key("oracle"),
                n(x, "idx") as u8,
                Some(n(x, "size") as u32),
            );
            v[(n(&ev["o"], "step") as usize).min(v.len() - 1)].clone()
        }
        ("api", "provide") => {
            let p = proof(x, &node.id_bytes(s(x, "over")));
            let mut ix = api::provide_randomness(
                key("oracle"),
                key("queue"),
                key("prog"),
                node.id_bytes(s(x, "input")),
                solana_curve25519::ristretto::PodRistrettoPoint(p[0]),
                solana_curve25519::ristretto::PodRistrettoPoint(p[1]),
                solana_curve25519::ristretto::PodRistrettoPoint(p[2]),
                solana_curve25519::scalar::PodScalar(p[3]),
            );
            for a in ev["acc"].as_array().unwrap().iter().skip(5) {
                ix.accounts.push(AccountMeta {
                    pubkey: pk(s(a, "k")),
                    is_signer: false,
                    is_writable: a["w"].as_bool().unwrap(),
                });
            }
            ix
        }
        ("api", "purge") => api::purge_expired_requests(key("oracle"), n(x, "idx") as u8),
        ("api", "close") => api::close_oracle_queue(key("oracle"), n(x, "idx") as u8),
        ("api", "delegate") => api::delegate_oracle_queue(key("oracle"), key("queue"), n(x, "idx") as u8),
        ("api", "undelegate") => {
            api::undelegate_oracle_queue(key("oracle"), key("queue"), n(x, "idx") as u8)
        }
        ("sdk", "request") => {
            use ephemeral_vrf_sdk::instructions as sdk;
            let p = sdk::RequestRandomnessParams {
                payer: key("payer"),
                oracle_queue: key("queue"),
                callback_program_id: pk(s(x, "prog")),
                callback_discriminator: unhex(s(x, "disc")),
                accounts_metas: Some(
                    x["metas"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|a| ephemeral_vrf_sdk::types::SerializableAccountMeta {
                            pubkey: pk(s(a, "k")),
                            is_signer: a["s"].as_bool().unwrap(),
                            is_writable: a["w"].as_bool().unwrap(),
                        })
                        .collect(),
                ),
                caller_seed: seed_bytes(x),
                callback_args: Some(unhex(s(x, "args"))),
            };
            if n(x, "prio") == 1 {
                sdk::create_request_randomness_ix(p)
            } else {
                sdk::create_request_regular_randomness_ix(p)
            }
        }
        (b, i) => panic!("no builder {b} for {i}"),
    })
}

fn signable(name: &str) -> bool {
    nm::WALLETS.contains(&name) || name == "kb"
}

fn call_json(c: &Call) -> Value {
    let name = nm::name_of(&c.prog);
    json!({"prog": name,
        "acc": c.accts.iter().map(|(k, s, w)| json!({"k": nm::name_of(k), "s": s, "w": w})).collect::<Vec<_>>(),
        "data": if name == "dlp" || name == "magic" { hex(&c.data[..c.data.len().min(4)]) } else { hex(&c.data) }})
}

/// Normalise the account list the way the runtime does: duplicates share the union of their
/// flags; only accounts with a private key (or the identity of the calling program) can sign.
pub fn normalise(ev: &Value) -> Value {
    let mut ev = ev.clone();
    let via = ev["via"].as_str().unwrap_or("").to_string();
    let mut p: BTreeMap<String, (bool, bool)> = BTreeMap::new();
    if let Some(accs) = ev["acc"].as_array() {
        for a in accs {
            let k = s(a, "k").to_string();
            let sg = a["s"].as_bool().unwrap()
                && (signable(&k) || (!via.is_empty() && k == format!("id:{via}")));
            let e = p.entry(k).or_default();
            e.0 |= sg;
            e.1 |= a["w"].as_bool().unwrap();
        }
    }
    if let Some(accs) = ev["acc"].as_array_mut() {
        for a in accs {
            let (sg, w) = p[a["k"].as_str().unwrap()];
            a["s"] = json!(sg);
            a["w"] = json!(w);
        }
    }
    ev
}

fn dlpback_ix(q: &str, payer: &str) -> Instruction {
    Instruction {
        program_id: nm::dlp(),
        accounts: vec![
            AccountMeta::new(pk(payer), true),
            AccountMeta::new(pk(q), false),
            AccountMeta::new_readonly(VRF, false),
            AccountMeta::new(pk(&format!("undbuf:{q}")), false),
            AccountMeta::new(pk(&format!("rec:{q}")), false),
            AccountMeta::new(pk(&format!("meta:{q}")), false),
            AccountMeta::new_readonly(svm::SYS, false),
        ],
        data: vec![3, 0, 0, 0, 0, 0, 0, 0],
    }
}

/// Execute one event.  Returns the successor, the event as executed and the observed result.
pub fn step(node: &Node, ev: &Value) -> (Node, Value, Value) {
    let ix = s(ev, "ix").to_string();
    let x = &ev["x"];
    let mut out = node.clone();
    let mut res = json!({"ok": true, "err": "", "pan": false, "calls": [], "newid": "", "outh": ""});
    match ix.as_str() {
        "slot" => {
            out.world.slot += n(x, "n");
            for (a, salt) in [("sh", 0), ("fsh", 9)] {
                let mut acc = out.world.get(&pk(a));
                acc.data = sh_data(out.world.slot, salt);
                out.world.put(pk(a), acc);
            }
            return (out, ev.clone(), res);
        }
        "fund" => {
            let k = pk(s(x, "k"));
            let mut a = out.world.get(&k);
            a.lamports += n(x, "n") * UNIT;
            out.world.put(k, a);
            return (out, ev.clone(), res);
        }
        "auth" => {
            let mut a = out.world.get(&pk("pd"));
            a.data = pd_data(match s(x, "k") {
                "none" => None,
                k => Some(pk(k)),
            });
            out.world.put(pk("pd"), a);
            return (out, ev.clone(), res);
        }
        // the ephemeral rollup served the first n requests and committed the queue
        "ercommit" => {
            let k = pk(s(x, "q"));
            let mut a = out.world.get(&k);
            if a.owner == nm::dlp() && a.data.len() > 20 && a.data[0] == 3 {
                let Some((cnt, _, items)) = parse_items(&a.data[8..]) else {
                    return (out, ev.clone(), res);
                };
                // served in a later slot than requested, as on the base layer
                let old = items.iter().take_while(|i| i.slot < node.world.slot).count();
                let take = (n(x, "n") as usize).min(old);
                for it in &items[..take] {
                    a.data[8 + it.off + 91] = 0;
                    Arc::make_mut(&mut out.done).push(node.id_name(&it.id));
                }
                let left = cnt.saturating_sub(take as u32);
                a.data[8..12].copy_from_slice(&left.to_le_bytes());
                out.world.put(k, a);
            }
            return (out, ev.clone(), res);
        }
        "dlpback" => {
            let i = dlpback_ix(s(x, "q"), s(x, "payer"));
            let signers: BTreeSet<Pubkey> = [pk(s(x, "payer"))].into();
            let (w, o) = svm::exec(&node.world, &[i], &signers);
            out.world = w;
            res["ok"] = json!(o.ok);
            res["err"] = json!(o.err);
            res["pan"] = json!(o.panicked);
            return (out, ev.clone(), res);
        }
        _ => {}
    }
    let mut ev = ev.clone();
    let b = ev["b"].as_str().unwrap_or("").to_string();
    let ixn = if !b.is_empty() {
        let i = match svm::guarded(|| built(node, &ev)) {
            Ok(Some(i)) => i,
            _ => {
                res["ok"] = json!(false);
                res["err"] = json!("builder crashed");
                res["pan"] = json!(true);
                return (out, ev, res);
            }
        };
        ev["acc"] = i
            .accounts
            .iter()
            .map(|m| json!({"k": nm::name_of(&m.pubkey), "s": m.is_signer, "w": m.is_writable}))
            .collect();
        ev["progid"] = json!(nm::name_of(&i.program_id));
        // the builder's flags are judged as built; execution normalises below
        ev["built"] = ev["acc"].clone();
        i
    } else {
        let e2 = normalise(&ev);
        ev["acc"] = e2["acc"].clone();
        Instruction {
            program_id: VRF,
            accounts: ev["acc"]
                .as_array()
                .unwrap()
                .iter()
                .map(|a| AccountMeta {
                    pubkey: pk(s(a, "k")),
                    is_signer: a["s"].as_bool().unwrap(),
                    is_writable: a["w"].as_bool().unwrap(),
                })
                .collect(),
            data: payload(node, &ix, &ev["x"]),
        }
    };
    if !b.is_empty() {
        let e2 = normalise(&ev);
        ev["acc"] = e2["acc"].clone();
    }
    let via = ev["via"].as_str().unwrap_or("").to_string();
    let mut signers = BTreeSet::new();
    for m in &ixn.accounts {
        let nme = nm::name_of(&m.pubkey);
        if m.is_signer && signable(&nme) {
            signers.insert(m.pubkey);
        }
    }
    let top = if via.is_empty() {
        ixn
    } else {
        let idk = pk(&format!("id:{via}"));
        let mut data = svm::RELAY_MAGIC.to_vec();
        data.extend_from_slice(&bincode::serialize(&ixn).unwrap());
        let mut metas: Vec<AccountMeta> = ixn
            .accounts
            .iter()
            .map(|m| AccountMeta {
                pubkey: m.pubkey,
                is_signer: m.is_signer && m.pubkey != idk && signers.contains(&m.pubkey),
                is_writable: m.is_writable,
            })
            .collect();
        metas.push(AccountMeta::new_readonly(VRF, false));
        Instruction { program_id: pk(&via), accounts: metas, data }
    };
    let (w, o) = svm::exec(&node.world, &[top], &signers);
    out.world = w;
    res["ok"] = json!(o.ok);
    res["err"] = json!(o.err);
    res["pan"] = json!(o.panicked);
    res["calls"] = o.calls.iter().map(call_json).collect();
    if ix == "provide" {
        let p = proof(&ev["x"], &node.id_bytes(s(&ev["x"], "over")));
        res["outh"] = json!(hex(&nm::h32(&[&p[0]])));
    }
    let new = out.learn();
    if let Some(f) = new.first() {
        res["newid"] = json!(f);
    }
    if ix == "provide" && o.ok {
        Arc::make_mut(&mut out.done).push(s(&ev["x"], "input").to_string());
    }
    if ix == "purge" && o.ok {
        let have: BTreeSet<[u8; 32]> = out.live_ids();
        for (i, b) in node.ids.iter().enumerate() {
            let nme = format!("r{}", i + 1);
            if node.live_ids().contains(b) && !have.contains(b) && !out.done.contains(&nme) {
                Arc::make_mut(&mut out.done).push(nme);
            }
        }
    }
    (out, ev, res)
}

impl Node {
    pub fn live_ids(&self) -> BTreeSet<[u8; 32]> {
        let mut v = BTreeSet::new();
        for q in nm::queue_names() {
            if let Some(a) = self.world.accts.get(&pk(&q)) {
                if a.data.len() > 20 {
                    if let Some((_, _, items)) = parse_items(&a.data[8..]) {
                        v.extend(items.iter().map(|i| i.id));
                    }
                }
            }
        }
        v
    }
}
