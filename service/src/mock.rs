//! The simulated RPC node.
use base64::Engine;
use mbt::names::{h32, name_of, pk};
use mbt::svm;
use mbt::world::{base, parse_items, Node, RawItem};
use serde_json::{json, Value};
use solana_client::client_error::{ClientError, ClientErrorKind, Result as ClientResult};
use solana_client::rpc_request::RpcRequest;
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use solana_program::pubkey::Pubkey;
use solana_sdk::hash::Hash;
use solana_sdk::transaction::Transaction;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use tokio::sync::oneshot;

pub enum Answer {
    Ok(Value),
    Err,
    Panic,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Send,
    Confirm,
}
#[derive(Clone)]
pub struct What {
    pub q: String,
    /// the request served; "" for a purge
    pub id: String,
    pub tx: Transaction,
}
pub struct Pending {
    pub no: u64,
    pub kind: Kind,
    pub what: What,
    pub tx: oneshot::Sender<Answer>,
}
pub struct Chain {
    pub node: Node,
    /// account data to show to the next refresh, instead of the present one
    pub stale: BTreeMap<String, Vec<u8>>,
    pub hash_no: u64,
    pub hash_slot: HashMap<Hash, (u64, u64)>,
    pub hash_fails: bool,
    /// how far the node's answer lags behind
    pub hash_lag: u64,
    pub calls: BTreeMap<u64, Pending>,
    pub sigs: HashMap<String, What>,
    pub next: u64,
    pub activity: u64,
    /// transactions sent in this step
    pub sends: Vec<Value>,
    pub ignore_filters: bool,
}
#[derive(Clone)]
pub struct Mock(pub Arc<Mutex<Chain>>);

pub const SVC: &str = "o1";
pub fn own(q: &str) -> bool {
    q.starts_with("q:o1:")
}

impl Chain {
    pub fn data(&self, q: &str) -> Vec<u8> {
        self.node.world.get(&pk(q)).data
    }
    pub fn items(&self, q: &str) -> Vec<RawItem> {
        items_of(&self.data(q))
    }
    pub fn set_data(&mut self, q: &str, d: Vec<u8>) {
        let mut a = self.node.world.get(&pk(q));
        a.data = d;
        self.node.world.put(pk(q), a);
        self.node.learn();
    }
    /// a request disappears without this service's doing
    pub fn remove(&mut self, q: &str, id: &str) {
        let mut d = self.data(q);
        take(&mut d, &self.node.id_bytes(id));
        self.set_data(q, d);
    }
    fn new_hash(&mut self) -> (Hash, u64) {
        self.hash_no += 1;
        let h = Hash::new_from_array(h32(&[b"blockhash", &self.hash_no.to_le_bytes()]));
        let slot = self.node.world.slot.saturating_sub(self.hash_lag);
        self.hash_slot.insert(h, (self.hash_no, slot));
        (h, slot)
    }
    /// execute a transaction of the service on the chain
    pub fn exec(&self, tx: &Transaction) -> (mbt::svm::World, bool, String) {
        let (w, o) = self.exec_full(tx);
        (w, o.ok, o.err)
    }
    pub fn exec_full(&self, tx: &Transaction) -> (mbt::svm::World, mbt::svm::Outcome) {
        let keys = &tx.message.account_keys;
        let n = tx.message.header.num_required_signatures as usize;
        let signers: BTreeSet<Pubkey> = keys[..n].iter().cloned().collect();
        let budget: Pubkey = solana_compute_budget_interface::ID.to_bytes().into();
        let ixs: Vec<_> = tx
            .message
            .instructions
            .iter()
            .filter(|i| keys[i.program_id_index as usize] != budget)
            .map(|i| solana_program::instruction::Instruction {
                program_id: keys[i.program_id_index as usize],
                accounts: i
                    .accounts
                    .iter()
                    .map(|a| solana_program::instruction::AccountMeta {
                        pubkey: keys[*a as usize],
                        is_signer: (*a as usize) < n,
                        is_writable: tx.message.is_maybe_writable(*a as usize, None),
                    })
                    .collect(),
                data: i.data.clone(),
            })
            .collect();
        svm::exec(&self.node.world, &ixs, &signers)
    }
    /// what a transaction asks for
    fn describe(&self, tx: &Transaction) -> (What, Value) {
        let keys = &tx.message.account_keys;
        let budget: Pubkey = solana_compute_budget_interface::ID.to_bytes().into();
        let vrf: Pubkey = ephemeral_vrf_api::ID.to_bytes().into();
        let mut main = vec![];
        let mut other = 0;
        let mut units = 0u32;
        for i in &tx.message.instructions {
            let p = keys[i.program_id_index as usize];
            if p == vrf {
                main.push(i);
            } else if p == budget {
                if i.data.first() == Some(&2) && i.data.len() == 5 {
                    units = u32::from_le_bytes(i.data[1..5].try_into().unwrap());
                }
            } else {
                other += 1;
            }
        }
        let mut q = String::new();
        let mut id = String::new();
        let mut kind = "other";
        let mut idx = 0;
        let mut acc = vec![];
        if main.len() == 1 && other == 0 {
            let i = main[0];
            acc = i.accounts.iter().map(|a| name_of(&keys[*a as usize])).collect::<Vec<_>>();
            match (i.data.first(), i.data.len()) {
                (Some(4), 168) => {
                    kind = "provide";
                    id = self.node.id_name(&i.data[8..40].try_into().unwrap());
                    q = acc.get(3).cloned().unwrap_or_default();
                }
                (Some(9), 9) => {
                    kind = "purge";
                    idx = i.data[8];
                    q = acc.get(1).cloned().unwrap_or_default();
                }
                _ => {}
            }
        }
        let (hn, hs) = self.hash_slot.get(&tx.message.recent_blockhash).cloned().unwrap_or((0, 0));
        let sig = tx.signatures.first().map(|s| s.verify(keys[0].as_ref(), &tx.message_data())).unwrap_or(false);
        let (w, ok, err) = self.exec(tx);
        let it = self.items(&q).into_iter().find(|i| self.node.id_name(&i.id) == id);
        let after = items_of(&w.get(&pk_or(&q)).data).iter().any(|i| self.node.id_name(&i.id) == id);
        let writable: Vec<String> = keys.iter().enumerate().filter(|(k, _)| tx.message.is_maybe_writable(*k, None)).map(|(_, k)| name_of(k)).collect();
        let v = json!({"kind": kind, "q": q, "id": id, "idx": idx, "acc": acc, "payer": name_of(&keys[0]),
            "nsig": tx.message.header.num_required_signatures, "sig": sig, "hash": hn, "hslot": rel(hs), "now": rel(self.node.world.slot), "units": units,
            "ok": ok, "err": err, "before": it.is_some(), "after": after, "slot": it.as_ref().map(|i| rel(i.slot)).unwrap_or(0), "wr": writable,
            "prog": it.as_ref().map(|i| name_of(&i.prog)).unwrap_or_default(),
            "mw": it.as_ref().map(|i| i.metas.iter().filter(|m| m.1 != 0).map(|m| name_of(&m.0)).collect::<Vec<_>>()).unwrap_or_default(),
            "metas": it.as_ref().map(|i| i.metas.iter().map(|m| name_of(&m.0)).collect::<Vec<_>>()).unwrap_or_default()});
        (What { q, id, tx: tx.clone() }, v)
    }
}
fn pk_or(q: &str) -> Pubkey {
    if q.is_empty() || q.starts_with('?') {
        return Pubkey::default();
    }
    pk(q)
}
pub fn rel(s: u64) -> u64 {
    s.saturating_sub(base())
}
pub fn items_of(d: &[u8]) -> Vec<RawItem> {
    if d.len() < 20 || d[0] != 3 {
        return vec![];
    }
    parse_items(&d[8..]).map(|x| x.2).unwrap_or_default()
}
/// mark a request used
pub fn take(d: &mut [u8], id: &[u8; 32]) {
    if let Some(it) = items_of(d).iter().find(|i| i.id == *id) {
        d[8 + it.off + 91] = 0;
        let n = u32::from_le_bytes(d[8..12].try_into().unwrap());
        d[8..12].copy_from_slice(&n.saturating_sub(1).to_le_bytes());
    }
}

struct Guard(Arc<Mutex<Chain>>, u64);
impl Drop for Guard {
    fn drop(&mut self) {
        if let Ok(mut c) = self.0.lock() {
            c.calls.remove(&self.1);
            c.activity += 1;
        }
    }
}
fn err() -> ClientError {
    ClientError::from(ClientErrorKind::Custom("simulated".into()))
}

#[async_trait::async_trait]
impl RpcSender for Mock {
    async fn send(&self, request: RpcRequest, params: Value) -> ClientResult<Value> {
        mbt::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let wait = {
            let mut c = self.0.lock().unwrap();
            c.activity += 1;
            match request {
                RpcRequest::GetLatestBlockhash => {
                    if c.hash_fails {
                        return Err(err());
                    }
                    let (h, s) = c.new_hash();
                    return Ok(json!({"context": {"slot": s}, "value": {"blockhash": h.to_string(), "lastValidBlockHeight": 1_000_000}}));
                }
                RpcRequest::GetSlot | RpcRequest::GetBlockHeight => return Ok(json!(c.node.world.slot)),
                RpcRequest::GetProgramAccounts => {
                    let filters = params[1]["filters"].as_array().cloned().unwrap_or_default();
                    let mut out = vec![];
                    for (k, a) in &c.node.world.accts {
                        if a.owner.to_bytes() != ephemeral_vrf_api::ID.to_bytes() {
                            continue;
                        }
                        let n = name_of(k);
                        let d = c.stale.get(&n).cloned().unwrap_or_else(|| a.data.clone());
                        if c.ignore_filters || filters.iter().all(|f| matches(f, &d)) {
                            out.push(json!({"pubkey": k.to_string(), "account": {"lamports": a.lamports, "owner": a.owner.to_string(),
                                "data": [base64::engine::general_purpose::STANDARD.encode(&d), "base64"], "executable": false, "rentEpoch": 0, "space": d.len()}}));
                        }
                    }
                    return Ok(json!(out));
                }
                RpcRequest::SendTransaction => {
                    let t: Option<Transaction> = base64::engine::general_purpose::STANDARD
                        .decode(params[0].as_str().unwrap_or(""))
                        .ok()
                        .and_then(|b| bincode::deserialize(&b).ok());
                    let Some(t) = t else { return Err(err()) };
                    let (what, v) = c.describe(&t);
                    c.sends.push(v);
                    c.sigs.insert(t.signatures[0].to_string(), what.clone());
                    park(&mut c, Kind::Send, what)
                }
                RpcRequest::GetSignatureStatuses => {
                    let s = params[0][0].as_str().unwrap_or("").to_string();
                    let Some(what) = c.sigs.get(&s).cloned() else { return Ok(json!({"context": {"slot": 1}, "value": [null]})) };
                    park(&mut c, Kind::Confirm, what)
                }
                _ => return Err(err()),
            }
        };
        let (no, rx) = wait;
        let _g = Guard(Arc::clone(&self.0), no);
        match rx.await {
            Ok(Answer::Ok(v)) => Ok(v),
            Ok(Answer::Panic) => panic!("simulated crash"),
            _ => Err(err()),
        }
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
    fn url(&self) -> String {
        "mock".into()
    }
}
fn park(c: &mut Chain, kind: Kind, what: What) -> (u64, oneshot::Receiver<Answer>) {
    let (tx, rx) = oneshot::channel();
    c.next += 1;
    let no = c.next;
    c.calls.insert(no, Pending { no, kind, what, tx });
    (no, rx)
}
fn matches(f: &Value, d: &[u8]) -> bool {
    if let Some(n) = f["dataSize"].as_u64() {
        return d.len() as u64 == n;
    }
    let m = &f["memcmp"];
    if m.is_null() {
        return true;
    }
    let off = m["offset"].as_u64().unwrap_or(0) as usize;
    let bytes: Vec<u8> = match (&m["bytes"], m["encoding"].as_str()) {
        (Value::Array(a), _) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        (Value::String(s), Some("base64")) => base64::engine::general_purpose::STANDARD.decode(s).unwrap_or_default(),
        (Value::String(s), _) => bs58(s),
        _ => return true,
    };
    d.len() >= off + bytes.len() && d[off..off + bytes.len()] == bytes[..]
}
fn bs58(s: &str) -> Vec<u8> {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out: Vec<u8> = vec![];
    for c in s.bytes() {
        let Some(mut v) = A.iter().position(|x| *x == c) else { return vec![0xff; 40] };
        for b in out.iter_mut() {
            v += *b as usize * 58;
            *b = v as u8;
            v >>= 8;
        }
        while v > 0 {
            out.push(v as u8);
            v >>= 8;
        }
    }
    let zeros = s.bytes().take_while(|b| *b == b'1').count();
    let mut r = vec![0; zeros];
    r.extend(out.iter().rev());
    r
}
