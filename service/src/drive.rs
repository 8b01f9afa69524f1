//! Schedules: random, from the specification, and overlapping updates of large queues.
use crate::blockhash_cache::BlockhashCache;
use crate::mock::*;
use crate::oracle::client::{OracleClient, QueueUpdateSource};
use crate::oracle::processor::{fetch_and_process_program_accounts, process_oracle_queue};
use crate::oracle::sources::LaserstreamSource;
use crate::oracle::utils::queue_memcmp_filter;
use ephemeral_vrf_api::prelude::Queue;
use mbt::gen::*;
use mbt::names::{keypair, pk, Rng};
use mbt::world::{genesis, step, Node};
use serde_json::{json, Value};
use solana_client::nonblocking::rpc_client::RpcClient;
use solana_client::rpc_client::RpcClientConfig;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

const OWN: &[&str] = &["q:o1:0", "q:o1:255"];
const ALL: &[&str] = &["q:o1:0", "q:o1:255", "q:o2:0"];

/// both oracles registered, queues open; the service's own VRF key is registered
fn world() -> Node {
    static W: OnceLock<Node> = OnceLock::new();
    W.get_or_init(|| {
        let mut n = genesis(10);
        let mut go = |e: Value| {
            let (m, _, r) = step(&n, &e);
            assert!(r["ok"].as_bool().unwrap(), "setup {e} {r}");
            n = m;
        };
        go(e_init("adm"));
        go(e_modify("adm", "o1", "v:o1", 0));
        go(e_modify("adm", "o2", "v:o2", 0));
        go(env("slot", json!({"n": 400})));
        go(e_initq("alice", "o1", 0, 9500));
        go(e_initq("alice", "o1", 255, 9500));
        go(e_initq("alice", "o1", 2, 9900));
        go(e_initq("alice", "o2", 0, 3000));
        let (_, vk) = ephemeral_vrf::vrf::generate_vrf_keypair(&keypair(SVC));
        let mut a = n.world.get(&pk("od:o1"));
        a.data[8..40].copy_from_slice(&vk.compress().to_bytes());
        n.world.put(pk("od:o1"), a);
        // forks replace the content of queues, not their balance
        for q in ["q:o1:0", "q:o1:255", "q:o1:2", "q:o2:0"] {
            let mut a = n.world.get(&pk(q));
            a.lamports += 1_000_000_000;
            n.world.put(pk(q), a);
        }
        n
    })
    .clone()
}
/// accounts of the program at addresses of queues that were never opened, with odd contents
fn junk(n: &mut Node, r: &mut Rng) {
    let k = 16 + r.below(200);
    let rnd = r.bytes(k);
    for (k, d) in [
        ("q:o2:1", vec![3, 0, 0, 0, 0, 0, 0, 0]),
        ("od:o3", vec![1, 0, 0, 0, 0, 0, 0, 0, 9, 9, 9]),
        ("od:o4", [vec![3, 0, 0, 0, 0, 0, 0, 0], rnd].concat()),
        ("q:o2:2", n.world.get(&pk("q:o1:0")).data), // an own queue's content at a foreign address
    ] {
        let mut a = n.world.get(&pk("q:o2:0"));
        a.data = d;
        n.world.put(pk(k), a);
    }
}

pub struct Drv {
    mock: Mock,
    client: Arc<OracleClient>,
    rpc: Arc<RpcClient>,
    cache: Arc<BlockhashCache>,
    hist: BTreeMap<String, Vec<Vec<u8>>>,
    out: Arc<Mutex<std::io::BufWriter<std::fs::File>>>,
    t: usize,
    n: usize,
    ops: Vec<String>,
}
static RECS: AtomicUsize = AtomicUsize::new(0);
static MISSED: AtomicUsize = AtomicUsize::new(0);

impl Drv {
    async fn new(node: Node, skip: bool, out: &Arc<Mutex<std::io::BufWriter<std::fs::File>>>, t: usize) -> Drv {
        let mut node = node;
        node.learn();
        let chain = Chain {
            node,
            stale: BTreeMap::new(),
            hash_no: 0,
            hash_slot: HashMap::new(),
            hash_fails: false,
            hash_lag: 0,
            calls: BTreeMap::new(),
            sigs: HashMap::new(),
            next: 0,
            activity: 0,
            sends: vec![],
            ignore_filters: false,
        };
        let mock = Mock(Arc::new(Mutex::new(chain)));
        let rpc = Arc::new(RpcClient::new_sender(mock.clone(), RpcClientConfig::default()));
        let client = Arc::new(OracleClient::new(keypair(SVC), "mock".into(), "mock".into(), None, None, skip));
        let cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc)).await);
        let mut d = Drv { mock, client, rpc, cache, hist: BTreeMap::new(), out: Arc::clone(out), t, n: 0, ops: vec![] };
        d.snap();
        d.rec(json!({"op": "start"})).await;
        d
    }
    fn c(&self) -> std::sync::MutexGuard<'_, Chain> {
        self.mock.0.lock().unwrap()
    }
    fn snap(&mut self) {
        for q in ["q:o1:0", "q:o1:255", "q:o1:2", "q:o2:0"] {
            let d = self.c().data(q);
            let h = self.hist.entry(q.to_string()).or_default();
            if h.last() != Some(&d) {
                h.push(d);
            }
        }
    }
    async fn settle(&self) {
        let (mut last, mut quiet) = (u64::MAX, 0);
        while quiet < 40 {
            tokio::task::yield_now().await;
            let a = self.c().activity;
            if a == last {
                quiet += 1
            } else {
                quiet = 0;
                last = a
            }
        }
    }
    async fn rec(&mut self, mut v: Value) {
        self.settle().await;
        let stats = tokio::time::timeout(Duration::from_secs(5), self.client.queue_stats.read()).await.map(|g| g.clone());
        let avgs = tokio::time::timeout(Duration::from_secs(5), self.client.avg_response_slots.read()).await.map(|g| g.clone());
        let name = |k: &String| k.parse::<solana_program::pubkey::Pubkey>().map(|p| mbt::names::name_of(&p)).unwrap_or_default();
        let (Ok(stats), Ok(avgs)) = (stats, avgs) else {
            v["done"] = json!(false);
            self.put(v, json!([]), json!([]));
            return;
        };
        let st: Vec<Value> = stats.iter().map(|(k, n)| json!([name(k), n])).collect();
        let av: Vec<Value> = avgs.iter().map(|(k, x)| json!([name(k), (x * 1000.0).round().min(1e9) as i64])).collect();
        self.put(v, json!(st), json!(av));
    }
    fn put(&mut self, mut v: Value, stats: Value, avgs: Value) {
        let (out, sends, hf) = {
            let mut c = self.c();
            let o: Vec<Value> = c.calls.values().map(|p| json!({"q": p.what.q, "id": p.what.id, "k": if p.kind == Kind::Send { "send" } else { "confirm" }})).collect();
            (o, std::mem::take(&mut c.sends), c.hash_fails)
        };
        let o = v.as_object_mut().unwrap();
        for (k, d) in [("q", json!("")), ("id", json!("")), ("views", json!([])), ("slot", json!(0)), ("notified", json!(false)), ("done", json!(true)), ("hash", json!(0)), ("ans", json!(""))] {
            o.entry(k).or_insert(d);
        }
        self.n += 1;
        o.insert("t".into(), json!(self.t));
        o.insert("n".into(), json!(self.n));
        o.insert("out".into(), json!(out));
        o.insert("sends".into(), json!(sends));
        o.insert("stats".into(), stats);
        o.insert("avg".into(), avgs);
        o.insert("hf".into(), json!(hf));
        let now = rel(self.now());
        o.insert("now".into(), json!(now));
        let mut f = self.out.lock().unwrap();
        writeln!(f, "{v}").unwrap();
        RECS.fetch_add(1, Ordering::Relaxed);
    }
    fn show(&self, q: &str, d: &[u8]) -> Value {
        let c = self.c();
        let items: Vec<Value> = items_of(d).iter().map(|i| json!([c.node.id_name(&i.id), rel(i.slot)])).collect();
        let n = if d.len() >= 12 { u32::from_le_bytes(d[8..12].try_into().unwrap()) } else { 0 };
        json!({"q": q, "items": items, "n": n})
    }
    fn go(&mut self, e: &Value) -> bool {
        let mut c = self.c();
        let (m, _, r) = step(&c.node, e);
        c.node = m;
        c.node.learn();
        drop(c);
        self.snap();
        r["ok"].as_bool().unwrap()
    }
    /// update of one queue; back: how many versions old
    fn view_of(&self, q: &str, back: usize) -> Vec<u8> {
        let h = &self.hist[q];
        h[h.len() - 1 - back.min(h.len() - 1)].clone()
    }
    fn now(&self) -> u64 {
        self.c().node.world.slot
    }
    fn spawn_notify(&self, q: &str, d: Vec<u8>, slot: u64, laser: bool) -> Option<tokio::task::JoinHandle<()>> {
        let (client, rpc, cache) = (Arc::clone(&self.client), Arc::clone(&self.rpc), Arc::clone(&self.cache));
        let key = pk(q);
        if Queue::try_from_bytes(&d).is_err() {
            return None;
        }
        Some(tokio::spawn(async move {
            let (key, queue, bytes, slot) = if laser {
                use helius_laserstream::grpc::{subscribe_update::UpdateOneof, SubscribeUpdate, SubscribeUpdateAccount, SubscribeUpdateAccountInfo};
                let u = SubscribeUpdate {
                    update_oneof: Some(UpdateOneof::Account(SubscribeUpdateAccount {
                        account: Some(SubscribeUpdateAccountInfo {
                            pubkey: key.to_bytes().to_vec(),
                            lamports: 1,
                            owner: ephemeral_vrf_api::ID.to_bytes().to_vec(),
                            data: d,
                            ..Default::default()
                        }),
                        slot,
                        ..Default::default()
                    })),
                    ..Default::default()
                };
                let ping = SubscribeUpdate { update_oneof: Some(UpdateOneof::Ping(Default::default())), ..Default::default() };
                let mut s = LaserstreamSource { stream: Box::pin(futures::stream::iter(vec![Ok(ping), Ok(u)])) };
                match s.next().await {
                    Some(x) => x,
                    None => return,
                }
            } else {
                (key, *Queue::try_from_bytes(&d).unwrap(), d, slot)
            };
            process_oracle_queue(&client, &rpc, &cache, &key, &queue, Arc::new(bytes), Some(slot)).await;
        }))
    }
    fn spawn_refresh(&self) -> tokio::task::JoinHandle<()> {
        let (client, rpc, cache) = (Arc::clone(&self.client), Arc::clone(&self.rpc), Arc::clone(&self.cache));
        tokio::spawn(async move {
            let _ = fetch_and_process_program_accounts(&client, &rpc, &cache, queue_memcmp_filter()).await;
        })
    }
    async fn finished(&self, h: &Option<tokio::task::JoinHandle<()>>) -> bool {
        self.settle().await;
        let Some(h) = h else { return true };
        if !h.is_finished() {
            tokio::time::sleep(Duration::from_secs(2)).await;
            self.settle().await;
        }
        h.is_finished()
    }
    async fn notify(&mut self, q: &str, back: usize, lag: u64, laser: bool) {
        let d = self.view_of(q, back);
        let slot = self.now() - lag;
        let views = if own(q) { vec![self.show(q, &d)] } else { vec![] };
        let h = self.spawn_notify(q, d, slot, laser);
        let done = self.finished(&h).await;
        self.rec(json!({"op": "view", "views": views, "slot": rel(slot), "notified": true, "done": done})).await;
    }
    fn stale(&mut self, back: usize) -> Vec<Value> {
        let mut m = BTreeMap::new();
        for q in ["q:o1:0", "q:o1:255", "q:o1:2"] {
            m.insert(q.to_string(), self.view_of(q, back));
        }
        let v = m.iter().map(|(q, d)| self.show(q, d)).collect();
        self.c().stale = if back == 0 { BTreeMap::new() } else { m };
        v
    }
    async fn refresh(&mut self, back: usize) {
        let views = self.stale(back);
        let h = Some(self.spawn_refresh());
        let done = self.finished(&h).await;
        self.rec(json!({"op": "view", "views": views, "done": done})).await;
    }
    /// a refresh and a notification at the same time
    async fn race(&mut self, q: &str, back_n: usize, back_r: usize, first: bool) {
        let d = self.view_of(q, back_n);
        let slot = self.now();
        let mut views = self.stale(back_r);
        if own(q) {
            views.push(self.show(q, &d));
        }
        let (a, b) = if first {
            let b = self.spawn_refresh();
            (self.spawn_notify(q, d, slot, false), Some(b))
        } else {
            let a = self.spawn_notify(q, d, slot, false);
            (a, Some(self.spawn_refresh()))
        };
        let done = self.finished(&a).await && self.finished(&b).await;
        self.rec(json!({"op": "race", "q": q, "views": views, "slot": rel(slot), "done": done})).await;
    }
    async fn wait(&mut self, ms: u64) {
        tokio::time::sleep(Duration::from_millis(ms)).await;
        self.rec(json!({"op": if ms >= 2500 { "wait" } else { "pause" }})).await;
    }
    /// answer one outstanding call
    async fn answer(&mut self, no: u64, ans: &str) {
        let mut c = self.c();
        let Some(p) = c.calls.remove(&no) else { return };
        let now = c.node.world.slot;
        let hash = c.hash_slot.get(&p.what.tx.message.recent_blockhash).map(|x| x.0).unwrap_or(0);
        let sig = p.what.tx.signatures[0].to_string();
        let status = |st: Value, err: Value| json!({"context": {"slot": now}, "value": [{"slot": now, "confirmations": null, "err": err, "status": st, "confirmationStatus": "processed"}]});
        let a = match (p.kind, ans) {
            (Kind::Send, "land") => {
                let (w, ok, _) = c.exec(&p.what.tx);
                if ok {
                    c.node.world = w;
                    c.node.learn();
                }
                Answer::Ok(json!(sig))
            }
            (Kind::Send, "ok") => Answer::Ok(json!(sig)),
            (Kind::Confirm, "ok") => Answer::Ok(status(json!({"Ok": null}), json!(null))),
            (Kind::Confirm, "failed") => {
                Answer::Ok(status(json!({"Err": {"InstructionError": [1, {"Custom": 1}]}}), json!({"InstructionError": [1, {"Custom": 1}]})))
            }
            (Kind::Confirm, "no") => Answer::Ok(json!({"context": {"slot": now}, "value": [null]})),
            (_, "panic") => Answer::Panic,
            _ => Answer::Err,
        };
        c.activity += 1;
        let _ = p.tx.send(a);
        drop(c);
        self.snap();
        let good = ans == "ok" || ans == "land";
        self.rec(json!({"op": "answer", "q": p.what.q, "id": p.what.id, "k": if p.kind == Kind::Send { "send" } else { "confirm" },
            "ans": if !good { "bad" } else if p.kind == Kind::Send { "sent" } else { "confirmed" }, "how": ans, "hash": hash}))
            .await;
    }
    fn find(&self, q: &str, id: &str, kind: Option<Kind>) -> Option<u64> {
        self.c().calls.values().find(|p| p.what.q == q && p.what.id == id && kind.is_none_or(|k| k == p.kind)).map(|p| p.no)
    }
    /// fail an attempt until it stops
    async fn exhaust(&mut self, q: &str, id: &str) {
        for _ in 0..260 {
            match self.find(q, id, None) {
                Some(no) => {
                    let mut c = self.c();
                    let p = c.calls.remove(&no).unwrap();
                    c.activity += 1;
                    c.sends.clear();
                    let _ = p.tx.send(Answer::Err);
                    drop(c);
                    self.settle().await;
                    if self.find(q, id, None).is_none() {
                        tokio::time::sleep(Duration::from_millis(2500)).await;
                        self.settle().await;
                    }
                }
                None => break,
            }
        }
        self.c().sends.clear();
        self.rec(json!({"op": "answer", "q": q, "id": id, "ans": "bad", "how": "exhaust"})).await;
    }
}

fn run<F: std::future::Future<Output = ()>>(f: F) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    rt.block_on(f);
    rt.shutdown_background();
}
fn request(r: &mut Rng, q: &str) -> Value {
    let p = *r.pick(&["p1", "p1", "p2", "p3", "pf"]);
    let n = *r.pick(&[0usize, 1, 2, 3, 5, 20]);
    let m: Vec<Value> = (0..n).map(|_| json!({"k": *r.pick(&["acc1", "acc2", "acc3", "acc4"]), "s": false, "w": r.chance(1, 2)})).collect();
    let (dl, al) = (r.below(9), *r.pick(&[0usize, 1, 7, 40, 200]));
    e_request(*r.pick(&["alice", "adm"]), p, q, r.below(3) as u64, r.below(2) as u64, &mbt::names::hex(&r.bytes(dl)), m, &mbt::names::hex(&r.bytes(al)))
}

fn open(a: &HashMap<String, String>) -> Arc<Mutex<std::io::BufWriter<std::fs::File>>> {
    Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{}/steps.ndjson", a["out"])).unwrap())))
}
fn close(a: &HashMap<String, String>, out: &Arc<Mutex<std::io::BufWriter<std::fs::File>>>, traces: usize) {
    out.lock().unwrap().flush().unwrap();
    mbt::summary(&a["out"], &json!({"steps": RECS.load(Ordering::Relaxed), "traces": traces, "missed": MISSED.load(Ordering::Relaxed)}));
}
fn num(a: &HashMap<String, String>, k: &str, d: u64) -> u64 {
    a.get(k).map(|x| x.parse().unwrap()).unwrap_or(d)
}
fn set_base(r: &mut Rng) {
    let b = *r.pick(&[0u64, 0, 100_000, (1 << 32) - 700, 1 << 40]);
    mbt::world::BASE.store(b, Ordering::Relaxed);
}

pub fn random(a: &HashMap<String, String>) {
    let (seed, traces, len) = (num(a, "seed", 1), num(a, "n", 40) as usize, num(a, "len", 60));
    let out = open(a);
    set_base(&mut Rng(seed.wrapping_mul(77)));
    for t in 1..=traces {
        let mut r = Rng((seed << 20) + t as u64);
        run(async {
            let mut node = world();
            if r.chance(1, 3) {
                junk(&mut node, &mut r);
            }
            // requests that are pending when the service starts
            for _ in 0..r.below(4) {
                let q = r.pick(ALL).to_string();
                let e = request(&mut r, &q);
                node = step(&node, &e).0;
            }
            let mut d = Drv::new(node, r.chance(1, 2), &out, t).await;
            d.c().ignore_filters = r.chance(1, 4);
            d.c().hash_lag = if r.chance(1, 3) { r.below(30) as u64 } else { 0 };
            d.refresh(0).await;
            let hostile = r.chance(1, 2);
            for _ in 0..len {
                let q = if r.chance(2, 3) { OWN[0].to_string() } else { r.pick(ALL).to_string() };
                let calls: Vec<u64> = d.c().calls.keys().cloned().collect();
                match r.below(24) {
                    0..=2 => {
                        let e = request(&mut r, &q);
                        d.go(&e);
                        if r.chance(2, 3) {
                            d.go(&env("slot", json!({"n": 1})));
                        }
                        d.notify(&q, 0, 0, r.chance(1, 3)).await;
                    }
                    3 => {
                        let e = request(&mut r, &q);
                        d.go(&e);
                    }
                    4 => {
                        let n = *r.pick(&[1u64, 1, 2, 5, 60, 239, 240, 241]);
                        d.go(&env("slot", json!({"n": n})));
                        // the service learns of slots with the next blockhash
                        if r.chance(3, 4) {
                            d.cache.refresh_blockhash().await;
                        }
                    }
                    5 => {
                        let its = d.c().items(&q);
                        if !its.is_empty() {
                            let id = d.c().node.id_name(&its[r.below(its.len())].id);
                            d.c().remove(&q, &id);
                            d.snap();
                        }
                    }
                    6..=8 => {
                        let back = if r.chance(1, 4) { r.below(4) } else { 0 };
                        let lag = r.below(3) as u64;
                        d.notify(&q, back, lag, r.chance(1, 3)).await;
                    }
                    9..=10 => {
                        let back = if r.chance(1, 5) { r.below(3) } else { 0 };
                        d.refresh(back).await;
                    }
                    11 if hostile => d.race(&q, r.below(3), r.below(2), r.chance(1, 2)).await,
                    12..=18 if !calls.is_empty() => {
                        let no = *r.pick(&calls);
                        let (send, k) = { let c = d.c(); (c.calls[&no].kind == Kind::Send, r.below(10)) };
                        let ans = match (send, hostile, k) {
                            (true, _, 0..=3) => "land",
                            (true, _, 4..=5) => "ok",
                            (true, true, 6) => "panic",
                            (true, ..) => "err",
                            (false, _, 0..=3) => "ok",
                            (false, _, 4..=5) => "no",
                            (false, _, 6) => "failed",
                            (false, true, 7) => "panic",
                            _ => "err",
                        };
                        d.answer(no, ans).await;
                    }
                    19 if hostile && !calls.is_empty() && r.chance(1, 4) => {
                        let w = { let c = d.c(); c.calls[r.pick(&calls)].what.clone() };
                        if !w.id.is_empty() {
                            d.exhaust(&w.q, &w.id).await;
                        }
                    }
                    20 if hostile => {
                        let f = r.chance(1, 2);
                        d.c().hash_fails = f;
                        d.rec(json!({"op": "hashes"})).await;
                    }
                    21 => {
                        // a fork: the queue is as it was before
                        let old = d.view_of(&q, 1 + r.below(3));
                        d.c().set_data(&q, old);
                        d.snap();
                    }
                    22 => d.wait(r.below(900) as u64).await,
                    _ => d.wait(3000).await,
                }
            }
            d.c().hash_fails = false;
            d.cache.refresh_blockhash().await;
            d.rec(json!({"op": "hashes"})).await;
            // one more round of everything
            for q in OWN {
                d.notify(q, 0, 0, false).await;
            }
            d.wait(3000).await;
            d.refresh(0).await;
            d.wait(3000).await;
        });
    }
    close(a, &out, traces);
}

/// behaviours of MCService.tla
pub fn paths(a: &HashMap<String, String>) {
    let out = open(a);
    let lines = mbt::read_lines(&a["in"]);
    let q = "q:o1:0";
    for (t, l) in lines.iter().enumerate() {
        let ops: Vec<(String, usize)> = l
            .split_whitespace()
            .map(|x| {
                let (a, b) = x.rsplit_once(':').unwrap();
                (a.to_string(), b.parse().unwrap())
            })
            .collect();
        run(async {
            // every queue content is a selection of these requests
            let mut node = world();
            let mut r = Rng(9);
            for _ in 0..3 {
                let mut e = request(&mut r, q);
                e["x"]["prog"] = json!("p1");
                node = step(&node, &e_request("alice", "p1", q, 1, 1, "07", vec![], "01")).0;
                let _ = e;
            }
            node = step(&node, &env("slot", json!({"n": 1}))).0;
            node.learn();
            let full = node.world.get(&pk(q)).data;
            let ids: Vec<String> = items_of(&full).iter().map(|i| node.id_name(&i.id)).collect();
            let bytes: Vec<[u8; 32]> = items_of(&full).iter().map(|i| i.id).collect();
            let mut pend = [false; 4];
            let content = |p: &[bool; 4]| {
                let mut d = full.clone();
                for (i, b) in bytes.iter().enumerate() {
                    if !p[i + 1] {
                        take(&mut d, b);
                    }
                }
                d
            };
            let mut empty = node.clone();
            let mut acc = empty.world.get(&pk(q));
            acc.data = content(&pend);
            empty.world.put(pk(q), acc);
            let mut d = Drv::new(empty, true, &out, t + 1).await;
            // names of the requests although none is pending yet
            d.c().node.ids = Arc::clone(&node.ids);
            for (op, i) in &ops {
                let id = if *i > 0 { ids[*i - 1].clone() } else { String::new() };
                match op.as_str() {
                    "arrive" | "land" => {
                        pend[*i] = op == "arrive";
                        let c = content(&pend);
                        d.c().set_data(q, c);
                        d.snap();
                    }
                    "notify" => d.notify(q, 0, 0, false).await,
                    "notify-stale" => d.notify(q, 1, 0, false).await,
                    "refresh" => d.refresh(0).await,
                    "refresh-stale" => d.refresh(1).await,
                    "give-up" => d.exhaust(q, &id).await,
                    x => {
                        let (k, ans) = match x {
                            "send-ok" => (Some(Kind::Send), "ok"),
                            "send-err" => (Some(Kind::Send), "err"),
                            "confirm-yes" => (Some(Kind::Confirm), "ok"),
                            "confirm-no" => (Some(Kind::Confirm), "no"),
                            "crash" => (None, "panic"),
                            _ => panic!("op {x}"),
                        };
                        let mut f = d.find(q, &id, k);
                        if f.is_none() {
                            d.wait(2600).await; // pausing before the next try
                            f = d.find(q, &id, k);
                        }
                        match f {
                            Some(no) => d.answer(no, ans).await,
                            None => {
                                MISSED.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                    }
                }
            }
            d.wait(3000).await;
            d.refresh(0).await;
            d.wait(3000).await;
        });
    }
    close(a, &out, lines.len());
}

/// Updates that overlap: long queues make the runtime switch between readers in the middle.
pub fn big(a: &HashMap<String, String>) {
    let (seed, traces) = (num(a, "seed", 1), num(a, "n", 40) as usize);
    let out = open(a);
    let q = "q:o1:2";
    let mut full = world();
    let mut k = 0;
    loop {
        let (m, _, r) = step(&full, &e_request("alice", "p1", q, k, 1, "", vec![], ""));
        if !r["ok"].as_bool().unwrap() {
            break;
        }
        k += 1;
        full = m;
    }
    full = step(&full, &env("slot", json!({"n": 1}))).0;
    full.learn();
    let data = full.world.get(&pk(q)).data;
    let all: Vec<[u8; 32]> = items_of(&data).iter().map(|i| i.id).collect();
    for t in 1..=traces {
        let mut r = Rng((seed << 20) + 7 * t as u64);
        run(async {
            let cut = |r: &mut Rng, keep: usize| {
                let mut d = data.clone();
                let from = if r.chance(1, 2) { 0 } else { r.below(all.len()) };
                for (i, b) in all.iter().enumerate() {
                    if i < from || i >= from + keep {
                        take(&mut d, b);
                    }
                }
                d
            };
            let mut d = Drv::new(full.clone(), true, &out, t).await;
            d.c().node.ids = Arc::clone(&full.ids);
            let base = { let n = if r.chance(1, 2) { 0 } else { r.below(60) }; cut(&mut r, n) };
            d.c().set_data(q, base);
            d.snap();
            d.refresh(0).await;
            for _ in 0..2 {
                // two different contents, shown at once
                let n1 = 20 + r.below(all.len() - 20);
                let n2 = if r.chance(1, 2) { 0 } else { r.below(all.len()) };
                let (x, y) = (cut(&mut r, n1), cut(&mut r, n2));
                d.c().set_data(q, x);
                d.snap();
                d.c().set_data(q, y);
                d.snap();
                let (b1, b2, f) = (r.below(2), r.below(2), r.chance(1, 2));
                d.race(q, b1, b2, f).await;
                if r.chance(1, 2) {
                    d.notify(q, 0, 0, false).await;
                } else {
                    d.refresh(0).await;
                }
                d.wait(3000).await;
            }
        });
    }
    close(a, &out, traces);
}

/// A thousand and more responses of one queue.
pub fn long(a: &HashMap<String, String>) {
    let seed = num(a, "seed", 1);
    let out = open(a);
    let q = "q:o1:2";
    let mut full = world();
    let mut k = 0;
    loop {
        let (m, _, r) = step(&full, &e_request("alice", "p1", q, k, 1, "", vec![], ""));
        if !r["ok"].as_bool().unwrap() {
            break;
        }
        k += 1;
        full = m;
    }
    full = step(&full, &env("slot", json!({"n": 1}))).0;
    full.learn();
    let data = full.world.get(&pk(q)).data;
    let all: Vec<[u8; 32]> = items_of(&data).iter().map(|i| i.id).collect();
    let mut r = Rng((seed << 20) + 3);
    run(async {
        let mut d = Drv::new(full.clone(), true, &out, 1).await;
        d.c().node.ids = Arc::clone(&full.ids);
        let mut gone = 0;
        while gone < 1300 {
            d.c().set_data(q, data.clone());
            d.snap();
            d.notify(q, 0, 0, false).await;
            let keep = if r.chance(1, 4) { r.below(5) } else { 0 };
            let mut rest = data.clone();
            for b in &all[keep..] {
                take(&mut rest, b);
            }
            d.go(&env("slot", json!({"n": r.below(if gone > 1000 { 40 } else { 4 })})));
            d.c().set_data(q, rest);
            d.snap();
            d.notify(q, 0, 0, false).await;
            gone += all.len() - keep;
        }
    });
    close(a, &out, 1);
}
