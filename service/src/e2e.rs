//! Runs the real binaries (vrf-oracle, vrf-cli) against a simulated node on the loopback network.
//! Records of the service are judged by ServiceJudge.tla, commands of the CLI by Judge.tla.
mod cli;
mod mock;
use hyper::service::{make_service_fn, service_fn};
use hyper::{Body, Request, Response, Server};
use mbt::gen::*;
use mbt::names::{keypair, name_of, pk};
use mbt::world::{genesis, step, Node};
use mock::*;
use serde_json::{json, Value};
use solana_client::rpc_request::RpcRequest;
use solana_client::rpc_sender::RpcSender;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::convert::Infallible;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

type Subs = Arc<Mutex<Vec<mpsc::Sender<Option<String>>>>>;

pub struct Net {
    pub mock: Mock,
    pub rpc: String,
    pub ws: String,
    pub subs: Subs,
    /// the node answers nothing but errors
    pub down: Arc<AtomicBool>,
    /// program account queries fail
    pub blind: Arc<AtomicBool>,
    pub asked: Arc<AtomicU64>,
    /// hash number -> when it was given out
    pub born: Arc<Mutex<HashMap<u64, Instant>>>,
    /// transactions are executed at once
    pub direct: Arc<Mutex<cli::Direct>>,
}
fn request_of(m: &str) -> Option<RpcRequest> {
    Some(match m {
        "getLatestBlockhash" => RpcRequest::GetLatestBlockhash,
        "getProgramAccounts" => RpcRequest::GetProgramAccounts,
        "sendTransaction" => RpcRequest::SendTransaction,
        "getSignatureStatuses" => RpcRequest::GetSignatureStatuses,
        "getSlot" => RpcRequest::GetSlot,
        "getBlockHeight" => RpcRequest::GetBlockHeight,
        _ => return None,
    })
}
fn b64(d: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::STANDARD.encode(d)
}
impl Net {
    pub async fn start(node: Node) -> Net {
        let mut node = node;
        node.learn();
        let chain = Chain {
            node,
            stale: BTreeMap::new(),
            hash_no: 0,
            hash_slot: HashMap::new(),
            hash_fails: false,
            hash_lag: 0,
            calls: BTreeMap::new(),
            sigs: HashMap::new(),
            next: 0,
            activity: 0,
            sends: vec![],
            ignore_filters: false,
        };
        let mock = Mock(Arc::new(Mutex::new(chain)));
        let (down, blind, asked) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)), Arc::new(AtomicU64::new(0)));
        let born: Arc<Mutex<HashMap<u64, Instant>>> = Default::default();
        let subs: Subs = Default::default();
        let direct: Arc<Mutex<cli::Direct>> = Default::default();
        let dir2 = Arc::clone(&direct);
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let rpc = format!("http://{}", l.local_addr().unwrap());
        let (m2, d2, b2, a2, h2) = (mock.clone(), Arc::clone(&down), Arc::clone(&blind), Arc::clone(&asked), Arc::clone(&born));
        let make = make_service_fn(move |_| {
            let (m, d, b, a, h, dt) = (m2.clone(), Arc::clone(&d2), Arc::clone(&b2), Arc::clone(&a2), Arc::clone(&h2), Arc::clone(&dir2));
            async move {
                Ok::<_, Infallible>(service_fn(move |req: Request<Body>| {
                    let (m, d, b, a, h, dt) = (m.clone(), Arc::clone(&d), Arc::clone(&b), Arc::clone(&a), Arc::clone(&h), Arc::clone(&dt));
                    async move {
                        let body = hyper::body::to_bytes(req.into_body()).await.unwrap_or_default();
                        let v: Value = serde_json::from_slice(&body).unwrap_or_default();
                        let method = v["method"].as_str().unwrap_or("").to_string();
                        let fail = d.load(Ordering::SeqCst) || (method == "getProgramAccounts" && b.load(Ordering::SeqCst));
                        if method == "getProgramAccounts" {
                            a.fetch_add(1, Ordering::SeqCst);
                        }
                        let r = if fail {
                            None
                        } else if let Some(x) = cli::answer(&dt, &m, &method, &v["params"]) {
                            x
                        } else if let Some(x) = other(&m, &method, &v["params"]) {
                            Some(x)
                        } else if let Some(rq) = request_of(&method) {
                            m.send(rq, v["params"].clone()).await.ok()
                        } else {
                            None
                        };
                        if method == "getLatestBlockhash" && r.is_some() {
                            let n = m.0.lock().unwrap().hash_no;
                            h.lock().unwrap().insert(n, Instant::now());
                        }
                        let out = match r {
                            Some(x) => json!({"jsonrpc": "2.0", "id": v["id"], "result": x}),
                            None => json!({"jsonrpc": "2.0", "id": v["id"], "error": {"code": -32603, "message": "simulated"}}),
                        };
                        let mut resp = Response::new(Body::from(out.to_string()));
                        resp.headers_mut().insert("content-type", "application/json".parse().unwrap());
                        Ok::<_, Infallible>(resp)
                    }
                }))
            }
        });
        tokio::spawn(async move {
            let _ = Server::from_tcp(l).unwrap().serve(make).await;
        });
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let ws = format!("ws://{}", l.local_addr().unwrap());
        let s2 = Arc::clone(&subs);
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                let s = Arc::clone(&s2);
                std::thread::spawn(move || {
                    let Ok(mut w) = tungstenite::accept(c) else { return };
                    let id = loop {
                        match w.read() {
                            Ok(tungstenite::Message::Text(t)) => {
                                let v: Value = serde_json::from_str(&t).unwrap_or_default();
                                if v["method"] == "programSubscribe" {
                                    break v["id"].clone();
                                }
                            }
                            Ok(_) => {}
                            Err(_) => return,
                        }
                    };
                    if w.send(tungstenite::Message::Text(json!({"jsonrpc": "2.0", "id": id, "result": 7}).to_string())).is_err() {
                        return;
                    }
                    let (tx, rx) = mpsc::channel();
                    s.lock().unwrap().push(tx);
                    // None: drop the connection
                    while let Ok(Some(m)) = rx.recv() {
                        if w.send(tungstenite::Message::Text(m)).is_err() {
                            return;
                        }
                    }
                });
            }
        });
        Net { mock, rpc, ws, subs, down, blind, asked, born, direct }
    }
    pub fn c(&self) -> std::sync::MutexGuard<'_, Chain> {
        self.mock.0.lock().unwrap()
    }
    /// to all subscribers
    pub fn push(&self, key: &str, owner: &str, data: &[u8], slot: u64) {
        let m = json!({"jsonrpc": "2.0", "method": "programNotification", "params": {"subscription": 7, "result": {"context": {"slot": slot},
            "value": {"pubkey": key, "account": {"lamports": 5, "owner": owner, "data": [b64(data), "base64"], "executable": false, "rentEpoch": 0, "space": data.len()}}}}});
        for s in self.subs.lock().unwrap().iter() {
            let _ = s.send(Some(m.to_string()));
        }
    }
    pub fn drop_subs(&self) {
        for s in self.subs.lock().unwrap().drain(..) {
            let _ = s.send(None);
        }
    }
}
/// calls that only the CLI makes, and their immediate answers
fn other(m: &Mock, method: &str, p: &Value) -> Option<Value> {
    let c = m.0.lock().unwrap();
    let now = c.node.world.slot;
    let acct = |k: &str| -> Value {
        let Ok(k) = k.parse::<solana_program::pubkey::Pubkey>() else { return json!(null) };
        match c.node.world.accts.get(&k) {
            Some(a) if a.lamports > 0 => json!({"lamports": a.lamports, "owner": a.owner.to_string(), "data": [b64(&a.data), "base64"], "executable": a.executable, "rentEpoch": 0, "space": a.data.len()}),
            _ => json!(null),
        }
    };
    Some(match method {
        "getAccountInfo" => json!({"context": {"slot": now}, "value": acct(p[0].as_str().unwrap_or(""))}),
        "getMultipleAccounts" => json!({"context": {"slot": now}, "value": p[0].as_array().map(|v| v.iter().map(|k| acct(k.as_str().unwrap_or(""))).collect::<Vec<_>>()).unwrap_or_default()}),
        "isBlockhashValid" => json!({"context": {"slot": now}, "value": true}),
        "getVersion" => json!({"solana-core": "3.0.0", "feature-set": 1}),
        "getMinimumBalanceForRentExemption" => json!(890_880),
        _ => return None,
    })
}

// ------------------------------------------------------------------ the service
struct Svc {
    net: Net,
    child: std::process::Child,
    http: String,
    out: std::io::BufWriter<std::fs::File>,
    t: usize,
    n: usize,
    died: bool,
    shown: BTreeMap<String, Value>,
}
fn world() -> Node {
    let mut n = genesis(10);
    let mut go = |e: Value| {
        let (m, _, r) = step(&n, &e);
        assert!(r["ok"].as_bool().unwrap(), "setup {e} {r}");
        n = m;
    };
    go(e_init("adm"));
    go(e_modify("adm", "o1", "v:o1", 0));
    go(e_modify("adm", "o2", "v:o2", 0));
    go(env("slot", json!({"n": 400})));
    go(e_initq("alice", "o1", 0, 4000));
    go(e_initq("alice", "o1", 255, 4000));
    go(e_initq("alice", "o2", 0, 3000));
    let (_, vk) = ephemeral_vrf::vrf::generate_vrf_keypair(&keypair(SVC));
    let mut a = n.world.get(&pk("od:o1"));
    a.data[8..40].copy_from_slice(&vk.compress().to_bytes());
    n.world.put(pk("od:o1"), a);
    n
}
fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}
fn get(url: &str) -> Option<String> {
    use std::io::Read;
    let a: std::net::SocketAddr = url.parse().ok()?;
    let mut s = std::net::TcpStream::connect_timeout(&a, Duration::from_secs(2)).ok()?;
    s.set_read_timeout(Some(Duration::from_secs(5))).ok()?;
    s.write_all(b"GET /stats HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n").ok()?;
    let mut t = String::new();
    s.read_to_string(&mut t).ok()?;
    t.split_once("\r\n\r\n").map(|x| x.1.to_string())
}
async fn nap(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}

impl Svc {
    fn launch(net: Net, bin: &str, dir: &str, t: usize) -> Svc {
        let port = free_port();
        let child = std::process::Command::new(bin)
            .args(["--identity", &keypair(SVC).to_base58_string(), "--rpc-url", &net.rpc, "--websocket-url", &net.ws, "--http-port", &port.to_string()])
            .env_remove("LASERSTREAM_API_KEY")
            .env_remove("LASERSTREAM_ENDPOINT")
            .env("RUST_LOG", "info")
            .stdout(std::process::Stdio::null())
            .stderr(std::fs::File::create(format!("{dir}/service.log")).unwrap())
            .spawn()
            .unwrap();
        let out = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/steps.ndjson")).unwrap());
        Svc { net, child, http: format!("127.0.0.1:{port}"), out, t, n: 0, died: false, shown: BTreeMap::new() }
    }
    fn alive(&mut self) -> bool {
        if !self.died && matches!(self.child.try_wait(), Ok(Some(_))) {
            self.died = true;
        }
        !self.died
    }
    fn stats(&self) -> (Value, Value) {
        let v: Value = get(&self.http).and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
        let name = |k: &String| k.parse::<solana_program::pubkey::Pubkey>().map(|p| name_of(&p)).unwrap_or_else(|_| k.clone());
        let f = |o: &Value, m: f64| -> Value {
            json!(o.as_object().map(|o| o.iter().map(|(k, x)| json!([name(k), (x.as_f64().unwrap_or(-1.0) * m).round().min(1e9) as i64])).collect::<Vec<_>>()).unwrap_or_default())
        };
        (f(&v["queues"], 1.0), f(&v["avg_response_slots"], 1000.0))
    }
    /// up to `ms` until f holds
    async fn until<F: Fn(&Svc) -> bool>(&mut self, ms: u64, f: F) -> bool {
        let end = Instant::now() + Duration::from_millis(ms);
        while Instant::now() < end {
            if f(self) {
                return true;
            }
            if !self.alive() {
                return false;
            }
            nap(100).await;
        }
        f(self)
    }
    fn outs(&self) -> BTreeSet<(String, String)> {
        self.net.c().calls.values().map(|p| (p.what.q.clone(), p.what.id.clone())).collect()
    }
    fn rec(&mut self, mut v: Value) {
        let alive = self.alive();
        let (stats, avg) = self.stats();
        let (out, sends, now) = {
            let mut c = self.net.c();
            let o: Vec<Value> = c.calls.values().map(|p| json!({"q": p.what.q, "id": p.what.id, "k": if p.kind == Kind::Send { "send" } else { "confirm" }})).collect();
            (o, std::mem::take(&mut c.sends), rel(c.node.world.slot))
        };
        let o = v.as_object_mut().unwrap();
        for (k, d) in [("q", json!("")), ("id", json!("")), ("views", json!([])), ("slot", json!(0)), ("notified", json!(false)), ("done", json!(true)), ("hash", json!(0)), ("ans", json!("")), ("hf", json!(false))] {
            o.entry(k).or_insert(d);
        }
        self.n += 1;
        o.insert("done".into(), json!(alive));
        o.insert("t".into(), json!(self.t));
        o.insert("n".into(), json!(self.n));
        o.insert("now".into(), json!(now));
        o.insert("out".into(), json!(out));
        o.insert("sends".into(), json!(sends));
        o.insert("stats".into(), stats);
        o.insert("avg".into(), avg);
        writeln!(self.out, "{v}").unwrap();
    }
    fn data(&self, q: &str) -> Vec<u8> {
        self.net.c().data(q)
    }
    fn show(&self, q: &str, d: &[u8]) -> Value {
        let c = self.net.c();
        let items: Vec<Value> = items_of(d).iter().map(|i| json!([c.node.id_name(&i.id), rel(i.slot)])).collect();
        json!({"q": q, "items": items, "n": items.len()})
    }
    fn go(&mut self, e: &Value) {
        let mut c = self.net.c();
        let (m, _, r) = step(&c.node, e);
        assert!(r["ok"].as_bool().unwrap(), "{e} {r}");
        c.node = m;
        c.node.learn();
    }
    /// after an update: until the published sizes and the calls are as they should be, or 12 s
    async fn view(&mut self, views: Vec<Value>, slot: u64, notified: bool) {
        for v in &views {
            self.shown.insert(v["q"].as_str().unwrap().to_string(), v.clone());
        }
        let w = views.clone();
        self.until(12_000, |s| {
            let st = s.stats().0;
            let outs = s.outs();
            w.iter().all(|v| {
                st.as_array().unwrap().iter().any(|x| x[0] == v["q"] && x[1] == v["n"])
                    && v["items"].as_array().unwrap().iter().all(|i| outs.contains(&(v["q"].as_str().unwrap().into(), i[0].as_str().unwrap().into())))
                    && outs.iter().all(|o| o.1.is_empty() || o.0 != v["q"].as_str().unwrap() || v["items"].as_array().unwrap().iter().any(|i| i[0] == o.1.as_str()))
            })
        })
        .await;
        nap(300).await;
        self.rec(json!({"op": "view", "views": views, "slot": rel(slot), "notified": notified}));
        self.rec(json!({"op": "wait"}));
    }
    async fn notify(&mut self, q: &str) {
        let (d, slot) = (self.data(q), self.net.c().node.world.slot);
        self.net.push(&pk(q).to_string(), &ephemeral_vrf_api::ID.to_string(), &d, slot);
        let views = if own(q) { vec![self.show(q, &d)] } else { vec![] };
        self.view(views, slot, true).await;
    }
    /// the refresh of every 30 s
    async fn refreshed(&mut self) {
        let n = self.net.asked.load(Ordering::SeqCst);
        self.until(45_000, |s| s.net.asked.load(Ordering::SeqCst) > n).await;
        let v = self.own_views();
        self.view(v, 0, false).await;
    }
    fn own_views(&self) -> Vec<Value> {
        ["q:o1:0", "q:o1:255"].iter().map(|q| self.show(q, &self.data(q))).collect()
    }
    async fn subscribed(&mut self) {
        self.until(15_000, |s| !s.net.subs.lock().unwrap().is_empty()).await;
    }
    async fn answer(&mut self, q: &str, id: &str, kind: Kind, ans: &str) {
        // the attempt may be pausing
        self.until(8_000, |s| s.net.c().calls.values().any(|p| p.what.q == q && p.what.id == id && p.kind == kind)).await;
        let mut c = self.net.c();
        let Some(no) = c.calls.values().find(|p| p.what.q == q && p.what.id == id && p.kind == kind).map(|p| p.no) else {
            drop(c);
            return;
        };
        let p = c.calls.remove(&no).unwrap();
        let now = c.node.world.slot;
        let sig = p.what.tx.signatures[0].to_string();
        let hash = c.hash_slot.get(&p.what.tx.message.recent_blockhash).map(|x| x.0).unwrap_or(0);
        let st = |v: Value| json!({"context": {"slot": now}, "value": [v]});
        let a = match (kind, ans) {
            (Kind::Send, "land") => {
                let (w, ok, _) = c.exec(&p.what.tx);
                if ok {
                    c.node.world = w;
                    c.node.learn();
                }
                Answer::Ok(json!(sig))
            }
            (Kind::Send, "ok") => Answer::Ok(json!(sig)),
            (Kind::Confirm, "ok") => Answer::Ok(st(json!({"slot": now, "confirmations": null, "err": null, "status": {"Ok": null}, "confirmationStatus": "processed"}))),
            (Kind::Confirm, "no") => Answer::Ok(st(json!(null))),
            (Kind::Confirm, "failed") => {
                let e = json!({"InstructionError": [1, {"Custom": 1}]});
                Answer::Ok(st(json!({"slot": now, "confirmations": null, "err": e, "status": {"Err": e}, "confirmationStatus": "processed"})))
            }
            _ => Answer::Err,
        };
        let good = ans == "ok" || ans == "land";
        let _ = p.tx.send(a);
        drop(c);
        nap(100).await;
        let end = good && kind == Kind::Confirm;
        if !end {
            self.until(8_000, |s| s.outs().contains(&(q.to_string(), id.to_string()))).await;
        }
        nap(200).await;
        self.rec(json!({"op": "answer", "q": q, "id": id, "k": if kind == Kind::Send { "send" } else { "confirm" },
            "ans": if !good { "bad" } else if kind == Kind::Send { "sent" } else { "confirmed" }, "how": ans, "hash": hash}));
    }
    fn ids(&self, q: &str) -> Vec<String> {
        let c = self.net.c();
        c.items(q).iter().map(|i| c.node.id_name(&i.id)).collect()
    }
    fn request(&mut self, q: &str, p: &str) -> String {
        self.go(&e_request("alice", p, q, 1, 1, "0102", vec![json!({"k": "acc1", "s": false, "w": true}), json!({"k": "acc2", "s": false, "w": false})], "07"));
        let id = self.ids(q).last().unwrap().clone();
        self.go(&env("slot", json!({"n": 1})));
        id
    }
    fn finish(mut self) -> usize {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.out.flush().unwrap();
        self.n
    }
}

async fn scenario(kind: &str, bin: &str, dir: &str, t: usize) -> usize {
    std::fs::create_dir_all(dir).unwrap();
    let mut node = world();
    let (qa, qb, qf) = ("q:o1:0", "q:o1:255", "q:o2:0");
    // pending when the service starts
    for q in [qa, qb, qf] {
        node = step(&node, &e_request("alice", "p1", q, 1, 1, "0102", vec![], "07")).0;
    }
    node = step(&node, &env("slot", json!({"n": 1}))).0;
    let net = Net::start(node).await;
    if kind == "late" {
        net.down.store(true, Ordering::SeqCst);
    }
    let mut s = Svc::launch(net, bin, dir, t);
    s.rec(json!({"op": "start"}));
    if kind == "late" {
        // the node is not there yet when the service starts
        nap(9_000).await;
        s.net.blind.store(true, Ordering::SeqCst);
        s.net.down.store(false, Ordering::SeqCst);
        s.until(20_000, |s| s.net.asked.load(Ordering::SeqCst) > 1).await;
        s.net.blind.store(false, Ordering::SeqCst);
        s.net.asked.store(0, Ordering::SeqCst);
    }
    s.until(20_000, |s| s.net.asked.load(Ordering::SeqCst) > 0).await;
    let v = s.own_views();
    s.view(v, 0, false).await;
    s.subscribed().await;
    nap(500).await;
    let first = s.ids(qa)[0].clone();
    match kind {
        "basic" | "late" => {
            // serve it
            s.answer(qa, &first, Kind::Send, "land").await;
            s.answer(qa, &first, Kind::Confirm, "ok").await;
            s.go(&env("slot", json!({"n": 3})));
            s.notify(qa).await;
            // a new one, announced; and one in a queue of somebody else
            s.request(qa, "p2");
            s.notify(qa).await;
            s.request(qf, "p2");
            s.notify(qf).await;
            let b = s.ids(qb)[0].clone();
            s.answer(qb, &b, Kind::Send, "err").await;
            s.answer(qb, &b, Kind::Send, "land").await;
            s.answer(qb, &b, Kind::Confirm, "ok").await;
            s.go(&env("slot", json!({"n": 5})));
            s.notify(qb).await;
            // an unannounced one: the periodic refresh finds it
            s.request(qb, "p3");
            s.refreshed().await;
            let b = s.ids(qb)[0].clone();
            // dropped, then rolled back after a confirmation: the refresh keeps it alive
            s.answer(qb, &b, Kind::Send, "ok").await;
            s.answer(qb, &b, Kind::Confirm, "ok").await;
            s.refreshed().await;
        }
        "stream" => {
            // the stream breaks, delivers garbage and accounts of other programs
            s.net.drop_subs();
            s.subscribed().await;
            nap(500).await;
            s.request(qa, "p1");
            s.notify(qa).await;
            let d = s.data(qb);
            s.net.push(&pk(qb).to_string(), "11111111111111111111111111111111", &d, 1);
            nap(3_000).await;
            s.net.drop_subs();
            s.subscribed().await;
            nap(500).await;
            s.request(qb, "p1");
            s.notify(qb).await;
            s.net.push(&pk(qb).to_string(), &ephemeral_vrf_api::ID.to_string(), &[3, 0, 0, 0, 0, 0, 0, 0, 1], 1);
            nap(3_000).await;
            s.net.drop_subs();
            s.subscribed().await;
            nap(500).await;
            s.request(qa, "p1");
            s.notify(qa).await;
            // own content at a foreign address
            let (d, slot) = (s.data(qa), s.net.c().node.world.slot);
            s.net.push(&pk(qf).to_string(), &ephemeral_vrf_api::ID.to_string(), &d, slot);
            s.view(vec![], slot, true).await;
            // a refresh fails; the next one finds what was not announced
            s.net.blind.store(true, Ordering::SeqCst);
            let n = s.net.asked.load(Ordering::SeqCst);
            s.until(45_000, |s| s.net.asked.load(Ordering::SeqCst) > n).await;
            s.net.blind.store(false, Ordering::SeqCst);
            s.request(qb, "p2");
            s.refreshed().await;
        }
        _ => {
            // a long calm: the blockhash is renewed
            for how in ["no", "failed"] {
                s.answer(qa, &first, Kind::Send, "ok").await;
                s.answer(qa, &first, Kind::Confirm, how).await;
            }
            s.answer(qa, &first, Kind::Send, "ok").await;
            s.answer(qa, &first, Kind::Confirm, "err").await;
            s.answer(qa, &first, Kind::Send, "land").await;
            s.answer(qa, &first, Kind::Confirm, "ok").await;
            let b = s.ids(qb)[0].clone();
            s.answer(qb, &b, Kind::Send, "land").await;
            s.answer(qb, &b, Kind::Confirm, "ok").await;
            s.go(&env("slot", json!({"n": 2})));
            s.notify(qa).await;
            s.notify(qb).await;
            nap(70_000).await;
            s.go(&env("slot", json!({"n": 150})));
            let id = s.request(qa, "p1");
            let (d, slot) = (s.data(qa), s.net.c().node.world.slot);
            s.net.push(&pk(qa).to_string(), &ephemeral_vrf_api::ID.to_string(), &d, slot);
            s.until(12_000, |s| s.outs().contains(&(qa.to_string(), id.clone()))).await;
            nap(300).await;
            // older than 66 s: the cache was not renewed although it checks ten times a second
            let fresh = s.net.c().sends.iter().filter_map(|x| x["hash"].as_u64()).all(|h| s.net.born.lock().unwrap().get(&h).is_some_and(|t| t.elapsed() < Duration::from_secs(68)));
            let views = vec![s.show(qa, &d)];
            if !fresh {
                for x in s.net.c().sends.iter_mut() {
                    x["hash"] = json!(0);
                }
            }
            s.view(views, slot, true).await;
        }
    }
    s.finish()
}

fn main() {
    let a: HashMap<String, String> = std::env::args().skip(2).filter_map(|x| x.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
    mbt::names::init();
    mbt::svm::install();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    match std::env::args().nth(1).as_deref() {
        Some("service") => {
            let n = rt.block_on(scenario(&a["kind"], &a["bin"], &a["out"], 1));
            mbt::summary(&a["out"], &json!({"steps": n, "traces": 1, "missed": 0}));
        }
        Some("genesis") => std::fs::write(&a["out"], format!("{}\n", mbt::world::genesis(1000).project())).unwrap(),
        Some("cli") => rt.block_on(cli::run(&a)),
        _ => panic!("mode"),
    }
    std::process::exit(0);
}
