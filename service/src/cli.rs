//! Runs the operator's command line tool against the simulated node and records what each
//! command did, for CliJudge.tla.
use crate::mock::*;
use crate::Net;
use base64::Engine;
use mbt::names::{keypair, name_of, pk, Rng, WALLETS};
use mbt::world::{call_json, genesis, step, vk_bytes, Node};
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use solana_sdk::transaction::Transaction;
use std::collections::{BTreeSet, HashMap};
use std::io::Write;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Direct {
    pub on: bool,
    /// account queries fail
    pub flaky: bool,
    /// what becomes of a transaction that passed the preflight checks: "" it is executed, "slow" it
    /// is executed and seen later, "raced" it fails, "dropped" it is never executed
    pub fate: String,
    /// signatures of transactions that failed
    pub failed: BTreeSet<String>,
    pub asked: usize,
    pub txs: Vec<Value>,
    pub landed: BTreeSet<String>,
}
/// None: not handled here; Some(None): an error
pub fn answer(d: &Arc<Mutex<Direct>>, m: &Mock, method: &str, p: &Value) -> Option<Option<Value>> {
    let mut d = d.lock().unwrap();
    if !d.on {
        return None;
    }
    match method {
        "sendTransaction" => {
            let raw = base64::engine::general_purpose::STANDARD.decode(p[0].as_str().unwrap_or("")).unwrap_or_default();
            let Ok(tx) = bincode::deserialize::<Transaction>(&raw) else {
                d.txs.push(json!({"payer": "", "nsig": 0, "sig": false, "hash": false, "size": raw.len(), "landed": false, "err": "undecodable", "calls": []}));
                return Some(None);
            };
            let mut c = m.0.lock().unwrap();
            let sig = tx.verify().is_ok();
            let hash = c.hash_slot.contains_key(&tx.message.recent_blockhash);
            let fits = raw.len() <= 1232;
            let (w, o) = c.exec_full(&tx);
            let good = sig && hash && fits && o.ok;
            let landed = good && (d.fate.is_empty() || d.fate == "slow");
            if good && d.fate == "raced" {
                d.failed.insert(tx.signatures[0].to_string());
            }
            if landed {
                c.node.world = w;
                c.node.learn();
                d.landed.insert(tx.signatures[0].to_string());
            }
            d.txs.push(json!({"payer": name_of(&tx.message.account_keys[0]), "nsig": tx.message.header.num_required_signatures, "sig": sig, "hash": hash,
                "size": raw.len(), "landed": landed, "err": o.err, "calls": o.calls.iter().map(call_json).collect::<Vec<_>>()}));
            Some(good.then(|| json!(tx.signatures[0].to_string())))
        }
        "getAccountInfo" | "getMultipleAccounts" | "getProgramAccounts" if d.flaky => Some(None),
        // nodes answer for at most 100 accounts
        "getMultipleAccounts" if p[0].as_array().is_some_and(|v| v.len() > 100) => Some(None),
        "getSignatureStatuses" => {
            let now = m.0.lock().unwrap().node.world.slot;
            d.asked += 1;
            let late = d.fate == "slow" && d.asked < 2;
            let bad = json!({"InstructionError": [1, {"Custom": 1}]});
            let ok = |s: &str| if late { json!(null) } else if d.failed.contains(s) { json!({"slot": now, "confirmations": null, "err": bad, "status": {"Err": bad}, "confirmationStatus": "finalized"}) } else if d.landed.contains(s) { json!({"slot": now, "confirmations": null, "err": null, "status": {"Ok": null}, "confirmationStatus": "finalized"}) } else { json!(null) };
            Some(Some(json!({"context": {"slot": now}, "value": p[0].as_array().map(|v| v.iter().map(|s| ok(s.as_str().unwrap_or(""))).collect::<Vec<_>>()).unwrap_or_default()})))
        }
        "isBlockhashValid" => {
            let now = m.0.lock().unwrap().node.world.slot;
            Some(Some(json!({"context": {"slot": now}, "value": d.fate != "dropped"})))
        }
        _ => None,
    }
}

struct Cli {
    net: Net,
    bin: String,
    states: HashMap<String, usize>,
    sf: std::fs::File,
    pf: std::fs::File,
    steps: usize,
}
#[derive(Clone)]
struct At {
    node: Node,
    st: usize,
    /// the events that led here
    hist: Arc<Vec<Value>>,
}
fn text<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}
/// the n-th thing that is not the given key (or number)
fn malformed(good: &str, n: u64) -> String {
    if good.parse::<Pubkey>().is_err() {
        return ["", "x", "-1", "4294967296", "1.5"][n as usize % 5].to_string();
    }
    match n % 5 {
        0 => String::new(),
        1 => "no-such-key".into(),
        2 => good[1..].chars().take(30).collect(),
        3 => format!("{good}11"),
        _ => format!("{}0", &good[..good.len() - 1]),
    }
}
fn args(c: &Value) -> Vec<String> {
    let mut v = good_args(c);
    if let Some(n) = c["bad"].as_u64() {
        // one of the values
        let i = 2 + 2 * (n as usize % ((v.len() - 1) / 2));
        v[i] = malformed(&v[i], n / 4);
    }
    v
}
fn good_args(c: &Value) -> Vec<String> {
    let key = |k: &str| pk(text(c, k)).to_string();
    let v: Vec<String> = match text(c, "cmd") {
        "init" => vec!["initialize".into()],
        "add" => vec!["add-oracle".into(), "--identity".into(), key("id"), "--oracle-pubkey".into(), Pubkey::new_from_array(vk_bytes(text(c, "vk"))).to_string()],
        "remove" => vec!["remove-oracle".into(), "--identity".into(), key("id")],
        "initq" => {
            let mut v = vec!["initialize-oracle-queue".into(), "--identity".into(), key("id"), "--index".into(), c["idx"].to_string()];
            if c["size"] != 0 {
                v.extend(["--bytes-to-allocate".to_string(), c["size"].to_string()]);
            }
            v
        }
        "delegate" => vec!["delegate-oracle-queue".into(), "--queue".into(), key("q")],
        "undelegate" => vec!["undelegate-oracle-queue".into(), "--queue".into(), key("q")],
        "close" => vec!["close-oracle-queue".into(), "--queue".into(), key("q")],
        "derive" => vec!["derive-pubkey".into()],
        "list" => vec!["list-queue".into()],
        x => panic!("command {x}"),
    };
    v
}
/// "Queue address: K, items: N, index: I, delegated: B"
fn row(l: &str) -> Option<Value> {
    let mut f = HashMap::new();
    for p in l.split(", ") {
        let (k, v) = p.split_once(": ")?;
        f.insert(k.trim().to_string(), v.trim().to_string());
    }
    let q: Pubkey = f.get("Queue address")?.parse().ok()?;
    Some(json!({"q": name_of(&q), "n": f.get("items")?.parse::<u64>().ok()?, "idx": f.get("index")?.parse::<u64>().ok()?, "dlg": f.get("delegated")? == "true"}))
}
impl Cli {
    fn state(&mut self, n: &Node) -> usize {
        let k = n.project().to_string();
        let no = self.states.len() + 1;
        let sf = &mut self.sf;
        *self.states.entry(k).or_insert_with_key(|k| {
            sf.write_all(format!("{k}\n").as_bytes()).unwrap();
            no
        })
    }
    fn at(&mut self, node: Node, hist: Vec<Value>) -> At {
        let st = self.state(&node);
        At { node, st, hist: Arc::new(hist) }
    }
    /// a command, run from the given state
    async fn command(&mut self, from: &At, c: &Value) -> At {
        self.net.c().node = from.node.clone();
        {
            let mut d = self.net.direct.lock().unwrap();
            d.txs.clear();
            d.on = true;
            d.flaky = c["flaky"] == true;
            d.fate = text(c, "fate").to_string();
            d.asked = 0;
            d.failed.clear();
        }
        let mut cmd = std::process::Command::new(&self.bin);
        cmd.args(["--rpc-url", &self.net.rpc, "--keypair", &keypair(text(c, "who")).to_base58_string()]).args(args(c));
        cmd.env_remove("RPC_URL").env_remove("KEYPAIR_BASE58").env_remove("RUST_BACKTRACE");
        cmd.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
        let (code, out, err) = tokio::task::spawn_blocking(move || {
            let mut ch = cmd.spawn().unwrap();
            let end = Instant::now() + Duration::from_secs(100);
            let code = loop {
                match ch.try_wait().unwrap() {
                    Some(s) => break s.code().unwrap_or(-1),
                    None if Instant::now() > end => {
                        let _ = ch.kill();
                        break -2;
                    }
                    None => std::thread::sleep(Duration::from_millis(4)),
                }
            };
            let o = ch.wait_with_output().unwrap();
            (code, String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string())
        })
        .await
        .unwrap();
        let txs = std::mem::take(&mut self.net.direct.lock().unwrap().txs);
        let rows: Vec<Value> = out.lines().filter_map(row).collect();
        let key = WALLETS
            .iter()
            .find(|w| {
                let (_, k) = ephemeral_vrf::vrf::generate_vrf_keypair(&keypair(w));
                let k = Pubkey::new_from_array(k.compress().to_bytes()).to_string();
                out.split(|c: char| !c.is_ascii_alphanumeric()).any(|x| x == k)
            })
            .map(|w| w.to_string())
            .unwrap_or_default();
        let node = self.net.c().node.clone();
        let mut hist = (*from.hist).clone();
        hist.push(c.clone());
        let to = self.at(node, hist);
        self.steps += 1;
        let r = json!({"exit": code, "txs": txs, "rows": rows, "key": key});
        let mut r2 = r.clone();
        if code != 0 {
            r2["said"] = json!(err.lines().last().unwrap_or("").chars().take(200).collect::<String>());
        }
        let v = json!({"f": from.st, "t": to.st, "c": c, "r": r2, "hist": *to.hist});
        self.pf.write_all(format!("{v}\n").as_bytes()).unwrap();
        to
    }
    fn event(&mut self, from: &At, e: &Value) -> At {
        let (node, _, _) = step(&from.node, e);
        let mut hist = (*from.hist).clone();
        hist.push(e.clone());
        self.at(node, hist)
    }
}
fn random(r: &mut Rng, at: &At) -> Value {
    let os = ["o1", "o2", "adm", "alice", "o3"];
    let who = *r.pick(&os);
    let id = if who != "adm" && r.chance(2, 3) { who } else { *r.pick(&["o1", "o2", "o3", "mallory"]) };
    let idx = *r.pick(&[0u64, 1, 255]);
    let have: Vec<String> = mbt::names::queue_names().into_iter().filter(|q| at.node.world.accts.contains_key(&pk(q))).collect();
    let q = if r.chance(1, 12) {
        // accounts that are no queues
        r.pick(&["od:o1", "oracles", "alice", "vrf"]).to_string()
    } else if !have.is_empty() && r.chance(3, 4) { r.pick(&have).clone() } else { format!("q:{id}:{idx}") };
    let size = *r.pick(&[0u64, 1, 19, 20, 150, 9_999, 10_239, 10_240, 10_241, 20_480, 20_481, 30_720, 30_721, 40_960, 51_201, 65_536, 75_777, 100_000, 131_073, 204_801, 260_000, 330_000]);
    let cmd = *r.pick(&["init", "add", "add", "remove", "initq", "initq", "initq", "delegate", "undelegate", "close", "close", "list"]);
    let who = match cmd {
        "add" | "remove" => *r.pick(&["adm", "adm", "adm2", "o1"]),
        "delegate" | "undelegate" | "close" if r.chance(2, 3) => os.iter().find(|o| q.starts_with(&format!("q:{o}:"))).unwrap_or(&who),
        _ => who,
    };
    let vk = if cmd == "add" { format!("v:{}", if id == "o3" { "o3" } else { "o1b" }) } else { String::new() };
    let (id, idx, size, q) = match cmd {
        "add" | "remove" => (id, 0, 0, String::new()),
        "initq" => (id, idx, size, String::new()),
        "delegate" | "undelegate" | "close" => ("", 0, 0, q),
        _ => ("", 0, 0, String::new()),
    };
    json!({"cmd": cmd, "who": who, "id": id, "vk": vk, "idx": idx, "size": size, "q": q})
}

pub async fn run(a: &HashMap<String, String>) {
    let dir = &a["out"];
    std::fs::create_dir_all(dir).unwrap();
    let net = Net::start(genesis(1000)).await;
    let file = |n: &str| std::fs::File::create(format!("{dir}/{n}")).unwrap();
    let mut c = Cli { net, bin: a["bin"].clone(), states: HashMap::new(), sf: file("states.ndjson"), pf: file("steps.ndjson"), steps: 0 };
    let mut rng = Rng(a["seed"].parse::<u64>().unwrap() ^ 0xc11);
    let end = Instant::now() + Duration::from_secs(a["secs"].parse().unwrap());
    let mut traces = 0;
    let root = c.at(genesis(1000), vec![]);
    if let Some(p) = a.get("in") {
        // replay one history
        let h: Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
        let mut at = root;
        for e in h["events"].as_array().unwrap() {
            at = if e.get("cmd").is_some() { c.command(&at, e).await } else { c.event(&at, e) };
        }
    } else {
        let alpha: Value = serde_json::from_str(&std::fs::read_to_string(&a["alphabet"]).unwrap()).unwrap();
        let cmds = alpha["cmds"].as_array().unwrap().clone();
        let events = alpha["events"].as_array().unwrap().clone();
        let mut paths: Vec<Vec<usize>> = mbt::read_lines(&a["paths"]).iter().map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect();
        for i in (1..paths.len()).rev() {
            paths.swap(i, rng.below(i + 1));
        }
        let mut root = root;
        for i in alpha["prefix"].as_array().unwrap() {
            let i = i.as_u64().unwrap() as usize - 1;
            root = if i < cmds.len() { c.command(&root, &cmds[i]).await } else { c.event(&root, &events[i - cmds.len()]) };
        }
        let mut trie: HashMap<Vec<usize>, At> = HashMap::from([(vec![], root)]);
        for p in &paths {
            if Instant::now() > end {
                break;
            }
            for l in 1..=p.len() {
                if !trie.contains_key(&p[..l]) {
                    let from = trie[&p[..l - 1]].clone();
                    let i = p[l - 1] - 1;
                    let to = if i < cmds.len() { c.command(&from, &cmds[i]).await } else { c.event(&from, &events[i - cmds.len()]) };
                    trie.insert(p[..l].to_vec(), to);
                }
            }
            traces += 1;
            let at = trie[p].clone();
            for _ in 0..3 {
                let e = rng.pick(&cmds).clone();
                c.command(&at, &e).await;
            }
            for _ in 0..3 {
                let mut e = random(&mut rng, &at);
                if matches!(text(&e, "cmd"), "delegate" | "undelegate" | "close" | "list") && rng.chance(1, 6) {
                    e["flaky"] = json!(true);
                } else if text(&e, "cmd") != "list" && rng.chance(1, 5) {
                    e["fate"] = json!(rng.pick(&["raced", "dropped", "slow"]));
                } else if !matches!(text(&e, "cmd"), "list" | "init") && rng.chance(1, 5) {
                    e["bad"] = json!(rng.below(1000));
                }
                c.command(&at, &e).await;
            }
        }
    }
    mbt::summary(dir, &json!({"steps": c.steps, "states": c.states.len(), "traces": traces}));
}
