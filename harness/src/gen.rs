//! Event generation: valid events for the present state, and adversarial mutations.
use crate::names::{hex, Rng};
use serde_json::{json, Value};

pub fn a(k: &str, s: bool, w: bool) -> Value {
    json!({"k": k, "s": s, "w": w})
}
fn ev(ix: &str, acc: Vec<Value>, x: Value, o: Value, b: &str, via: &str) -> Value {
    json!({"ix": ix, "acc": acc, "x": x, "o": o, "b": b, "via": via})
}
pub fn e_init(who: &str) -> Value {
    ev("init", vec![a(who, true, true), a("oracles", false, true), a("sys", false, false)], json!({"none": 0}), json!({"signer": who}), "api", "")
}
pub fn e_modify(who: &str, id: &str, vk: &str, op: u64) -> Value {
    ev("modify", vec![a(who, true, true), a("oracles", false, true), a(&format!("od:{id}"), false, true), a("pd", false, false), a("sys", false, false)],
        json!({"id": id, "vk": vk, "op": op}), json!({"signer": who}), "api", "")
}
/// the whole list of instructions of the builder as one transaction; size 0: the default
pub fn e_initall(who: &str, o: &str, i: u64, size: u64) -> Value {
    let mut e = e_initq(who, o, i, if size == 0 { 9500 } else { size });
    e["ix"] = json!("initall");
    e["b"] = json!("api");
    e["x"]["opt"] = json!(size != 0);
    e
}
pub fn e_initq(who: &str, o: &str, i: u64, size: u64) -> Value {
    ev("initq", vec![a(who, true, true), a(o, true, who == o), a(&format!("od:{o}"), false, true), a(&format!("q:{o}:{i}"), false, true), a("sys", false, false)],
        json!({"idx": i, "size": size}), json!({"signer": who, "oracle": o, "step": 0}), "api", "")
}
#[allow(clippy::too_many_arguments)]
pub fn e_request(who: &str, p: &str, q: &str, seed: u64, prio: u64, disc: &str, metas: Vec<Value>, args: &str) -> Value {
    ev("request", vec![a(who, true, true), a(&format!("id:{p}"), true, false), a(q, false, true), a("sys", false, false), a("sh", false, false)],
        json!({"seed": seed, "prog": p, "disc": disc, "metas": metas, "args": args, "prio": prio}),
        json!({"payer": who, "queue": q}), "sdk", p)
}
pub fn e_provide(o: &str, vk: &str, q: &str, id: &str, p: &str, metas: Vec<Value>) -> Value {
    let mut acc = vec![a(o, true, true), a("vrfid", false, false), a(&format!("od:{o}"), false, false), a(q, false, true), a(p, false, false)];
    acc.extend(metas);
    ev("provide", acc, json!({"input": id, "by": vk, "over": id, "tam": "none"}), json!({"oracle": o, "queue": q, "prog": p}), "api", "")
}
pub fn e_purge(o: &str, i: u64) -> Value {
    ev("purge", vec![a(o, false, true), a(&format!("q:{o}:{i}"), false, true)], json!({"idx": i}), json!({"oracle": o}), "api", "")
}
pub fn e_close(o: &str, i: u64) -> Value {
    ev("close", vec![a(o, true, true), a(&format!("od:{o}"), false, true), a(&format!("q:{o}:{i}"), false, true)], json!({"idx": i}), json!({"oracle": o}), "api", "")
}
pub fn e_delegate(o: &str, i: u64) -> Value {
    let q = format!("q:{o}:{i}");
    ev("delegate", vec![a(o, true, true), a(&q, false, true), a(&format!("buf:{q}"), false, true), a(&format!("rec:{q}"), false, true),
        a(&format!("meta:{q}"), false, true), a("dlp", false, false), a("vrf", false, false), a("sys", false, false)],
        json!({"idx": i}), json!({"oracle": o, "queue": q}), "api", "")
}
pub fn e_undelegate(o: &str, i: u64) -> Value {
    let q = format!("q:{o}:{i}");
    ev("undelegate", vec![a(o, true, true), a(&q, false, true), a("mctx", false, true), a("magic", false, false)],
        json!({"idx": i}), json!({"oracle": o, "queue": q}), "api", "")
}
pub fn e_transfer(who: &str, k: &str, n: u64) -> Value {
    ev("transfer", vec![a(who, true, true), a(k, false, true)], json!({"n": n}), json!({"none": 0}), "", "")
}
pub fn env(ix: &str, x: Value) -> Value {
    ev(ix, vec![], x, json!({"none": 0}), "", "")
}
pub fn e_pund(target: &str, buf: &str, payer: &str, signs: bool) -> Value {
    ev("pund", vec![a(target, false, true), a(buf, signs, false), a(payer, true, true), a("sys", false, false)],
        json!({"target": target}), json!({"none": 0}), "", "")
}
pub fn e_raw(acc: Vec<Value>, data: &[u8]) -> Value {
    ev("raw", acc, json!({"data": hex(data)}), json!({"none": 0}), "", "")
}

// ---------------------------------------------------------------- views of a projected state
fn keys(v: &Value) -> Vec<String> {
    v.as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default()
}
pub fn owner_of(q: &str) -> Option<(String, u64)> {
    let r = q.strip_prefix("q:")?;
    let (o, i) = r.rsplit_once(':')?;
    Some((o.into(), i.parse().ok()?))
}

const ACCS: &[&str] = &["acc1", "acc2", "acc3", "acc4"];

fn metas(r: &mut Rng, max: usize) -> Vec<Value> {
    let n = match r.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 => r.below(max.min(6) + 1),
        _ => r.below(max + 1),
    };
    (0..n)
        .map(|_| {
            let k = match r.below(10) {
                0 => "alice",
                1 => "o1",
                2 => "vrfid",
                3 => "p1",
                _ => r.pick(ACCS),
            };
            let k = k.to_string();
            let w = r.chance(1, 2) && k != "p1" && k != "vrfid";
            json!({"k": k, "s": r.chance(1, 5), "w": w})
        })
        .collect()
}

pub fn gen_request(r: &mut Rng, q: &str) -> Value {
    let who = *r.pick(&["alice", "alice", "alice", "bob", "mallory", "adm"]);
    let p = *r.pick(&["p1", "p1", "p2", "p3", "pf", "pr", "pa"]);
    let dl = *r.pick(&[0usize, 1, 4, 7, 8, 8, 8]);
    let al = match r.below(8) {
        0 => 0,
        1 => *r.pick(&[255usize, 256, 257, 300, 511, 512]),
        2 => r.below(513),
        _ => r.below(40),
    };
    let big = r.chance(1, 6);
    let m = if r.chance(1, 25) {
        (0..20).map(|i| json!({"k": ACCS[i % 4], "s": false, "w": i % 3 == 0})).collect()
    } else {
        metas(r, if big { 20 } else { 3 })
    };
    // small seeds on purpose: identical requests must still get different ids
    let seed = r.below(3) as u64;
    // the Anchor program knows one callback
    let disc = if p == "pa" && !r.chance(1, 8) { vec![9, 8, 7] } else { r.bytes(dl) };
    let args = r.bytes(al);
    let mut e = e_request(who, p, q, seed, r.below(2) as u64, &hex(&disc), m, &hex(&args));
    if p == "pa" && r.chance(2, 3) {
        e["b"] = json!("macro");
    }
    e
}

/// requests whose callback programs forward the signature of the program identity
pub fn relays(r: &mut Rng, e: &Value) -> Value {
    let p = *r.pick(&["px", "px", "px", "p1", "pv"]);
    let n = r.below(4);
    let m: Vec<Value> = (0..n).map(|_| json!({"k": *r.pick(&["pv", "pv", "p2", "px", "vrfid", "acc1", "vrf"]), "s": false, "w": false})).collect();
    let mut f = e_request(e["o"]["payer"].as_str().unwrap_or("alice"), p, e["o"]["queue"].as_str().unwrap_or("q:o1:0"), r.below(3) as u64, r.below(2) as u64, "0102", m, "03");
    f["b"] = e["b"].clone();
    f
}

/// fulfilment of a pending item, with everything a correct client supplies
pub fn provide_item(q: &str, item: &Value, vk: &str) -> Value {
    let (o, _) = owner_of(q).unwrap_or(("o1".into(), 0));
    let m: Vec<Value> = item["metas"].as_array().unwrap().iter().map(|m| a(m["k"].as_str().unwrap(), false, m["w"].as_bool().unwrap())).collect();
    e_provide(&o, vk, q, item["id"].as_str().unwrap(), item["prog"].as_str().unwrap(), m)
}

pub fn all_items(p: &Value) -> Vec<(String, Value)> {
    let mut v = vec![];
    for q in keys(&p["q"]) {
        for it in p["q"][&q]["items"].as_array().unwrap() {
            v.push((q.clone(), it.clone()));
        }
    }
    v
}
pub fn vk_of(p: &Value, o: &str) -> String {
    p["od"][o]["vk"].as_str().unwrap_or("v:o1").to_string()
}

/// weights: request, provide, purge, close, initq, modify, slot, delegate/back, fund, auth, init, undelegate
pub struct Profile {
    pub w: [usize; 12],
    pub mutate: usize, // out of 100
}
pub fn profile(focus: &str) -> Profile {
    let (w, mutate) = match focus {
        "C01" => ([30, 30, 3, 1, 2, 2, 16, 2, 1, 1, 0, 0], 60),
        "C02" => ([34, 30, 8, 1, 2, 1, 14, 3, 1, 0, 0, 0], 30),
        "C03" => ([34, 34, 3, 1, 2, 1, 14, 1, 1, 0, 0, 0], 35),
        "C04" => ([55, 10, 4, 2, 5, 2, 8, 4, 1, 0, 0, 0], 50),
        "C05" => ([34, 34, 4, 1, 1, 1, 20, 1, 0, 0, 0, 0], 15),
        "C06" => ([48, 22, 10, 2, 3, 1, 5, 2, 0, 0, 0, 0], 10),
        "C07" => ([30, 22, 10, 6, 8, 6, 12, 4, 6, 0, 1, 0], 25),
        "C08" => ([38, 8, 26, 2, 3, 1, 18, 3, 1, 0, 0, 0], 35),
        "C09" => ([6, 4, 2, 8, 10, 45, 14, 1, 3, 8, 3, 0], 50),
        "C10" => ([8, 4, 4, 10, 40, 12, 16, 4, 6, 1, 1, 0], 45),
        "C11" => ([14, 10, 4, 26, 16, 16, 14, 6, 2, 0, 0, 1], 35),
        "C18" => ([34, 34, 2, 1, 2, 1, 16, 8, 1, 0, 0, 2], 30),
        "C13" => ([14, 8, 6, 8, 8, 3, 10, 36, 2, 0, 0, 6], 45),
        _ => ([25, 20, 6, 6, 8, 8, 12, 8, 3, 2, 1, 2], 20),
    };
    Profile { w, mutate }
}

pub fn gen_event(r: &mut Rng, p: &Value, prof: &Profile) -> Value {
    let total: usize = prof.w.iter().sum();
    let mut t = r.below(total);
    let mut kind = 0;
    while t >= prof.w[kind] {
        t -= prof.w[kind];
        kind += 1;
    }
    let qs: Vec<String> = keys(&p["q"]);
    let mine: Vec<String> = qs.iter().filter(|q| q.starts_with("q:")).cloned().collect();
    let anyq = |r: &mut Rng| -> String {
        if mine.is_empty() || r.chance(1, 30) {
            r.pick(&["q:o1:0", "q:o2:0", "eq", "q:o3:1"]).to_string()
        } else {
            r.pick(&mine).clone()
        }
    };
    let oracles = ["o1", "o1", "o2", "o3", "o4"];
    let auth = p["auth"].as_str().unwrap().to_string();
    let adm = if auth == "none" { "adm".to_string() } else { auth };
    match kind {
        0 => {
            let q = anyq(r);
            gen_request(r, &q)
        }
        1 => {
            let items = all_items(p);
            let items: Vec<_> = items.into_iter().filter(|(q, _)| q != "eq" || r.chance(1, 8)).collect();
            if items.is_empty() {
                return env("slot", json!({"n": 1}));
            }
            let (q, it) = r.pick(&items).clone();
            let vk = owner_of(&q).map(|(o, _)| vk_of(p, &o)).unwrap_or("v:o1".into());
            provide_item(&q, &it, &vk)
        }
        2 | 3 => {
            let q = anyq(r);
            let (o, i) = owner_of(&q).unwrap_or(("o1".into(), 0));
            if kind == 2 {
                e_purge(&o, i)
            } else {
                e_close(&o, i)
            }
        }
        4 => {
            let part: Vec<String> = mine.iter().filter(|q| p["q"][*q]["st"] == "part").cloned().collect();
            let (o, i) = if !part.is_empty() && r.chance(2, 3) {
                owner_of(r.pick::<String>(&part)).unwrap()
            } else {
                (r.pick(&oracles).to_string(), *r.pick(&[0u64, 0, 1, 255]))
            };
            let size = match r.below(8) {
                0 => 20 + r.below(30) as u64,
                1 => 10240,
                2 => 10241,
                3 => 20480,
                4 => 9500,
                5 => 12_000 + r.below(9_000) as u64,
                _ => 200 + r.below(2500) as u64,
            };
            let who = *r.pick(&["alice", o.as_str(), "adm"]);
            let who = who.to_string();
            if r.chance(1, 3) {
                let size = *r.pick(&[0, 0, 1, 19, 20, 9500, 10239, 10240, 10241, 20480, 20481, 30_720, 31_000, size]);
                return e_initall(&who, &o, i, size);
            }
            e_initq(&who, &o, i, size)
        }
        5 => {
            let id = r.pick(&oracles).to_string();
            let reg = !p["od"][&id].is_null();
            let op = if r.chance(1, 6) { !reg as u64 ^ 1 ^ 1 } else { reg as u64 };
            let vk = match r.below(6) {
                0 => format!("v:{id}b"),
                _ => format!("v:{id}"),
            };
            let vk = if vk == "v:o3b" || vk == "v:o4b" { "v:bad".to_string() } else { vk };
            e_modify(&adm, &id, &vk, op)
        }
        6 if r.chance(1, 40) => {
            let gone: Vec<&str> = p["gone"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            let k = *r.pick(&["p2", "p3", "pa"]);
            env("prog", json!({"k": k, "on": gone.contains(&k)}))
        }
        6 => env("slot", json!({"n": *r.pick(&[1u64, 1, 1, 1, 2, 3, 40, 120, 199, 200, 239, 240, 241, 500])})),
        7 => {
            let del: Vec<String> = mine.iter().filter(|q| p["q"][*q]["own"] == "dlp").cloned().collect();
            if !del.is_empty() && r.chance(2, 3) {
                let q = r.pick(&del).clone();
                return match r.below(5) {
                    0 => env("ercommit", json!({"q": q, "n": 1 + r.below(2)})),
                    1 => e_pund(&q, "kb", "mallory", true),
                    2 => e_pund(&q, &format!("undbuf:{q}"), "mallory", false),
                    _ => env("dlpback", json!({"q": q, "payer": "alice"})),
                };
            }
            let q = anyq(r);
            let (o, i) = owner_of(&q).unwrap_or(("o1".into(), 0));
            e_delegate(&o, i)
        }
        8 => {
            let k = match r.below(6) {
                0 => "oracles".to_string(),
                1 => format!("od:{}", r.pick(&oracles)),
                _ => {
                    let i = *r.pick(&[0u64, 1]);
                    format!("q:{}:{}", r.pick(&oracles), i)
                }
            };
            env("fund", json!({"k": k, "n": *r.pick(&[12_000u64, 20_000, 50_000, 200_000, 2_000_000])}))
        }
        9 => env("auth", json!({"k": *r.pick(&["adm", "adm", "adm2", "alice", "none"])})),
        10 => e_init(*r.pick(&["alice", "adm", "mallory"])),
        _ => {
            let q = anyq(r);
            let (o, i) = owner_of(&q).unwrap_or(("o1".into(), 0));
            e_undelegate(&o, i)
        }
    }
}

// ---------------------------------------------------------------- transactions of several instructions
fn inside(e: &Value) -> bool {
    !matches!(e["ix"].as_str().unwrap(), "slot" | "fund" | "auth" | "prog" | "ercommit" | "initall" | "tx" | "probe")
}
/// The next instruction of a transaction that already holds the events es and has led to p.
pub fn next_inside(r: &mut Rng, p: &Value, prof: &Profile, es: &[Value]) -> Value {
    if let Some(l) = es.last() {
        match r.below(8) {
            // the same once more
            0 => return l.clone(),
            // lamports for an account that may just have been emptied
            1..=3 => {
                let w: Vec<&str> = l["acc"].as_array().unwrap().iter().filter(|a| a["w"] == true).map(|a| a["k"].as_str().unwrap()).collect();
                let fits = |k: &&&str| k.starts_with("q:") || k.starts_with("od:") || **k == "oracles";
                let w: Vec<&str> = w.iter().filter(fits).cloned().collect();
                if !w.is_empty() && l["ix"] != "transfer" {
                    let k = *r.pick(&w);
                    return e_transfer(*r.pick(&["alice", "mallory", "adm"]), k, *r.pick(&[12_000u64, 50_000, 600_000, 2_000_000]));
                }
            }
            _ => {}
        }
    }
    loop {
        // often something that empties an account
        if es.is_empty() && r.chance(1, 3) {
            let mut v: Vec<Value> = vec![];
            for q in keys(&p["q"]) {
                if p["q"][&q]["st"] == "live" && p["q"][&q]["items"].as_array().unwrap().is_empty() {
                    if let Some((o, i)) = owner_of(&q) {
                        v.push(e_close(&o, i));
                    }
                }
            }
            for o in keys(&p["od"]) {
                if p["od"][&o]["open"] == 0 {
                    v.push(e_modify(p["auth"].as_str().unwrap(), &o, &vk_of(p, &o), 1));
                }
            }
            if !v.is_empty() {
                return r.pick(&v).clone();
            }
        }
        let e = gen_event(r, p, prof);
        if inside(&e) && e["b"] != "macro" {
            let mut e = if r.chance(prof.mutate, 400) { mutate(r, &e, p) } else { e };
            e["b"] = json!("");
            return e;
        }
        if r.chance(1, 20) {
            return e_purge("o1", 0);
        }
    }
}
pub fn e_tx(es: &[Value]) -> Value {
    let mut e = env("tx", json!({"none": 0}));
    e["es"] = json!(es);
    e
}

// ---------------------------------------------------------------- mutations
fn pool(r: &mut Rng, p: &Value) -> String {
    let mut v: Vec<String> = ["adm", "alice", "bob", "mallory", "o1", "o2", "o3", "sys", "vrf", "dlp", "magic", "mctx", "eq",
        "vrfid", "sh", "fsh", "oracles", "pd", "fpd", "kb", "kc", "kv", "rbh", "p1", "p2", "p3", "pf", "px", "acc1", "id:p1", "id:p2", "od:o1", "od:o2",
        "q:o1:0", "q:o1:1", "q:o2:0"].iter().map(|s| s.to_string()).collect();
    v.extend(keys(&p["q"]));
    r.pick(&v).clone()
}
const TAMPERS: &[&str] = &["out", "cb", "ch", "s", "swap", "zero", "half1", "half2"];

fn tag_of(e: &Value) -> u64 {
    match e["ix"].as_str().unwrap() {
        "modify" => 1,
        "initq" => 2,
        "request" => if e["x"]["prio"] == 1 { 3 } else { 8 },
        "provide" => 4,
        "delegate" => 5,
        "undelegate" => 6,
        "close" => 7,
        "purge" => 9,
        _ => 0,
    }
}
/// Mutate one event; the specification decides whether the result is still acceptable.
pub fn mutate(r: &mut Rng, e: &Value, p: &Value) -> Value {
    let mut e = e.clone();
    if e["ix"] == "initall" || e["ix"] == "tx" || e["ix"] == "transfer" {
        return e;
    }
    e["b"] = json!("");
    let n = e["acc"].as_array().map(|v| v.len()).unwrap_or(0);
    if n == 0 {
        return e;
    }
    if r.chance(1, 25) && e["ix"] != "raw" && e["ix"] != "pund" {
        // another tag on a valid payload, or a payload cut short
        let x = if r.chance(2, 3) {
            let t = loop {
                let t = if r.chance(1, 2) { tag_of(&e) ^ (1 << r.below(8)) } else { r.below(256) as u64 };
                if t > 9 && t != 196 {
                    break t;
                }
                if r.chance(1, 4) {
                    break 10 + r.below(180) as u64;
                }
            };
            json!({"from": e["ix"], "args": e["x"], "tag": t})
        } else {
            json!({"from": e["ix"], "args": e["x"], "cut": 1 + { let m = if r.chance(1, 2) { 8 } else { 400 }; r.below(m) }})
        };
        e["ix"] = json!("raw");
        e["x"] = x;
        return e;
    }
    let ix = e["ix"].as_str().unwrap().to_string();
    let full = match ix.as_str() {
        "purge" => 2,
        "init" | "close" => 3,
        "undelegate" => 4,
        "delegate" => 8,
        _ => 5,
    };
    let arg = n >= full && r.chance(1, 2);
    if !arg {
        let i = r.below(n);
        match r.below(9) {
            0 | 1 => {
                // somebody does not sign
                let sig: Vec<usize> = (0..n).filter(|j| e["acc"][*j]["s"] == true).collect();
                let j = if sig.is_empty() { i } else { *r.pick(&sig) };
                e["acc"][j]["s"] = json!(false);
            }
            2 => {
                let wr: Vec<usize> = (0..n).filter(|j| e["acc"][*j]["w"] == true).collect();
                let j = if wr.is_empty() { i } else { *r.pick(&wr) };
                e["acc"][j]["w"] = json!(false);
            }
            3..=5 => {
                let k = pool(r, p);
                e["acc"][i]["k"] = json!(k);
            }
            6 => {
                // another wallet in every place where this one stands
                let from = e["acc"][i]["k"].clone();
                let to = json!(*r.pick(&["mallory", "o2", "o1", "alice"]));
                for j in 0..n {
                    if e["acc"][j]["k"] == from {
                        e["acc"][j]["k"] = to.clone();
                    }
                }
            }
            7 => {
                e["acc"].as_array_mut().unwrap().pop();
            }
            _ => {
                let j = r.below(n);
                let (x, y) = (e["acc"][i].clone(), e["acc"][j].clone());
                e["acc"][i] = y;
                e["acc"][j] = x;
            }
        }
        return e;
    }
    match ix.as_str() {
        "provide" => {
            let seen = p["seen"].as_array().unwrap();
            let other = |r: &mut Rng| -> Value {
                if seen.is_empty() || r.chance(1, 8) {
                    json!("r999")
                } else {
                    seen[r.below(seen.len())].clone()
                }
            };
            match r.below(11) {
                0 | 10 => {
                    let mut o = other(r);
                    if r.chance(1, 2) {
                        // differs from a real id in one byte only
                        let base = if r.chance(3, 4) { e["x"]["input"].clone() } else { o };
                        // (of an id as it is: flipping a bit twice would restore it)
                        let base = base.as_str().unwrap().split('^').next().unwrap();
                        o = json!(format!("{}^{}", base, *r.pick(&[0usize, 7, 8, 15, 16, 23, 24, 30, 31])));
                        e["x"]["over"] = o.clone();
                    }
                    e["x"]["input"] = o.clone();
                    if r.chance(1, 2) {
                        e["x"]["over"] = o;
                    }
                }
                1 => e["x"]["over"] = other(r),
                2 => e["x"]["by"] = json!(*r.pick(&["v:mallory", "v:o1", "v:o2", "v:o1b", "v:o3"])),
                3 => {
                    // a whole different oracle serves it, with its own data and proof
                    let o = *r.pick(&["o1", "o2", "o3", "mallory"]);
                    e["acc"][0]["k"] = json!(o);
                    e["acc"][2]["k"] = json!(format!("od:{o}"));
                    e["x"]["by"] = json!(vk_of(p, o));
                }
                4 => {
                    // the right oracle's data, signed by somebody else
                    e["acc"][0]["k"] = json!(*r.pick(&["mallory", "alice", "o2"]));
                }
                5 => {
                    // somebody else with his own data against this queue
                    let o = *r.pick(&["o2", "o3", "o4"]);
                    e["acc"][0]["k"] = json!(o);
                    e["acc"][2]["k"] = json!(format!("od:{o}"));
                    e["x"]["by"] = json!(vk_of(p, o));
                }
                6 => {
                    // missing / extra callback accounts
                    if r.chance(1, 2) && n > 5 {
                        e["acc"].as_array_mut().unwrap().pop();
                    } else {
                        let k = pool(r, p);
                        e["acc"].as_array_mut().unwrap().push(a(&k, false, r.chance(1, 2)));
                    }
                }
                _ => e["x"]["tam"] = json!(*r.pick(TAMPERS)),
            }
        }
        "request" => match r.below(12) {
            0 => {
                let n = *r.pick(&[9usize, 10, 16]);
                e["x"]["disc"] = json!(hex(&r.bytes(n)));
            }
            1 => {
                let n = *r.pick(&[513usize, 514, 700, 1024]);
                e["x"]["args"] = json!(hex(&r.bytes(n)));
            }
            2 => {
                let n = *r.pick(&[21usize, 22, 30]);
                e["x"]["metas"] = (0..n).map(|i| json!({"k": ACCS[i % 4], "s": false, "w": false})).collect();
            }
            3 => {
                let n = *r.pick(&[512usize, 511]);
                e["x"]["args"] = json!(hex(&r.bytes(n)));
            }
            4 => e["x"]["prog"] = json!(*r.pick(&["p1", "p2", "p3"])),
            5 => {
                let p = *r.pick(&["p1", "p2", "p3"]);
                e["via"] = json!(p);
            }
            6 => e["via"] = json!(""),
            7 => e["acc"][4]["k"] = json!(*r.pick(&["fsh", "rbh"])),
            8 => {
                let who = *r.pick(&["bob", "mallory", "adm"]);
                e["acc"][0]["k"] = json!(who);
            }
            9 => {
                // identity and caller of another program
                let p = *r.pick(&["p1", "p2", "p3"]);
                e["via"] = json!(p);
                e["acc"][1]["k"] = json!(if r.chance(1, 3) {
                    // an account of that program in place of its identity
                    e["x"]["prog"] = json!("p1");
                    e["via"] = json!(*r.pick(&["", "p2"]));
                    "kc".to_string()
                } else {
                    format!("id:{p}")
                });
            }
            10 => {
                e["acc"][2]["k"] = json!(pool(r, p));
            }
            _ => {
                let n = *r.pick(&[8usize, 7, 3, 0]);
                e["x"]["disc"] = json!(hex(&r.bytes(n)));
            }
        },
        "modify" => match r.below(6) {
            0 => e["x"]["id"] = json!(*r.pick(&["offcurve", "sys"])),
            1 => e["x"]["op"] = json!(*r.pick(&[2u64, 3, 255])),
            2 => {
                e["acc"][0]["k"] = json!("mallory");
                if r.chance(1, 2) {
                    e["acc"][3]["k"] = json!("fpd");
                }
            }
            3 => {
                let id = *r.pick(&["o1", "o2", "o3"]);
                e["x"]["id"] = json!(id);
                if r.chance(1, 2) {
                    e["acc"][2]["k"] = json!(format!("od:{id}"));
                }
            }
            4 => {
                let op = e["x"]["op"].as_u64().unwrap();
                e["x"]["op"] = json!(1 - op.min(1));
            }
            _ => {
                let id = *r.pick(&["offcurve", "sys"]);
                e["x"]["id"] = json!(id);
                e["acc"][2]["k"] = json!(format!("od:{id}"));
            }
        },
        "initq" => match r.below(5) {
            0 => e["x"]["idx"] = json!(*r.pick(&[0u64, 1, 255])),
            1 => e["x"]["size"] = json!(*r.pick(&[0u64, 7, 8, 19, 20, 24, 100, 10_240, 10_241, 40_000])),
            2 => {
                // the oracle does not sign; mallory pays
                e["acc"][0]["k"] = json!("mallory");
                e["acc"][1]["s"] = json!(false);
            }
            3 => {
                let o = *r.pick(&["mallory", "alice", "o4", "o2"]);
                e["acc"][1]["k"] = json!(o);
                if r.chance(1, 2) {
                    e["acc"][3]["k"] = json!(format!("q:{o}:0"));
                    e["x"]["idx"] = json!(0);
                }
            }
            _ => {
                let o = *r.pick(&["mallory", "alice", "o4", "o2", "o3"]);
                e["acc"][1]["k"] = json!(o);
                e["acc"][2]["k"] = json!(format!("od:{o}"));
                e["acc"][3]["k"] = json!(format!("q:{o}:0"));
                e["x"]["idx"] = json!(0);
            }
        },
        "purge" | "close" | "delegate" | "undelegate" => match r.below(4) {
            0 => e["x"]["idx"] = json!(*r.pick(&[0u64, 1, 255])),
            1 => {
                e["acc"][0]["k"] = json!(*r.pick(&["mallory", "alice", "o2", "o3"]));
            }
            2 => {
                // somebody else's queue with a consistent index
                let qs: Vec<String> = keys(&p["q"]);
                let q = r.pick(&qs).clone();
                let pos = match ix.as_str() {
                    "purge" => 1,
                    "close" => 2,
                    _ => 1,
                };
                if let Some((_, i)) = owner_of(&q) {
                    e["x"]["idx"] = json!(i);
                }
                e["acc"][pos]["k"] = json!(q);
            }
            _ => {
                // all accounts of another oracle, but signed by nobody
                for j in 0..n {
                    e["acc"][j]["s"] = json!(false);
                }
                if ix != "purge" {
                    e["acc"][0]["s"] = json!(false);
                } else {
                    e["acc"][0]["k"] = json!(*r.pick(&["mallory", "o2"]));
                }
            }
        },
        _ => {}
    }
    e
}

/// instructions that are never acceptable, whatever the state
pub fn hostile(r: &mut Rng, p: &Value) -> Value {
    let qs: Vec<String> = keys(&p["q"]);
    let q = if qs.is_empty() { "q:o1:0".into() } else { r.pick(&qs).clone() };
    match r.below(10) {
        0 => e_pund(&q, "kb", "mallory", true),
        1 => e_pund(&format!("od:{}", r.pick(&["o3", "o4", "mallory", "o1"])), "kb", "mallory", true),
        2 => e_pund("oracles", "kb", "mallory", true),
        3 => e_pund(&format!("q:{}:{}", r.pick(&["o1", "o2", "mallory"]), r.pick(&[0, 1])), "kb", "mallory", true),
        4 => e_pund(&q, &format!("undbuf:{q}"), "mallory", true),
        5 => e_pund(&q, "kb", "mallory", false),
        6 => {
            let t = *r.pick(&[10u8, 11, 12, 50, 100, 195, 197, 255]);
            e_raw(vec![a("mallory", true, true), a(&q, false, true)], &[vec![t, 0, 0, 0, 0, 0, 0, 0], vec![0]].concat())
        }
        7 => {
            // too short for their arguments
            let t = *r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9]);
            let full = match t {
                1 => 65,
                2 => 8,
                3 | 8 => 70,
                4 => 160,
                _ => 1,
            };
            let n = r.below(full);
            let acc = vec![a("o1", true, true), a("od:o1", false, true), a("q:o1:0", false, true), a("sys", false, false), a("sh", false, false)];
            let acc = match t {
                9 => vec![a("o1", false, true), a("q:o1:0", false, true)],
                7 => acc[..3].to_vec(),
                _ => acc,
            };
            e_raw(acc, &[vec![t, 0, 0, 0, 0, 0, 0, 0], vec![0; n]].concat())
        }
        8 => {
            let n = r.below(8);
            let mut d = if r.chance(1, 2) { vec![0; n] } else { r.bytes(n) };
            if !d.is_empty() {
                d[0] = *r.pick(&[0u8, 1, 7, 9]);
            }
            e_raw(vec![a("o1", true, true), a("oracles", false, true), a("sys", false, false)], &d)
        }
        _ => {
            // too long for a fixed-size encoding
            let t = *r.pick(&[1u8, 2, 4, 5, 6, 7, 9]);
            let full = match t {
                1 => 65,
                2 => 8,
                4 => 160,
                _ => 1,
            };
            let extra = 1 + r.below(9);
            e_raw(vec![a("o1", true, true), a("q:o1:0", false, true)], &[vec![t, 0, 0, 0, 0, 0, 0, 0], vec![0; full + extra]].concat())
        }
    }
}

// ---------------------------------------------------------------- large queues
/// The next step of a history on one large queue: bursts of requests, fulfilments anywhere in
/// the queue, purges of a part of it.
pub struct Bulk {
    pub q: String,
    pub left: usize,
    pub style: usize,
}
impl Bulk {
    pub fn next(&mut self, r: &mut Rng, p: &Value, i: u64) -> Value {
        let items = p["q"][&self.q]["items"].as_array().cloned().unwrap_or_default();
        let who = *r.pick(&["adm", "alice", "mallory"]);
        if self.left > 0 {
            self.left -= 1;
            return match self.style {
                // 1024 bytes each, equal arguments, one slot
                0 => {
                    let m = (0..13).map(|i| json!({"k": ACCS[i % 4], "s": false, "w": i % 2 == 0})).collect();
                    e_request("adm", "p1", &self.q, 1, 0, "0101010101010101", m, &"5a".repeat(491))
                }
                // as large as can be
                1 => {
                    let m = (0..20).map(|i| json!({"k": ACCS[(i + 1) % 4], "s": false, "w": i % 3 == 0})).collect();
                    e_request("adm", "p2", &self.q, i, 1, "0807060504030201", m, &hex(&r.bytes(512)))
                }
                // small ones
                2 => e_request(who, "p1", &self.q, 1, r.below(2) as u64, "07", vec![], ""),
                _ => gen_request(r, &self.q),
            };
        }
        if self.style < 9 {
            self.style = 9;
            return env("slot", json!({"n": 1}));
        }
        match r.below(20) {
            0..=10 if !items.is_empty() => {
                let k = match r.below(4) {
                    0 => 0,
                    1 => items.len() - 1,
                    _ => r.below(items.len()),
                };
                let o = owner_of(&self.q).unwrap().0;
                provide_item(&self.q, &items[k], &vk_of(p, &o))
            }
            11 | 12 => env("slot", json!({"n": *r.pick(&[1u64, 2, 100, 239, 241])})),
            13 | 14 => {
                let (o, i) = owner_of(&self.q).unwrap();
                e_purge(&o, i)
            }
            15 => {
                self.left = *r.pick(&[3usize, 20, 40]);
                self.style = 2 + r.below(2);
                env("slot", json!({"n": 1}))
            }
            _ => gen_request(r, &self.q),
        }
    }
}
