use mbt::{crypto, gen, names, queue, rnd, svm, world};
use mbt::{read_lines, summary, watchdog, TICKS};
use names::Rng;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::Write;
use world::Node;

/// Records executed steps as a trace: a table of projected states and a table of steps.
struct Rec {
    states: HashMap<String, usize>,
    sf: File,
    pf: File,
    pending: File,
    steps: usize,
    cap: usize,
}
#[derive(Clone)]
struct At {
    node: Node,
    st: usize,
    proj: Value,
    last: usize,
}
impl Rec {
    fn new(dir: &str, cap: usize) -> Self {
        Rec {
            states: HashMap::new(),
            sf: File::create(format!("{dir}/states.ndjson")).unwrap(),
            pf: File::create(format!("{dir}/steps.ndjson")).unwrap(),
            pending: File::create(format!("{dir}/pending.json")).unwrap(),
            steps: 0,
            cap,
        }
    }
    fn state(&mut self, node: &Node) -> (usize, Value) {
        let p = node.project();
        let s = p.to_string();
        let n = self.states.len() + 1;
        let sf = &mut self.sf;
        let i = *self.states.entry(s).or_insert_with_key(|k| {
            sf.write_all(format!("{k}\n").as_bytes()).unwrap();
            n
        });
        (i, p)
    }
    fn at(&mut self, node: Node) -> At {
        let (st, proj) = self.state(&node);
        At { node, st, proj, last: 0 }
    }
    fn full(&self) -> bool {
        self.steps >= self.cap
    }
    /// If the code under test kills or hangs this process, the driver finds here what was run.
    fn pend(&mut self, from: &At, ev: &Value) {
        use std::os::unix::fs::FileExt;
        let s = format!("{}\n", json!({"f": from.st, "e": ev, "par": from.last}));
        self.pending.write_all_at(s.as_bytes(), 0).unwrap();
        TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    fn step(&mut self, from: &At, ev: &Value) -> At {
        self.pend(from, ev);
        let (node, ev, r) = world::step(&from.node, ev);
        let (st, proj) = self.state(&node);
        self.steps += 1;
        let s = format!("{}\n", json!({"f": from.st, "t": st, "e": ev, "r": r, "par": from.last}));
        self.pf.write_all(s.as_bytes()).unwrap();
        At { node, st, proj, last: self.steps }
    }
    /// requests that differ in exactly one circumstance, made from the same state
    fn probe(&mut self, from: &At, req: &Value) {
        self.pend(from, req);
        let Some(ids) = probe_ids(&from.node, req) else { return };
        self.steps += 1;
        let mut e = req.clone();
        e["ix"] = json!("probe");
        let s = format!("{}\n", json!({"f": from.st, "t": from.st, "e": e, "r": {"ok": true, "ids": ids}, "par": from.last}));
        self.pf.write_all(s.as_bytes()).unwrap();
    }
}
fn new_id(node: &Node, ev: &Value) -> Option<String> {
    let before = node.live_ids();
    let (after, _, r) = world::step(node, ev);
    if r["ok"] != true {
        return None;
    }
    let d: Vec<_> = after.live_ids().difference(&before).cloned().collect();
    d.first().map(|b| names::hex(b))
}
fn probe_ids(node: &Node, req: &Value) -> Option<Vec<String>> {
    let mut req = req.clone();
    req["b"] = json!("");
    let base = new_id(node, &req)?;
    let mut out = vec![base];
    let mut e = req.clone();
    e["x"]["seed"] = json!(req["x"]["seed"].as_u64().unwrap() + 17);
    out.push(new_id(node, &e)?);
    // another callback discriminator of the same length, and one that is a prefix
    let d = req["x"]["disc"].as_str().unwrap().to_string();
    if !d.is_empty() {
        let mut b = names::unhex(&d);
        let l = b.len();
        b[l - 1] ^= 1;
        e = req.clone();
        e["x"]["disc"] = json!(names::hex(&b));
        out.push(new_id(node, &e)?);
        e["x"]["disc"] = json!(names::hex(&b[..l - 1]));
        out.push(new_id(node, &e)?);
        b[l - 1] ^= 1;
        b[0] ^= 0x80;
        e["x"]["disc"] = json!(names::hex(&b));
        out.push(new_id(node, &e)?);
    }
    let p = req["x"]["prog"].as_str().unwrap();
    let p2 = if p == "p2" { "p1" } else { "p2" };
    e = req.clone();
    e["x"]["prog"] = json!(p2);
    e["via"] = json!(p2);
    e["acc"][1]["k"] = json!(format!("id:{p2}"));
    out.push(new_id(node, &e)?);
    // every byte of the seed, the program, the latest slot hash and the slot counts
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let round = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let all = round < 4;
    let some = |k: u64| all || k == round % 32 || k == 31 - round % 8;
    for k in (0..32).filter(|k| some(*k)) {
        e = req.clone();
        e["x"]["seedflip"] = json!(k + 32 * (round % 8));
        out.push(new_id(node, &e)?);
        let p3 = format!("{p}~{k}");
        let mut n3 = node.clone();
        let w = &mut n3.world;
        let prog = w.get(&names::pk(p));
        w.put(names::pk(&p3), prog);
        let kind = w.progs[&names::pk(p)].clone();
        std::sync::Arc::make_mut(&mut w.progs).insert(names::pk(&p3), kind);
        e = req.clone();
        e["x"]["prog"] = json!(p3);
        e["via"] = json!(p3);
        e["acc"][1]["k"] = json!(format!("id:{p3}"));
        out.push(new_id(&n3, &e)?);
        let mut n2 = node.clone();
        let mut a = n2.world.get(&names::pk("sh"));
        a.data[16 + k as usize] ^= 1 << (round % 8);
        n2.world.put(names::pk("sh"), a);
        out.push(new_id(&n2, &req)?);
    }
    // another slot, same slot hash and time
    for b in 0..56u64 {
        if b % 8 == round % 8 || b == 0 {
            let mut n3 = node.clone();
            n3.world.slot += 1 << b;
            if let Some(i) = new_id(&n3, &req) {
                out.push(i);
            }
        }
    }
    // the same again, behind the first
    let (after, _, _) = world::step(node, &req);
    if let Some(i) = new_id(&after, &req) {
        out.push(i);
    }
    Some(out)
}

/// A transaction of several instructions, each chosen for the state the ones before it lead to.
fn several(rng: &mut Rng, at: &At, prof: &gen::Profile) -> Value {
    let (mut node, mut es) = (at.node.clone(), vec![]);
    let (n, mut tries) = (2 + rng.below(3), 0);
    while es.len() < n {
        let e = gen::next_inside(rng, &node.project(), prof, &es);
        let (next, _, r) = world::step(&node, &gen::e_tx(&[e.clone()]));
        tries += 1;
        // one instruction that fails makes all of them fail
        if r["ok"] == true || tries > 20 || rng.chance(1, 6) {
            node = next;
            es.push(e);
        }
    }
    gen::e_tx(&es)
}

fn strip(e: &Value, builders: bool) -> Value {
    let mut e = e.clone();
    if !builders {
        e["b"] = json!("");
    }
    e
}

/// Replay the paths TLC found on the real program; from every state reached try events of
/// the alphabet and mutations of them.
fn model(a: &HashMap<String, String>) {
    let dir = &a["out"];
    let alpha: Value = serde_json::from_str(&std::fs::read_to_string(&a["alphabet"]).unwrap()).unwrap();
    let alphabet: Vec<Value> = alpha["alphabet"].as_array().unwrap().clone();
    let prefix: Vec<Value> = alpha["prefix"].as_array().unwrap().clone();
    let focus = a["focus"].clone();
    let builders = focus == "C19";
    let mut rng = Rng(a["seed"].parse::<u64>().unwrap() ^ 0xabcd);
    let cap: usize = a["cap"].parse().unwrap();
    let mut rec = Rec::new(dir, cap);
    let mut paths: Vec<Vec<usize>> = read_lines(&a["paths"])
        .iter()
        .map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect())
        .collect();
    paths.sort();
    let total = paths.len();
    // visit in a random order; a trie of visited nodes is kept
    for i in (1..paths.len()).rev() {
        let j = rng.below(i + 1);
        paths.swap(i, j);
    }
    let mut root = rec.at(world::genesis(1000));
    for e in &prefix {
        root = rec.step(&root, &strip(e, builders));
    }
    if focus == "C19" {
        for _ in 0..60 {
            let h = gen::hostile(&mut rng, &root.proj);
            rec.step(&root, &h);
            let i = gen::mutate(&mut rng, &gen::e_init("alice"), &root.proj);
            rec.step(&root, &i);
        }
    }
    let mut trie: HashMap<Vec<usize>, At> = HashMap::new();
    trie.insert(vec![], root);
    let mut done = 0;
    let kinds = focus_ix(&focus);
    for p in &paths {
        if rec.full() {
            break;
        }
        for l in 1..=p.len() {
            if !trie.contains_key(&p[..l]) {
                let from = trie[&p[..l - 1]].clone();
                let to = rec.step(&from, &strip(&alphabet[p[l - 1] - 1], builders));
                trie.insert(p[..l].to_vec(), to);
            }
        }
        done += 1;
        let at = trie[p].clone();
        let evs: Vec<&Value> = alphabet.iter().filter(|e| !matches!(e["ix"].as_str().unwrap(), "slot" | "fund" | "auth" | "ercommit")).collect();
        for e in &evs {
            let ix = e["ix"].as_str().unwrap();
            if kinds.contains(&ix) || rng.chance(1, 6) {
                rec.step(&at, &strip(e, builders));
            }
        }
        let fe: Vec<&Value> = evs.iter().filter(|e| kinds.contains(&e["ix"].as_str().unwrap())).cloned().collect();
        for _ in 0..8 {
            let base = if fe.is_empty() || rng.chance(1, 5) { (*rng.pick(&evs)).clone() } else { (*rng.pick(&fe)).clone() };
            let base = if base["ix"] == "provide" { retarget(&mut rng, &base, &at.proj) } else { base };
            let mut m = gen::mutate(&mut rng, &base, &at.proj);
            if rng.chance(1, 4) {
                m = gen::mutate(&mut rng, &m, &at.proj);
            }
            rec.step(&at, &m);
        }
        if matches!(focus.as_str(), "C13" | "C19" | "C09") || rng.chance(1, 4) {
            let h = gen::hostile(&mut rng, &at.proj);
            rec.step(&at, &h);
        }
        if matches!(focus.as_str(), "C10" | "C19") {
            for _ in 0..2 {
                let size = *rng.pick(&[0, 0, 1, 20, 9500, 10239, 10240, 10241, 20480, 20481, 30_720, 60_000]);
                let (who, o) = (*rng.pick(&["alice", "o1", "o2", "bob"]), *rng.pick(&["o1", "o2", "o3"]));
                let e = gen::e_initall(who, o, *rng.pick(&[0, 1, 255]), size);
                rec.step(&at, &e);
            }
        }
        if rng.chance(1, 2) {
            let e = several(&mut rng, &at, &gen::profile(&focus));
            rec.step(&at, &e);
        }
        if focus == "C06" {
            let rq: Vec<&Value> = evs.iter().filter(|e| e["ix"] == "request").cloned().collect();
            if !rq.is_empty() {
                let q = (*rng.pick(&rq)).clone();
                rec.probe(&at, &q);
            }
        }
    }
    summary(dir, &json!({"model_states": total, "model_states_replayed": done, "steps": rec.steps, "states": rec.states.len()}));
}
/// provide events of the alphabet name fixed ids; aim them at something that is pending
fn retarget(r: &mut Rng, e: &Value, p: &Value) -> Value {
    let items = gen::all_items(p);
    let items: Vec<_> = items.into_iter().filter(|(q, _)| q != "eq").collect();
    if items.is_empty() {
        return e.clone();
    }
    let (q, it) = r.pick(&items).clone();
    let o = gen::owner_of(&q).unwrap().0;
    gen::provide_item(&q, &it, &gen::vk_of(p, &o))
}
fn focus_ix(focus: &str) -> Vec<&'static str> {
    match focus {
        "C01" | "C02" | "C03" | "C05" => vec!["provide"],
        "C04" | "C06" => vec!["request"],
        "C08" => vec!["purge"],
        "C09" => vec!["modify", "init"],
        "C10" => vec!["initq", "purge", "close", "request"],
        "C11" => vec!["close", "modify"],
        "C13" => vec!["delegate", "undelegate", "dlpback"],
        _ => vec!["request", "provide", "purge", "close", "initq", "modify", "delegate", "init", "undelegate"],
    }
}

/// Long random histories, mostly valid, with adversarial events mixed in.
fn random(a: &HashMap<String, String>) {
    let dir = &a["out"];
    let focus = a["focus"].clone();
    let builders = focus == "C19";
    let mut rng = Rng(a["seed"].parse::<u64>().unwrap() ^ names::h32(&[focus.as_bytes()])[0] as u64);
    let cap: usize = a["cap"].parse().unwrap();
    let len: usize = a["len"].parse().unwrap();
    let mut rec = Rec::new(dir, cap);
    let prof = gen::profile(&focus);
    let mut runs = 0;
    while !rec.full() {
        runs += 1;
        let mut at = rec.at(world::genesis(1000 + rng.below(3) as u64 * 500));
        let mut setup = vec![gen::e_init("alice"), gen::e_modify("adm", "o1", "v:o1", 0), gen::e_modify("adm", "o2", "v:o2", 0)];
        if rng.chance(1, 2) {
            setup.push(gen::e_modify("adm", "o3", "v:o3", 0));
        }
        setup.push(gen::env("slot", json!({"n": 200})));
        if focus != "C09" || rng.chance(1, 2) {
            let size = *rng.pick(&[300u64, 700, 1500, 4000, 9500]);
            setup.push(gen::e_initq("alice", "o1", 0, size));
            setup.push(gen::e_initq("o2", "o2", 0, 1200));
            if rng.chance(1, 3) {
                setup.push(gen::e_initq("o1", "o1", 1, 600));
            }
        }
        if focus == "C09" && rng.chance(1, 3) {
            setup.truncate(rng.below(3));
        }
        for e in &setup {
            at = rec.step(&at, &strip(e, builders));
        }
        for _ in 0..len {
            let e = gen::gen_event(&mut rng, &at.proj, &prof);
            let e = if focus == "C18" && e["ix"] == "request" && rng.chance(1, 2) { gen::relays(&mut rng, &e) } else { e };
            if rng.chance(prof.mutate, 100) {
                // attempts that leave the state alone do not end the run
                let mut m = gen::mutate(&mut rng, &e, &at.proj);
                if rng.chance(1, 5) {
                    m = gen::mutate(&mut rng, &m, &at.proj);
                }
                at = rec.step(&at, &m);
            }
            if rng.chance(prof.mutate, 400) {
                let h = gen::hostile(&mut rng, &at.proj);
                at = rec.step(&at, &h);
            }
            if rng.chance(1, 8) {
                let t = several(&mut rng, &at, &prof);
                at = rec.step(&at, &t);
            }
            if focus == "C06" && e["ix"] == "request" && rng.chance(1, 3) {
                rec.probe(&at, &e);
            }
            at = rec.step(&at, &strip(&e, builders && rng.chance(4, 5)));
        }
    }
    summary(dir, &json!({"runs": runs, "steps": rec.steps, "states": rec.states.len()}));
}
/// Histories on large queues with many pending requests.
fn bulk(a: &HashMap<String, String>) {
    let dir = &a["out"];
    let mut rng = Rng(a["seed"].parse::<u64>().unwrap() ^ 0x9e37);
    let cap: usize = a["cap"].parse().unwrap();
    let styles: Vec<usize> = a["styles"].split('-').map(|s| s.parse().unwrap()).collect();
    let mut rec = Rec::new(dir, cap);
    let mut runs = 0;
    'all: for style in styles.iter().cycle() {
        runs += 1;
        let mut at = rec.at(world::genesis(1000));
        let (size, burst) = match style {
            0 => (96_000u64, 70usize),
            1 => (90_000, 55),
            2 => (60_000, 130 + rng.below(40)),
            _ => (40_000, 30),
        };
        let mut setup = vec![gen::e_init("alice"), gen::e_modify("adm", "o1", "v:o1", 0), gen::env("slot", json!({"n": 200}))];
        for _ in 0..size.div_ceil(10_240) {
            setup.push(gen::e_initq("alice", "o1", 0, size));
        }
        for e in &setup {
            at = rec.step(&at, &strip(e, false));
        }
        let mut b = gen::Bulk { q: "q:o1:0".into(), left: burst, style: *style };
        for i in 0..burst + 120 {
            if rec.full() {
                break 'all;
            }
            let e = b.next(&mut rng, &at.proj, i as u64);
            at = rec.step(&at, &strip(&e, false));
        }
    }
    summary(dir, &json!({"runs": runs, "steps": rec.steps, "states": rec.states.len()}));
}
/// One oracle opens every queue it can have, uses some, and closes them all.
fn many(a: &HashMap<String, String>) {
    let mut rng = Rng(a["seed"].parse::<u64>().unwrap() ^ 0x3a);
    let mut rec = Rec::new(&a["out"], usize::MAX);
    let mut at = rec.at(world::genesis(1000));
    let (add, gone) = (gen::e_modify("adm", "o1", "v:o1", 0), gen::e_modify("adm", "o1", "v:o1", 1));
    for e in [gen::e_init("alice"), add.clone(), gen::e_modify("adm", "o2", "v:o2", 0), gen::env("slot", json!({"n": 200})), gen::e_initq("alice", "o2", 0, 300)] {
        at = rec.step(&at, &strip(&e, false));
    }
    let edge = |k: usize| [0, 1, 2, 127, 128, 254, 255, 256].contains(&k);
    let shuffled = |rng: &mut Rng| {
        let mut v: Vec<u64> = (0..256).collect();
        for i in (1..v.len()).rev() {
            v.swap(i, rng.below(i + 1));
        }
        v
    };
    let mut used: Vec<(u64, bool)> = vec![];
    for (k, i) in shuffled(&mut rng).into_iter().enumerate() {
        let open = gen::e_initq("alice", "o1", i, 140 + rng.below(200) as u64);
        at = rec.step(&at, &strip(&open, false));
        if edge(k + 1) || rng.chance(1, 30) {
            rec.step(&at, &gone);
            rec.step(&at, &strip(&open, false));
            rec.step(&at, &gen::e_close("o1", i));
            rec.step(&at, &gen::e_purge("o1", i));
            let e = if rng.chance(1, 2) {
                used.push((i, true));
                gen::e_request("alice", "p1", &format!("q:o1:{i}"), rng.below(4) as u64, 1, "", vec![], "07")
            } else {
                used.push((i, false));
                gen::e_delegate("o1", i)
            };
            at = rec.step(&at, &strip(&e, false));
            rec.step(&at, &gen::e_close("o1", i));
        }
    }
    at = rec.step(&at, &gen::env("slot", json!({"n": 1})));
    let mut left = 256;
    for i in shuffled(&mut rng) {
        match used.iter().find(|u| u.0 == i) {
            Some((_, true)) => {
                let q = format!("q:o1:{i}");
                let it = at.proj["q"][&q]["items"][0].clone();
                if it.is_object() {
                    at = rec.step(&at, &strip(&gen::provide_item(&q, &it, "v:o1"), false));
                }
            }
            Some((_, false)) => at = rec.step(&at, &gen::env("dlpback", json!({"q": format!("q:o1:{i}"), "payer": "alice"}))),
            None => (),
        }
        at = rec.step(&at, &strip(&gen::e_close("o1", i), false));
        left -= 1;
        if edge(left) || rng.chance(1, 30) {
            rec.step(&at, &gone);
            rec.step(&at, &gen::e_close("o1", i));
        }
    }
    at = rec.step(&at, &gone);
    at = rec.step(&at, &add);
    rec.step(&at, &strip(&gen::e_initq("alice", "o1", 7, 300), false));
    summary(&a["out"], &json!({"runs": 1, "steps": rec.steps, "states": rec.states.len()}));
}
/// Hundreds of requests, or thousands, in one queue.
fn mass(a: &HashMap<String, String>) {
    let mut rng = Rng(a["seed"].parse::<u64>().unwrap() ^ 0x3a55);
    let mut rec = Rec::new(&a["out"], usize::MAX);
    let huge = a.get("huge").is_some_and(|h| h == "1");
    let size: u64 = if huge { 540_000 } else { 90_000 };
    let mut at = rec.at(world::genesis(1000));
    for e in [gen::e_init("alice"), gen::e_modify("adm", "o1", "v:o1", 0), gen::env("slot", json!({"n": 200}))] {
        at = rec.step(&at, &strip(&e, false));
    }
    for _ in 0..size.div_ceil(10_240) {
        at = rec.step(&at, &strip(&gen::e_initq("alice", "o1", 0, size), false));
    }
    let q = "q:o1:0";
    let fill = |seed: u64, n: u64, prio: u64, disc: &str, args: &str| {
        let mut e = gen::e_request("adm", "p1", q, seed, prio, disc, vec![], args);
        e["ix"] = json!("fill");
        e["b"] = json!("");
        e["x"]["n"] = json!(n);
        e["x"]["step"] = json!(huge as u64);
        e
    };
    let slots = |n: u64| gen::env("slot", json!({"n": n}));
    let serve = |at: &At, k: usize| {
        let its = at.proj["q"][q]["items"].as_array().cloned().unwrap_or_default();
        strip(&gen::provide_item(q, &its[k.min(its.len().max(1) - 1)], "v:o1"), false)
    };
    if huge {
        at = rec.step(&at, &fill(1, 5390 + rng.below(20) as u64, 1, "", ""));
        at = rec.step(&at, &slots(241));
        at = rec.step(&at, &serve(&at, 5380));
    } else {
        // equal ones of 128 bytes, then some in a later slot
        for n in [256, 290] {
            at = rec.step(&at, &fill(1, n, 0, "0102030405060708", &"5a".repeat(24)));
            rec.step(&at, &strip(&gen::e_close("o1", 0), false));
        }
        at = rec.step(&at, &slots(100));
        at = rec.step(&at, &fill(1, 700, 1, "0102030405060708", &"a5".repeat(24)));
        rec.step(&at, &serve(&at, 512));
        at = rec.step(&at, &slots(1));
        let n = at.proj["q"][q]["items"].as_array().map_or(0, |i| i.len());
        for k in [0, 1, 254, 255, 256, 257, 511, 512, 513, n.max(1) - 1] {
            rec.step(&at, &serve(&at, k));
        }
        for e in [gen::e_purge("o1", 0), gen::e_close("o1", 0), gen::e_modify("adm", "o1", "v:o1", 1)] {
            rec.step(&at, &strip(&e, false));
        }
        for k in [512, 256, 0, 255, rng.below(400)] {
            let e = serve(&at, k);
            at = rec.step(&at, &e);
            rec.step(&at, &e);
        }
        at = rec.step(&at, &slots(140 + rng.below(2) as u64));
    }
    // what has expired goes, the rest stays
    at = rec.step(&at, &strip(&gen::e_purge("o1", 0), false));
    rec.step(&at, &strip(&gen::e_close("o1", 0), false));
    at = rec.step(&at, &slots(101));
    at = rec.step(&at, &strip(&gen::e_purge("o1", 0), false));
    at = rec.step(&at, &fill(5000, 3, 1, "", ""));
    rec.step(&at, &strip(&gen::e_close("o1", 0), false));
    at = rec.step(&at, &slots(241));
    at = rec.step(&at, &strip(&gen::e_purge("o1", 0), false));
    rec.step(&at, &strip(&gen::e_close("o1", 0), false));
    summary(&a["out"], &json!({"runs": 1, "steps": rec.steps, "states": rec.states.len()}));
}
/// The largest queue that can be delegated, filled to its last bytes, goes back and forth.
fn custody(a: &HashMap<String, String>) {
    let mut rng = Rng(a["seed"].parse::<u64>().unwrap() ^ 0xc057);
    let cap: usize = a["cap"].parse().unwrap();
    let mut rec = Rec::new(&a["out"], usize::MAX);
    let mut runs = 0;
    while rec.steps < cap {
        runs += 1;
        let mut at = rec.at(world::genesis(1000));
        let idx = *rng.pick(&[0u64, 1, 255]);
        let size = *rng.pick(&[10_240u64, 10_240, 10_239, 9_500, 8_192]);
        let q = format!("q:o1:{idx}");
        for e in [gen::e_init("alice"), gen::e_modify("adm", "o1", "v:o1", 0), gen::env("slot", json!({"n": 200})), gen::e_initq("o1", "o1", idx, size)] {
            at = rec.step(&at, &strip(&e, false));
        }
        let big = rng.chance(1, 2);
        let request = |rng: &mut Rng| {
            let accts = if big { 10 + rng.below(11) } else { rng.below(4) };
            let metas = (0..accts).map(|_| gen::a(*rng.pick(&["acc1", "alice", "bob", "p2"]), false, rng.chance(1, 2))).collect();
            let args = "ab".repeat(if big { rng.below(513) } else { rng.below(60) });
            gen::e_request("alice", *rng.pick(&["p1", "p2"]), &q, rng.below(3) as u64, rng.below(2) as u64, &"0c".repeat(rng.below(9)), metas, &args)
        };
        let slots = |n: u64| gen::env("slot", json!({"n": n}));
        let items = |at: &At| at.proj["q"][&q]["items"].as_array().cloned().unwrap_or_default();
        let serve = |at: &At, k: usize| items(at).get(k).map(|i| strip(&gen::provide_item(&q, i, "v:o1"), false));
        for round in 0..3 {
            let mut full = 0;
            while full < 4 {
                let (e, n) = (strip(&request(&mut rng), false), items(&at).len());
                at = rec.step(&at, &e);
                if items(&at).len() == n {
                    full += 1;
                }
                if rng.chance(1, 12) {
                    at = rec.step(&at, &slots(1));
                }
            }
            at = rec.step(&at, &slots(1));
            for _ in 0..rng.below(4) {
                let k = rng.below(items(&at).len().max(1));
                if let Some(e) = serve(&at, k) {
                    at = rec.step(&at, &e);
                }
            }
            at = rec.step(&at, &strip(&gen::e_delegate("o1", idx), false));
            let last = items(&at).len().max(1) - 1;
            for e in [serve(&at, 0), serve(&at, last), Some(strip(&request(&mut rng), false)), Some(gen::e_purge("o1", idx)), Some(gen::e_close("o1", idx)), Some(gen::e_delegate("o1", idx)), Some(gen::e_undelegate("o1", idx))]
                .iter()
                .flatten()
            {
                rec.step(&at, &strip(e, false));
            }
            at = rec.step(&at, &slots(1 + rng.below(120) as u64));
            if rng.chance(1, 2) {
                at = rec.step(&at, &gen::env("ercommit", json!({"q": q, "n": 1 + rng.below(2)})));
            }
            at = rec.step(&at, &gen::env("dlpback", json!({"q": q, "payer": "alice"})));
            let n = items(&at).len();
            for k in [0, n / 2, n.max(1) - 1] {
                if let Some(e) = serve(&at, k) {
                    rec.step(&at, &e);
                }
            }
            rec.step(&at, &strip(&gen::e_close("o1", idx), false));
            if round < 2 {
                for _ in 0..n / 2 {
                    let k = rng.below(items(&at).len().max(1));
                    if let Some(e) = serve(&at, k) {
                        at = rec.step(&at, &e);
                    }
                }
            } else {
                at = rec.step(&at, &slots(*rng.pick(&[120, 180, 241])));
                for e in [gen::e_purge("o1", idx), slots(241), gen::e_purge("o1", idx), gen::e_close("o1", idx)] {
                    at = rec.step(&at, &strip(&e, false));
                }
            }
        }
    }
    summary(&a["out"], &json!({"runs": runs, "steps": rec.steps, "states": rec.states.len()}));
}
/// Hundreds of oracles come and go.
fn crowd(a: &HashMap<String, String>) {
    let mut rng = Rng(a["seed"].parse::<u64>().unwrap() ^ 0xc0);
    let mut rec = Rec::new(&a["out"], usize::MAX);
    let mut at = rec.at(world::genesis(1000));
    at = rec.step(&at, &strip(&gen::e_init("alice"), false));
    let mut names = names::oracles();
    names.retain(|n| n != "o3");
    let edge = |k: usize| [0, 1, 2, 3, 31, 32, 33, 127, 128, 255, 256, 257].contains(&k);
    let vk = |rng: &mut Rng| *rng.pick(&["v:o1", "v:o2", "v:o1b"]);
    let mut inn: Vec<String> = vec![];
    for up in [true, false] {
        while if up { !names.is_empty() } else { !inn.is_empty() } {
            let back = rng.chance(1, 12);
            let (from, to) = if up != back { (&mut names, &mut inn) } else { (&mut inn, &mut names) };
            if from.is_empty() {
                continue;
            }
            let o = from.swap_remove(rng.below(from.len()));
            at = rec.step(&at, &strip(&gen::e_modify("adm", &o, vk(&mut rng), (up == back) as u64), false));
            to.push(o.clone());
            if edge(inn.len()) || rng.chance(1, 40) {
                at = rec.step(&at, &gen::env("slot", json!({"n": 1 + rng.below(300)})));
                for e in [
                    gen::e_modify("adm", &o, vk(&mut rng), (up == back) as u64),
                    gen::e_modify("mallory", inn.last().map_or("o3", |s| s.as_str()), "v:o1", rng.below(2) as u64),
                    gen::e_modify("adm", "o3", "v:o3", 1),
                    gen::e_modify("adm", "o3", "v:o3", 0),
                    gen::e_modify("adm", "offcurve", "v:o3", 0),
                    gen::e_init("alice"),
                ] {
                    rec.step(&at, &strip(&e, false));
                }
            }
        }
    }
    summary(&a["out"], &json!({"runs": 1, "steps": rec.steps, "states": rec.states.len()}));
}
/// Re-execute a recorded history, recording it as a trace again.
fn replay(a: &HashMap<String, String>) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&a["in"]).unwrap()).unwrap();
    world::BASE.store(v["base"].as_u64().unwrap_or(0), std::sync::atomic::Ordering::Relaxed);
    let mut rec = Rec::new(&a["out"], usize::MAX);
    let mut at = rec.at(world::genesis(v["genesis_slot"].as_u64().unwrap_or(1000)));
    for e in v["events"].as_array().unwrap() {
        if e["ix"] == "probe" {
            let mut q = e.clone();
            q["ix"] = json!("request");
            rec.probe(&at, &q);
        } else {
            at = rec.step(&at, e);
        }
    }
    summary(&a["out"], &json!({"steps": rec.steps}));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut a: HashMap<String, String> = HashMap::new();
    for kv in &args[2.min(args.len())..] {
        if let Some((k, v)) = kv.split_once('=') {
            a.insert(k.into(), v.into());
        }
    }
    // the program's log messages go to stdout: silence them
    unsafe {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
    }
    let mode = args.get(1).map(|m| m.as_str()).unwrap_or_default();
    let hist: Value = a.get("in").filter(|_| mode == "replay").and_then(|f| serde_json::from_str(&std::fs::read_to_string(f).ok()?).ok()).unwrap_or_default();
    let any = |p: &dyn Fn(&Value) -> bool| hist["events"].as_array().is_some_and(|es| es.iter().any(p));
    names::MANY.store(mode == "many" || any(&|e| e["ix"] == "initq" && !names::QIDX.iter().any(|i| e["x"]["idx"] == *i)), std::sync::atomic::Ordering::Relaxed);
    names::CROWD.store(mode == "crowd" || any(&|e| e["ix"] == "modify" && e["x"]["id"].as_str().is_some_and(|s| s.starts_with('w'))), std::sync::atomic::Ordering::Relaxed);
    names::init();
    svm::install();
    if let Some(b) = a.get("base") {
        world::BASE.store(b.parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
        if let Some(d) = a.get("out") {
            if std::path::Path::new(d).is_dir() {
                std::fs::write(format!("{d}/base"), b).unwrap();
            }
        }
    }
    watchdog();
    match args.get(1).map(|s| s.as_str()) {
        Some("genesis") => {
            std::fs::write(&a["out"], world::genesis(1000).project().to_string() + "\n").unwrap();
        }
        Some("model") => model(&a),
        Some("random") => random(&a),
        Some("replay") => replay(&a),
        Some("bulk") => bulk(&a),
        Some("many") => many(&a),
        Some("custody") => custody(&a),
        Some("crowd") => crowd(&a),
        Some("mass") => mass(&a),
        Some("qmodel") => queue::model(&a),
        Some("qrandom") => queue::random(&a),
        Some("qlarge") => queue::large(&a),
        Some("qfuzz") => queue::fuzz(&a),
        Some("crypto") => crypto::run(&a),
        Some("clients") => {
            let mut g = mbt::sdkcalls::Gen(a["seed"].parse().unwrap());
            let mut r = mbt::sdkcalls::Recorder::new("sdk");
            let n = a["rounds"].parse().unwrap();
            mbt::sdkcalls::sdk(&mut r, &mut g, n);
            r.by = "api".into();
            mbt::clients::api(&mut r, &mut g, n);
            #[cfg(feature = "anchor")]
            {
                r.by = "consumer".into();
                mbt::consume::consume(&mut r, &mut g, n);
            }
            let s: String = r.out.iter().map(|x| format!("{x}\n")).collect();
            std::fs::write(&a["out"], s).unwrap();
        }
        Some("rcalls") => rnd::calls(&a),
        Some("rcounts") => rnd::counts(&a),
        _ => {
            eprintln!("usage: mbt genesis|model|random|replay key=value...");
            std::process::exit(2);
        }
    }
}
