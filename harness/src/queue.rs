//! Drives the real queue storage (ephemeral_vrf_api::state::QueueAccount) and records what its
//! public functions show, for QueueJudge.tla.  Account bytes live in memory that ends at (or
//! starts behind) an inaccessible page, with canaries on the other side.
use crate::names::{h32, hex, Rng};
use crate::svm::guarded;
use ephemeral_vrf_api::state::{AccountDiscriminator, CompactAccountMeta, Queue, QueueAccount, QueueItem};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;

const PAGE: usize = 4096;
const CANARY: u8 = 0xA7;

fn tick() {
    crate::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

/// size bytes of account data behind an 8 byte discriminator
pub struct Mem {
    base: *mut u8,
    total: usize,
    lo: usize, // start of the discriminator
    hi: usize, // end of the account data
}
impl Mem {
    /// `high`: as close as possible to the inaccessible page behind; else to the one before
    fn new(size: usize, high: bool) -> Mem {
        let body = (size + 8 + 64 + PAGE - 1) / PAGE * PAGE;
        let total = body + 2 * PAGE;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANON, -1, 0) as *mut u8;
            assert!(base as isize != -1);
            assert_eq!(libc::mprotect(base.add(PAGE) as *mut _, body, libc::PROT_READ | libc::PROT_WRITE), 0);
            std::slice::from_raw_parts_mut(base.add(PAGE), body).fill(CANARY);
            let lo = if high { (PAGE + body - size - 8) & !7 } else { PAGE };
            let m = Mem { base, total, lo, hi: lo + 8 + size };
            let d = std::slice::from_raw_parts_mut(base.add(lo), size + 8);
            d.fill(0);
            d[0] = AccountDiscriminator::Queue as u8;
            m
        }
    }
    fn full(&self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.lo), self.hi - self.lo) }
    }
    pub fn acc(&self) -> &'static mut [u8] {
        &mut self.full()[8..]
    }
    fn canary_ok(&self) -> bool {
        let b = unsafe { std::slice::from_raw_parts(self.base.add(PAGE), self.total - 2 * PAGE) };
        b[..self.lo - PAGE].iter().all(|x| *x == CANARY)
            && b[self.hi - PAGE..].iter().all(|x| *x == CANARY)
            && self.full()[..8] == (AccountDiscriminator::Queue as u64).to_le_bytes()
    }
}
impl Drop for Mem {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as *mut _, self.total) };
    }
}

pub struct Item {
    id: [u8; 32],
    slot: u64,
    prog: [u8; 32],
    prio: u8,
    disc: Vec<u8>,
    metas: Vec<([u8; 32], u8)>,
    args: Vec<u8>,
}
fn digest(slot: u64, prog: &[u8; 32], prio: u8, disc: &[u8], metas: &[([u8; 32], u8)], args: &[u8]) -> String {
    let mut m = vec![];
    for (k, w) in metas {
        m.extend_from_slice(k);
        m.push(*w);
    }
    let n = [disc.len() as u64, metas.len() as u64, args.len() as u64].map(|x| x.to_le_bytes()).concat();
    hex(&h32(&[&slot.to_le_bytes(), prog, &[prio], &n, disc, &m, args])[..12])
}
impl Item {
    fn json(&self) -> Value {
        json!({"id": hex(&self.id), "dl": self.disc.len(), "ml": self.metas.len(), "al": self.args.len(),
               "c": digest(self.slot, &self.prog, self.prio, &self.disc, &self.metas, &self.args)})
    }
    /// `noise`: what the fields hold that the queue fills in itself
    fn base(&self, noise: u32) -> QueueItem {
        QueueItem {
            slot: self.slot,
            id: self.id,
            callback_program_id: self.prog,
            priority_request: self.prio,
            metas_offset: noise,
            args_offset: noise,
            callback_discriminator_offset: noise,
            metas_len: noise as u16,
            args_len: noise as u16,
            callback_discriminator_len: noise as u16,
            used: noise as u8,
            ..Default::default()
        }
    }
    fn compact(&self) -> Vec<CompactAccountMeta> {
        self.metas.iter().map(|(k, w)| CompactAccountMeta { pubkey: *k, is_writable: *w }).collect()
    }
}
fn show(it: &QueueItem, acc: &[u8]) -> Value {
    let metas: Vec<([u8; 32], u8)> = it.account_metas(acc).iter().map(|m| (m.pubkey, m.is_writable)).collect();
    let (d, a) = (it.callback_discriminator(acc), it.callback_args(acc));
    json!({"id": hex(&it.id), "dl": d.len(), "ml": metas.len(), "al": a.len(),
           "c": digest(it.slot, &it.callback_program_id, it.priority_request, d, &metas, a),
           "off": it.callback_discriminator_offset as i32 - 96,
           "len": (it.args_offset as i32).wrapping_add(it.args_len as i32 + 96).wrapping_sub(it.callback_discriminator_offset as i32)})
}
fn pool_id(i: usize) -> [u8; 32] {
    // ids that share long prefixes and suffixes
    let mut x = h32(&[b"queue-id"]);
    match i % 3 {
        0 => x[31] = i as u8,
        1 => x[0] = i as u8,
        _ => x[16] = i as u8,
    }
    x
}
/// everything the public functions show
fn observe(q: &QueueAccount, full: &[u8], ids: usize) -> Value {
    let acc: &[u8] = q.acc;
    let items: Vec<QueueItem> = q.iter_items().collect();
    let mut get = vec![];
    for i in 0..items.len() + 3 {
        tick();
        // every position is a pass over the account: of tens of thousands look at some
        if items.len() > 5000 && i < items.len() && i % 4999 != 3 && i % 65_536 > 3 {
            get.push(hex(&items[i].id));
            continue;
        }
        if let Some(g) = q.get_item_by_index(i) {
            get.push(if items.get(i) == Some(&g) { hex(&g.id) } else { "other content".into() });
        }
    }
    let mut find = serde_json::Map::new();
    for i in 0..ids {
        let id = pool_id(i);
        let v = match q.find_item_by_id(&id) {
            None => -1,
            Some((p, g)) if items.get(p) == Some(&g) => p as i64,
            Some(_) => -2,
        };
        find.insert(hex(&id), json!(v));
    }
    let hdr = Queue::try_from_bytes(full).map(|h| (h.len(), h.is_empty(), h.index)).ok();
    json!({"size": acc.len(), "idx": q.header.index, "n": q.len().min(1 << 30), "empty": q.is_empty(),
           "hdrn": hdr.map(|h| h.0.min(1 << 30) as i64).unwrap_or(-1), "hdre": hdr.map(|h| h.1).unwrap_or(!q.is_empty()),
           "hdri": hdr.map(|h| h.2).unwrap_or(!q.header.index),
           "items": items.iter().map(|i| show(i, acc)).collect::<Vec<_>>(), "get": get, "find": find})
}

struct Rec {
    states: HashMap<String, usize>,
    sf: std::fs::File,
    pf: std::fs::File,
    pending: std::fs::File,
    steps: usize,
    cap: usize,
}
impl Rec {
    fn new(dir: &str, cap: usize) -> Rec {
        let f = |n: &str| std::fs::File::create(format!("{dir}/{n}")).unwrap();
        Rec { states: HashMap::new(), sf: f("states.ndjson"), pf: f("steps.ndjson"), pending: f("pending.json"), steps: 0, cap }
    }
    fn state(&mut self, v: Value) -> usize {
        let s = v.to_string();
        let n = self.states.len() + 1;
        let sf = &mut self.sf;
        *self.states.entry(s).or_insert_with_key(|k| {
            writeln!(sf, "{k}").unwrap();
            n
        })
    }
    fn pend(&mut self, f: usize, e: &Value, par: usize) {
        use std::os::unix::fs::FileExt;
        self.pending.write_all_at(format!("{}\n", json!({"f": f, "e": e, "par": par})).as_bytes(), 0).unwrap();
        tick();
    }
    fn step(&mut self, f: usize, t: usize, e: &Value, r: Value, par: usize) -> usize {
        self.steps += 1;
        writeln!(self.pf, "{}", json!({"f": f, "t": t, "e": e, "r": r, "par": par})).unwrap();
        self.steps
    }
    fn full(&self) -> bool {
        self.steps >= self.cap
    }
}

/// One account under test, with its position in the trace.
struct Run {
    mem: Mem,
    size: usize,
    idx: u8,
    high: bool,
    st: usize,
    last: usize,
    view: Option<QueueAccount<'static>>,
    ids: usize,
}
fn dead() -> Value {
    json!({"size": 0, "idx": 0, "n": 0, "empty": true, "hdrn": 0, "hdre": true, "hdri": 0, "items": [], "get": [], "find": {"": -1}})
}
impl Run {
    fn new(rec: &mut Rec, size: usize, idx: u8, high: bool, ids: usize) -> Run {
        let mem = Mem::new(size, high);
        mem.acc()[8] = idx;
        let mut r = Run { mem, size, idx, high, st: 0, last: 0, view: None, ids };
        rec.pend(0, &json!({"op": "load"}), 0);
        r.st = rec.state(r.look(true).unwrap_or_else(|_| dead()));
        r
    }
    fn look(&mut self, reload: bool) -> Result<Value, ()> {
        if reload || self.view.is_none() {
            self.view = None;
            self.view = Some(guarded(|| QueueAccount::load(self.mem.acc()).unwrap())?);
        }
        let (q, full, ids) = (self.view.as_ref().unwrap(), &*self.mem.full(), self.ids);
        guarded(|| observe(q, full, ids))
    }
    fn fork(&self) -> Run {
        let mem = Mem::new(self.size, self.high);
        mem.full().copy_from_slice(self.mem.full());
        Run { mem, view: None, ..*self }
    }
    fn after(&mut self, rec: &mut Rec, e: &Value, mut r: Value, reload: bool) {
        match self.look(reload) {
            Ok(v) => {
                let t = rec.state(v);
                r["canary"] = json!(self.mem.canary_ok());
                self.last = rec.step(self.st, t, e, r, self.last);
                self.st = t;
            }
            Err(()) => {
                r["canary"] = json!(self.mem.canary_ok());
                r["st"] = json!("panic");
                self.last = rec.step(self.st, self.st, e, r, self.last);
                self.view = None;
            }
        }
    }
    fn view(&mut self) -> Result<&mut QueueAccount<'static>, ()> {
        if self.view.is_none() {
            self.view = Some(guarded(|| QueueAccount::load(self.mem.acc()).unwrap())?);
        }
        Ok(self.view.as_mut().unwrap())
    }
    fn add(&mut self, rec: &mut Rec, x: &Item, noise: u32, reload: bool) {
        let e = json!({"op": "add", "x": x.json(), "size": self.size, "idx": self.idx});
        rec.pend(self.st, &e, self.last);
        let (b, m) = (x.base(noise), x.compact());
        let r = self.view().and_then(|q| guarded(|| q.add_item(&b, &x.disc, &m, &x.args).map_err(|_| ())));
        let r = match r {
            Err(()) => json!({"st": "panic"}),
            Ok(Err(())) => json!({"st": "err"}),
            Ok(Ok(i)) => json!({"st": "ok", "ret": i}),
        };
        self.after(rec, &e, r, reload);
    }
    /// many insertions as one step
    fn fill(&mut self, rec: &mut Rec, xs: &[Item], reload: bool) {
        let e = json!({"op": "fill", "xs": xs.iter().map(|x| x.json()).collect::<Vec<_>>()});
        rec.pend(self.st, &e, self.last);
        let mut ret = vec![];
        let r = self.view().and_then(|q| {
            guarded(|| {
                for x in xs {
                    tick();
                    match q.add_item(&x.base(0), &x.disc, &x.compact(), &x.args) {
                        Ok(i) => ret.push(i),
                        Err(_) => break,
                    }
                }
            })
        });
        self.after(rec, &e, json!({"st": if r.is_err() { "panic" } else { "ok" }, "ret": ret}), reload);
    }
    fn remove(&mut self, rec: &mut Rec, n: usize, reload: bool) {
        let e = json!({"op": "remove", "n": n.min(1 << 30)});
        rec.pend(self.st, &e, self.last);
        let r = self.view().and_then(|q| guarded(|| q.remove_item(n).map(|i| show(&i, q.acc)).map_err(|_| ())));
        let r = match r {
            Err(()) => json!({"st": "panic"}),
            Ok(Err(())) => json!({"st": "err"}),
            Ok(Ok(i)) => json!({"st": "ok", "item": i}),
        };
        self.after(rec, &e, r, reload);
    }
    fn reload(&mut self, rec: &mut Rec) {
        let e = json!({"op": "reload"});
        rec.pend(self.st, &e, self.last);
        self.after(rec, &e, json!({"st": "ok"}), true);
    }
}

/// the shapes of MCQueue
fn shape(k: usize) -> Item {
    let (id, len) = [(1, 96), (2, 97), (3, 136), (1, 150)][k - 1];
    let extra = len - 96;
    let nm = if extra >= 40 { 1 } else { 0 };
    let rest = extra - 33 * nm;
    let dl = rest.min(4);
    Item {
        id: pool_id(id),
        slot: 1000 + k as u64,
        prog: h32(&[b"prog", &[k as u8]]),
        prio: (k % 2) as u8,
        disc: vec![k as u8; dl],
        metas: (0..nm).map(|i| (h32(&[b"meta", &[i as u8, k as u8]]), (k % 2) as u8)).collect(),
        args: (0..rest - dl).map(|i| (i * 7 + k) as u8).collect(),
    }
}
fn apply(run: &mut Run, rec: &mut Rec, code: usize, reload: bool) {
    if code < 10 {
        run.add(rec, &shape(code), 0, reload)
    } else {
        run.remove(rec, code - 10, reload)
    }
}

/// Every path TLC found, and from its end every operation.
pub fn model(a: &HashMap<String, String>) {
    let size: usize = a["size"].parse().unwrap();
    let part: usize = a["part"].parse().unwrap();
    let parts: usize = a["parts"].parse().unwrap();
    let mut rec = Rec::new(&a["out"], usize::MAX);
    let mut runs = 0;
    for (i, l) in crate::read_lines(&a["paths"]).iter().enumerate() {
        if i % parts != part {
            continue;
        }
        runs += 1;
        let p: Vec<usize> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let mut run = Run::new(&mut rec, size, 3, i / parts % 2 == 0, 5);
        for (j, c) in p.iter().enumerate() {
            apply(&mut run, &mut rec, *c, (i + j) % 2 == 0);
        }
        let n = run.view.as_ref().map(|v| v.len()).unwrap_or(0);
        for c in (1..=4).chain(10..=10 + n.min(64)) {
            let mut f = run.fork();
            apply(&mut f, &mut rec, c, true);
        }
    }
    crate::summary(&a["out"], &json!({"runs": runs, "steps": rec.steps, "states": rec.states.len()}));
}

fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => vec![0; n],
        1 => vec![1; n],
        2 => vec![255; n],
        _ => (0..n).map(|_| r.next() as u8).collect(),
    }
}
fn item(r: &mut Rng, room: usize, ids: usize) -> Item {
    let mut nm = *r.pick(&[0usize, 0, 1, 1, 2, 3, 5, 19, 20, 21, 25]);
    let mut na = *r.pick(&[0usize, 0, 1, 3, 8, 9, 32, 100, 511, 512, 513, 600]);
    let mut nd = *r.pick(&[0usize, 1, 7, 8, 8, 8, 9, 64]);
    if r.chance(1, 3) {
        // close to the free space
        let want = (room as i64 - 96 + r.below(5) as i64 - 2).max(0) as usize;
        nm = (want / 33).min(r.below(21));
        let rest = want.saturating_sub(33 * nm);
        na = rest.min(512);
        nd = (rest - na).min(64);
    } else if r.chance(1, 3) {
        nm = nm.min(2);
        na = na.min(40);
    }
    Item {
        id: pool_id(r.below(ids)),
        slot: *r.pick(&[0u64, 1, 240, 1 << 33, u64::MAX]),
        prog: bytes(r, 32).try_into().unwrap(),
        prio: *r.pick(&[0u8, 1, 2, 255]),
        disc: bytes(r, nd),
        metas: (0..nm).map(|_| (bytes(r, 32).try_into().unwrap(), *r.pick(&[0u8, 1]))).collect(),
        args: bytes(r, na),
    }
}
fn room(run: &Run) -> usize {
    let Some(v) = run.view.as_ref() else { return 0 };
    let end = guarded(|| v.iter_items().last())
        .ok()
        .flatten()
        .map(|i| i.args_offset as usize + i.args_len as usize)
        .unwrap_or(16);
    v.acc.len().saturating_sub((end + 7) & !7)
}

/// Long random histories, in small and large accounts.
pub fn random(a: &HashMap<String, String>) {
    let mut r = Rng(a["seed"].parse::<u64>().unwrap() ^ 0x9e);
    let mut rec = Rec::new(&a["out"], a["cap"].parse().unwrap());
    let len: usize = a["len"].parse().unwrap();
    let ids = 9;
    let mut runs = 0;
    while !rec.full() {
        runs += 1;
        let size = match r.below(6) {
            0 => 12 + r.below(120),
            1 => 112 + r.below(300),
            2 => 400 + r.below(1000),
            3 => 8 * (50 + r.below(300)),
            4 => 1200 + r.below(9000),
            _ => 300 + r.below(700),
        };
        let mut run = Run::new(&mut rec, size, r.next() as u8, r.chance(2, 3), ids);
        let drain = r.below(3);
        let mut filling = true;
        for _ in 0..len {
            let n = run.view.as_ref().map(|v| v.len()).unwrap_or(0).min(200);
            if n == 0 {
                filling = true
            } else if n > 18 || r.chance(1, 14) {
                filling = !filling
            }
            let reload = r.chance(1, 3);
            let add = if filling { r.chance(3, 4) } else { r.chance(1, 4) };
            if add {
                let x = item(&mut r, room(&run), ids);
                let noise = *r.pick(&[0u32, 0, 1, 0xffff_ffff]);
                run.add(&mut rec, &x, noise, reload);
            } else {
                let k = match (drain, r.below(8)) {
                    (_, 0) => n + r.below(3),
                    (0, _) => 0,
                    (1, _) => n.saturating_sub(1),
                    _ => r.below(n.max(1)),
                };
                run.remove(&mut rec, if r.chance(1, 60) { usize::MAX } else { k }, reload);
            }
            if r.chance(1, 10) {
                run.reload(&mut rec);
            }
        }
    }
    crate::summary(&a["out"], &json!({"runs": runs, "steps": rec.steps, "states": rec.states.len()}));
}

/// Accounts of tens of kilobytes, or megabytes, with hundreds or thousands of items.
pub fn large(a: &HashMap<String, String>) {
    let mut r = Rng(a["seed"].parse::<u64>().unwrap() ^ 0x1a);
    let mut rec = Rec::new(&a["out"], usize::MAX);
    let style = a["style"].as_str();
    let edges = [0usize, 255, 256, 511, 512, 513, 65_535, 65_536, 65_537];
    let (size, many) = match style {
        "huge" => (6_400_000, 65_540),
        "big" => (160_000, 200),
        _ => (110_000 + r.below(9), 700),
    };
    let mut run = Run::new(&mut rec, size, r.next() as u8, r.chance(1, 2), edges.len());
    let fresh = |r: &mut Rng, i: usize| {
        let id = match edges.iter().position(|e| *e == i) {
            Some(k) => pool_id(k),
            None => h32(&[b"large", &(i as u64).to_le_bytes()]),
        };
        let (nm, na, nd) = match style {
            "huge" => (0, 0, 0),
            "big" => (r.below(21), r.below(513), r.below(9)),
            _ => (0, 24, 8),
        };
        Item {
            id,
            slot: i as u64,
            prog: h32(&[b"prog", &[i as u8]]),
            prio: (i % 2) as u8,
            disc: vec![i as u8; nd],
            metas: (0..nm).map(|m| (h32(&[b"meta", &[m as u8, i as u8]]), (i % 2) as u8)).collect(),
            args: vec![(i >> 8) as u8; na],
        }
    };
    let xs: Vec<Item> = (0..many).map(|i| fresh(&mut r, i)).collect();
    run.fill(&mut rec, &xs, true);
    if style == "huge" {
        for (j, k) in [65_536usize, 65_535, 65_530, 0].into_iter().enumerate() {
            run.remove(&mut rec, k, j % 2 == 0);
        }
        let x = fresh(&mut r, 70_000);
        run.add(&mut rec, &x, 0, false);
    } else {
        for j in 0..60 {
            let n = run.view.as_ref().map(|v| v.len()).unwrap_or(0).min(many);
            let k = *r.pick(&[0, 255, 256, 257, 511, 512, 513, n.max(1) - 1, n, n / 2]);
            run.remove(&mut rec, k, j % 3 == 0);
            if r.chance(1, 4) {
                let x = item(&mut r, room(&run), edges.len());
                run.add(&mut rec, &x, 0, j % 2 == 0);
            }
            if r.chance(1, 9) {
                let xs: Vec<Item> = (0..20).map(|i| fresh(&mut r, 1000 + 20 * j + i)).collect();
                run.fill(&mut rec, &xs, false);
            }
        }
    }
    crate::summary(&a["out"], &json!({"runs": 1, "steps": rec.steps, "states": rec.states.len()}));
}

/// Arbitrary and nearly valid account bytes: nothing may crash, loop or leave the account.
pub fn fuzz(a: &HashMap<String, String>) {
    let mut r = Rng(a["seed"].parse::<u64>().unwrap() ^ 0x51);
    let mut rec = Rec::new(&a["out"], a["cap"].parse().unwrap());
    let st = rec.state(dead());
    let only: Option<u64> = a.get("only").map(|x| x.parse().unwrap());
    while !rec.full() {
        let seed = only.unwrap_or_else(|| r.next());
        let e = json!({"op": "fuzz", "seed": seed.to_string()});
        rec.pend(st, &e, 0);
        let (res, can) = fuzz_one(seed);
        rec.step(st, st, &e, json!({"st": res, "canary": can}), 0);
        if only.is_some() {
            break;
        }
    }
    crate::summary(&a["out"], &json!({"runs": rec.steps, "steps": rec.steps, "states": 1}));
}
fn fuzz_one(seed: u64) -> (&'static str, bool) {
    let mut r = Rng(seed | 1);
    let size = match r.below(5) {
        0 => r.below(140),
        1 => 100 + r.below(30),
        2 => 4096 + r.below(20) - 10,
        _ => 200 + r.below(1200),
    };
    let mem = Mem::new(size, r.chance(3, 4));
    let acc = mem.acc();
    // something valid first
    if r.chance(4, 5) {
        let _ = guarded(|| {
            if let Ok(mut q) = QueueAccount::load(mem.acc()) {
                for _ in 0..r.below(6) {
                    let x = item(&mut r, 200, 4);
                    let _ = q.add_item(&x.base(0), &x.disc, &x.compact(), &x.args);
                }
                if r.chance(1, 2) {
                    let _ = q.remove_item(r.below(3));
                }
            }
        });
    } else {
        for b in acc.iter_mut() {
            *b = r.next() as u8;
        }
    }
    // corrupt: header words, lengths, offsets, used flags, single bytes
    let interesting = [0u32, 1, 7, 8, 12, 15, 16, 17, 95, 96, 97, 111, 112, 113, size as u32, (size as u32).wrapping_sub(1), (size as u32).wrapping_sub(96), size as u32 + 1, 0x7fff_ffff, 0x8000_0000, 0xffff_fff8, 0xffff_ffff, 0xffff_ff00, 255, 256, 65535];
    for _ in 0..r.below(6) {
        if size < 4 {
            break;
        }
        let v = *r.pick(&interesting);
        let item0 = 16 + 8 * r.below(30);
        let at = match r.below(8) {
            0 => 4,
            1 => 0,
            2 => item0 + *r.pick(&[72usize, 76, 80]),
            3 | 4 => item0 + *r.pick(&[84usize, 86, 88]),
            5 => 16 + *r.pick(&[72usize, 76, 80, 84, 86, 88, 91]),
            6 => r.below(size),
            _ => item0 + 91,
        };
        let w = match at {
            0 | 4 => 4,
            _ if r.chance(1, 2) => 2,
            _ => *r.pick(&[1usize, 4]),
        };
        if at + w <= size {
            acc[at..at + w].copy_from_slice(&v.to_le_bytes()[..w]);
        }
    }
    let shift = if r.chance(1, 8) { r.below(5) } else { 0 };
    let res = guarded(|| {
        let acc = mem.acc();
        if shift > acc.len() {
            return;
        }
        let full: &[u8] = mem.full();
        let _ = Queue::try_from_bytes(&full[..full.len().min(r.below(40) + if r.chance(1, 2) { 0 } else { 20 })]);
        let Ok(mut q) = QueueAccount::load(&mut acc[shift..]) else { return };
        let mut sum = 0usize;
        for _ in 0..3 {
            for i in q.iter_items().take(3000) {
                sum += i.callback_discriminator(q.acc).iter().map(|x| *x as usize).sum::<usize>();
                sum += i.account_metas(q.acc).iter().map(|m| m.pubkey[31] as usize + m.is_writable as usize + m.to_account_meta().is_writable as usize).sum::<usize>();
                sum += i.callback_args(q.acc).iter().map(|x| *x as usize).sum::<usize>();
            }
            sum += q.find_item_by_id(&pool_id(1)).map(|x| x.0).unwrap_or(0);
            sum += q.get_item_by_index(r.below(4)).map(|x| x.slot as usize & 1).unwrap_or(0);
            sum += q.len() + q.is_empty() as usize;
            match r.below(4) {
                0 => {
                    let _ = q.remove_item(r.below(4));
                }
                1 => {
                    q.next_item_offset();
                }
                _ => {
                    let x = item(&mut r, 200, 4);
                    let _ = q.add_item(&x.base(0), &x.disc, &x.compact(), &x.args);
                }
            }
        }
        std::hint::black_box(sum);
    });
    (if res.is_ok() { "ok" } else { "panic" }, mem.canary_ok())
}
