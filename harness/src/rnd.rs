//! Records calls of the SDK's random helpers for Rnd.tla.
use crate::names::Rng;
use crate::svm::guarded;
use ephemeral_vrf_sdk::rnd as real;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;

type Fixed = (&'static str, u32, fn(&[u8; 32]) -> u64);
const FIXED: &[Fixed] = &[
    ("random_u8", 8, |b| real::random_u8(b) as u64),
    ("random_u32", 32, |b| real::random_u32(b) as u64),
    ("random_i32", 32, |b| real::random_i32(b) as u32 as u64),
    ("random_u64", 64, |b| real::random_u64(b)),
    ("random_i64", 64, |b| real::random_i64(b) as u64),
    ("random_bool", 1, |b| real::random_bool(b) as u64),
];

fn structured(r: &mut Rng, lo: u8, hi: u8, k: usize) -> [u8; 32] {
    let range = hi as usize - lo as usize + 1;
    let thr = 256 / range * range;
    let rej = if thr == 256 { 255 } else { thr as u8 };
    let mut b = [0u8; 32];
    match k {
        0 => b = [rej; 32],
        1 => b = [255; 32],
        2 => {}
        3 => b = [(thr - 1) as u8; 32],
        4 => {
            // only one byte is accepted
            b = [rej; 32];
            b[r.below(32)] = r.below(thr) as u8;
        }
        5 => {
            for x in b.iter_mut() {
                *x = (rej as usize + r.below(256 - rej as usize)) as u8;
            }
        }
        _ => {
            for x in b.iter_mut() {
                *x = r.next() as u8;
            }
        }
    }
    b
}
pub fn calls(a: &HashMap<String, String>) {
    let dir = &a["out"];
    let mut r = Rng(a["seed"].parse::<u64>().unwrap() * 7 + 3);
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/steps.ndjson")).unwrap());
    let mut call = |b: [u8; 32], lo: u8, hi: u8| {
        let o = guarded(|| real::random_u8_with_range(&b, lo, hi));
        let v = match o {
            Err(()) => json!({"k": "call", "b": b, "lo": lo, "hi": hi, "st": "panic", "out": -1, "again": -1}),
            Ok(o) => {
                let mut c = b;
                c[0] ^= 1;
                let _ = guarded(|| real::random_u8_with_range(&c, 0, 255));
                let again = guarded(|| real::random_u8_with_range(&b, lo, hi)).map(|x| x as i64).unwrap_or(-1);
                json!({"k": "call", "b": b, "lo": lo, "hi": hi, "st": "ok", "out": o, "again": again})
            }
        };
        writeln!(f, "{v}").unwrap();
    };
    let every: usize = a["every"].parse().unwrap();
    let mut n = 0;
    for lo in 0..=255u8 {
        for hi in lo..=255 {
            let edge = lo == 0 || hi == 255 || lo == hi;
            for k in 0..if edge { 7 } else { every } {
                let k = if edge { k } else { (n + k) % 7 };
                n += 1;
                call(structured(&mut r, lo, hi, k), lo, hi);
            }
        }
    }
    for (h, _, g) in FIXED {
        for k in 0..40 {
            let b = structured(&mut r, 0, 127 + (k as u8), (k % 7) as usize);
            let o = guarded(|| g(&b));
            let mut c = b;
            c[(k % 32) as usize] ^= 0x55;
            let _ = guarded(|| g(&c));
            let o2 = guarded(|| g(&b));
            writeln!(f, "{}", json!({"k": "fixed", "h": h, "st": if o.is_ok() { "ok" } else { "panic" }, "pure": o == o2})).unwrap();
        }
    }
    drop(f);
    crate::summary(dir, &json!({"steps": n, "runs": n}));
}

/// Counts over uniformly random bytes, for every range size and every fixed-width helper.
pub fn counts(a: &HashMap<String, String>) {
    let dir = &a["out"];
    let root: u64 = a["root"].parse().unwrap();
    let n = root * root;
    let seed = a["seed"].parse::<u64>().unwrap();
    let threads = 8u64;
    let mut lr = Rng(seed ^ 0x77);
    // deep: only the ranges that reject most, over far more bytes
    let deep = a.contains_key("deep");
    let sizes: Vec<usize> = if deep { vec![65, 86, 129, 130] } else { (1..=256).collect() };
    let los: Vec<(u8, u8)> = sizes
        .into_iter()
        .map(|range| {
            let lo = lr.below(257 - range);
            (lo as u8, (lo + range - 1) as u8)
        })
        .collect();
    let parts: Vec<_> = (0..threads)
        .map(|t| {
            let los = los.clone();
            std::thread::spawn(move || {
                let mut r = Rng(seed * 1_000_003 + t * 7919 + 1);
                let mut cnt: Vec<Vec<u32>> = los.iter().map(|(l, h)| vec![0; (*h - *l) as usize + 1]).collect();
                let share = n / threads;
                let mut b = [0u8; 32];
                let mut bad = false;
                for i in 0..share {
                    for w in b.chunks_mut(8) {
                        w.copy_from_slice(&r.next().to_le_bytes());
                    }
                    if i % 65536 == 0 {
                        crate::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    let g = guarded(|| {
                        for (c, (l, h)) in cnt.iter_mut().zip(&los) {
                            let v = real::random_u8_with_range(&b, *l, *h);
                            c[v.wrapping_sub(*l) as usize] += 1;
                        }
                    });
                    bad |= g.is_err();
                }
                (cnt, bad)
            })
        })
        .collect();
    let mut cnt: Vec<Vec<u64>> = los.iter().map(|(l, h)| vec![0; (*h - *l) as usize + 1]).collect();
    for p in parts {
        let (c, _) = p.join().unwrap();
        for (a, b) in cnt.iter_mut().zip(c) {
            for (x, y) in a.iter_mut().zip(b) {
                *x += y as u64;
            }
        }
    }
    let mut f = std::fs::File::create(format!("{dir}/steps.ndjson")).unwrap();
    for c in &cnt {
        writeln!(f, "{}", json!({"k": "count", "h": "random_u8_with_range", "range": c.len(), "n": n, "root": root, "cnt": c})).unwrap();
    }
    if deep {
        return crate::summary(dir, &json!({"steps": cnt.len(), "runs": n}));
    }
    // the values of each byte of the fixed-width helpers
    let parts: Vec<_> = FIXED
        .iter()
        .map(|(h, w, g)| {
            std::thread::spawn(move || {
                let mut r = Rng(seed * 101 + *w as u64 + h.len() as u64);
                let range = 1usize << *w.min(&8);
                let mut cnt = vec![vec![0u64; range]; *w as usize / 8 + (*w == 1) as usize];
                for i in 0..n {
                    let mut b = [0u8; 32];
                    for x in b.chunks_mut(8) {
                        x.copy_from_slice(&r.next().to_le_bytes());
                    }
                    let v = guarded(|| g(&b)).unwrap_or(0);
                    for (k, c) in cnt.iter_mut().enumerate() {
                        c[(v >> (8 * k)) as usize & (range - 1)] += 1;
                    }
                    if i % 65536 == 0 {
                        crate::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                }
                cnt.into_iter().map(|c| json!({"k": "count", "h": h, "range": range, "n": n, "root": root, "cnt": c})).collect::<Vec<_>>()
            })
        })
        .collect();
    for p in parts {
        for v in p.join().unwrap() {
            writeln!(f, "{v}").unwrap();
        }
    }
    // bits
    let broot = 600u64;
    let bn = broot * broot;
    let rows: Vec<Value> = FIXED
        .iter()
        .map(|(h, w, g)| {
            let mut r = Rng(seed * 31 + *w as u64);
            let w = *w as usize;
            let mut ones = vec![0u64; w];
            let mut both = vec![0u64; w * w];
            for _ in 0..bn {
                let mut b = [0u8; 32];
                for x in b.chunks_mut(8) {
                    x.copy_from_slice(&r.next().to_le_bytes());
                }
                let v = guarded(|| g(&b)).unwrap_or(0);
                for i in 0..w {
                    if v >> i & 1 == 1 {
                        ones[i] += 1;
                        for j in i + 1..w {
                            both[i * w + j] += v >> j & 1;
                        }
                    }
                }
                if r.next() % 65536 == 0 {
                    crate::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
            }
            let pairs: Vec<u64> = (0..w).flat_map(|i| (i + 1..w).map(move |j| (i, j))).map(|(i, j)| both[i * w + j]).collect();
            json!({"k": "bits", "h": h, "n": bn, "root": broot, "ones": ones, "pairs": pairs})
        })
        .collect();
    for v in rows {
        writeln!(f, "{v}").unwrap();
    }
    crate::summary(dir, &json!({"steps": 256 + FIXED.len(), "runs": n}));
}
