//! Evaluates and attacks the real VRF code (off chain: ephemeral_vrf, on chain:
//! ephemeral_vrf_api::verify) and records the outcome for CryptoJudge.tla.
use crate::names::{h32, hex, keypair, Rng};
use crate::svm::guarded;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use ephemeral_vrf::vrf::{compute_vrf, generate_vrf_keypair, verify_vrf as off_verify};
use ephemeral_vrf_api::verify::verify_vrf as on_verify;
use serde_json::{json, Value};
use sha2::{Digest, Sha256, Sha512};
use solana_curve25519::ristretto::PodRistrettoPoint;
use solana_curve25519::scalar::PodScalar;
use solana_sdk::signature::{Keypair, Signer};
use std::collections::{BTreeSet, HashMap};
use std::io::Write;

type B32 = [u8; 32];
#[derive(Clone, Copy, PartialEq, Debug)]
struct Proof {
    pk: B32,
    input: B32,
    gamma: B32,
    a: B32,
    b: B32,
    s: B32,
}
fn c(p: RistrettoPoint) -> B32 {
    p.compress().to_bytes()
}
fn pt(b: &B32) -> Option<RistrettoPoint> {
    CompressedRistretto(*b).decompress()
}
fn on(p: &Proof) -> &'static str {
    let r = guarded(|| {
        on_verify(
            &PodRistrettoPoint(p.pk),
            &p.input,
            &PodRistrettoPoint(p.gamma),
            (&PodRistrettoPoint(p.a), &PodRistrettoPoint(p.b), &PodScalar(p.s)),
        )
    });
    verdict(r)
}
fn off(p: &Proof) -> &'static str {
    let Some(pk) = pt(&p.pk) else { return "reject" };
    let Some(s) = Option::<Scalar>::from(Scalar::from_canonical_bytes(p.s)) else { return "reject" };
    let r = guarded(|| {
        off_verify(pk, &p.input, CompressedRistretto(p.gamma), (CompressedRistretto(p.a), CompressedRistretto(p.b), s))
    });
    verdict(r)
}
fn verdict(r: Result<bool, ()>) -> &'static str {
    match r {
        Ok(true) => "accept",
        Ok(false) => "reject",
        Err(()) => "crash",
    }
}
fn eval(sk: Scalar, pk: &RistrettoPoint, input: &B32) -> Option<Proof> {
    crate::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    guarded(|| {
        let (g, (a, b, s)) = compute_vrf(sk, input);
        Proof { pk: c(*pk), input: *input, gamma: g.to_bytes(), a: a.to_bytes(), b: b.to_bytes(), s: s.to_bytes() }
    })
    .ok()
}

struct Out {
    f: std::io::BufWriter<std::fs::File>,
    n: usize,
}
impl Out {
    fn put(&mut self, v: Value) {
        crate::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        writeln!(self.f, "{v}").unwrap();
        self.n += 1;
    }
    fn other(&mut self, p: &Proof, true_out: &B32, what: &str, tamper: bool) {
        self.put(json!({"k": "other", "what": what, "off": off(p), "on": on(p), "true": p.gamma == *true_out, "tamper": tamper,
            "proof": [hex(&p.pk), hex(&p.input), hex(&p.gamma), hex(&p.a), hex(&p.b), hex(&p.s)]}));
    }
}

// ------------------------------------------------------------------ public derivations
const P_CHAL: &[u8] = b"VRF-Ephem-Challenge";
const P_H2P: &[u8] = b"VRF-Ephem-HashToPoint";
const P_H2S: &[u8] = b"VRF-Ephem-HashToScalar";
const P_NONCE: &[u8] = b"VRF-Ephem-Nonce";
const P_KEY: &[u8] = b"VRF-Solana-SecretKey";

fn hkdf(salt: Option<&[u8]>, ikm: &[u8], info: &[u8]) -> B32 {
    let mut o = [0u8; 64];
    hkdf::Hkdf::<Sha512>::new(salt, ikm).expand(info, &mut o).unwrap();
    o[..32].try_into().unwrap()
}
fn kdfs(x: &[u8]) -> Vec<(String, Scalar)> {
    let m = |b: B32| Scalar::from_bytes_mod_order(b);
    let sha: B32 = Sha256::digest(x).into();
    let sha5: [u8; 64] = Sha512::digest(x).into();
    let sha2: B32 = Sha256::digest(sha).into();
    let pre: B32 = Sha256::digest([P_H2S, &sha].concat()).into();
    let mut out = vec![
        ("sha256".to_string(), m(sha)),
        ("sha256-twice".to_string(), m(sha2)),
        ("hash-to-scalar".to_string(), m(pre)),
        ("sha512".to_string(), m(sha5[..32].try_into().unwrap())),
        ("sha512-wide".to_string(), Scalar::from_bytes_mod_order_wide(&sha5)),
    ];
    if x.len() == 32 {
        out.push(("plain".into(), m(x.try_into().unwrap())));
    }
    for (sn, salt) in [("none", None), ("nonce", Some(P_NONCE)), ("key", Some(P_KEY)), ("challenge", Some(P_CHAL))] {
        for info in ["", "VRF-Nonce", "VRF-Key"] {
            out.push((format!("hkdf({sn},{info})"), m(hkdf(salt, x, info.as_bytes()))));
        }
    }
    out
}
/// all exported public terms, for one evaluation
fn derive(dict: &[Vec<String>], env: &HashMap<&str, Vec<u8>>) -> Vec<(String, Scalar)> {
    let mut out = vec![];
    for q in dict {
        crate::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if q.iter().any(|a| !env.contains_key(a.as_str())) {
            continue;
        }
        let x: Vec<u8> = q.iter().flat_map(|a| env[a.as_str()].clone()).collect();
        for (k, v) in kdfs(&x) {
            out.push((format!("{k}[{}]", q.join(",")), v));
        }
    }
    out
}
fn env<'a>(p: &Proof, id: &B32, gamma: bool) -> HashMap<&'a str, Vec<u8>> {
    let mut e: HashMap<&str, Vec<u8>> = HashMap::new();
    e.insert("input", p.input.to_vec());
    e.insert("pk", p.pk.to_vec());
    e.insert("id", id.to_vec());
    e.insert("Pchal", P_CHAL.to_vec());
    e.insert("Ph2p", P_H2P.to_vec());
    e.insert("Ph2s", P_H2S.to_vec());
    e.insert("Pnonce", P_NONCE.to_vec());
    e.insert("Pkey", P_KEY.to_vec());
    if gamma {
        e.insert("gamma", p.gamma.to_vec());
    }
    e
}

fn challenge(p: &Proof, omit: &BTreeSet<&str>) -> Scalar {
    let mut x = P_CHAL.to_vec();
    for (n, v) in [("gamma", &p.gamma), ("A", &p.a), ("B", &p.b), ("pk", &p.pk), ("input", &p.input)] {
        if !omit.contains(n) {
            x.extend_from_slice(v);
        }
    }
    let h: B32 = Sha256::digest(&x).into();
    Scalar::from_bytes_mod_order(Sha256::digest([P_H2S, &h].concat()).into())
}
fn rs(r: &mut Rng) -> Scalar {
    let b: Vec<u8> = r.bytes(64);
    Scalar::from_bytes_mod_order_wide(&b.try_into().unwrap())
}

/// weights of the two equations in a verifier that checks a combination of them
fn weights(e: &BTreeSet<&str>, cc: Scalar) -> Option<(Scalar, Scalar)> {
    let one = Scalar::ONE;
    Some(match e.iter().next().cloned()? {
        "sum" => (one, one),
        "diff" => (one, -one),
        "twice" => (one + one, one),
        "thrice" => (one, one + one + one),
        "chal" => (one, cc),
        "lahc" => (cc, one),
        _ => return None,
    })
}
/// discrete logarithm of an id's point, if the code derives it as a public scalar
fn dlog(input: &B32, h: RistrettoPoint) -> Option<Scalar> {
    kdfs(&[P_H2P, input].concat()).into_iter().map(|x| x.1).find(|t| t * G == h)
}

/// Play the strategy of a weakened verifier: o = left out of the challenge, e = equations checked.
/// `sk` None: an outsider who knows only public data (where the strategy allows it).
fn forge(r: &mut Rng, sk: Scalar, pk: RistrettoPoint, h: RistrettoPoint, input: &B32, o: &BTreeSet<&str>, e: &BTreeSet<&str>, extra: &[&'static str]) -> Proof {
    let mut omit = o.clone();
    omit.extend(extra);
    let (k, w, b0) = (rs(r), rs(r), rs(r));
    let mut p = Proof { pk: c(pk), input: *input, gamma: c(w * h), a: c(k * G), b: c(b0 * h), s: [0; 32] };
    let ch = |p: &Proof| challenge(p, &omit);
    if let Some(t) = dlog(input, h).filter(|_| weights(e, k).is_some()) {
        let open = w * h; // the output claimed
        let solve = |cc: Scalar| {
            let (a, b) = weights(e, cc).unwrap();
            // s*(a + b*t) = a*(k + c*sk) + b*(b0*t + c*w*t)
            (a * (k + cc * sk) + b * (b0 * t + cc * w * t)) * (a + b * t).invert()
        };
        p.gamma = c(open);
        p.s = solve(ch(&p)).to_bytes();
        return p;
    }
    if !e.contains("base") {
        p.b = c(k * h);
        p.a = c(b0 * G);
        p.s = (k + ch(&p) * w).to_bytes();
    } else if !e.contains("hash") {
        p.s = (k + ch(&p) * sk).to_bytes();
    } else if o.contains("gamma") {
        let cc = ch(&p);
        let s = k + cc * sk;
        p.s = s.to_bytes();
        p.gamma = c((s * h - b0 * h) * cc.invert());
    } else if o.contains("A") {
        p.b = c(k * h);
        let cc = ch(&p);
        let s = k + cc * w;
        p.s = s.to_bytes();
        p.a = c(s * G - cc * pk);
    } else {
        let cc = ch(&p);
        let s = k + cc * sk;
        p.s = s.to_bytes();
        p.b = c(s * h - cc * (w * h));
    }
    p
}

const L: B32 = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
];
fn add_l(s: &B32) -> B32 {
    let mut o = [0u8; 32];
    let mut carry = 0u16;
    for i in 0..32 {
        let x = s[i] as u16 + L[i] as u16 + carry;
        o[i] = x as u8;
        carry = x >> 8;
    }
    o
}

pub fn run(a: &HashMap<String, String>) {
    let dir = &a["out"];
    let seed = a["seed"].parse::<u64>().unwrap();
    let n: usize = a["n"].parse().unwrap();
    let mut r = Rng(seed ^ 0xc0ffee);
    let mut out = Out { f: std::io::BufWriter::new(std::fs::File::create(format!("{dir}/steps.ndjson")).unwrap()), n: 0 };
    // identities: random, and neighbours of one another
    let mut seeds: Vec<B32> = vec![[0; 32], [255; 32], h32(&[b"a"])];
    for i in 0..32 {
        let mut x = h32(&[b"a"]);
        x[i] ^= 1 << (i % 8);
        seeds.push(x);
    }
    for i in 0..n {
        seeds.push(h32(&[b"crypto", &seed.to_le_bytes(), &i.to_le_bytes()]));
    }
    let ids: Vec<Keypair> = seeds.iter().map(|s| Keypair::new_from_array(*s)).chain([keypair("o1"), keypair("o2")]).collect();
    let mut again = true;
    let mut matching = true;
    let mut keys = vec![];
    for i in &ids {
        let Ok((sk, pk)) = guarded(|| generate_vrf_keypair(i)) else {
            matching = false;
            continue;
        };
        again &= generate_vrf_keypair(&Keypair::new_from_array(i.to_bytes()[..32].try_into().unwrap())) == (sk, pk);
        matching &= sk * G == pk && sk != Scalar::ZERO;
        keys.push((i.pubkey().to_bytes(), sk, pk));
    }
    out.put(json!({"k": "keys", "pk": keys.iter().map(|k| hex(&c(k.2))).collect::<Vec<_>>(), "again": again, "match": matching}));

    // how much of the identity's secret decides the VRF key: change one secret byte and nothing
    // else (the public half stays as it was)
    let mut n_dep = 0;
    for b in 0..32 {
        let mut changed = false;
        for bit in [0x01u8, 0x08, 0x40] {
            let Some(k) = with_secret_byte(&ids[3], b, bit) else { continue };
            changed |= guarded(|| generate_vrf_keypair(&k)).ok().map(|x| x.0) != keys.iter().find(|k| k.0 == ids[3].pubkey().to_bytes()).map(|k| k.1);
        }
        n_dep += changed as usize;
    }
    out.put(json!({"k": "keydep", "bytes": n_dep}));
    // the identity's public key and one or two unknown secret bytes
    let (id0, sk0) = (keys[keys.len() - 1].0, keys[keys.len() - 1].1);
    for two in 0..65536u32 {
        let b = two.to_le_bytes();
        let cands: &[Vec<u8>] = &if two < 256 {
            vec![[&b[..1], &id0[..]].concat(), [&id0[..], &b[..1]].concat(), [&b[..2], &id0[..]].concat(), [&id0[..], &b[..2]].concat()]
        } else {
            vec![[&b[..2], &id0[..]].concat(), [&id0[..], &b[..2]].concat()]
        };
        crate::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if two >= 256 && seed % 100 != 0 {
            break; // one shard is enough
        }
        for x in cands {
            let y = hkdf(Some(P_KEY), x, b"VRF-Key");
            if Scalar::from_bytes_mod_order(y) == sk0 {
                out.put(json!({"k": "leak", "what": "the VRF key", "term": format!("the public key and {} guessed bytes", x.len() - 32), "key": 0, "input": ""}));
            }
        }
    }

    // secret keys that differ in one byte
    let mut near = h32(&[b"near", &seed.to_le_bytes()]);
    near[31] = 0;
    for i in 0..31 {
        near[i] ^= 1;
        let sk = Scalar::from_bytes_mod_order(near);
        near[i] ^= 1;
        keys.push((near, sk, sk * G));
    }

    // inputs: random and neighbouring ones
    let mut inputs: Vec<B32> = vec![[0; 32], [255; 32], L];
    let base = h32(&[b"input", &seed.to_le_bytes()]);
    inputs.push(base);
    for i in 0..32 {
        let mut x = base;
        x[i] ^= 1 << ((i + 3) % 8);
        inputs.push(x);
    }
    for i in 0..n {
        inputs.push(h32(&[b"in", &seed.to_le_bytes(), &i.to_le_bytes()]));
    }

    // honest evaluations
    let mut table: Vec<(usize, Proof, RistrettoPoint)> = vec![];
    for (i, (_, sk, pk)) in keys.iter().enumerate() {
        for (j, x) in inputs.iter().enumerate() {
            if i >= 3 && j >= 3 && (i + j) % 7 != 0 && j != 3 {
                continue;
            }
            let (p, q) = (eval(*sk, pk, x), eval(*sk, pk, x));
            match p {
                Some(p) => {
                    out.put(json!({"k": "honest", "same": Some(p) == q, "off": off(&p), "on": on(&p), "key": i, "input": hex(x)}));
                    if let Some(g) = pt(&p.gamma) {
                        table.push((i, p, sk.invert() * g));
                    }
                }
                None => out.put(json!({"k": "honest", "same": false, "off": "crash", "on": "crash", "key": i, "input": hex(x)})),
            }
        }
    }
    // every input that differs from one input in a single bit, and every bit of one proof
    let (sk, pk) = (keys[3].1, keys[3].2);
    let mut near_by: Vec<Proof> = vec![];
    if let Some(p0) = eval(sk, &pk, &base) {
        near_by.push(p0);
        for bit in 0..256usize {
            let mut x = base;
            x[bit / 8] ^= 1 << (bit % 8);
            let moved = Proof { input: x, ..p0 };
            let (p, q) = (eval(sk, &pk, &x), eval(sk, &pk, &x));
            out.other(&moved, &p.map(|p| p.gamma).unwrap_or_default(), "a proof over another input", true);
            match p {
                Some(p) => {
                    out.put(json!({"k": "honest", "same": Some(p) == q, "off": off(&p), "on": on(&p), "key": 3, "input": hex(&x)}));
                    near_by.push(p);
                }
                None => out.put(json!({"k": "honest", "same": false, "off": "crash", "on": "crash", "key": 3, "input": hex(&x)})),
            }
            for f in 0..5 {
                let mut t = p0;
                let v = [&mut t.pk, &mut t.gamma, &mut t.a, &mut t.b, &mut t.s];
                v.into_iter().nth(f).unwrap()[bit / 8] ^= 1 << (bit % 8);
                out.other(&t, &p0.gamma, "a proof with one bit changed", true);
            }
        }
    }
    out.put(json!({"k": "nonces", "what": "base commitment of inputs one bit apart", "a": near_by.iter().map(|p| hex(&p.a)).collect::<Vec<_>>()}));
    out.put(json!({"k": "outputs", "a": near_by.iter().map(|p| hex(&p.gamma)).chain(table.iter().filter(|t| t.0 == 0).map(|t| hex(&t.1.gamma))).collect::<Vec<_>>()}));
    // nonces
    out.put(json!({"k": "nonces", "what": "base commitment", "a": table.iter().map(|t| hex(&t.1.a)).collect::<Vec<_>>()}));
    out.put(json!({"k": "nonces", "what": "hash commitment", "a": table.iter().map(|t| hex(&t.1.b)).collect::<Vec<_>>()}));
    // opened nonces, where the challenge is known
    let none = BTreeSet::new();
    let ks: Vec<Scalar> = table
        .iter()
        .filter_map(|(i, p, _)| {
            let k = Option::<Scalar>::from(Scalar::from_canonical_bytes(p.s))? - challenge(p, &none) * keys[*i].1;
            (c(k * G) == p.a).then_some(k)
        })
        .collect();
    if ks.len() > 100 {
        let distinct: Vec<usize> = (0..32).map(|b| ks.iter().map(|k| k.to_bytes()[b]).collect::<BTreeSet<_>>().len()).collect();
        out.put(json!({"k": "bytes", "distinct": distinct, "n": ks.len()}));
    }

    // tampering and transplanting
    let picks: Vec<usize> = (0..a["tampers"].parse::<usize>().unwrap()).map(|_| r.below(table.len())).collect();
    for t in picks {
        let (ki, p, h) = table[t];
        let sk = keys[ki].1;
        let (_, q, _) = table[r.below(table.len())];
        let truth = |x: &B32| if *x == p.input { p.gamma } else { eval(sk, &keys[ki].2, x).map(|e| e.gamma).unwrap_or(p.gamma) };
        let mut put = |m: Proof, what: &str, tamper: bool| {
            if m != p && !(what != "alternative" && m == q) {
                // the true output belongs to the proof's own key and input
                let t = if m.pk == p.pk { truth(&m.input) } else if m.pk == [0; 32] { [0; 32] } else { [0xEE; 32] };
                out.other(&m, &t, what, tamper);
            }
        };
        for (f, name) in ["pk", "input", "gamma", "a", "b", "s"].iter().enumerate() {
            let set = |v: B32| {
                let mut m = p;
                *[&mut m.pk, &mut m.input, &mut m.gamma, &mut m.a, &mut m.b, &mut m.s][f] = v;
                m
            };
            let cur = [p.pk, p.input, p.gamma, p.a, p.b, p.s][f];
            let mut flip = cur;
            flip[r.below(32)] ^= 1 << r.below(8);
            put(set(flip), &format!("bit flipped in {name}"), true);
            flip = cur;
            flip[31] ^= 0x80;
            put(set(flip), &format!("top bit flipped in {name}"), true);
            flip = cur;
            flip[0] ^= 1;
            put(set(flip), &format!("low bit flipped in {name}"), true);
            put(set([0; 32]), &format!("{name} zero"), true);
            put(set([255; 32]), &format!("{name} all ones"), true);
            put(set(c(G)), &format!("{name} generator"), true);
            put(set(c(h)), &format!("{name} point of the id"), true);
            put(set(p.pk), &format!("{name} public key"), true);
            put(set(p.gamma), &format!("{name} output"), true);
            put(set(p.a), &format!("{name} base commitment"), true);
            put(set([q.pk, q.input, q.gamma, q.a, q.b, q.s][f]), &format!("{name} of another proof"), true);
            let random: B32 = r.bytes(32).try_into().unwrap();
            put(set(random), &format!("{name} random bytes"), true);
            if f != 1 && f != 5 {
                put(set(c(rs(&mut r) * G)), &format!("{name} random point"), true);
                if let Some(x) = pt(&cur) {
                    put(set(c(-x)), &format!("{name} negated"), true);
                    put(set(c(x + G)), &format!("{name} plus generator"), true);
                    put(set(c(x + x)), &format!("{name} doubled"), true);
                    put(set(c(x + h)), &format!("{name} plus point of the id"), true);
                }
                // the same field element, encoded differently
                let mut nc = cur;
                for b in nc.iter_mut() {
                    *b = !*b;
                }
                put(set(nc), &format!("{name} complement"), true);
            }
            if f == 5 {
                put(set(add_l(&cur)), "response plus the group order", true);
                if let Some(s) = Option::<Scalar>::from(Scalar::from_canonical_bytes(cur)) {
                    put(set((-s).to_bytes()), "response negated", true);
                    put(set((s + Scalar::ONE).to_bytes()), "response plus one", true);
                }
                put(set(L), "response equal to the group order", true);
            }
        }
        put(Proof { gamma: q.gamma, a: q.a, b: q.b, s: q.s, ..p }, "proof of another id or key", false);
        put(Proof { gamma: q.gamma, ..p }, "output of another id or key", true);
        put(Proof { a: q.a, b: q.b, ..p }, "commitments of another proof", true);
        put(Proof { a: q.a, b: q.b, s: q.s, ..p }, "all but the output of another proof", false);
        put(Proof { pk: q.pk, ..p }, "another key", true);
        put(Proof { a: p.b, b: p.a, ..p }, "commitments swapped", true);
        put(Proof { gamma: p.a, a: p.gamma, ..p }, "output and commitment swapped", true);
        put(Proof { gamma: [0; 32], a: [0; 32], b: [0; 32], s: [0; 32], ..p }, "all zero", false);
        put(Proof { pk: [0; 32], gamma: [0; 32], a: [0; 32], b: [0; 32], s: [0; 32], ..p }, "all zero with a zero key", false);
        // a joint shift of commitments and response keeps both equations but changes the challenge
        if let (Some(pa), Some(pb), Some(s)) = (pt(&p.a), pt(&p.b), Option::<Scalar>::from(Scalar::from_canonical_bytes(p.s))) {
            let d = rs(&mut r);
            put(Proof { a: c(pa + d * G), b: c(pb + d * h), s: (s + d).to_bytes(), ..p }, "jointly shifted commitments and response", true);
            // output and response negated or scaled together
            if let Some(g) = pt(&p.gamma) {
                put(Proof { gamma: c(-g), a: c(-pa), b: c(-pb), s: (-s).to_bytes(), ..p }, "everything negated", false);
                put(Proof { gamma: c(-g), b: c(-pb), ..p }, "output and hash commitment negated", false);
                put(Proof { gamma: c(d * g), a: c(d * pa), b: c(d * pb), s: (d * s).to_bytes(), ..p }, "everything scaled", false);
                put(Proof { gamma: c(g + pk_of(&p)), ..p }, "output plus public key", false);
                // cancel one error with another: gamma + D, B - c*D
                let cc = challenge(&p, &none);
                put(Proof { gamma: c(g + d * G), b: c(pb - cc * (d * G)), ..p }, "output shifted, hash commitment compensating", false);
                put(Proof { gamma: c(g + d * G), a: c(pa - cc * (d * G)), ..p }, "output shifted, base commitment compensating", false);
            }
        }
        // another proof of the true output by the holder of the key: both accept it
        let k = rs(&mut r);
        let mut m = Proof { a: c(k * G), b: c(k * h), ..p };
        m.s = (k + challenge(&m, &none) * sk).to_bytes();
        put(m, "alternative", false);
    }

    // forging strategies of every weakened verifier
    let strategies: Vec<(BTreeSet<String>, BTreeSet<String>)> = crate::read_lines(&a["strategies"])
        .iter()
        .map(|l| {
            let (o, e) = l.split_once('|').unwrap();
            let set = |x: &str| x.split(',').map(|y| y.trim().to_string()).filter(|y| !y.is_empty()).collect();
            (set(o), set(e))
        })
        .collect();
    for round in 0..a["forges"].parse::<usize>().unwrap() {
        let (ki, p, h) = table[r.below(table.len())];
        let (_, sk, pk) = keys[ki];
        for (o, e) in &strategies {
            let o: BTreeSet<&str> = o.iter().map(|x| x.as_str()).collect();
            let e: BTreeSet<&str> = e.iter().map(|x| x.as_str()).collect();
            for extra in [&[][..], &["pk"], &["input"], &["pk", "input"]] {
                let f = forge(&mut r, sk, pk, h, &p.input, &o, &e, extra);
                out.other(&f, &p.gamma, &format!("forgery against a verifier hashing all but {o:?} {extra:?} and checking {e:?}"), false);
            }
        }
        // the holder of the key satisfies one equation only, with every coincidence of components
        {
            let special = |r: &mut Rng| [RistrettoPoint::identity(), G, pk, h, pt(&p.gamma).unwrap_or(G), pt(&p.a).unwrap_or(G), rs(r) * G];
            for (i, g) in special(&mut r).into_iter().enumerate() {
                for (j, x) in special(&mut r).into_iter().chain([G, G, G]).enumerate() {
                    for k in [rs(&mut r), Scalar::ZERO] {
                        let b = match j {
                            7 => g,
                            8 => k * G,
                            9 => k * h,
                            _ => x,
                        };
                        let mut f = Proof { gamma: c(g), a: c(k * G), b: c(b), s: [0; 32], ..p };
                        f.s = (k + challenge(&f, &none) * sk).to_bytes();
                        if f.gamma != p.gamma {
                            out.other(&f, &p.gamma, &format!("base equation only, output {i}, commitment {j}"), false);
                        }
                        // the other equation only
                        let w = [Scalar::ZERO, Scalar::ONE, -Scalar::ONE, sk + sk, -sk, k, rs(&mut r)][i];
                        let g2 = w * h;
                        let a = match j {
                            7 => g2,
                            8 => k * h,
                            9 => k * G,
                            _ => x,
                        };
                        let mut f = Proof { gamma: c(g2), a: c(a), b: c(k * h), s: [0; 32], ..p };
                        f.s = (k + challenge(&f, &none) * w).to_bytes();
                        if f.gamma != p.gamma {
                            out.other(&f, &p.gamma, &format!("hash equation only, output {i}, commitment {j}"), false);
                        }
                    }
                }
            }
        }
        // a key chosen to fit the proof: works when the key is left out of the challenge
        {
            let (al, be, w, s) = (rs(&mut r), rs(&mut r), rs(&mut r), rs(&mut r));
            for o in [&["pk"][..], &["pk", "input"]] {
                let o: BTreeSet<&str> = o.iter().cloned().collect();
                if let Some(t) = dlog(&p.input, h) {
                    let mut f = Proof { pk: [0; 32], input: p.input, gamma: c(w * G), a: c(al * G), b: c(be * G), s: [0; 32] };
                    let cc = challenge(&f, &o);
                    // s*t = be + cc*w, and s = al + cc*x for the chosen key x
                    let s2 = (be + cc * w) * t.invert();
                    f.s = s2.to_bytes();
                    let x = (s2 - al) * cc.invert();
                    f.pk = c(x * G);
                    out.other(&f, &c(x * h), "proof for a key chosen afterwards", false);
                }
                // without the point's logarithm: s free, the hash commitment fits the output
                let mut f = Proof { pk: [0; 32], input: p.input, gamma: c(w * h), a: c(al * G), b: c(be * h), s: [0; 32] };
                let cc = challenge(&f, &o);
                let s2 = be + cc * w;
                f.s = s2.to_bytes();
                let x = (s2 - al) * cc.invert();
                f.pk = c(x * G);
                out.other(&f, &c(x * h), "proof for a key chosen afterwards, by its hash equation", false);
            }
            let _ = s;
        }
        // a challenge of few bits can be ground
        if round == 0 && seed % 100 == 0 {
            if let (Some(a), Some(s)) = (pt(&p.a), Option::<Scalar>::from(Scalar::from_canonical_bytes(p.s))) {
                // c * pk = s * G - a
                if let Some(v) = small_dlog(pk, s * G - a) {
                    out.put(json!({"k": "short", "c": v.to_string()}));
                }
            }
        }
        // guessing the challenge: works when it takes few values
        for g in 0..if round < 6 { 700u64 } else { 20 } {
            let cc = match g % 5 {
                0 => Scalar::from(g / 5 % 256),
                1 => -Scalar::from(g / 5),
                2 => Scalar::from_bytes_mod_order(P_CHAL.iter().cloned().chain([0; 13]).collect::<Vec<u8>>()[..32].try_into().unwrap()),
                3 => challenge(&p, &none),
                _ => Scalar::from(r.next() % 256),
            };
            let (s, w) = (rs(&mut r), rs(&mut r));
            let gm = w * G;
            let f = Proof { gamma: c(gm), a: c(s * G - cc * pk), b: c(s * h - cc * gm), s: s.to_bytes(), ..p };
            let (x, y) = (off(&f), on(&f));
            if x != "reject" || y != "reject" || g < 5 {
                out.other(&f, &p.gamma, "forgery with a guessed challenge", false);
            }
        }
    }

    // public derivations of nonces, keys and outputs
    let dict: Vec<Vec<String>> = crate::read_lines(&a["dict"]).iter().map(|l| l.split(',').map(|x| x.trim().to_string()).collect()).collect();
    let mut terms = 0;
    for round in 0..a["scans"].parse::<usize>().unwrap() {
        let (ki, p1, _) = table[r.below(table.len())];
        let Some((_, p2, _)) = table.iter().filter(|t| t.0 == ki && t.1.input != p1.input).nth(r.below(3)).cloned() else { continue };
        let (id, sk, pk) = keys[ki];
        let (Some(a1), Some(a2), Some(g1), Some(g2)) = (pt(&p1.a), pt(&p2.a), pt(&p1.gamma), pt(&p2.gamma)) else { continue };
        let mut hit = |k: &str, what: &str, term: String| out.put(json!({"k": k, "what": what, "term": term, "key": ki, "input": hex(&p1.input)}));
        // known points as commitments or outputs
        for (n, x) in [("identity", RistrettoPoint::identity()), ("generator", G), ("public key", pk), ("output", g1), ("negated public key", -pk)] {
            if a1 == x {
                hit("leak", "the nonce", format!("commitment is the {n}"));
            }
            if n != "output" && g1 == x {
                hit("predict", "", n.into());
            }
        }
        let (d1, d2) = (derive(&dict, &env(&p1, &id, true)), derive(&dict, &env(&p2, &id, true)));
        for ((t, x), (_, y)) in d1.iter().zip(&d2) {
            terms += 1;
            crate::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let xg = x * G;
            if a1 == xg {
                hit("leak", "the nonce", t.clone());
                continue;
            }
            let r1 = a1 - xg;
            if [pk, -pk, pk + pk, g1].contains(&r1) {
                hit("leak", "the nonce", format!("{t} and the key"));
            }
            if a1 == x * pk {
                hit("leak", "the nonce", format!("{t} times the key"));
            }
            if x != y {
                if r1 == a2 - y * G {
                    hit("leak", "the difference of nonces", t.clone());
                }
                if y * a1 == x * a2 {
                    hit("leak", "the ratio of nonces", t.clone());
                }
            }
            if t.contains("gamma") {
                continue;
            }
            if sk == *x || pk == xg {
                hit("leak", "the VRF key", t.clone());
            }
            if g1 == x * pk {
                hit("predict", "", format!("{t} times the public key"));
            } else if g1 == xg {
                hit("predict", "", t.clone());
            } else if x != y && y * g1 == x * g2 {
                hit("predict", "", format!("earlier output times a ratio of {t}"));
            }
        }
        // the output depends on the key and on the input
        if round < 3 {
            for (kj, q, _) in &table {
                if *kj != ki && q.gamma == p1.gamma {
                    hit("predict", "", "the same for other keys".into());
                    break;
                }
            }
            if table.iter().any(|(kj, q, _)| *kj == ki && q.input != p1.input && q.gamma == p1.gamma) {
                hit("predict", "", "the same for other ids".into());
            }
        }
    }
    out.put(json!({"k": "scan", "terms": terms}));
    let steps = out.n;
    drop(out);
    crate::summary(dir, &json!({"steps": steps, "runs": table.len(), "terms": terms, "opened_nonces": ks.len()}));
}
/// The key pair with one byte of its secret half changed.
fn with_secret_byte(k: &Keypair, b: usize, bit: u8) -> Option<Keypair> {
    let mut k2 = k.insecure_clone();
    let secret: B32 = *k.secret_bytes();
    let n = std::mem::size_of::<Keypair>();
    let p = &mut k2 as *mut Keypair as *mut u8;
    let raw = unsafe { std::slice::from_raw_parts_mut(p, n) };
    let at = raw.windows(32).position(|w| w == secret)?;
    raw[at + b] ^= bit;
    (k2.secret_bytes() != &secret && k2.pubkey() == k.pubkey()).then_some(k2)
}
/// The discrete logarithm of x to base g, if it is (plus or minus) a number of up to 32 bits.
fn small_dlog(g: RistrettoPoint, x: RistrettoPoint) -> Option<u64> {
    let mut baby: HashMap<B32, u64> = HashMap::new();
    let mut q = RistrettoPoint::identity();
    for i in 0..65536u64 {
        crate::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        baby.insert(c(q), i);
        q += g;
    }
    // q = 65536 g
    for mut y in [x, -x] {
        for i in 0..65536u64 {
            crate::TICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if let Some(j) = baby.get(&c(y)) {
                return Some(i * 65536 + j);
            }
            y -= q;
        }
    }
    None
}
fn pk_of(p: &Proof) -> RistrettoPoint {
    pt(&p.pk).unwrap_or(G)
}
