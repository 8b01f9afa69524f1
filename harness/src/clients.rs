//! Calls of the builders and address functions of the api crate with generated arguments.
use crate::sdkcalls::{hex, Gen, Recorder};
use ephemeral_vrf_api::prelude as api;
use serde_json::{json, Value};
use solana_curve25519::{ristretto::PodRistrettoPoint, scalar::PodScalar};
use solana_program::{instruction::Instruction, pubkey::Pubkey};

pub fn api(r: &mut Recorder, g: &mut Gen, rounds: usize) {
    let none = json!({"none": 0});
    for (f, k) in [
        ("const vrf program", ephemeral_vrf_api::ID),
        ("const magic program", api::MAGIC_PROGRAM_ID),
        ("const magic context", api::MAGIC_CONTEXT_ID),
        ("const default ephemeral queue", api::DEFAULT_EPHEMERAL_QUEUE),
        ("const identity", api::program_identity_pda().0),
        ("registry", api::oracles_pda().0),
    ] {
        r.address(f, none.clone(), &[], &[], k.to_bytes());
    }
    for _ in 0..rounds {
        let (k, p, q) = (g.key(), g.key(), g.key());
        let i = g.index() as u8;
        let mut key = |n: &str| Pubkey::from(r.names.key(n));
        let (kk, pp, qq) = (key(&k), key(&p), key(&q));
        let mut arr = [[0u8; 32]; 5];
        for a in arr.iter_mut() {
            a.copy_from_slice(&g.bytes(32));
        }
        let size = [1u32, 19, 20, 255, 256, 9500, 10_239, 10_240, 10_241, 20_480, 20_481, 65_536, 1 << 20, 10_485_760][g.below(14)];
        let dflt = g.below(4) == 0;
        r.address("oracle data", json!({"k": k}), &[&k], &[], api::oracle_data_pda(&kk).0.to_bytes());
        r.address("queue", json!({"k": k, "i": i}), &[&k], &[i], api::oracle_queue_pda(&kk, i).0.to_bytes());
        let mut ix = |f: &str, a: Value, i: &[u8], ix: &Instruction| {
            let acc: Vec<_> = ix.accounts.iter().map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable)).collect();
            r.instruction(f, a, &[&k, &p, &q], i, ix.program_id.to_bytes(), &acc, &ix.data);
        };
        ix("init", json!({"signer": k}), &[], &api::initialize(kk));
        ix("modify", json!({"signer": k, "id": p, "vk": hex(&arr[0]), "op": 0}), &[], &api::add_oracle(kk, pp, arr[0]));
        ix("modify", json!({"signer": k, "id": p, "vk": "00".repeat(32), "op": 1}), &[], &api::remove_oracle(kk, pp));
        ix("purge", json!({"oracle": k, "i": i}), &[i], &api::purge_expired_requests(kk, i));
        ix("close", json!({"oracle": k, "i": i}), &[i], &api::close_oracle_queue(kk, i));
        ix("delegate", json!({"signer": k, "queue": q, "i": i}), &[i], &api::delegate_oracle_queue(kk, qq, i));
        ix("undelegate", json!({"signer": k, "queue": q, "i": i}), &[i], &api::undelegate_oracle_queue(kk, qq, i));
        ix(
            "provide",
            json!({"oracle": k, "queue": q, "prog": p, "input": hex(&arr[0]), "out": hex(&arr[1]), "cb": hex(&arr[2]), "ch": hex(&arr[3]), "sc": hex(&arr[4])}),
            &[],
            &api::provide_randomness(kk, qq, pp, arr[0], PodRistrettoPoint(arr[1]), PodRistrettoPoint(arr[2]), PodRistrettoPoint(arr[3]), PodScalar(arr[4])),
        );
        let list = api::initialize_oracle_queue(kk, pp, i, if dflt { None } else { Some(size) });
        let n = list.len();
        for (j, x) in list.iter().enumerate() {
            // the first and the last of a long list
            if j < 2 || j + 1 == n {
                ix("initq", json!({"signer": k, "oracle": p, "i": i, "size": if dflt { 9500 } else { size }, "n": n}), &[i], x);
            }
        }
        if n == 0 {
            r.out.push(json!({"by": "api", "f": "none", "a": {"none": 0}}));
        }
    }
}
