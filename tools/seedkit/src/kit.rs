//! Shorthand for scenarios: a chain with the real program, driven by the client builders.
#![allow(dead_code)]
pub use crate::names::pk;
pub use crate::svm::{Acct, Outcome};
use crate::svm;
pub use crate::world::Node;
use crate::world;
pub use ephemeral_vrf_api::prelude as api;
pub use ephemeral_vrf_sdk::instructions as sdk;
pub use ephemeral_vrf_sdk::types::SerializableAccountMeta;
pub use solana_program::instruction::{AccountMeta, Instruction};
pub use solana_program::pubkey::Pubkey;
use solana_curve25519::{ristretto::PodRistrettoPoint, scalar::PodScalar};

pub struct Chain {
    pub n: Node,
}
#[derive(Clone)]
pub struct Req {
    pub payer: &'static str,
    pub queue: String,
    pub prog: &'static str,
    pub disc: Vec<u8>,
    pub metas: Vec<SerializableAccountMeta>,
    pub args: Vec<u8>,
    pub seed: [u8; 32],
    pub prio: bool,
}
impl Req {
    pub fn new(queue: &str) -> Req {
        Req { payer: "alice", queue: queue.into(), prog: "p1", disc: vec![7, 7], metas: vec![], args: vec![], seed: [5; 32], prio: false }
    }
}
pub fn meta(k: Pubkey, s: bool, w: bool) -> SerializableAccountMeta {
    SerializableAccountMeta { pubkey: k, is_signer: s, is_writable: w }
}
pub fn h(p: &[&[u8]]) -> [u8; 32] {
    crate::names::h32(p)
}
pub fn must(o: Outcome) -> Outcome {
    if !o.ok {
        println!("DEMO SETUP: an ordinary transaction was refused: {}", o.err);
        std::process::exit(4)
    }
    o
}
pub fn claim(holds: bool, text: &str) {
    if !holds {
        println!("BROKEN: {text}");
        std::process::exit(1)
    }
    println!("ok: {text}");
}
impl Chain {
    pub fn new(slot: u64) -> Chain {
        svm::install();
        Chain { n: world::genesis(slot) }
    }
    pub fn slot(&self) -> u64 {
        self.n.world.slot
    }
    pub fn wait(&mut self, k: u64) {
        let s = self.n.world.slot + k;
        self.n.world.slot = s;
        let sh = pk("sh");
        let mut a = self.n.world.get(&sh);
        a.data = world::sh_data(s, 0);
        self.n.world.put(sh, a);
    }
    pub fn get(&self, k: &str) -> Acct {
        self.n.world.get(&pk(k))
    }
    /// `who` signs; identity PDAs in `ids` sign too (the consumer's invoke_signed)
    pub fn tx(&mut self, ixs: &[Instruction], who: &[&str]) -> Outcome {
        let s = who.iter().map(|w| pk(w)).collect();
        let (w, o) = svm::exec(&self.n.world, ixs, &s);
        self.n.world = w;
        o
    }
    /// program initialised, oracles registered and seasoned
    pub fn start(oracles: &[&str]) -> Chain {
        let mut c = Chain::new(1000);
        must(c.tx(&[api::initialize(pk("adm"))], &["adm"]));
        for o in oracles {
            must(c.tx(&[api::add_oracle(pk("adm"), pk(o), world::vk_bytes(&format!("v:{o}")))], &["adm"]));
        }
        c.wait(300);
        c
    }
    pub fn queue(&mut self, o: &str, idx: u8, size: u32) -> String {
        for ix in api::initialize_oracle_queue(pk(o), pk(o), idx, Some(size)) {
            must(self.tx(&[ix], &[o]));
        }
        format!("q:{o}:{idx}")
    }
    pub fn request_ix(&self, r: &Req) -> Instruction {
        let p = sdk::RequestRandomnessParams {
            payer: pk(r.payer),
            oracle_queue: pk(&r.queue),
            callback_program_id: pk(r.prog),
            callback_discriminator: r.disc.clone(),
            accounts_metas: Some(r.metas.clone()),
            caller_seed: r.seed,
            callback_args: Some(r.args.clone()),
        };
        if r.prio { sdk::create_request_randomness_ix(p) } else { sdk::create_request_regular_randomness_ix(p) }
    }
    pub fn request(&mut self, r: &Req) -> Outcome {
        let ix = self.request_ix(r);
        self.tx(&[ix], &[r.payer, &format!("id:{}", r.prog)])
    }
    /// pending items, in order, read from the raw bytes
    pub fn items(&self, q: &str) -> Vec<world::RawItem> {
        world::parse_items(&self.get(q).data[8..]).map(|x| x.2).unwrap_or_default()
    }
    pub fn ids(&self, q: &str) -> Vec<[u8; 32]> {
        self.items(q).iter().map(|i| i.id).collect()
    }
    /// a fulfilment of `input` on `q` by `o` with the proof of key `vk` over `over`
    pub fn provide_ix(&self, o: &str, q: &str, prog: &str, input: [u8; 32], vk: &str, over: [u8; 32], metas: &[SerializableAccountMeta]) -> Instruction {
        let (out, (cb, ch, s)) = ephemeral_vrf::vrf::compute_vrf(world::vk_secret(vk), &over);
        let mut ix = api::provide_randomness(
            pk(o), pk(q), pk(prog), input,
            PodRistrettoPoint(out.to_bytes()), PodRistrettoPoint(cb.to_bytes()), PodRistrettoPoint(ch.to_bytes()), PodScalar(s.to_bytes()),
        );
        ix.accounts.extend(metas.iter().map(|m| AccountMeta { pubkey: m.pubkey, is_signer: m.is_signer, is_writable: m.is_writable }));
        ix
    }
    pub fn provide(&mut self, o: &str, q: &str, prog: &str, input: [u8; 32], metas: &[SerializableAccountMeta]) -> Outcome {
        let ix = self.provide_ix(o, q, prog, input, &format!("v:{o}"), input, metas);
        self.tx(&[ix], &[o])
    }
}
pub fn output(o: &str, input: &[u8; 32]) -> [u8; 32] {
    let (out, _) = ephemeral_vrf::vrf::compute_vrf(world::vk_secret(&format!("v:{o}")), input);
    h(&[&out.to_bytes()])
}
