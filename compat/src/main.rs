//! The SDK as older clients build it (feature anchor-compat), and a consumer that uses it.
#[path = "../../harness/src/consume.rs"]
mod consume;
#[path = "../../harness/src/sdkcalls.rs"]
#[allow(dead_code)]
mod sdkcalls;
use anchor_lang::solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use sdkcalls::{Gen, Recorder};
use serde_json::json;

pub mod consume_env {
    pub use anchor_lang::prelude::{AccountInfo, AccountMeta, AnchorSerialize, Pubkey};
    pub use anchor_lang::solana_program::{entrypoint::ProgramResult, instruction::Instruction, program_stubs};
    pub use anchor_lang::ToAccountMetas;
    pub use consumer_compat as consumer;
    #[allow(clippy::too_many_arguments)]
    pub fn info<'a>(k: &'a Pubkey, s: bool, w: bool, l: &'a mut u64, d: &'a mut [u8], o: &'a Pubkey, x: bool) -> AccountInfo<'a> {
        AccountInfo::new(k, s, w, l, d, o, x, 0)
    }
}

struct Quiet;
impl SyscallStubs for Quiet {
    fn sol_log(&self, _: &str) {}
}

fn main() {
    let a: std::collections::HashMap<String, String> =
        std::env::args().skip(1).filter_map(|x| x.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
    set_syscall_stubs(Box::new(Quiet));
    let mut g = Gen(a["seed"].parse().unwrap());
    let mut r = Recorder::new("sdk for older clients");
    let rounds: usize = a["rounds"].parse().unwrap();
    sdkcalls::sdk(&mut r, &mut g, rounds);
    use ephemeral_vrf_sdk::{anchor::VrfProgram, compat::anchor_lang::Id};
    r.address("const vrf program", json!({"none": 0}), &[], &[], VrfProgram::id().to_bytes());
    r.by = "consumer for older clients".into();
    consume::consume(&mut r, &mut g, rounds);
    let s: String = r.out.iter().map(|x| format!("{x}\n")).collect();
    std::fs::write(&a["out"], s).unwrap();
}
