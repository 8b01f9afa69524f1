//! Harness around the real on-chain program, shared by the checks.
pub mod clients;
#[cfg(feature = "anchor")]
pub mod consume;
pub mod crypto;
pub mod gen;
pub mod names;
pub mod queue;
pub mod rnd;
pub mod sdkcalls;
pub mod svm;
pub mod world;

/// what [consume] is compiled against
#[cfg(feature = "anchor")]
pub mod consume_env {
    pub use anchor_lang::{AnchorSerialize, ToAccountMetas};
    pub use consumer;
    pub use solana_program::account_info::AccountInfo;
    pub use solana_program::entrypoint::ProgramResult;
    pub use solana_program::instruction::{AccountMeta, Instruction};
    pub use solana_program::pubkey::Pubkey;
    pub use solana_sysvar::program_stubs;
    pub fn info<'a>(k: &'a Pubkey, s: bool, w: bool, l: &'a mut u64, d: &'a mut [u8], o: &'a Pubkey, x: bool) -> AccountInfo<'a> {
        AccountInfo::new(k, s, w, l, d, o, x)
    }
}

use serde_json::Value;
use std::fs::File;
use std::io::{BufRead, BufReader};

pub static TICKS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Ends the process (status 3) when one step takes more than 45 seconds.
pub fn watchdog() {
    std::thread::spawn(|| {
        let mut last = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(45));
            let now = TICKS.load(std::sync::atomic::Ordering::Relaxed);
            if now == last && now != 0 {
                unsafe { libc::_exit(3) };
            }
            last = now;
        }
    });
}

pub fn read_lines(p: &str) -> Vec<String> {
    BufReader::new(File::open(p).unwrap()).lines().map(|l| l.unwrap()).collect()
}
pub fn summary(dir: &str, v: &Value) {
    std::fs::write(format!("{dir}/summary.json"), v.to_string()).unwrap();
}

