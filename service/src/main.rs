//! Drives the real oracle service (vrf-oracle) in virtual time against a simulated RPC node whose
//! chain is the real program, and records what it does for ServiceJudge.tla.
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
mod mock;
mod drive;

fn main() {
    let a: std::collections::HashMap<String, String> =
        std::env::args().skip(2).filter_map(|x| x.split_once('=').map(|(k, v)| (k.to_string(), v.to_string()))).collect();
    mbt::names::init();
    mbt::svm::install();
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if std::env::var("SVC_PANICS").is_ok() {
            old(i)
        }
    }));
    mbt::watchdog();
    match std::env::args().nth(1).as_deref() {
        Some("random") => drive::random(&a),
        Some("paths") => drive::paths(&a),
        Some("long") => drive::long(&a),
        Some("big") => drive::big(&a),
        _ => panic!("mode"),
    }
}
