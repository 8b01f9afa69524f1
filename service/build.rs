//! The modules of the service under test, as its main.rs declares them.
fn main() {
    let root = "/repo/vrf-oracle/src";
    println!("cargo:rerun-if-changed={root}");
    let text = std::fs::read_to_string(format!("{root}/main.rs")).unwrap();
    let mut out = String::new();
    for l in text.lines() {
        let t = l.trim().trim_start_matches("pub ").trim_start_matches("(crate) ");
        if let Some(m) = t.strip_prefix("mod ").and_then(|x| x.strip_suffix(';')) {
            let p = [format!("{root}/{m}.rs"), format!("{root}/{m}/mod.rs")].into_iter().find(|p| std::path::Path::new(p).exists());
            if let Some(p) = p {
                out += &format!("#[path = \"{p}\"]\n#[allow(dead_code)]\nmod {m};\n");
            }
        }
    }
    std::fs::write(format!("{}/mods.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
