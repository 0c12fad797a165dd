//! The shell's own sources, included where they are, with a window to their private items.
use std::{env, fs, path::Path};

const DIR: &str = "/repo/ogma-shell";

fn main() {
    let src = format!("{DIR}/lib.rs");
    println!("cargo:rerun-if-changed={src}");
    let text = fs::read_to_string(&src).expect("the shell's lib.rs");
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim();
        let name = t
            .strip_prefix("mod ")
            .or_else(|| t.strip_prefix("pub mod "))
            .or_else(|| t.strip_prefix("pub(crate) mod "))
            .and_then(|t| t.strip_suffix(';'));
        match name {
            // inner attributes and documentation belong to a crate's root
            _ if line.starts_with("//!") || line.starts_with("#![") => out.push('\n'),
            Some("interface") => {
                let f = [format!("{DIR}/interface/mod.rs"), format!("{DIR}/interface.rs")];
                let f = f.iter().find(|f| Path::new(f).exists()).expect("the interface");
                out += &format!("mod interface {{ include!({f:?}); #[path = {:?}] pub mod mc_access; }}\n", access("interface.rs"));
            }
            Some(m) => {
                let f = [format!("{DIR}/{m}.rs"), format!("{DIR}/{m}/mod.rs")];
                match f.iter().find(|f| Path::new(f).exists()) {
                    Some(f) => out += &format!("#[path = {f:?}] {line}\n"),
                    None => out += &format!("{line}\n"),
                }
            }
            None => out += &format!("{line}\n"),
        }
    }
    out += &format!("#[path = {:?}] pub mod mc_access;\n", access("shell.rs"));
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("shell.rs"), out).unwrap();
}
fn access(f: &str) -> String {
    format!("{}/src/access/{f}", env::var("CARGO_MANIFEST_DIR").unwrap())
}
