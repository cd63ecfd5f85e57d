//! Makes the converter program of the repository available to be included
use std::path::Path;

const PROGRAM: &str = "/repo/src/bin/hmlconvert.rs";

fn main() {
    println!("cargo:rerun-if-changed={PROGRAM}");
    let mut out = String::new();
    for line in std::fs::read_to_string(PROGRAM).unwrap_or_default().lines() {
        // attributes of the crate cannot be included
        if !line.starts_with("//!") && !line.starts_with("#![") {
            out += line;
        }
        out += "\n";
    }
    let dir = std::env::var("OUT_DIR").unwrap();
    std::fs::write(Path::new(&dir).join("program.rs"), out).unwrap();
}
