//! Harness for the expansion of string escapes, which needs the hook
mod gen;
mod run;
mod sym;
mod unesc;

fn main() {
    run::main(&[("h_unescape", unesc::h_unescape), ("h_escapes", unesc::h_escapes)]);
}
