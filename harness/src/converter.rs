//! Harness for the converter program, which it includes as it is in the
//! repository
mod gen;
mod model;
#[allow(dead_code)]
mod real;
mod run;
mod spec;
mod sym;
mod tool;

fn main() {
    run::main(&[("h_tool", tool::h_tool)]);
}
