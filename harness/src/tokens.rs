//! Harness for the tokens, whose type is only reachable through the lexer
mod gen;
#[allow(dead_code)]
mod model;
#[allow(dead_code)]
mod real;
mod run;
#[allow(dead_code)]
mod spec;
mod sym;
mod token;

fn main() {
    run::main(&[("h_tokens", token::h_tokens)]);
}
