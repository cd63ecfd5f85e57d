//! Harness for the symbolic executor, and for native replay of its findings
mod access;
mod conv;
mod doc;
mod esc;
mod extra;
mod gen;
mod model;
mod names;
mod real;
mod relate;
mod run;
mod scope;
mod spec;
mod sym;

const ENTRIES: &[(&str, fn())] = &[
    ("h_doc", doc::h_doc),
    ("h_layout", relate::h_layout),
    ("h_boxes", relate::h_boxes),
    ("h_intern", names::h_intern),
    ("h_stack", names::h_stack),
    ("h_name", names::h_name),
    ("h_escape", esc::h_escape),
    ("h_entity", esc::h_entity),
    ("h_round", esc::h_round),
    ("h_convert", conv::h_convert),
    ("h_event", conv::h_event),
    ("h_part", extra::h_part),
    ("h_error", extra::h_error),
    ("h_made", extra::h_made),
    ("h_attrs", extra::h_attrs),
    ("h_access", access::h_access),
    ("h_ids", access::h_ids),
    ("h_demand", access::h_demand),
    ("h_scope", scope::h_scope),
];

fn main() {
    run::main(ENTRIES);
}
