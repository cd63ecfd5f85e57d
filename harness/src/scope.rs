//! The namespace stack as a caller sees it while reading
use crate::gen::*;
use crate::real::{self, guard, P};
use crate::spec::{self, Cfg, Scopes, Src};
use crate::sym::*;
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::names::{Namespace, NamespaceStack};
use hml_rs::HmlError;
use lexer_rs::{Lexer, LexerOfStr};

/// What a prefix maps to
fn find(ns: &mut NamespaceStack, prefix: &str) -> Option<String> {
    let id = ns.find_prefix_id(prefix)?;
    ns.find_mapping(id).map(|u| ns.uri_str(u).to_string())
}

/// Entry: parameters are family, size, family option, flags
///
/// Flag 1: with XML namespace handling; 2: the caller has made mappings
#[no_mangle]
pub fn h_scope() {
    let text = family(param(0), param(1) as usize, param(2));
    let cfg = Cfg { xmlns: param(3) & 1 != 0, version: 100, lines: false };
    let mut n = Namespace::new(cfg.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let mut base = Scopes::new(cfg.xmlns);
    // what the caller has mapped before
    let made: &[&[(&str, &str)]] = match if param(3) & 2 != 0 { choose(5) } else { 0 } {
        0 => &[],
        1 => &[&[("p", "P")]],
        2 => &[&[("", "D")]],
        3 => &[&[("p", "P")], &[("a", "A"), ("p", "R")]],
        _ => &[&[], &[("p", "P"), ("", "D")], &[("", "")]],
    };
    for (i, frame) in made.iter().enumerate() {
        if i > 0 {
            ns.push_frame();
            base.frames.push(vec![]);
        }
        for (p, u) in frame.iter() {
            ns.add_ns(p, u);
            base.frames[i].push((p.to_string(), u.to_string()));
        }
    }
    let src = Src::new(&text, false);
    let (sp, dup, states) = spec::read_scopes(&src, cfg, base, true);
    if dup {
        return;
    }
    let l = LexerOfStr::<P, _, HmlError<P>>::new(&text);
    let fns = parse_fns();
    let mut it = l.iter(&fns);
    let mut parser: Parser<P> = Parser::default();
    for (i, state) in states.iter().enumerate() {
        let Some(Ok(e)) = guard(|| parser.next_event(&mut ns, || it.next())) else {
            return;
        };
        // whether it is the right event is for other properties to say
        if real::event(&ns, e).k != sp.ev[i].k {
            return;
        }
        observe(state.len() as u64);
        for (p, u) in state {
            match find(&mut ns, p) {
                Some(v) => check(v == *u, "a prefix maps to another namespace than at this place of the text"),
                None => fail("a prefix in scope is not mapped"),
            }
        }
        for p in ["", "p", "q", "a", "b", "xml", "xmlns"] {
            if find(&mut ns, p).is_some() {
                check(state.iter().any(|x| x.0 == p), "a prefix is mapped where it is not in scope");
            }
        }
        let mut count = 0;
        for map in &ns {
            let (p, u) = ns.borrow_mapping(map);
            check(state.iter().any(|x| x.0 == p && x.1 == u), "a mapping is listed that is not in force");
            count += 1;
        }
        check(count == state.len(), "not every mapping in force is listed");
        if state.len() > states[0].len() {
            reach(1);
        }
        if i > 2 && i + 1 == states.len() && sp.err.is_none() {
            reach(2);
        }
    }
}
