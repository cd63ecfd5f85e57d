//! Properties of the conversion to XML events
use crate::gen::*;
use crate::real::{guard, qname, P};
use crate::sym::*;
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::markup::{ContentType, Event};
use hml_rs::names::*;
use hml_rs::{HmlError, Span};
use lexer_rs::{Lexer, LexerOfStr};
use xml::common::XmlVersion;
use xml::reader::XmlEvent as R;
use xml::writer::XmlEvent as W;

fn opt(s: &str) -> Option<&str> {
    if s.is_empty() {
        None
    } else {
        Some(s)
    }
}

fn version(v: usize) -> XmlVersion {
    if v == 100 {
        XmlVersion::Version10
    } else {
        XmlVersion::Version11
    }
}

/// Whether the text names the encoding that all texts have
fn utf8(s: &str) -> bool {
    s.eq_ignore_ascii_case("UTF-8") || s.eq_ignore_ascii_case("UTF8")
}

/// Checks both conversions of one event
fn converted(ns: &NamespaceStack, e: &Event<P>, flag: bool) {
    let w = e.as_xml_writer(ns);
    let r = e.as_xml_reader(ns, flag);
    let m = "a converted event differs from the event";
    match e {
        Event::StartDocument { version: v, .. } => {
            match w {
                Some(W::StartDocument { version: x, encoding, .. }) => check(x == version(*v) && encoding.is_none_or(utf8), m),
                _ => fail(m),
            }
            match r {
                Some(R::StartDocument { version: x, encoding, .. }) => check(x == version(*v) && utf8(&encoding), m),
                _ => fail(m),
            }
        }
        Event::EndDocument { .. } => {
            check(w.is_none(), m);
            check(matches!(r, Some(R::EndDocument)), m);
        }
        Event::StartElement { tag, .. } => {
            let n = qname(ns, &tag.name);
            let a = tag.attributes.attributes();
            reach(1);
            if a.len() > 1 {
                reach(2);
            }
            match w {
                Some(W::StartElement { name, attributes, .. }) => {
                    check(name.local_name == n.local && name.prefix == opt(&n.prefix), m);
                    check(attributes.len() == a.len(), m);
                    for (x, y) in attributes.iter().zip(a.iter()) {
                        let q = qname(ns, &y.name);
                        check(x.name.local_name == q.local && x.name.prefix == opt(&q.prefix), m);
                        check(x.value == y.value, m);
                    }
                }
                _ => fail(m),
            }
            match r {
                Some(R::StartElement { name, attributes, .. }) => {
                    check(name.local_name == n.local && name.prefix.as_deref() == opt(&n.prefix), m);
                    check(attributes.len() == a.len(), m);
                    for (x, y) in attributes.iter().zip(a.iter()) {
                        let q = qname(ns, &y.name);
                        check(x.name.local_name == q.local && x.name.prefix.as_deref() == opt(&q.prefix), m);
                        check(x.value == y.value, m);
                    }
                }
                _ => fail(m),
            }
        }
        Event::EndElement { name: n, .. } => {
            let n = qname(ns, n);
            match w {
                Some(W::EndElement { name }) => {
                    if let Some(x) = name {
                        check(x.local_name == n.local && x.prefix == opt(&n.prefix), m);
                    }
                }
                _ => fail(m),
            }
            match r {
                Some(R::EndElement { name }) => check(name.local_name == n.local && name.prefix.as_deref() == opt(&n.prefix), m),
                _ => fail(m),
            }
        }
        Event::Content { data, .. } => {
            reach(3);
            match w {
                Some(W::Characters(x)) | Some(W::CData(x)) => check(x == data, m),
                _ => fail(m),
            }
            match r {
                Some(R::Characters(x)) | Some(R::CData(x)) | Some(R::Whitespace(x)) => check(x == *data, m),
                _ => fail(m),
            }
        }
        Event::ProcessingInstruction { name, data, .. } => {
            let n = ns.name_str(*name);
            reach(4);
            match w {
                Some(W::ProcessingInstruction { name, data: x }) => check(name == n && x == data.as_deref(), m),
                _ => fail(m),
            }
            match r {
                Some(R::ProcessingInstruction { name, data: x }) => check(name == n && x == *data, m),
                _ => fail(m),
            }
        }
        Event::Comment { data, .. } => {
            reach(5);
            match w {
                Some(W::Comment(x)) => check(x == data, m),
                _ => fail(m),
            }
            match r {
                Some(R::Comment(x)) => check(x == *data, m),
                _ => fail(m),
            }
        }
    }
}

/// Entry: parameters are family, size, family option, flags
#[no_mangle]
pub fn h_convert() {
    let s = family(param(0), param(1) as usize, param(2));
    let mut n = Namespace::new(param(3) & 1 != 0);
    let mut ns = NamespaceStack::new(&mut n);
    let l = LexerOfStr::<P, _, HmlError<P>>::new(&s);
    let fns = parse_fns();
    let mut it = l.iter(&fns);
    let mut parser: Parser<P> = Parser::default().set_version([100, 110][choose(2)]);
    let mut events = vec![];
    while let Some(Ok(e)) = guard(|| parser.next_event(&mut ns, || it.next())) {
        let end = e.is_end_document();
        events.push(e);
        if end {
            break;
        }
    }
    observe(events.len() as u64);
    let flag = choose(2) == 1;
    for e in &events {
        converted(&ns, e, flag);
    }
}

/// Entry: events that are built rather than read; parameter is the number of
/// free characters, and 100 more for printable characters only
#[no_mangle]
pub fn h_event() {
    let mut n = Namespace::new(choose(2) == 1);
    let mut ns = NamespaceStack::new(&mut n);
    ns.add_ns("p", "u");
    let span: Span<P> = Span::new_at(&P::default());
    let free = |k: usize| {
        let mut t = Text::new();
        match param(0) < 100 {
            true => t.uni(k),
            false => t.word(k, 4),
        }
        t.string()
    };
    let k = choose(param(0) % 100 + 1);
    let e = match choose(6) {
        0 => {
            let ct = [ContentType::Raw, ContentType::Interpretable, ContentType::Whitespace][choose(3)];
            Event::content(span, ct, free(k))
        }
        1 => {
            let d = free(k);
            let l = vec![d.len()];
            Event::comment(span, d, l)
        }
        2 => {
            let name = free(k);
            let data = if choose(2) == 1 { Some(free(choose(2))) } else { None };
            Event::ProcessingInstruction { span, name: ns.add_name(&name), data }
        }
        3 => {
            let mut a = Attributes::default();
            let many = choose(4);
            for i in 0..many {
                // only the last has a free name and value
                let last = i + 1 == many;
                let nm = if last { free(1) } else { "\u{e9}x".to_string() };
                let v = if last { free(choose(2)) } else { "v\n".to_string() };
                let p = ["", "p"][choose(2)];
                check(a.add(&mut ns, p, &nm, v).is_ok(), "an attribute is refused");
            }
            let nm = free(1);
            let p = ["", "p"][choose(2)];
            let Ok(tag) = Tag::new(&mut ns, p, &nm, a) else {
                fail("a tag is refused");
            };
            Event::start_element(span, tag)
        }
        4 => {
            let nm = free(1);
            let Ok(name) = Name::new(&mut ns, ["", "p"][choose(2)], &nm) else {
                fail("a name is refused");
            };
            Event::end_element(span, name)
        }
        _ => Event::start_document(span, [100, 110][choose(2)]),
    };
    observe(e.get_type() as u64);
    converted(&ns, &e, choose(2) == 1);
}
