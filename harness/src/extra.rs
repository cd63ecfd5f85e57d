//! Properties of partial texts, of errors and of attribute lists
use crate::gen::*;
use crate::model::*;
use crate::real::{self, guard, P};
use crate::spec::{self, Cfg, Item, Src};
use crate::sym::*;
use hml_rs::hml_reader::parse_fns;
use hml_rs::names::*;
use hml_rs::{HmlError, MarkupError, Span};
use lexer_rs::{Lexer, LexerOfStr, UserPosn};

fn same_event(x: &Ev, y: &Ev) -> bool {
    x.k == y.k
        && x.name == y.name
        && x.raw == y.raw
        && x.data == y.data
        && x.lengths == y.lengths
        && x.version == y.version
        && x.span == y.span
        && x.attrs.len() == y.attrs.len()
        && x.attrs.iter().zip(y.attrs.iter()).all(|(p, q)| p.0 == q.0 && p.1 == q.1)
}

/// Entry: parameters are family, size, family option, flags
///
/// A text and the part of it up to the end of one of its items
#[no_mangle]
pub fn h_part() {
    let text = family(param(0), param(1) as usize, param(2));
    let cfg = Cfg { xmlns: param(3) & 1 != 0, version: 100, lines: false };
    let src = Src::new(&text, false);
    let mut cuts = vec![0];
    let mut i = 0;
    while i < src.c.len() {
        match src.item(i) {
            Ok((_, end)) => {
                i = end;
                cuts.push(src.o[i]);
            }
            Err(_) => break,
        }
    }
    let cut = cuts[choose(cuts.len() as u64)];
    let part = real::read(&text[..cut], cfg);
    let whole = real::read(&text, cfg);
    observe(part.ev.len() as u64);
    observe(whole.ev.len() as u64);
    let m = "an event depends on text that comes later";
    // what the end of the text brought about, and what may still be continued
    let mut n = part.ev.len();
    let mut fixed = false;
    match &part.err {
        // a mistake that nothing later can repair
        Some(e) if matches!(e.e, E::Indent | E::CloseTag | E::Content | E::Attribute) => {
            reach(1);
            fixed = true;
            check(whole.ev.len() == n, "what is read up to a mistake depends on text that comes later");
            match &whole.err {
                Some(f) => check(f.e == e.e && f.num == e.num && f.span == e.span, "a mistake depends on text that comes later"),
                None => fail("a mistake depends on text that comes later"),
            }
        }
        _ => {
            while n > 0 && matches!(part.ev[n - 1].k, K::End | K::EndDoc) {
                n -= 1;
            }
        }
    }
    if !fixed && n > 0 && matches!(part.ev[n - 1].k, K::Start | K::Comment) {
        n -= 1;
    }
    if n > 1 {
        reach(2);
    }
    check(whole.ev.len() >= n, m);
    for k in 0..n {
        check(same_event(&part.ev[k], &whole.ev[k]), m);
    }
}

fn contains(s: &str, x: &str) -> bool {
    let (s, x) = (s.as_bytes(), x.as_bytes());
    s.len() >= x.len() && (0..=s.len() - x.len()).any(|i| s[i..i + x.len()] == *x)
}

/// The first mistake in a text
fn mistake(s: &str, cfg: Cfg) -> Option<HmlError<P>> {
    let mut n = Namespace::new(cfg.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let l = LexerOfStr::<P, _, HmlError<P>>::new(s);
    let fns = parse_fns();
    let mut it = l.iter(&fns);
    let mut parser: hml_rs::hml_reader::Parser<P> = Default::default();
    for _ in 0..real::MAX_EVENTS {
        match guard(|| parser.next_event(&mut ns, || it.next())) {
            Some(Ok(e)) if e.is_end_document() => return None,
            Some(Ok(_)) => (),
            Some(Err(e)) => return Some(e),
            None => return None,
        }
    }
    None
}

/// Entry: parameters are family, size, family option, flags
///
/// What errors say about the mistake in a text
#[no_mangle]
pub fn h_error() {
    let text = family(param(0), param(1) as usize, param(2));
    let cfg = Cfg { xmlns: param(3) & 1 != 0, version: 100, lines: false };
    let Some(e) = mistake(&text, cfg) else {
        return;
    };
    let said = e.to_string();
    observe(said.len() as u64);
    check(!said.is_empty(), "an error says nothing");
    let src = Src::new(&text, false);
    let Some(span) = e.span() else {
        fail("an error has no position");
    };
    let at = real::pos(span.start()).byte;
    let Ok(at) = src.o.binary_search(&at) else {
        fail("an error is not on a character boundary");
    };
    let sp = spec::read(&src, cfg);
    // the name at the place of the error
    let name = || match if at < src.c.len() { src.item(at).ok() } else { None } {
        Some((Item::Open { prefix, local, .. } | Item::Close { prefix, local, .. } | Item::Attr { prefix, local, .. }, _)) => Some((src.text(prefix), src.text(local))),
        _ => None,
    };
    match &e {
        HmlError::UnexpectedCharacter { ch, .. } => {
            reach(1);
            check(at < src.c.len() && src.c[at] == *ch, "an error names a character that is not there");
            check(contains(&said, &ch.to_string()), "an error does not say which character");
        }
        HmlError::ExpectedEquals { ch, .. } => {
            reach(2);
            check(contains(&said, &ch.to_string()), "an error does not say which character");
            if let Some(f) = &sp.err {
                if f.e == E::Equals && f.num != '=' as u64 {
                    check(*ch as u64 == f.num, "an error names a character that is not there");
                }
            }
        }
        HmlError::UnexpectedTagIndent { depth, .. } => {
            reach(3);
            check(contains(&said, &depth.to_string()), "an error does not say which depth is allowed");
            if let Some(f) = &sp.err {
                if f.e == E::Indent {
                    check(*depth as u64 == f.num, "an error tells the wrong depth");
                }
            }
        }
        HmlError::UnexpectedAttribute { attr, .. } => {
            reach(4);
            let Some((prefix, local)) = name() else {
                fail("an error about an attribute is not at one");
            };
            check(attr.ends_with(&local) && attr.starts_with(&prefix), "an error names another attribute");
            check(contains(&said, attr), "an error does not say which attribute");
        }
        HmlError::MarkupError { source: MarkupError::UnmappedPrefix { prefix: p }, .. } => {
            reach(5);
            let Some((prefix, _)) = name() else {
                fail("an error about a prefix is not at a name");
            };
            // a declaration is itself a name with a prefix
            check(*p == prefix, "an error names another prefix");
            check(contains(&said, p), "an error does not say which prefix");
        }
        _ => reach(6),
    }
}

/// Entry: errors made through the interface; parameters are flavour and
/// number of free characters
#[no_mangle]
pub fn h_made() {
    let free = |k: usize| {
        let mut t = Text::new();
        if param(0) == 0 {
            t.ascii(k)
        } else {
            t.uni(k)
        }
        t.string()
    };
    let a = { let x = u8() as usize; P::default().advance_cols(x, x) };
    let b = { let x = u8() as usize; a.advance_cols(x, x) };
    let span: Span<P> = Span::new_at(&a).end_at(&b);
    let c = free(1).chars().next().unwrap();
    let k = param(1) as usize;
    let made = |r: Result<(), HmlError<P>>, with: &[&str]| {
        let Err(e) = r else {
            fail("an error is not made");
        };
        let said = e.to_string();
        observe(said.len() as u64);
        match e.span() {
            Some(s) => check(*s.start() == a && *s.end() == b, "an error has another position"),
            None => fail("an error has lost its position"),
        }
        for w in with {
            check(contains(&said, w), "an error does not say what it is about");
        }
        e
    };
    let m = "an error is of another kind";
    match choose(11) {
        0 => check(matches!(made(HmlError::unexpected_eof(&a, &b), &[]), HmlError::UnexpectedEOF { .. }), m),
        1 => check(matches!(made(HmlError::unexpected_character(&a, &b, c), &[&c.to_string()]), HmlError::UnexpectedCharacter { ch, .. } if ch == c), m),
        2 => check(matches!(made(HmlError::unexpected_newline_in_string(&a, &b), &[]), HmlError::UnexpectedNewlineInQuotedString { .. }), m),
        3 => check(matches!(made(HmlError::expected_equals(&a, &b, c), &[&c.to_string()]), HmlError::ExpectedEquals { ch, .. } if ch == c), m),
        4 => {
            let d = [0, 1, 9, 10, 63, 64, 99, 100, 255, 256, 1000, 65535, 65536][choose(13)];
            check(matches!(made(HmlError::unexpected_tag_indent(span, d), &[&d.to_string()]), HmlError::UnexpectedTagIndent { depth, .. } if depth == d), m)
        }
        5 => {
            let (p, n) = (free(choose(k as u64 + 1)), free(k));
            let e = made(HmlError::unexpected_attribute(span, &p, &n), &[&p, &n]);
            check(matches!(&e, HmlError::UnexpectedAttribute { attr, .. } if attr.starts_with(&p) && attr.ends_with(&n)), m)
        }
        6 => {
            let e = made(HmlError::map_markup_error(Err(MarkupError::empty_name()), &span), &["empty"]);
            check(matches!(e, HmlError::MarkupError { source: MarkupError::EmptyName {}, .. }), m)
        }
        7 => {
            let p = free(k);
            let e = made(HmlError::map_markup_error(Err(MarkupError::unmapped_prefix(&p)), &span), &[&p]);
            check(matches!(&e, HmlError::MarkupError { source: MarkupError::UnmappedPrefix { prefix }, .. } if *prefix == p), m);
            check(std::error::Error::source(&e).is_some_and(|s| contains(&s.to_string(), &p)), "an error does not tell its cause");
        }
        8 => {
            let p = free(k);
            let e = made(HmlError::map_markup_error(Err(MarkupError::bad_name(&p)), &span), &[&p]);
            check(matches!(&e, HmlError::MarkupError { source: MarkupError::BadName { name }, .. } if *name == p), m);
            check(std::error::Error::source(&e).is_some_and(|s| contains(&s.to_string(), &p)), "an error does not tell its cause");
        }
        9 => {
            let x = u8();
            let r: Result<u8, HmlError<P>> = HmlError::map_markup_error(Ok(x), &span);
            check(matches!(r, Ok(y) if y == x), "a value is taken for an error");
            let r: Result<u8, HmlError<P>> = HmlError::of_io_result(span, Ok(x));
            check(matches!(r, Ok(y) if y == x), "a value is taken for an error");
        }
        _ => {
            let kind = std::io::ErrorKind::NotFound;
            let e = made(HmlError::of_io_result(span, Err(kind.into())), &[]);
            check(matches!(&e, HmlError::IoError { source, .. } if source.kind() == kind), m);
            check(std::error::Error::source(&e).is_some(), "an error does not tell its cause");
        }
    }
    reach(7);
}

/// Entry: parameters are number of operations, flavour (2 is words), number of
/// free characters, and whether there are names that look like declarations
///
/// Lists of attributes made through the interface
#[no_mangle]
pub fn h_attrs() {
    let xmlns = choose(2) == 1;
    let mut n = Namespace::new(xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let mut maps = vec![("".to_string(), "".to_string())];
    let (prefixes, fixed) = if param(3) == 0 { (4, 3) } else { (6, 5) };
    for (p, u) in [("p", "u"), ("xmlns2", "v"), ("Xmlns", "w")].into_iter().take(prefixes - 3) {
        ns.add_ns(p, u);
        maps.push((p.into(), u.into()));
    }
    if xmlns {
        maps.push(("xml".into(), "http://www.w3.org/XML/1998/namespace".into()));
        maps.push(("xmlns".into(), "http://www.w3.org/2000/xmlns/".into()));
    }
    let free = |k: usize| {
        let mut t = Text::new();
        match param(1) {
            0 => t.ascii(k),
            1 => t.uni(k),
            _ if k == 0 => (),
            _ => t.word(1 + choose(param(2)), 0),
        }
        t.string()
    };
    let mut lists = [Attributes::default(), Attributes::default()];
    let mut want: [Vec<(QName, String)>; 2] = [vec![], vec![]];
    for _ in 0..param(0) {
        let which = choose(2);
        match choose(4) {
            0 => break,
            1 => {
                let (a, b) = lists.split_at_mut(1);
                let (x, y) = if which == 0 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) };
                x.steal(y);
                let taken = std::mem::take(&mut want[1 - which]);
                want[which].extend(taken);
                reach(1);
            }
            kind => {
                let (prefix, local) = if kind == 2 && param(1) == 2 && choose(2) == 1 {
                    (free(1), free(1))
                } else if kind == 2 {
                    (["", "p", "q", "xml", "xmlns2", "Xmlns"][choose(prefixes as u64)].to_string(), free(param(2) as usize))
                } else {
                    let (p, l) = [("", "xmlns"), ("xmlns", "p"), ("xmlns", "q"), ("", "xmlns2"), ("p", "xmlns")][choose(fixed)];
                    (p.to_string(), l.to_string())
                };
                let value = free(choose(2));
                let mut q = prefix.clone();
                if xmlns && (prefix == "xmlns" || (prefix.is_empty() && local == "xmlns")) {
                    let d = if prefix.is_empty() { String::new() } else { local.clone() };
                    maps.retain(|m| m.0 != d);
                    maps.push((d, value.clone()));
                    q = "xmlns".into();
                    reach(2);
                }
                let uri = maps.iter().find(|m| m.0 == q).map(|m| m.1.clone());
                let r = lists[which].add(&mut ns, &prefix, &local, value.clone());
                observe(r.is_ok() as u64);
                match (r, uri) {
                    (Ok(()), Some(uri)) if !local.is_empty() => want[which].push((QName { prefix: q, uri, local }, value)),
                    (Err(MarkupError::EmptyName {}), _) => check(local.is_empty(), "a name is taken for empty"),
                    (Err(MarkupError::UnmappedPrefix { prefix: p }), None) => {
                        check(p == prefix, "the error names another prefix");
                        reach(3);
                    }
                    _ => fail("an attribute is accepted or refused wrongly"),
                }
            }
        }
    }
    for p in ["", "p", "q", "s", "xml", "xmlns", "xmlns2", "Xmlns"] {
        let got = match ns.find_prefix_id(p) {
            None => None,
            Some(id) => ns.find_mapping(id).map(|u| ns.uri_str(u).to_string()),
        };
        let want = maps.iter().find(|m| m.0 == p).map(|m| m.1.clone());
        check(got == want, "a prefix maps to another namespace afterwards");
    }
    let m = "a list has other attributes than were added";
    for k in 0..2 {
        check(lists[k].is_empty() == want[k].is_empty(), m);
        check(lists[k].attributes().len() == want[k].len(), m);
        for (a, w) in lists[k].attributes().iter().zip(want[k].iter()) {
            check(real::qname(&ns, &a.name) == w.0 && a.value == w.1, m);
        }
    }
    if want[0].len() > 1 {
        reach(4);
    }
    let [first, second] = lists;
    let name = free(1);
    let Ok(tag) = Tag::new(&mut ns, "p", &name, first) else {
        fail("a tag is refused");
    };
    let q = real::qname(&ns, &tag.name);
    check(q.prefix == "p" && q.local == name && maps.iter().any(|x| x.0 == "p" && x.1 == q.uri), "a tag has another name");
    check(tag.attributes.attributes().len() == want[0].len(), m);
    let v = second.take();
    check(v.len() == want[1].len(), m);
    for (a, w) in v.iter().zip(want[1].iter()) {
        check(real::qname(&ns, &a.name) == w.0 && a.value == w.1, m);
    }
}
