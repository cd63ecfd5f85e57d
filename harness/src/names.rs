//! Properties of names, namespaces and the namespace stack
use crate::gen::*;
use crate::sym::*;
use hml_rs::names::*;
use hml_rs::MarkupError;

/// A symbolic string: flavour 0 free ASCII up to `max`, 1 free characters up to
/// `max`, 2 a long common start and a free end, 3 lower case letters up to `max`
fn string(flavour: u64, max: usize, long: usize) -> String {
    let mut t = Text::new();
    match flavour {
        0 => {
            let n = choose(max as u64 + 1);
            t.ascii(n);
        }
        1 => {
            let n = choose(max as u64 + 1);
            t.uni(n);
        }
        3 => {
            let n = choose(max as u64 + 1);
            t.word(n, 0);
        }
        _ => {
            t.rep(b'f', long);
            t.ascii(choose(2));
            if choose(2) == 1 {
                t.b(b'g');
            }
        }
    }
    t.string()
}

/// Entry: parameters are kind of string (0 names, 1 prefixes, 2 URIs), how
/// many, flavour, greatest length
#[no_mangle]
pub fn h_intern() {
    let kind = param(0);
    let count = param(1) as usize;
    let xmlns = choose(2) == 1;
    let mut n = Namespace::new(xmlns);
    let long = if param(2) == 2 { LENGTHS[choose(param(3))] } else { 0 };
    let strings: Vec<String> = (0..count).map(|_| string(param(2), param(3) as usize, long)).collect();
    let many = param(4) as usize;
    let mut ids: Vec<Option<usize>> = vec![];
    let fixed = |i: usize| -> String {
        let mut t = Text::new();
        t.s("\u{1}k");
        t.b(b'a' + (i / 676) as u8);
        t.b(b'a' + (i / 26 % 26) as u8);
        t.b(b'a' + (i % 26) as u8);
        t.string()
    };
    {
        let mut ns = NamespaceStack::new(&mut n);
        let add = |ns: &mut NamespaceStack, s: &str| -> Option<usize> {
            match kind {
                0 => ns.add_name(s).get(),
                1 => ns.add_ns(s, "u").prefix_id().get(),
                _ => ns.add_ns("p", s).uri_id().get(),
            }
        };
        let text = |ns: &NamespaceStack, id: Option<usize>| -> String {
            match kind {
                0 => ns.name_str(id.map_or(NSNameId::none(), NSNameId::new)).to_string(),
                1 => ns.prefix_str(id.map_or(NSPrefixId::none(), NSPrefixId::new)).to_string(),
                _ => ns.uri_str(id.map_or(NSUriId::none(), NSUriId::new)).to_string(),
            }
        };
        for (i, s) in strings.iter().enumerate() {
            let before = if kind == 1 { ns.find_prefix_id(s) } else { None };
            let id = add(&mut ns, s);
            if let Some(b) = before {
                check(b.get() == id, "adding a known string gives another id");
            }
            check(id.is_none() == s.is_empty(), "only the empty string has the none id");
            check(text(&ns, id) == *s, "an id gives back another string");
            for j in 0..i {
                check((ids[j] == id) == (strings[j] == *s), "ids are not one-to-one with strings");
                if ids[j] == id {
                    reach(1);
                } else {
                    reach(2);
                }
            }
            ids.push(id);
        }
        // many more strings later
        let mut more = vec![];
        for i in 0..many {
            more.push(add(&mut ns, &fixed(i)));
        }
        for i in 0..many {
            check(text(&ns, more[i]) == fixed(i), "an id gives back another string later");
            check(add(&mut ns, &fixed(i)) == more[i], "adding again gives another id later");
        }
        for (i, s) in strings.iter().enumerate() {
            check(add(&mut ns, s) == ids[i], "adding again gives another id");
            check(text(&ns, ids[i]) == *s, "an id gives back another string later");
            if kind == 1 {
                check(ns.find_prefix_id(s).map(|x| x.get()) == Some(ids[i]), "looking up a known string fails");
            }
        }
        observe(ids.iter().map(|x| x.map_or(0, |y| y as u64 + 1)).sum());
    }
    let mut find = |s: &str| -> Option<Option<usize>> {
        match kind {
            0 => n.find_name(s).map(|x| x.get()),
            1 => n.find_prefix(s).map(|x| x.get()),
            _ => n.find_uri(s).map(|x| x.get()),
        }
    };
    for (i, s) in strings.iter().enumerate() {
        check(find(s) == Some(ids[i]), "looking up a known string fails");
    }
    // a string that may or may not have been added
    let other = string(param(2), param(3) as usize, long);
    let mut known = other.is_empty();
    for (i, s) in strings.iter().enumerate() {
        if *s == other {
            known = true;
            check(find(&other) == Some(ids[i]), "looking up a known string finds another id");
        }
    }
    if kind == 1 {
        known |= xmlns && (other == "xml" || other == "xmlns");
    } else if kind == 2 {
        known |= other == "u";
        known |= xmlns && (other == "http://www.w3.org/2000/xmlns/" || other == "http://www.w3.org/XML/1998/namespace");
    }
    if !known {
        reach(3);
        check(find(&other).is_none(), "a string that was never added is found");
        check(find(&other).is_none(), "looking up a string adds it");
    }
}

const PREFIXES: &[&str] = &["", "a", "b", "xml"];

/// A prefix or URI that is not one of the others
fn numbered(i: usize) -> String {
    let mut t = Text::new();
    t.s("k");
    t.b(b'a' + (i / 26 % 26) as u8);
    t.b(b'a' + (i % 26) as u8);
    t.string()
}

struct Frames(Vec<Vec<(usize, String)>>);
impl Frames {
    fn find(&self, p: usize) -> Option<&str> {
        for f in self.0.iter().rev() {
            for (q, u) in f {
                if *q == p {
                    return Some(u);
                }
            }
        }
        None
    }
    fn set(&mut self, p: usize, u: &str) {
        let f = self.0.last_mut().unwrap();
        for e in f.iter_mut() {
            if e.0 == p {
                e.1 = u.to_string();
                return;
            }
        }
        f.push((p, u.to_string()));
    }
    fn has(&self, p: usize) -> bool {
        self.0.last().unwrap().iter().any(|e| e.0 == p)
    }
}

/// Entry: parameters are number of operations, number of prefixes, flags
///
/// Flag 1: with XML namespaces; then up to how many frames are pushed, and up
/// to how many further prefixes are mapped, after the first operation; 1000
/// means 128, 256 or 257
#[no_mangle]
pub fn h_stack() {
    let xmlns = param(2) & 1 != 0;
    let np = param(1);
    let some = |n: u64| if n == 1000 { [128, 256, 257][choose(3)] } else { choose(n + 1) };
    let frames = some(param(3));
    let extra = some(param(4));
    let mut n = Namespace::new(xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let mut m = Frames(vec![vec![(0, String::new())]]);
    if xmlns {
        m.set(3, "http://www.w3.org/XML/1998/namespace");
    }
    let mut depth = 1;
    for op in 0..param(0) {
        if op == 1 {
            for _ in 0..frames {
                ns.push_frame();
                m.0.push(vec![]);
                depth += 1;
            }
            // the further prefixes all go into one frame
            for i in 0..extra {
                let s = numbered(i);
                let map = ns.add_ns(&s, &s);
                check(ns.prefix_str(map.prefix_id()) == s && ns.uri_str(map.uri_id()) == s, "mapping has other strings");
                m.set(PREFIXES.len() + i, &s);
            }
            if frames + extra > 8 {
                reach(4);
            }
        }
        match choose(if depth > 1 { 5 } else { 4 }) {
            0 => break,
            1 => {
                let p = choose(np);
                let u = uri();
                let map = ns.add_ns(PREFIXES[p], &u);
                check(ns.prefix_str(map.prefix_id()) == PREFIXES[p], "mapping has another prefix");
                check(ns.uri_str(map.uri_id()) == u, "mapping has another URI");
                let (x, y) = ns.borrow_mapping(map);
                check(x == PREFIXES[p] && y == u, "mapping has other strings");
                m.set(p, &u);
            }
            2 => {
                let p = choose(np);
                let u = uri();
                let (map, set) = ns.add_ns_if_unset(PREFIXES[p], &u);
                check(ns.prefix_str(map.prefix_id()) == PREFIXES[p], "mapping has another prefix");
                check(ns.uri_str(map.uri_id()) == u, "mapping has another URI");
                check(set == !m.has(p), "add-if-unset reports the wrong result");
                if !m.has(p) {
                    m.set(p, &u);
                    reach(1);
                } else {
                    reach(2);
                }
            }
            3 => {
                ns.push_frame();
                m.0.push(vec![]);
                depth += 1;
            }
            _ => {
                ns.pop_frame();
                m.0.pop();
                depth -= 1;
                reach(3);
            }
        }
    }
    let all: Vec<String> = PREFIXES.iter().map(|p| p.to_string()).chain((0..extra).map(numbered)).collect();
    // resolution
    for (i, p) in all.iter().enumerate() {
        let got = match ns.find_prefix_id(p) {
            None => None,
            Some(id) => ns.find_mapping(id).map(|u| ns.uri_str(u).to_string()),
        };
        check(got.as_deref() == m.find(i), "a prefix resolves wrongly");
        observe(got.map_or(0, |x| 1 + x.len() as u64));
    }
    // iteration over everything
    let mut seen: Vec<String> = vec![];
    for map in &ns {
        let (p, u) = ns.borrow_mapping(map);
        check(!seen.iter().any(|x| x == p), "iteration gives a prefix twice");
        seen.push(p.to_string());
        match all.iter().position(|x| *x == p) {
            Some(i) => check(m.find(i) == Some(u), "iteration gives a mapping that is not in force"),
            None => check(xmlns && p == "xmlns" && u == "http://www.w3.org/2000/xmlns/", "iteration gives an unknown prefix"),
        }
        let mut s = String::new();
        check(ns.fmt_map(&mut s, map).is_ok(), "a mapping cannot be printed");
        check(s.find(p).is_some_and(|i| s[i + p.len()..].contains(u)), "a mapping prints differently");
    }
    let mut want = xmlns as usize;
    for i in 0..all.len() {
        want += m.find(i).is_some() as usize;
    }
    check(seen.len() == want, "iteration leaves out a mapping");
    // iteration over the topmost frame
    let mut seen: Vec<String> = vec![];
    for map in ns.iter_top_mappings() {
        let (p, u) = ns.borrow_mapping(map);
        check(!seen.iter().any(|x| x == p), "iterating a frame gives a prefix twice");
        seen.push(p.to_string());
        match all.iter().position(|x| *x == p) {
            Some(i) => check(m.has(i) && m.find(i) == Some(u), "iterating a frame gives a mapping that is not in it"),
            None => check(depth == 1 && xmlns && p == "xmlns", "iterating a frame gives an unknown prefix"),
        }
    }
    let want = m.0.last().unwrap().len() + (xmlns && depth == 1) as usize;
    check(seen.len() == want, "iterating a frame leaves out a mapping");
}
fn uri() -> String {
    let mut t = Text::new();
    if choose(2) == 1 {
        t.b(one_of(b"uv"));
    }
    t.string()
}

/// Entry: parameters are kind (0 from text, 1 from parts, 2 equality), flavour,
/// number of free characters
#[no_mangle]
pub fn h_name() {
    let mut n = Namespace::new(choose(2) == 1);
    let mut ns = NamespaceStack::new(&mut n);
    // p maps to u, then to v in an inner frame; q is no longer mapped
    ns.add_ns("p", "u");
    ns.push_frame();
    ns.add_ns("q", "w");
    ns.pop_frame();
    let inner = choose(3);
    let mut p_uri = "u";
    if inner > 0 {
        ns.push_frame();
        ns.add_ns("p", "v");
        p_uri = "v";
        if inner == 2 {
            ns.add_ns("", "d");
        }
    }
    let d_uri = if inner == 2 { "d" } else { "" };
    let xml = ns.uses_xmlns();
    let uri = |p: &str| -> Option<&str> {
        match p {
            "" => Some(d_uri),
            "p" => Some(p_uri),
            "xml" if xml => Some("http://www.w3.org/XML/1998/namespace"),
            "xmlns" if xml => Some("http://www.w3.org/2000/xmlns/"),
            _ => None,
        }
    };
    let free = |k: usize| {
        let mut t = Text::new();
        match param(1) {
            0 => t.ascii(k),
            1 => t.uni(k),
            _ => t.word(k, 0),
        }
        t.string()
    };
    let k = param(2) as usize;
    match param(0) {
        0 => {
            let mut s = ["", "p:", "q:", "p", "xml:", ":"][choose(6)].to_string();
            let n = choose(k as u64 + 1);
            s += &free(n);
            if choose(2) == 1 {
                s += ":b";
            }
            let colons = s.bytes().filter(|b| *b == b':').count();
            let r = Name::from_str(&mut ns, &s);
            observe(r.is_ok() as u64);
            if colons == 0 {
                named(&ns, &r, "", "", &s);
            } else if colons == 1 {
                let i = s.find(':').unwrap();
                prefixed(&ns, &r, &s[..i], uri(&s[..i]), &s[i + 1..]);
            } else {
                reach(4);
                match &r {
                    Err(MarkupError::BadName { name }) => check(*name == s, "the error names another text"),
                    _ => fail("a malformed name is not refused as such"),
                }
            }
        }
        1 => {
            let p = if choose(2) == 1 { "p".to_string() } else { free(choose(k as u64 + 1)) };
            let l = free(choose(k as u64 + 1));
            let r = Name::new(&mut ns, &p, &l);
            observe(r.is_ok() as u64);
            prefixed(&ns, &r, &p, uri(&p), &l);
            let r = Name::new_local(&mut ns, &l);
            named(&ns, &r, "", "", &l);
        }
        _ => {
            // two names made at different times
            let a = ["", "p"][choose(2)];
            let x = free(1);
            let r = Name::new(&mut ns, a, &x).ok();
            let u = uri(a).unwrap().to_string();
            let again = choose(2) == 1;
            if again {
                ns.add_ns(a, "z");
            }
            let b = ["", "p"][choose(2)];
            let y = free(1);
            let s = Name::new(&mut ns, b, &y).ok();
            let v = if again && a == b { "z".to_string() } else { uri(b).unwrap().to_string() };
            let (Some(r), Some(s)) = (r, s) else {
                fail("a name with a mapped prefix is refused");
            };
            observe((r == s) as u64);
            check((r == s) == (a == b && u == v && x == y), "names compare wrongly");
            reach(if r == s { 5 } else { 6 });
        }
    }
}
fn named(ns: &NamespaceStack, r: &Result<Name, MarkupError>, prefix: &str, uri: &str, local: &str) {
    if local.is_empty() {
        reach(1);
        check(matches!(r, Err(MarkupError::EmptyName {})), "an empty name is not refused as such");
        return;
    }
    let Ok(name) = r else {
        fail("a well-formed name is refused");
    };
    reach(2);
    check(ns.prefix_str(name.prefix) == prefix, "a name has another prefix");
    check(ns.uri_str(name.uri) == uri, "a name has another namespace");
    check(ns.name_str(name.name) == local, "a name has another local name");
    check(name.has_prefix() == !prefix.is_empty(), "a name tells its prefix wrongly");
    check(name.has_uri() == !uri.is_empty(), "a name tells its namespace wrongly");
    let s = name.to_string(ns);
    if prefix.is_empty() {
        check(s == local, "a name prints differently");
    } else {
        let n = prefix.len();
        check(
            s.len() == n + 1 + local.len() && s[..n] == *prefix && s.as_bytes()[n] == b':' && s[n + 1..] == *local,
            "a name prints differently",
        );
    }
}
fn prefixed(ns: &NamespaceStack, r: &Result<Name, MarkupError>, prefix: &str, uri: Option<&str>, local: &str) {
    match uri {
        _ if local.is_empty() => named(ns, r, prefix, "", local),
        Some(u) => named(ns, r, prefix, u, local),
        None => {
            reach(3);
            match r {
                Err(MarkupError::UnmappedPrefix { prefix: p }) => check(p == prefix, "the error names another prefix"),
                _ => fail("an unmapped prefix is not refused as such"),
            }
        }
    }
}
