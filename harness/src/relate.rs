//! Properties that relate two texts
use crate::gen::*;
use crate::model::*;
use crate::real;
use crate::spec::{name_char, Cfg, Item, Src};
use crate::sym::*;

/// Compares everything but positions and, if asked, comments
fn same_document(a: &Out, b: &Out, comments: bool, m: &str) {
    let sel = |o: &Out| -> Vec<usize> { (0..o.ev.len()).filter(|i| comments || o.ev[*i].k != K::Comment).collect() };
    let (x, y) = (sel(a), sel(b));
    check(x.len() == y.len(), m);
    for (i, j) in x.iter().zip(y.iter()) {
        let (p, q) = (&a.ev[*i], &b.ev[*j]);
        let ok = p.k == q.k
            && p.name == q.name
            && p.raw == q.raw
            && p.data == q.data
            && p.lengths == q.lengths
            && p.attrs.len() == q.attrs.len()
            && p.attrs.iter().zip(q.attrs.iter()).all(|(s, t)| s.0 == t.0 && s.1 == t.1);
        check(ok, m);
    }
    match (&a.err, &b.err) {
        (None, None) => reach(1),
        (Some(e), Some(f)) => {
            reach(2);
            check(e.e == f.e, m)
        }
        _ => fail(m),
    }
}

/// Entry: parameters are family, size, family option, flags, number of changes
#[no_mangle]
pub fn h_layout() {
    let text = family(param(0), param(1) as usize, param(2));
    let cfg = Cfg { xmlns: param(3) & 1 != 0, version: 100, lines: false };
    let first = real::read(&text, cfg);
    observe(first.ev.len() as u64);
    let src = Src::new(&text, false);
    // the places between items, and whether an attribute comes next
    let mut items: Vec<(usize, usize, bool, bool)> = vec![];
    let mut i = 0;
    let mut bad = false;
    while i < src.c.len() {
        match src.item(i) {
            Ok((item, end)) => {
                items.push((i, end, matches!(item, Item::Space), matches!(item, Item::Attr { .. })));
                i = end;
            }
            Err(_) => {
                bad = true;
                break;
            }
        }
    }
    let ends = i;
    let places = items.len() + 1;
    let mut change = vec![0; places];
    for _ in 0..param(4) {
        let at = choose(places as u64);
        change[at] = 1 + choose(5);
    }
    let mut t = Text::new();
    for k in 0..places {
        // what follows this place other than whitespace
        let mut n = k;
        while n < items.len() && items[n].2 {
            n += 1;
        }
        let attr_next = n < items.len() && items[n].3;
        let unknown_next = n >= items.len() && bad;
        match change[k] {
            0 => (),
            1 => t.b(one_of(b" \t\n\r\x0b\x0c")),
            2 => {
                // any other whitespace character
                let at = t.0.len();
                t.uni_len(2 + choose(2));
                let c = unsafe { std::str::from_utf8_unchecked(&t.0[at..]) }.chars().next().unwrap();
                // one whitespace character can be part of a name
                assume(c.is_whitespace() && !name_char(c));
            }
            3 => t.s(" \n\t \n"),
            4 => {
                assume(!attr_next && !unknown_next);
                t.s("\n;");
                let c = u8();
                assume((c < 0x80) & (c != b'\n'));
                t.b(c);
                t.s("\n");
            }
            _ => {
                assume(!attr_next && !unknown_next);
                t.s(" \n ; #x{ 'y'\n  ;=\n\n;\n");
            }
        }
        if k < items.len() {
            let (a, b, space, _) = items[k];
            if space && change[k] > 0 && change[k] < 4 {
                // this whitespace is replaced by the other
                reach(3);
                continue;
            }
            t.0.extend_from_slice(text[src.o[a]..src.o[b]].as_bytes());
        }
    }
    t.0.extend_from_slice(text[src.o[ends]..].as_bytes());
    let other = t.string();
    let second = real::read(&other, cfg);
    same_document(&first, &second, false, "the document changes with its layout");
}

struct Node {
    depth: usize,
    boxed: bool,
    name: u8,
    inner: Vec<u8>,
    kids: Vec<usize>,
}

fn hashes(nodes: &[Node], i: usize, t: &mut Text) {
    let n = &nodes[i];
    t.rep(b'#', n.depth);
    t.b(n.name);
    t.b(b' ');
    t.0.extend_from_slice(&n.inner);
    for k in &n.kids {
        hashes(nodes, *k, t);
    }
}
fn boxed(nodes: &[Node], i: usize, depth: usize, t: &mut Text) {
    let n = &nodes[i];
    t.rep(b'#', depth);
    t.b(n.name);
    if n.boxed {
        t.b(b'{');
    }
    t.b(b' ');
    t.0.extend_from_slice(&n.inner);
    for k in &n.kids {
        boxed(nodes, *k, if n.boxed { 1 } else { depth + 1 }, t);
    }
    if n.boxed {
        t.rep(b'#', depth);
        t.b(n.name);
        t.s("} ");
    }
}

/// Entry: parameters are number of elements, kinds of things inside elements,
/// greatest depth
#[no_mangle]
pub fn h_boxes() {
    let n = 1 + choose(param(0));
    let inner = param(1);
    let mut nodes: Vec<Node> = vec![];
    let mut roots = vec![];
    let mut path: Vec<usize> = vec![];
    for i in 0..n {
        let d = 1 + choose((path.len() as u64 + 1).min(param(2)));
        path.truncate(d - 1);
        let mut t = Text::new();
        match choose(inner) {
            0 => (),
            1 => {
                t.s("'");
                let c = u8();
                assume((c < 0x80) & (c != b'\n') & (c != b'\''));
                t.b(c);
                t.s("' ");
            }
            2 => {
                t.s("x=");
                t.b(one_of(b"vw"));
                t.s(" ");
            }
            3 => {
                t.s(";");
                let c = u8();
                assume((c < 0x80) & (c != b'\n'));
                t.b(c);
                t.s("\n");
            }
            _ => t.s("x=1 'y' r#'z\n'# ;c\n"),
        }
        nodes.push(Node { depth: d, boxed: choose(2) == 1, name: one_of(b"ab"), inner: t.0, kids: vec![] });
        match path.last() {
            Some(p) => nodes[*p].kids.push(i),
            None => roots.push(i),
        }
        path.push(i);
    }
    let (mut a, mut b) = (Text::new(), Text::new());
    for r in &roots {
        hashes(&nodes, *r, &mut a);
        boxed(&nodes, *r, 1, &mut b);
    }
    let cfg = Cfg { xmlns: false, version: 100, lines: false };
    let x = real::read(&a.string(), cfg);
    let y = real::read(&b.string(), cfg);
    observe(x.ev.len() as u64);
    check(x.err.is_none() && y.err.is_none(), "a well-formed document is refused");
    same_document(&x, &y, true, "boxed and hash-depth notation give different documents");
}
