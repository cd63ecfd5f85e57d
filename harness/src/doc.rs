//! Properties of reading a document
use crate::gen::*;
use crate::model::*;
use crate::real;
use crate::spec::{self, Cfg, Src};
use crate::sym::*;
use hml_rs::names::{Namespace, NamespaceStack};

/// Entry: parameters are property, family, size, family option, flags
///
/// Flag 1: with XML namespace handling; 2: strict comparison
#[no_mangle]
pub fn h_doc() {
    let prop = param(0);
    let text = family(param(1), param(2) as usize, param(3));
    let flags = param(4);
    let cfg = Cfg { xmlns: flags & 1 != 0, version: 100, lines: prop == 8 };
    let strict = flags & 2 != 0;
    match prop {
        1 => total(&text, cfg),
        2 => wellformed(&text, cfg),
        19 => independent(&text, cfg),
        _ => against_reference(prop, &text, cfg, strict),
    }
}

fn obs(o: &Out) {
    observe(o.ev.len() as u64);
    for e in &o.ev {
        observe(e.k as u64);
        observe(e.data.len() as u64);
        if let Some(b) = e.data.as_bytes().last() {
            observe(*b as u64);
        }
        observe(e.attrs.len() as u64);
        observe(e.span.0.byte as u64);
        observe(e.span.1.byte as u64);
    }
    if let Some(e) = &o.err {
        observe(100 + e.e as u64);
        observe(e.num);
    }
}

fn total(s: &str, cfg: Cfg) {
    let mut n = Namespace::new(cfg.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let (o, after) = real::read_more(s, cfg, &mut ns, 4);
    obs(&o);
    let crash = |e: &Option<Er>| e.as_ref().is_some_and(|e| e.e == E::Crash);
    check(!crash(&o.err) && !after.iter().any(crash), "reading panics");
    // every item gives at most one event of its own, and an element two
    check(o.ev.len() <= 2 * s.len() + 2, "more events than the text has items for");
    match &o.err {
        None => {
            reach(1);
            for a in &after {
                check(a.is_some(), "an event was delivered after the end of the document");
            }
        }
        Some(_) => reach(2),
    }
}

fn same_name(a: &QName, b: &QName) -> bool {
    a.prefix == b.prefix && a.uri == b.uri && a.local == b.local
}

fn wellformed(s: &str, cfg: Cfg) {
    let version = [100, 110, 0][choose(3)];
    let cfg = Cfg { version, ..cfg };
    let mut n = Namespace::new(cfg.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let before = (&ns).into_iter().count();
    let o = real::read_ns(s, cfg, &mut ns);
    obs(&o);
    let mut stack: Vec<&QName> = vec![];
    let mut ended = false;
    for (i, e) in o.ev.iter().enumerate() {
        check((i == 0) == (e.k == K::StartDoc), "start of document is not exactly the first event");
        check(!ended, "event after the end of the document");
        match e.k {
            K::StartDoc => check(e.version == version, "wrong version at start of document"),
            K::EndDoc => {
                check(stack.is_empty(), "end of document with open elements");
                ended = true;
            }
            K::Start => stack.push(&e.name),
            K::End => match stack.pop() {
                None => fail("end of an element that was not started"),
                Some(n) => check(same_name(n, &e.name), "end element has another name than its start"),
            },
            K::Content => check(!stack.is_empty(), "content outside every element"),
            K::Comment | K::Pi => (),
        }
    }
    if o.err.is_none() {
        check(ended, "no end of document");
        reach(1);
        if o.ev.len() > 4 {
            reach(2);
        }
        let after = (&ns).into_iter().count();
        check(before == after, "a namespace scope is left open after the end of the document");
    } else {
        check(!ended, "end of document and an error");
        check(!o.ev.is_empty(), "no start of document");
    }
}

/// The reference's events, with the start event that may come before a lexical
/// error if the reader delivered it
fn adjust(mut sp: Out, im: &Out) -> Out {
    if let Some(open) = sp.open.take() {
        if im.ev.len() == sp.ev.len() + 1 && im.ev[sp.ev.len()].k == K::Start {
            sp.ev.push(open);
        }
    }
    sp
}

/// Compares the parts of two event lists selected by `f`
///
/// If not strict and the reader stopped with an error where the reference
/// has none, or the other way round, only what was delivered is compared unless
/// the difference is about an item of this kind
fn lists<C>(im: &Out, sp: &Out, strict: bool, kind: K, eq: C, m: &str)
where
    C: Fn((usize, &Ev), (usize, &Ev)) -> bool,
{
    let sel = |o: &Out| -> Vec<usize> { (0..o.ev.len()).filter(|i| o.ev[*i].k == kind).collect() };
    let (a, b) = (sel(im), sel(sp));
    let n = a.len().min(b.len());
    for i in 0..n {
        check(eq((a[i], &im.ev[a[i]]), (b[i], &sp.ev[b[i]])), m);
    }
    // the reader refuses an item of this kind, or one of the attributes
    if n < b.len() {
        if let Some(e) = &im.err {
            if let Some((p, _)) = &e.span {
                let (x, y) = &sp.ev[b[n]].span;
                if kind == K::Start {
                    let next = sp.ev.get(b[n] + 1).map_or(usize::MAX, |e| e.span.0.byte);
                    check(!(p.byte > y.byte && p.byte < next), m);
                } else {
                    check(!(p.byte >= x.byte && p.byte < y.byte), m);
                }
            }
            check(e.e != E::Crash || sp.err.is_some(), m);
        }
    }
    // the reader accepts an item of this kind that is malformed
    if n < a.len() && kind != K::Start && sp.err.is_some() {
        check(im.ev[a[n]].span.0.byte != sp.item.0, m);
    }
    if n > 0 {
        reach(20);
    }
    if n > 1 {
        reach(21);
    }
    if strict || (im.err.is_none() && sp.err.is_none()) {
        check(a.len() == b.len(), m);
    }
}

fn kinds_equal(im: &Out, sp: &Out) -> bool {
    if im.ev.len() != sp.ev.len() {
        return false;
    }
    for i in 0..im.ev.len() {
        if im.ev[i].k != sp.ev[i].k {
            return false;
        }
    }
    true
}

fn against_reference(prop: u64, s: &str, cfg: Cfg, strict: bool) {
    let im = real::read(s, cfg);
    obs(&im);
    let src = Src::new(s, cfg.lines);
    let (sp, dup) = spec::read_dup(&src, cfg);
    let sp = adjust(sp, &im);
    match prop {
        3 => nesting(&im, &sp),
        4 => refused(&im, &sp),
        5 => lists(
            &im,
            &sp,
            strict,
            K::Content,
            |(_, a), (_, b)| a.raw == b.raw && a.data == b.data && a.version == b.version,
            "content differs from the text between the quotes",
        ),
        6 => lists(
            &im,
            &sp,
            strict,
            K::Start,
            |(_, a), (_, b)| {
                a.attrs.len() == b.attrs.len()
                    && a.attrs
                        .iter()
                        .zip(b.attrs.iter())
                        .all(|(x, y)| x.0.prefix == y.0.prefix && x.0.local == y.0.local && x.1 == y.1)
            },
            "attributes of an element differ from those written",
        ),
        7 => {
            lists(
                &im,
                &sp,
                strict,
                K::Comment,
                |a, b| a.1.data == b.1.data && a.1.lengths == b.1.lengths && (a.0 == b.0 || im.ev[..a.0.min(b.0)].iter().zip(sp.ev.iter()).any(|(x, y)| x.k != y.k)),
                "comment differs from the text written",
            );
        }
        8 => positions(&im, &sp, &src),
        9 => {
            // names of tags and attributes, including those of the first element
            // that is refused
            lists(
                &im,
                &sp,
                strict,
                K::Start,
                |(_, a), (_, b)| {
                    a.name.prefix == b.name.prefix
                        && a.name.local == b.name.local
                        && (!strict
                            || a.attrs.len() == b.attrs.len()
                                && a.attrs.iter().zip(b.attrs.iter()).all(|(x, y)| x.0.prefix == y.0.prefix && x.0.local == y.0.local))
                },
                "name differs from the characters written",
            );
            if strict {
                let bad = |o: &Out| o.err.as_ref().is_some_and(|e| e.e != E::Unmapped);
                check(bad(&im) == bad(&sp), "a name is accepted or refused wrongly");
                reach(if bad(&sp) { 30 } else { 31 });
            }
        }
        10 => lexical(&im, &sp),
        11 => {
            assume(!dup);
            scoping(&im, &sp)
        }
        _ => fail("unknown property"),
    }
}

fn nesting(im: &Out, sp: &Out) {
    if sp.err.is_some() {
        return;
    }
    check(im.err.is_none(), "a grammatical document is refused");
    let el = |o: &Out| -> Vec<usize> { (0..o.ev.len()).filter(|i| matches!(o.ev[*i].k, K::Start | K::End)).collect() };
    let (a, b) = (el(im), el(sp));
    check(a.len() == b.len(), "wrong number of elements");
    for (i, j) in a.iter().zip(b.iter()) {
        let (x, y) = (&im.ev[*i], &sp.ev[*j]);
        check(x.k == y.k, "elements are nested wrongly");
        check(x.name.prefix == y.name.prefix && x.name.local == y.name.local, "element has the wrong name");
    }
    // content and comments belong to the right element
    check(kinds_equal(im, sp), "an item is in the wrong element");
    reach(1);
    if a.len() > 2 {
        reach(2);
    }
}

fn refused(im: &Out, sp: &Out) {
    let Some(e) = &sp.err else {
        return;
    };
    if !e.e.structural() {
        return;
    }
    reach(e.e as u64);
    let Some(f) = &im.err else {
        fail("a document with malformed structure is accepted");
    };
    check(f.e.is(e.e), "the wrong kind of mistake is reported");
    check(kinds_equal(im, sp), "what precedes the mistake is not reported normally");
}

fn lexical(im: &Out, sp: &Out) {
    let by = |o: &Out| o.err.as_ref().is_some_and(|e| e.e.lexical() || e.e == E::Eof);
    match &sp.err {
        Some(e) if e.e.lexical() => {
            reach(e.e as u64);
            let Some(f) = &im.err else {
                fail("text that is not an item is accepted");
            };
            check(f.e.is(e.e), "the wrong kind of mistake is reported");
            let Some(span) = f.span else {
                fail("the mistake has no position");
            };
            let a = span.0.byte;
            check(a >= sp.item.0 && a <= sp.item.1, "the mistake is reported at the wrong place");
            if e.e == E::Char {
                check(f.num == e.num, "the wrong character is reported");
            }
            check(kinds_equal(im, sp), "what precedes the mistake is not reported as usual");
        }
        Some(e) if e.e == E::OpenBox => (),
        _ => {
            reach(40);
            check(!by(im), "text is refused although every item is complete");
        }
    }
}

fn scoping(im: &Out, sp: &Out) {
    let n = im.ev.len().min(sp.ev.len());
    for i in 0..n {
        let (x, y) = (&im.ev[i], &sp.ev[i]);
        if x.k != y.k {
            return;
        }
        check(same_name(&x.name, &y.name), "a name resolves to the wrong namespace");
        if x.k == K::Start {
            if !x.name.uri.is_empty() {
                reach(1);
            }
            if x.attrs.len() != y.attrs.len() {
                return;
            }
            for (p, q) in x.attrs.iter().zip(y.attrs.iter()) {
                check(same_name(&p.0, &q.0), "an attribute name resolves to the wrong namespace");
                if !p.0.uri.is_empty() {
                    reach(2);
                }
            }
        }
    }
    let un = |o: &Out| o.err.as_ref().is_some_and(|e| e.e == E::Unmapped);
    if un(sp) {
        reach(3);
        check(im.ev.len() <= sp.ev.len(), "use of a prefix that is not in scope is accepted");
        check(im.err.is_some(), "use of a prefix that is not in scope is accepted");
    }
    if un(im) && n == im.ev.len() && n < sp.ev.len() {
        fail("use of a prefix that is in scope is refused");
    }
    if un(im) && n == sp.ev.len() {
        check(sp.err.is_some(), "use of a prefix that is in scope is refused");
    }
}

fn positions(im: &Out, sp: &Out, src: &Src) {
    // agreement of a position with the text
    let good = |p: &Pos| {
        check(p.byte <= src.s.len(), "a position is outside the text");
        let Ok(i) = src.o.binary_search(&p.byte) else {
            fail("a position is not on a character boundary");
        };
        let q = src.pos(i);
        check(q.line == p.line && q.col == p.col, "line and column do not agree with the offset");
    };
    let mut last = (0, 0);
    for (i, e) in im.ev.iter().enumerate() {
        let (a, b) = &e.span;
        good(a);
        good(b);
        check(a.byte <= b.byte, "a position ends before it starts");
        check(a.byte >= last.0 && b.byte >= last.1, "positions go backwards");
        last = (a.byte, b.byte);
        if i < sp.ev.len() && sp.ev[i].k == e.k && matches!(e.k, K::Start | K::Content | K::Comment) {
            let (c, d) = &sp.ev[i].span;
            check(a.byte == c.byte && b.byte == d.byte, "the position of an event is not that of its text");
            reach(1);
            if a.line > 1 {
                reach(2);
            }
        }
    }
    if let Some(f) = &im.err {
        if f.e == E::Crash {
            return;
        }
        let Some((a, b)) = &f.span else {
            fail("an error has no position");
        };
        good(a);
        good(b);
        check(a.byte <= b.byte, "a position ends before it starts");
        check(a.byte >= last.0, "an error is before the last item delivered");
        if let Some(e) = &sp.err {
            if f.e.is(e.e) && im.ev.len() == sp.ev.len() {
                reach(3);
                check(a.byte >= sp.item.0 && a.byte <= sp.item.1, "an error is not at the item that is wrong");
            }
        }
    }
}

fn same_outcome(a: &Out, b: &Out, lines: bool, m: &str) {
    check(a.ev.len() == b.ev.len(), m);
    let same = |x: &(Pos, Pos), y: &(Pos, Pos)| if lines { x == y } else { x.0.byte == y.0.byte && x.1.byte == y.1.byte };
    for (x, y) in a.ev.iter().zip(b.ev.iter()) {
        let ok = x.k == y.k
            && same_name(&x.name, &y.name)
            && x.raw == y.raw
            && x.data == y.data
            && x.lengths == y.lengths
            && x.version == y.version
            && same(&x.span, &y.span)
            && x.attrs.len() == y.attrs.len()
            && x.attrs.iter().zip(y.attrs.iter()).all(|(p, q)| same_name(&p.0, &q.0) && p.1 == q.1);
        check(ok, m);
    }
    match (&a.err, &b.err) {
        (None, None) => reach(1),
        (Some(x), Some(y)) => {
            reach(2);
            check(x.e == y.e && x.num == y.num, m);
            match (&x.span, &y.span) {
                (None, None) => (),
                (Some(p), Some(q)) => check(same(p, q), m),
                _ => fail(m),
            }
        }
        _ => fail(m),
    }
}

fn independent(s: &str, cfg: Cfg) {
    let first = real::read(s, cfg);
    obs(&first);
    match choose(4) {
        0 => {
            let second = real::read(s, cfg);
            same_outcome(&first, &second, true, "two readings of one text differ");
        }
        1 => {
            let mut n = Namespace::new(cfg.xmlns);
            let mut ns = NamespaceStack::new(&mut n);
            let second = real::read_usize(s, cfg, &mut ns);
            same_outcome(&first, &second, false, "reading depends on the position type");
        }
        2 => {
            let mut n = Namespace::new(cfg.xmlns);
            let mut ns = NamespaceStack::new(&mut n);
            let second = real::read_string(s, cfg, &mut ns);
            same_outcome(&first, &second, true, "reading depends on what holds the text");
        }
        _ => {
            // the namespace has been used for other documents, the last of
            // them perhaps malformed
            let mut n = Namespace::new(cfg.xmlns);
            let earlier = [
                "#a xmlns:p='u' x=1 ##p:b{ y=2 #c ##p:b}",
                "#b{ xmlns:x='v' xmlns='w' #a z=1 ###c",
                "#c ##d x:y=1 'x'",
            ];
            let k = choose(4);
            for (i, e) in earlier.iter().enumerate() {
                if k == i || k == 3 {
                    let mut ns = NamespaceStack::new(&mut n);
                    real::read_ns(e, cfg, &mut ns);
                }
            }
            let mut ns = NamespaceStack::new(&mut n);
            let second = real::read_ns(s, cfg, &mut ns);
            same_outcome(&first, &second, true, "reading depends on earlier use of the namespace");
        }
    }
}
