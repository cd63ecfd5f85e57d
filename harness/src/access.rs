//! Properties of events and ids as values, and of how the reader takes tokens
use crate::gen::*;
use crate::model::*;
use crate::real::{self, guard, qname, P};
use crate::spec::{Item, Src};
use crate::sym::*;
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::markup::{ContentType, Event, EventType};
use hml_rs::names::{Attributes, NSMap, NSNameId, NSPrefixId, NSUriId, Name, Namespace, NamespaceStack, Tag};
use hml_rs::{HmlError, Span};
use lexer_rs::{Lexer, LexerOfStr, UserPosn};

/// Entry: parameter is the number of free characters, and 100 more for printable
/// characters only
///
/// Events made through the interface, and what they tell about themselves
#[no_mangle]
pub fn h_access() {
    let mut n = Namespace::new(false);
    let mut ns = NamespaceStack::new(&mut n);
    ns.add_ns("p", "u");
    let a = {
        let x = u8() as usize;
        P::default().advance_cols(x, x)
    };
    let b = {
        let x = u8() as usize;
        a.advance_cols(x, x)
    };
    let span: Span<P> = Span::new_at(&a).end_at(&b);
    let free = |k: usize| {
        let mut t = Text::new();
        match param(0) < 100 {
            true => t.uni(k),
            false => t.word(k, 4),
        }
        t.string()
    };
    let text = free(choose(param(0) % 100 + 1));
    let version = u32() as usize;
    let kind = choose(10);
    let types = [
        EventType::StartDocument,
        EventType::EndDocument,
        EventType::StartElement,
        EventType::EndElement,
        EventType::Content,
        EventType::Content,
        EventType::Content,
        EventType::Content,
        EventType::Comment,
        EventType::ProcessingInstruction,
    ];
    let ct = [ContentType::Raw, ContentType::Interpretable, ContentType::Whitespace];
    let mut which = [0, 0, 0, 0, 0, 0, 1, 2, 0, 0][kind];
    let mut name = Name::none();
    if kind == 2 || kind == 3 {
        let local = free(1);
        let Ok(x) = Name::new(&mut ns, ["", "p"][choose(2)], &local) else {
            fail("a name is refused");
        };
        name = x;
    }
    let value = text.clone();
    let e: Event<P> = match kind {
        0 => Event::start_document(span, version),
        1 => Event::end_document(span),
        2 => {
            let mut l = Attributes::default();
            check(l.add(&mut ns, "p", "k", value).is_ok(), "an attribute is refused");
            let prefix = if name.has_prefix() { "p" } else { "" };
            let local = ns.name_str(name.name).to_string();
            let Ok(tag) = Tag::new(&mut ns, prefix, &local, l) else {
                fail("a tag is refused");
            };
            Event::start_element(span, tag)
        }
        3 => Event::end_element(span, name),
        4 => {
            which = choose(3);
            Event::content(span, ct[which], value)
        }
        5 => Event::content_raw(span, value),
        6 => Event::content_int(span, value),
        7 => Event::content_ws(span, value),
        8 => Event::comment(span, value, vec![text.len(), 7]),
        _ => Event::ProcessingInstruction { span, name: ns.add_name("pi"), data: Some(value) },
    };
    check(e.get_type() == types[kind], "an event has another type");
    check(*e.borrow_span().start() == a && *e.borrow_span().end() == b, "an event has another position");
    check(e.is_start_document() == (kind == 0), "a start of document is mistaken");
    check(e.is_end_document() == (kind == 1), "an end of document is mistaken");
    check(e.as_start_document() == if kind == 0 { Some(version) } else { None }, "a version is lost or made up");
    match e.as_end_element() {
        Some(x) => check(kind == 3 && *x == name, "the end of an element has another name"),
        None => check(kind != 3, "the end of an element is not seen"),
    }
    match e.as_content() {
        Some((c, s)) => check((4..8).contains(&kind) && c == ct[which] && s == text, "content is changed"),
        None => check(!(4..8).contains(&kind), "content is not seen"),
    }
    if let Event::Comment { data, lengths, .. } = &e {
        check(*data == text && *lengths == [text.len(), 7], "a comment is changed");
    }
    match e.as_start_element() {
        Some(t) => {
            check(kind == 2 && t.name == name, "the start of an element has another name");
            let l = t.attributes.attributes();
            check(l.len() == 1 && l[0].value == text, "the start of an element has other attributes");
            let q = qname(&ns, &l[0].name);
            check(q.prefix == "p" && q.uri == "u" && q.local == "k", "the start of an element has other attributes");
        }
        None => check(kind != 2, "the start of an element is not seen"),
    }
    observe(kind as u64);
    reach(1 + (kind >= 4) as u64);
}

/// Entry: ids made from numbers
#[no_mangle]
pub fn h_ids() {
    let m = "an id does not keep its index";
    let (i, j) = (u32() as usize, u32() as usize);
    macro_rules! id {
        ($t:ident) => {{
            let (a, b) = ($t::new(i), $t::new(j));
            check(a.get() == Some(i) && a.is_some() && !a.is_none(), m);
            check((a == b) == (i == j), "ids of different things are equal");
            let none = $t::none();
            check(none.get().is_none() && none.is_none() && !none.is_some() && none != a, "the empty id is mistaken");
            check(none.to_string() == "None", "an id is printed wrongly");
            let k = [0, 1, 9, 10, 99, 255, 256, 65535, 65536][choose(9)];
            check($t::new(k).to_string() == k.to_string(), "an id is printed wrongly");
            a
        }};
    }
    match choose(4) {
        0 => {
            id!(NSNameId);
        }
        1 => {
            id!(NSPrefixId);
        }
        2 => {
            id!(NSUriId);
        }
        _ => {
            let map = NSMap::new(NSPrefixId::new(i), NSUriId::new(j));
            check(map.prefix_id() == NSPrefixId::new(i) && map.uri_id() == NSUriId::new(j), "a mapping does not keep its ids");
            let k = [0, 1, 10][choose(3)];
            let map = NSMap::new(NSPrefixId::new(k), NSUriId::none());
            check(map.to_string() == format!("{k} => None"), "a mapping is printed wrongly");
        }
    }
    reach(4);
}

/// Entry: parameters are family, size, family option, flags
///
/// The tokens that the reader has asked for when it delivers an event
#[no_mangle]
pub fn h_demand() {
    let text = family(param(0), param(1) as usize, param(2));
    let src = Src::new(&text, false);
    // the start of each item, and the first after it that is neither
    // whitespace nor an attribute
    let mut start = vec![];
    let mut plain = vec![];
    let mut space = vec![];
    let mut i = 0;
    while i < src.c.len() {
        match src.item(i) {
            Ok((item, end)) => {
                start.push(src.o[i]);
                space.push(matches!(item, Item::Space));
                plain.push(!matches!(item, Item::Space | Item::Attr { .. }));
                i = end;
            }
            Err(_) => break,
        }
    }
    let count = start.len();
    let mut n = Namespace::new(param(3) & 1 != 0);
    let mut ns = NamespaceStack::new(&mut n);
    let l = LexerOfStr::<P, _, HmlError<P>>::new(&text);
    let fns = parse_fns();
    let mut it = l.iter(&fns);
    let mut parser: Parser<P> = Parser::default();
    let mut asked = 0;
    let mut ended = false;
    for _ in 0..real::MAX_EVENTS {
        let r = guard(|| {
            parser.next_event(&mut ns, || {
                check(!ended, "the reader asks for more than the text has");
                asked += 1;
                let t = it.next();
                ended = t.is_none();
                t
            })
        });
        let Some(Ok(e)) = r else {
            break;
        };
        check(asked <= count + 1, "the reader asks for more than the text has");
        let at = real::span(e.borrow_span()).0.byte;
        // the item that brought the event about
        let own = (0..count).find(|j| start[*j] == at && !space[*j]);
        observe(asked as u64);
        match (&e, own) {
            (Event::EndDocument { .. }, _) => {
                reach(3);
                break;
            }
            (Event::StartDocument { .. }, _) => check(asked <= 1, "the start of the document waits for the text"),
            (Event::StartElement { .. }, Some(j)) => {
                reach(1);
                let next = (j + 1..count).find(|k| plain[*k]).unwrap_or(count);
                check(asked <= next + 1, "the start of an element waits for more than the next item");
            }
            (_, Some(j)) => {
                reach(2);
                check(asked <= j + 1, "an event waits for a later item");
            }
            // brought about by the end of the text
            (_, None) => (),
        }
    }
}
