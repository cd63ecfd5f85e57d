//! Properties of escaping and entities
use crate::gen::*;
use crate::sym::*;
use hml_rs::escape::*;

/// Surroundings for free text in entity replacement
const ENTITIES: &[(&str, &str)] = &[
    ("&", ";"),
    ("&", ";&amp;"),
    ("&#", ";"),
    ("&#x", ";"),
    ("&#x1", ";"),
    ("&#x10FF", ";"),
    ("&#x1100", ";"),
    ("&#xD7", ";"),
    ("&#xdb", "f;"),
    ("&#1114", ";"),
    ("&#5529", ";"),
    ("&#42949672", ";"),
    ("&#x1000000", ";"),
    ("&#xffffff", ";"),
    ("&#xabcdefa", "41;"),
    ("&#0000000000000000", ";"),
    ("&#x00000000000000", ";"),
    ("a&am", "b"),
    ("&a", "mp;"),
    ("&l", ";gt;"),
    ("&A", "P;&lt;"),
    ("&quo", ";&apos;"),
    ("&APO", "&QUOT;"),
    ("&lt;&g", ";x&#65;"),
    ("\u{e9}&", ";\u{20ac}"),
    ("&blob;", "&LT;"),
    ("&#6", "5;"),
    ("&#x4", "1;y"),
    ("&GT&", "gt;"),
    ("&amp;", "#65;"),
];
fn reference(c: char, sel: usize) -> Option<&'static str> {
    match c {
        '&' => Some("&amp;"),
        '<' => Some("&lt;"),
        '\'' if sel & 1 != 0 => Some("&apos;"),
        '"' if sel & 2 != 0 => Some("&quot;"),
        '>' if sel & 4 != 0 => Some("&gt;"),
        '\n' if sel & 8 != 0 => Some("&#xA;"),
        '\r' if sel & 16 != 0 => Some("&#xD;"),
        _ => None,
    }
}

/// The characters selected, one bit each, and the option that selects them
fn options() -> (usize, usize) {
    match choose(3) {
        0 => (31, ESCAPE_ATTR),
        1 => (0, ESCAPE_PCDATA),
        _ => {
            let o = u8() as usize;
            assume(o < 32);
            let mut opts = 0;
            for (k, x) in [ESCAPE_APOS, ESCAPE_QUOTE, ESCAPE_GT, ESCAPE_LF, ESCAPE_CR].into_iter().enumerate() {
                opts |= ((o >> k) & 1) * x;
            }
            (o, opts)
        }
    }
}

fn push(v: &mut Vec<u8>, s: &str, i: usize, n: usize) {
    v.extend_from_slice(&s.as_bytes()[i..i + n]);
}

fn valid(r: &Option<String>) {
    if let Some(r) = r {
        check(std::str::from_utf8(r.as_bytes()).is_ok(), "the result is not valid Unicode text");
    }
}

/// Entry: parameters are family, number of free characters
#[no_mangle]
pub fn h_escape() {
    let s = text(param(0), param(1) as usize, ENTITIES);
    let (sel, opts) = options();
    let r = escape(&s, opts);
    let mut want: Vec<u8> = vec![];
    let mut any = false;
    for (i, c) in s.char_indices() {
        match reference(c, sel) {
            Some(e) => {
                want.extend_from_slice(e.as_bytes());
                any = true;
            }
            None => push(&mut want, &s, i, c.len_utf8()),
        }
    }
    observe(want.len() as u64);
    valid(&r);
    match &r {
        None => {
            reach(1);
            check(!any, "text that needs escaping is not escaped");
        }
        Some(r) => {
            reach(2);
            check(any, "text that needs no escaping is changed");
            check(r.as_bytes() == &want[..], "text is escaped wrongly");
        }
    }
    let all = escape_required(s.as_bytes(), opts, 0, s.len());
    valid(&all);
    match &all {
        None => fail("valid text cannot be escaped"),
        Some(r) => check(r.as_bytes() == &want[..], "text is escaped wrongly"),
    }
}

/// The character or text a reference body stands for
fn meaning(body: &[u8], named: bool) -> Option<u32> {
    if named {
        let c = match body {
            b"amp" | b"AMP" => '&',
            b"lt" | b"LT" => '<',
            b"gt" | b"GT" => '>',
            b"apos" | b"APOS" => '\'',
            b"quot" | b"QUOT" => '"',
            _ => '\0',
        };
        if c != '\0' {
            return Some(c as u32);
        }
    }
    if body.len() < 2 || body[0] != b'#' {
        return None;
    }
    let hex = body[1] == b'x';
    let digits = if hex { &body[2..] } else { &body[1..] };
    if digits.is_empty() {
        return None;
    }
    let mut v: u64 = 0;
    for d in digits {
        let x = if (*d >= b'0') & (*d <= b'9') {
            d - b'0'
        } else if hex & (*d >= b'a') & (*d <= b'f') {
            d - b'a' + 10
        } else if hex & (*d >= b'A') & (*d <= b'F') {
            d - b'A' + 10
        } else {
            return None;
        };
        v = v * if hex { 16 } else { 10 } + x as u64;
        if v > 0x10ffff {
            // only whether it is a number still matters
            v = 0x110000;
        }
    }
    if (v > 0x10ffff) | ((v >= 0xd800) & (v <= 0xdfff)) {
        None
    } else {
        Some(v as u32)
    }
}

fn replaced(s: &str, named: bool) -> (Vec<u8>, bool) {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut any = false;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'&' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'&' && b[j] != b';' {
                j += 1;
            }
            if j < b.len() && b[j] == b';' {
                if let Some(v) = meaning(&b[i + 1..j], named) {
                    let mut buf = [0; 4];
                    let c = unsafe { char::from_u32_unchecked(v) };
                    out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                    any = true;
                    i = j + 1;
                    continue;
                }
            }
        }
        out.push(b[i]);
        i += 1;
    }
    (out, any)
}

/// Entry: parameters are family, number of free characters
#[no_mangle]
pub fn h_entity() {
    let s = text(param(0), param(1) as usize, ENTITIES);
    let named = choose(2) == 1;
    let e = Entities::xml();
    let r = e.replace_entities(named, &s);
    valid(&r);
    let (want, any) = replaced(&s, named);
    observe(want.len() as u64);
    match &r {
        None => {
            reach(1);
            check(!any, "a well-formed reference is not replaced");
        }
        Some(r) => {
            reach(2);
            check(any, "something other than a well-formed reference is replaced");
            check(r.as_bytes() == &want[..], "references are replaced wrongly");
        }
    }
    // a set without named entities
    if named && !any {
        let none = Entities::default();
        check(none.replace_entities(true, &s).is_none(), "an empty set of entities replaces something");
    }
}

/// Entry: parameters are family, number of free characters
#[no_mangle]
pub fn h_round() {
    let s = text(param(0), param(1) as usize, ENTITIES);
    let (_, opts) = options();
    let escaped = escape(&s, opts);
    valid(&escaped);
    let t: &str = escaped.as_deref().unwrap_or(&s);
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        check(b[i] != b'<', "escaped text has a bare '<'");
        if b[i] == b'&' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b';' && b[j] != b'&' {
                j += 1;
            }
            check(j < b.len() && b[j] == b';', "escaped text has a bare '&'");
            check(meaning(&b[i + 1..j], true).is_some(), "escaped text has a bare '&'");
            reach(1);
        }
        i += 1;
    }
    let r = Entities::xml().replace_entities(true, t);
    valid(&r);
    observe(t.len() as u64);
    check(r.is_some() == escaped.is_some(), "replacement does not undo escaping");
    let back: &str = r.as_deref().unwrap_or(t);
    check(back == s, "replacement does not undo escaping");
    reach(2);
}
