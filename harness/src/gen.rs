//! Symbolic document texts, by family
use crate::sym::*;

pub struct Text(pub Vec<u8>);
impl Text {
    pub fn new() -> Text {
        Text(Vec::with_capacity(64))
    }
    pub fn s(&mut self, x: &str) {
        self.0.extend_from_slice(x.as_bytes());
    }
    pub fn b(&mut self, x: u8) {
        self.0.push(x);
    }
    pub fn rep(&mut self, x: u8, n: usize) {
        for _ in 0..n {
            self.0.push(x);
        }
    }
    pub fn ascii(&mut self, n: usize) {
        for _ in 0..n {
            let x = u8();
            assume(x < 0x80);
            self.0.push(x);
        }
    }
    /// `n` characters of one class: lower case, upper case, letters of two
    /// bytes, digits after a letter, or printable other than quotes
    pub fn word(&mut self, n: usize, class: usize) {
        for i in 0..n {
            let x = u8();
            match class {
                0 => assume(x.is_ascii_lowercase()),
                1 => assume(x.is_ascii_uppercase()),
                2 => {
                    assume((x >= 0xd0) & (x <= 0xd1));
                    self.b(x);
                    let y = u8();
                    assume((y >= 0x80) & (y <= 0xbf));
                    self.b(y);
                    continue;
                }
                3 if i == 0 => assume(x == b'n'),
                3 => assume(x.is_ascii_digit()),
                _ => assume((x >= 0x28) & (x <= 0x7e)),
            }
            self.b(x);
        }
    }
    /// `n` characters, each of any UTF-8 length
    pub fn uni(&mut self, n: usize) {
        for _ in 0..n {
            self.uni_len(1 + choose(4));
        }
    }
    /// Any character of the given UTF-8 length
    pub fn uni_len(&mut self, len: usize) {
        let a = u8();
        let t = |x: u8| (x >= 0x80) & (x <= 0xbf);
        match len {
            1 => {
                assume(a < 0x80);
                self.b(a);
            }
            2 => {
                let b = u8();
                assume((a >= 0xc2) & (a <= 0xdf) & t(b));
                self.b(a);
                self.b(b);
            }
            3 => {
                let (b, c) = (u8(), u8());
                let ok = (a >= 0xe0) & (a <= 0xef) & t(b) & t(c);
                let lo = (a != 0xe0) | (b >= 0xa0);
                let sur = (a != 0xed) | (b <= 0x9f);
                assume(ok & lo & sur);
                self.b(a);
                self.b(b);
                self.b(c);
            }
            _ => {
                let (b, c, d) = (u8(), u8(), u8());
                let ok = (a >= 0xf0) & (a <= 0xf4) & t(b) & t(c) & t(d);
                let lo = (a != 0xf0) | (b >= 0x90);
                let hi = (a != 0xf4) | (b <= 0x8f);
                assume(ok & lo & hi);
                self.b(a);
                self.b(b);
                self.b(c);
                self.b(d);
            }
        }
    }
    pub fn string(self) -> String {
        // every byte was placed as part of a whole character
        unsafe { String::from_utf8_unchecked(self.0) }
    }
}

/// Surroundings for free text: what comes before and after it
pub const CONTEXTS: &[(&str, &str)] = &[
    ("#a ", ""),
    ("#a 'x' ", ""),
    ("#a{ ", " #a}"),
    ("#a{ #b ", " #a}"),
    ("#a ##b ", ""),
    ("#a ##b{ #c ", " ##b} ##d "),
    ("#a{ #b{ ##c{ ", " ##c} #b} #a}"),
    ("#a{ #b{ #b} ", " #a}"),
    ("#a x='", "' y=2"),
    ("#a x=\"", "\" 'z'"),
    ("#a x=", " y=2"),
    ("#a x", "='1' 'z'"),
    ("#", " 'x'"),
    ("#a ##", " 'x'"),
    ("#a \"", "\" 'z'"),
    ("#a '", "'"),
    ("#a #\"", "\"# 'z'"),
    ("#a ##\"", "\"## 'z'"),
    ("#a r#'", "'# 'z'"),
    ("#a r\"", "\" 'z'"),
    ("#a ###'\"", "'### 'z' "),
    ("#a ;", "\n##b "),
    ("#a ;x\n", "##b "),
    ("#a ; x\n;", "\n 'z'"),
    ("#a ;x\n  ;", ";y\n;z"),
    (";", ""),
    ("#a{ #b", " #a}"),
    ("#a{ #a", " #a}"),
    ("#a{ 'x' #", "} "),
    ("##", "#a 'x'"),
    ("#a{ #a} ", " "),
    ("#a ##b ###c 'x' ", " 'y'"),
    ("#a ##b ###c ", "d 'y'"),
    ("#a xmlns:p='u' ", " 'x'"),
    ("#a xmlns:p='u' ##", "b 'x'"),
    ("#p:a xmlns:p='u' ##b xmlns:p='v' ###p:c ", "p:d "),
    ("#a xmlns='u' ##b ", " #c "),
    ("#a 'x'", "'y'"),
    ("#a x=1 ", "y=2 'z'"),
    ("#\u{e9} x='\u{fc}' \n '\u{20ac}' ", " 'z'"),
    ("#a #'\u{1f600}\n", "'# ##b 'x'"),
    ("#a ;\u{e9}\n \t;", " \u{e9}\n \n ;y"),
];

/// The contexts inside or next to strings
const STRINGS: &[usize] = &[1, 14, 15, 16, 17, 18, 19, 20, 37, 40];
/// The contexts inside or next to attributes
const ATTRIBUTES: &[usize] = &[0, 8, 9, 10, 11, 38];
/// The contexts inside or next to comments
const COMMENTS: &[usize] = &[21, 22, 23, 24, 25, 41];
/// The contexts with namespace declarations
const SCOPES: &[usize] = &[33, 34, 35, 36];
/// The contexts inside names
const NAMES: &[usize] = &[11, 12, 13, 26, 27, 28];

/// The text of a family
///
/// `size` is the number of free characters or items; `opt` is for the family
pub fn family(fam: u64, size: usize, opt: u64) -> String {
    let mut t = Text::new();
    match fam {
        0 => t.ascii(size),
        1 => t.uni(size),
        2 | 3 => {
            let c = match opt {
                0 => choose(CONTEXTS.len() as u64),
                101 => STRINGS[choose(STRINGS.len() as u64)],
                102 => ATTRIBUTES[choose(ATTRIBUTES.len() as u64)],
                103 => COMMENTS[choose(COMMENTS.len() as u64)],
                104 => SCOPES[choose(SCOPES.len() as u64)],
                105 => NAMES[choose(NAMES.len() as u64)],
                _ => opt as usize - 1,
            };
            t.s(CONTEXTS[c].0);
            if fam == 2 {
                t.ascii(size)
            } else {
                t.uni(size)
            }
            t.s(CONTEXTS[c].1);
        }
        4 => items(&mut t, size, opt),
        5 => chain(&mut t, size),
        6 => long(&mut t, size, opt),
        7 => many(&mut t, size, opt),
        8 => boxes(&mut t, size),
        9 => names(&mut t, size),
        10 => scopes(&mut t, size, opt),
        11 => words(&mut t, size, opt),
        _ => fail("unknown family"),
    }
    t.string()
}

pub const ITEM_CONTENT: u64 = 1;
pub const ITEM_COMMENT: u64 = 2;
pub const ITEM_ATTR: u64 = 4;
pub const ITEM_BOX: u64 = 8;
pub const ITEM_ERRORS: u64 = 16;
pub const ITEM_NEWLINES: u64 = 32;
pub const ITEM_PREFIX: u64 = 64;

/// Up to `size` items in any order; nothing follows the first structural mistake
fn items(t: &mut Text, size: usize, opt: u64) {
    // name and depth of the open boxes, and the depth outside each
    let mut boxes: Vec<(u8, usize)> = vec![];
    // depth of the innermost element; the number of open elements
    let mut depth = 0;
    let mut outer: Vec<usize> = vec![];
    let mut any = 0;
    let mut attr_ok = false;
    let errors = opt & ITEM_ERRORS != 0;
    for _ in 0..size {
        // the alternatives: stop, open 1..=depth+1 (+1 if errors), boxed or not,
        // close, content, comment, attribute
        let opens = depth + 1 + errors as usize;
        let boxed = opt & ITEM_BOX != 0;
        let o = if boxed { 2 * opens } else { opens };
        let close = boxed && (errors || !boxes.is_empty());
        let content = opt & ITEM_CONTENT != 0 && (errors || any > 0);
        let comment = opt & ITEM_COMMENT != 0;
        let attr = opt & ITEM_ATTR != 0 && (errors || attr_ok);
        let total = 1 + o + close as usize + 2 * content as usize + comment as usize + attr as usize;
        let mut c = choose(total as u64);
        if c == 0 {
            return;
        }
        c -= 1;
        if c < o {
            let b = c >= opens;
            let d = c % opens + 1;
            t.rep(b'#', d);
            let name = if b { one_of(b"ab") } else { b'n' };
            if opt & ITEM_PREFIX != 0 && choose(2) == 1 {
                t.s("p:");
            }
            t.b(name);
            if b {
                t.b(b'{');
            }
            sep(t, opt);
            if d > depth + 1 {
                return;
            }
            while d <= depth {
                depth -= 1;
                any -= 1;
            }
            any += 1;
            if b {
                boxes.push((name, d));
                outer.push(depth);
                depth = 0;
            } else {
                depth = d;
            }
            attr_ok = true;
            continue;
        }
        c -= o;
        if close {
            if c == 0 {
                let name = one_of(b"ab");
                let d = if errors {
                    1 + choose(3)
                } else {
                    boxes.last().unwrap().1
                };
                t.rep(b'#', d);
                t.b(name);
                t.b(b'}');
                sep(t, opt);
                match boxes.pop() {
                    Some((n, bd)) if n == name && bd == d => {
                        any -= depth + 1;
                        depth = outer.pop().unwrap();
                    }
                    _ => return,
                }
                attr_ok = false;
                continue;
            }
            c -= 1;
        }
        if content {
            if c < 2 {
                if c == 1 {
                    t.b(b'r');
                }
                t.b(b'\'');
                t.b(one_of(b"pq"));
                t.b(b'\'');
                sep(t, opt);
                if any == 0 {
                    return;
                }
                attr_ok = false;
                continue;
            }
            c -= 2;
        }
        if comment {
            if c == 0 {
                t.b(b';');
                t.b(one_of(b"st"));
                t.b(b'\n');
                attr_ok = false;
                continue;
            }
        }
        if opt & ITEM_PREFIX != 0 && choose(2) == 1 {
            t.s("p:");
        }
        t.b(one_of(b"xy"));
        t.b(b'=');
        t.b(one_of(b"vw"));
        sep(t, opt);
        if !attr_ok {
            return;
        }
    }
}
fn sep(t: &mut Text, opt: u64) {
    if opt & ITEM_NEWLINES != 0 {
        t.b(one_of(b" \n"));
    } else {
        t.b(b' ');
    }
}

/// A chain of nested elements, one of them perhaps boxed, then a tag of any
/// depth, content, and closing tags
fn chain(t: &mut Text, size: usize) {
    let n = 1 + choose(size as u64);
    let bx = choose(n as u64 + 1);
    let mut d = 0;
    for i in 0..n {
        d += 1;
        t.rep(b'#', d);
        t.b(b'a' + (i % 26) as u8);
        if i == bx {
            t.s("{ ");
            d = 0;
        } else {
            t.b(b' ');
        }
    }
    t.s("'x' ");
    let e = 1 + choose(d as u64 + 2);
    t.rep(b'#', e);
    t.s("z 'y' ");
    if bx < n {
        t.rep(b'#', bx + 1);
        t.b(b'a' + (bx % 26) as u8);
        t.s("} ");
        let e = 1 + choose(bx as u64 + 2);
        t.rep(b'#', e);
        t.s("w 'v'");
    }
}

/// Nested elements each boxed or not, then some closing tags, then a tag of
/// any depth
fn boxes(t: &mut Text, size: usize) {
    let n = 1 + choose(size as u64);
    let mut open: Vec<(usize, u8)> = vec![];
    let mut depths = vec![];
    let mut d = 0;
    for i in 0..n {
        t.rep(b'#', d + 1);
        t.b(b'a' + i as u8);
        if choose(2) == 1 {
            t.s("{ ");
            open.push((d + 1, b'a' + i as u8));
            depths.push(d);
            d = 0;
        } else {
            t.b(b' ');
            d += 1;
        }
    }
    let k = choose(open.len() as u64 + 1);
    for _ in 0..k {
        let (e, name) = open.pop().unwrap();
        t.rep(b'#', e);
        t.b(name);
        t.s("} ");
        d = depths.pop().unwrap();
    }
    let e = 1 + choose(d as u64 + 2);
    t.rep(b'#', e);
    t.s("z 'y' ");
    while let Some((e, name)) = open.pop() {
        t.rep(b'#', e);
        t.b(name);
        t.s("} ");
    }
}

pub const LENGTHS: &[usize] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 36, 38, 39, 40, 41, 46, 47,
    48, 49, 50, 51, 60, 61, 62, 63, 64, 65, 72, 77, 78, 79, 80, 81, 96, 99, 100, 101, 119, 120, 121, 124, 125, 126, 127, 128, 129, 160, 191, 192, 199, 200,
    201, 250, 252, 253, 254, 255, 256, 257, 258, 260,
];

/// Around sizes that buffers have, and around 2^16
const BUFFERS: &[usize] = &[1000, 1018, 1024, 2048, 4090, 4095, 4096, 4097, 8186, 8191, 8192, 8193];
const WORDS: &[usize] = &[65534, 65535, 65536, 65537];

fn length(size: usize) -> usize {
    let lengths = if size >= 2000 {
        WORDS
    } else if size >= 1000 {
        BUFFERS
    } else {
        LENGTHS
    };
    lengths[choose(size.min(lengths.len()) as u64)]
}

/// One long piece with free characters after it
///
/// The option is a kind or, from 100, the kind with a free Unicode character; 99
/// is any of the mistakes that name something
fn long(t: &mut Text, size: usize, opt: u64) {
    let uni = opt >= 100;
    let kind = match opt % 100 {
        0 => choose(8),
        99 => 8 + choose(10),
        k => k as usize - 1,
    };
    let l = length(size);
    let free = |t: &mut Text| if uni { t.uni(1) } else { t.ascii(2) };
    match kind {
        0 => {
            let h = choose(4);
            t.s("#a ");
            if choose(2) == 1 {
                t.b(b'r');
            }
            t.rep(b'#', h);
            t.b(b'"');
            t.rep(b'f', l);
            free(t);
            t.b(b'"');
            t.rep(b'#', h);
            t.s(" 'z'");
        }
        1 => {
            t.s("#a ;");
            t.rep(b'f', l);
            free(t);
            t.s("\n ;g\n");
            t.rep(b' ', l);
            t.s("; h\n ##b ");
        }
        2 => {
            t.s("#a x=");
            let q = [&b""[..], b"'", b"\""][choose(3)];
            t.0.extend_from_slice(q);
            t.rep(b'f', l);
            free(t);
            t.0.extend_from_slice(q);
            t.s(" y=2 'z'");
        }
        3 => {
            t.s("#");
            t.rep(b'f', l);
            free(t);
            t.s(" 'z' ##");
            t.rep(b'f', l);
            t.s("g");
        }
        4 => {
            t.s("#a ");
            t.rep(b'f', l);
            free(t);
            t.s("=1 ");
            t.rep(b'f', l);
            t.s("g=2 'z'");
        }
        5 => {
            t.s("#a");
            let ws = one_of(b" \n\t");
            t.rep(ws, l);
            t.ascii(1);
            t.s("x=1 'z'");
        }
        6 => {
            // a run of hashes
            t.s("#a ");
            t.rep(b'#', l);
            free(t);
            t.s("'\"");
            t.rep(b'#', l);
            t.s(" 'z'");
        }
        7 => {
            // near misses of the closing hashes
            t.s("#a ");
            t.rep(b'#', l);
            t.s("\"x\"");
            t.rep(b'#', l - 1);
            t.ascii(1);
            t.s("y\"");
            t.rep(b'#', l);
            t.s(" 'z'");
        }
        // tags of any depth
        8 => {
            t.rep(b'#', l);
            t.s("a 'z'");
        }
        9 => {
            t.s("#a ");
            t.rep(b'#', l);
            t.s("b 'z'");
        }
        10 => {
            t.s("#a{ ");
            t.rep(b'#', l);
            t.s("b ");
            t.rep(b'#', l);
            t.s("a} ");
        }
        // long names in mistakes
        11 => {
            t.s("#a 'z' ");
            t.rep(b'f', l);
            free(t);
            t.s("=1");
        }
        12 => {
            t.s("#");
            t.rep(b'f', l);
            free(t);
            t.s(":b x=1");
        }
        13 => {
            t.s("#a ");
            t.rep(b'f', l);
            free(t);
            t.s(":b=1");
        }
        14 => {
            t.s("#a{ #");
            t.rep(b'f', l);
            free(t);
            t.s("}");
        }
        15 => {
            t.s("#a ###");
            t.rep(b'f', l);
            free(t);
            t.s(" 'z'");
        }
        16 => {
            t.s("'");
            t.rep(b'f', l);
            free(t);
            t.s("'");
        }
        _ => {
            t.s("#a '");
            t.rep(b'f', l);
            free(t);
            t.s("\n");
        }
    }
}

const NUMBERS: &[usize] = &[64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 260];

/// Many of one kind of item
fn many(t: &mut Text, size: usize, opt: u64) {
    let kind = if opt > 0 { opt as usize - 1 } else { choose(9) };
    // from 1000, large numbers only
    let m = match (size >= 1000, kind) {
        (false, _) => 1 + choose(size as u64),
        (_, 7) => NUMBERS[choose(5)],
        _ => NUMBERS[choose(NUMBERS.len() as u64)],
    };
    let num = |t: &mut Text, i: usize| {
        t.b(b'a' + (i / 26 % 26) as u8);
        t.b(b'a' + (i % 26) as u8);
    };
    match kind {
        0 => {
            t.s("#a ");
            for i in 0..m {
                num(t, i);
                t.b(b'=');
                t.b(one_of(b"vw"));
                t.b(b' ');
            }
            t.s("'z'");
        }
        1 => {
            t.s("#a ");
            for i in 0..m {
                t.s("##");
                num(t, i);
                t.b(b' ');
            }
            t.ascii(1);
            t.s("'z'");
        }
        2 => {
            t.s("#a ");
            for i in 0..m {
                t.rep(b' ', i % 3);
                t.b(b';');
                num(t, i);
                t.rep(b'x', if size >= 1000 { i % 8 } else { i });
                t.b(b'\n');
            }
            t.ascii(1);
            t.s("\n'z'");
        }
        3 => {
            t.s("#a ");
            for i in 0..m {
                t.b(b'\'');
                num(t, i);
                t.b(b'\'');
            }
            t.ascii(1);
            t.s("'z'");
        }
        4 => {
            for i in 0..m {
                t.s("#");
                num(t, i);
                t.s("{ ");
            }
            t.ascii(1);
            t.s("'z' ");
            for i in (0..m).rev() {
                t.s("#");
                num(t, i);
                t.s("} ");
            }
        }
        5 => {
            t.s("#r{ ");
            for i in 0..m {
                t.s("#e x=");
                num(t, i);
                t.s(" ##f 'c' ");
            }
            t.ascii(1);
            t.s("#r}");
        }
        6 => {
            // the same box again and again
            t.s("#r ");
            for _ in 0..m {
                t.s("##b{ #c ##d ##b} ");
            }
            t.ascii(1);
            t.s("##e 'z'");
        }
        7 => {
            // elements inside elements
            for i in 0..m {
                t.rep(b'#', i + 1);
                num(t, i);
                t.b(b' ');
            }
            t.ascii(1);
            t.rep(b'#', m);
            t.s("z 'z'");
        }
        _ => {
            // repeated attribute names and values
            t.s("#a ");
            for _ in 0..m {
                t.s("x=");
                t.b(one_of(b"vw"));
                t.s(" ");
            }
            t.s("##b x=1 'z'");
        }
    }
}

/// One name with `size` free characters in each place a name can have
fn names(t: &mut Text, size: usize) {
    let mut u = Text::new();
    let kind = choose(10);
    u.uni(size);
    let u = u.0;
    let put = |t: &mut Text| t.0.extend_from_slice(&u);
    match kind {
        0 => {
            t.s("#");
            put(t);
            t.s(" 'x'");
        }
        1 => {
            t.s("#a");
            put(t);
            t.s("b 'x'");
        }
        2 => {
            t.s("#a ");
            put(t);
            t.s("=1 'x'");
        }
        3 => {
            t.s("#a x");
            put(t);
            t.s("=1 'x'");
        }
        4 => {
            t.s("#a xmlns:");
            put(t);
            t.s("='u' ##");
            put(t);
            t.s(":b 'x'");
        }
        5 => {
            t.s("#a xmlns:x");
            put(t);
            t.s("='u' x");
            put(t);
            t.s(":y=1");
        }
        6 => {
            t.s("#");
            put(t);
            t.s("{ 'x' #");
            put(t);
            t.s("}");
        }
        7 => {
            t.s("#a xmlns:p=u ##p:");
            put(t);
            t.s(" p:");
            put(t);
            t.s("=1");
        }
        8 => {
            t.s("#a xmlns:p=u ##p:b");
            put(t);
            t.s("c p:d");
            put(t);
            t.s("=1");
        }
        _ => {
            t.s("#a");
            put(t);
            t.s("{ 'x' #a");
            put(t);
            t.s("}");
        }
    }
}

/// Nested and sibling elements that declare and use prefixes
///
/// The option adds 1 for a third prefix, 2 for more orders of the attributes, 4
/// for empty values, 8 for names that look like declarations but are none, 16
/// for boxes, 32 for the prefix that is always declared
fn scopes(t: &mut Text, size: usize, opt: u64) {
    let n = 1 + choose(size as u64);
    let mut d = 0;
    let mut boxes: Vec<(usize, String)> = vec![];
    let close = |t: &mut Text, boxes: &mut Vec<(usize, String)>| {
        let (d, name) = boxes.pop().unwrap();
        t.rep(b'#', d);
        t.s(&name);
        t.s("} ");
        d - 1
    };
    let prefixes: &[&str] = match opt & 41 {
        0 => &["", "p"],
        1 => &["", "p", "q"],
        8 => &["", "xmlns2"],
        9 => &["", "xmlns2", "XMLNS"],
        32 => &["", "xml"],
        _ => &["", "xml", "p"],
    };
    let (x, px) = match opt & 40 {
        0 => ("x=1 ", "p:x=1 "),
        8 => ("xmlns2=1 ", "xmlns2:x=1 "),
        _ => ("xml=1 ", "xml:x=1 "),
    };
    let np = prefixes.len() as u64;
    for i in 0..n {
        if !boxes.is_empty() && choose(2) == 1 {
            d = close(t, &mut boxes);
        }
        d = 1 + choose((d as u64 + 1).min(3));
        t.rep(b'#', d);
        let p = prefixes[choose(np)];
        let mut name = String::from(p);
        if !p.is_empty() {
            name.push(':');
        }
        name.push((b'a' + i as u8) as char);
        t.s(&name);
        if opt & 16 != 0 && choose(2) == 1 {
            t.b(b'{');
            boxes.push((d, name));
            d = 0;
        }
        t.b(b' ');
        // an attribute that uses a prefix, before or after a declaration
        let order = choose(if opt & 2 != 0 { 6 } else { 2 });
        if order == 2 {
            t.s(px);
        }
        if order == 4 {
            t.s(x);
        }
        let k = choose(np + 1);
        if k > 0 {
            t.s("xmlns");
            let p = prefixes[k - 1];
            if !p.is_empty() {
                t.b(b':');
                t.s(p);
            }
            t.b(b'=');
            if opt & 4 != 0 && choose(2) == 1 {
                t.s("''");
            } else {
                t.b(one_of(b"uv"));
            }
            t.b(b' ');
        }
        if order == 1 {
            t.s(px);
        }
        if order == 5 {
            t.s(x);
        }
        if order == 3 {
            t.s("y=1 xmlns:r=w r:z=2 ");
        }
    }
    while !boxes.is_empty() {
        close(t, &mut boxes);
    }
}

/// A word of up to `size` free characters of one class in each place a word
/// can have; the option is a kind or, with 100 more, without punctuation
fn words(t: &mut Text, size: usize, opt: u64) {
    let kind = if opt % 100 > 0 { opt as usize % 100 - 1 } else { choose(12) };
    let class = choose(if opt < 100 && (2..=4).contains(&kind) { 5 } else { 4 });
    let mut w = Text::new();
    let l = 1 + choose(size as u64);
    w.word(l, class);
    let w = w.string();
    match kind {
        0 => t.s(&format!("#{w} x=1 'y' ##{w}{{ 'z' ##{w}}}")),
        1 => t.s(&format!("#a {w}=1 {w}b=2 'y'")),
        2 => t.s(&format!("#a x={w} y='{w}' z=\"{w}\" 'z'")),
        3 => t.s(&format!("#a '{w}' r\"{w}\" #'{w}'#")),
        4 => t.s(&format!("#a ;{w}\n ; {w}\n 'x' ;{w}")),
        5 => t.s(&format!("#a xmlns:{w}='u' ##{w}:b {w}:c=1 'x'")),
        6 => t.s(&format!("#p:a xmlns:p='{w}' ##p:b xmlns='{w}' 'x'")),
        7 => t.s(&format!("#a ##{w}:a 'x'")),
        8 => t.s(&format!("#a xmlns:p=u ##p:{w}{{ p:{w}=1 ##p:{w}}}")),
        9 => t.s(&format!("#a {w}:{w}=1 'x'")),
        10 => {
            // a closing tag of the same length
            t.s(&format!("#a{{ ##{w}{{ 'x' ##"));
            t.word(l, class);
            t.s("} #a}");
        }
        _ => {
            // whole items, with other items around them
            t.s("#a ;c\n ##b x=1 ");
            t.s(&w);
            t.ascii(1);
            t.s("1 'x'");
        }
    }
}

/// The text: family 0 free ASCII, 1 free characters, 2 and 3 free ASCII or
/// characters in surroundings, 4 a long start and free ASCII, 5 up to `n`
/// letters or digits in a reference or escape or on their own
pub fn text(fam: u64, n: usize, around: &[(&str, &str)]) -> String {
    let mut t = Text::new();
    match fam {
        0 => t.ascii(n),
        1 => t.uni(n),
        2 | 3 => {
            let (a, b) = around[choose(around.len() as u64)];
            t.s(a);
            if fam == 2 {
                t.ascii(n)
            } else {
                t.uni(n)
            }
            t.s(b);
        }
        5 => {
            let (a, b) = [("&", ";"), ("&#", ";"), ("&#x", ";"), ("x&#x0", ";&"), ("\\u{", "}"), ("\\u{0", "}\\x41"), ("", "")][choose(7)];
            let (lo, hi) = [(b'0', b'9'), (b'a', b'f'), (b'A', b'F'), (b'g', b'z'), (b'G', b'Z')][choose(5)];
            t.s(a);
            for _ in 0..1 + choose(n as u64) {
                let x = u8();
                assume((x >= lo) & (x <= hi));
                t.b(x);
            }
            t.s(b);
        }
        _ => {
            let l = LENGTHS[choose(LENGTHS.len() as u64)];
            let c = one_of(b"a&<\n");
            t.b(c);
            t.rep(b'f', l);
            t.ascii(n);
            t.rep(b'g', l);
            t.b(c);
        }
    }
    t.string()
}
