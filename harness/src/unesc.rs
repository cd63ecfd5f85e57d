//! Properties of escapes in strings
use crate::gen::*;
use crate::sym::*;
use hml_rs::hml::verif::{Error, Escapable};

/// Surroundings for free text in string escapes
const ESCAPES: &[(&str, &str)] = &[
    ("\\", ""),
    ("\\", "\\n"),
    ("\\x", ""),
    ("\\x", "1\\t"),
    ("\\x7", "z"),
    ("\\u", ""),
    ("\\u{", "}"),
    ("\\u{", ""),
    ("\\u{1", "}\u{e9}"),
    ("\\u{10ff", "}"),
    ("\\u{0000", "}a"),
    ("\\u{d8", "}"),
    ("\\u{d7f", "}\\\\"),
    ("\\u{11000", "}"),
    ("\\u{41}", "\\x42"),
    ("\u{20ac}\\n", "\u{1f600}"),
    ("a\\\\", "b"),
    ("\\\"", "\\'"),
    ("plain ", " text"),
    ("\\0\\r", "\\t"),
    ("\\u{20ac}\\u{", "}\\u{e9}"),
    ("\\x41\\x", "\\x43"),
];

/// A mistake in an escape
enum Bad {
    /// no such escape
    Letter,
    /// a hexadecimal escape above 7F
    Hex,
    /// a braced escape that denotes no character
    Unicode,
    /// anything else
    Form,
}

/// The text with its escapes replaced, or its first mistake
fn expanded(s: &str) -> Result<Vec<u8>, Bad> {
    let b = s.as_bytes();
    let hex = |d: u8| -> Result<u32, Bad> {
        if (d >= b'0') & (d <= b'9') {
            Ok((d - b'0') as u32)
        } else if (d >= b'a') & (d <= b'f') {
            Ok((d - b'a' + 10) as u32)
        } else if (d >= b'A') & (d <= b'F') {
            Ok((d - b'A' + 10) as u32)
        } else {
            Err(Bad::Form)
        }
    };
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            out.push(b[i]);
            i += 1;
            continue;
        }
        i += 1;
        if i >= b.len() {
            return Err(Bad::Form);
        }
        let k = b[i];
        i += 1;
        match k {
            b'0' => out.push(0),
            b't' => out.push(9),
            b'n' => out.push(10),
            b'r' => out.push(13),
            b'"' => out.push(34),
            b'\'' => out.push(39),
            b'\\' => out.push(92),
            b'x' => {
                if i + 2 > b.len() {
                    return Err(Bad::Form);
                }
                let v = hex(b[i])? * 16 + hex(b[i + 1])?;
                if v > 0x7f {
                    return Err(Bad::Hex);
                }
                out.push(v as u8);
                i += 2;
            }
            b'u' => {
                if i >= b.len() || b[i] != b'{' {
                    return Err(Bad::Form);
                }
                i += 1;
                let mut v = 0;
                let mut n = 0;
                loop {
                    if i >= b.len() {
                        return Err(Bad::Form);
                    }
                    if b[i] == b'}' {
                        i += 1;
                        break;
                    }
                    if n == 6 {
                        return Err(Bad::Form);
                    }
                    v = v * 16 + hex(b[i])?;
                    n += 1;
                    i += 1;
                }
                if n == 0 {
                    return Err(Bad::Form);
                }
                if v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff) {
                    return Err(Bad::Unicode);
                }
                let mut buf = [0; 4];
                let c = unsafe { char::from_u32_unchecked(v) };
                out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
            }
            _ => return Err(Bad::Letter),
        }
    }
    Ok(out)
}

/// Checks what becomes of a text
fn judge(s: &str) {
    let r = Escapable::new(s);
    match (&r, &expanded(s)) {
        (Ok(r), Ok(w)) => {
            reach(1);
            let t: &str = r.as_ref();
            observe(t.len() as u64);
            check(std::str::from_utf8(t.as_bytes()).is_ok(), "the result is not valid Unicode text");
            check(t.as_bytes() == &w[..], "an escape is expanded wrongly");
        }
        (Err(e), Err(b)) => {
            reach(2);
            let told = match b {
                Bad::Letter => matches!(e, Error::BadEscape(_)),
                Bad::Hex => matches!(e, Error::BadHexEscape(_)),
                Bad::Unicode => matches!(e, Error::BadUnicode(_)),
                Bad::Form => !matches!(e, Error::BadEscape(_)),
            };
            check(told, "the error is not about the mistake");
        }
        (Ok(_), Err(_)) => fail("a malformed escape is accepted"),
        (Err(_), Ok(_)) => fail("a well-formed text is refused"),
    }
}

/// Entry: parameters are family, number of free characters
#[no_mangle]
pub fn h_unescape() {
    judge(&text(param(0), param(1) as usize, ESCAPES));
}

/// Entry: parameter is the number of pieces
///
/// Texts of several escapes and characters
#[no_mangle]
pub fn h_escapes() {
    let mut t = Text::new();
    for _ in 0..param(0) {
        match choose(4) {
            0 => t.uni(1),
            1 => {
                t.s("\\");
                t.ascii(1);
            }
            2 => {
                t.s("\\x");
                t.b(b"0147"[choose(4)]);
                t.ascii(1);
            }
            _ => {
                t.s(["\\u{", "\\u{4", "\\u{20a", "\\u{1f60", "\\u{d7f", "\\u{10fff"][choose(6)]);
                t.ascii(1);
                t.s("}");
            }
        }
    }
    judge(&t.string());
}
