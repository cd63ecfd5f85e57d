//! Properties of the tokens of a text
use crate::gen::*;
use crate::real::{self, guard, P};
use crate::spec::{Item, Src, R};
use crate::sym::*;
use hml_rs::hml_reader::parse_fns;
use hml_rs::HmlError;
use lexer_rs::{Lexer, LexerOfStr};

/// Entry: parameters are family, size, family option
///
/// The tokens of a text
#[no_mangle]
pub fn h_tokens() {
    let text = family(param(0), param(1) as usize, param(2));
    let src = Src::new(&text, false);
    let l = LexerOfStr::<P, _, HmlError<P>>::new(&text);
    let fns = parse_fns();
    let mut it = l.iter(&fns);
    let mut i = 0;
    loop {
        let Some(t) = guard(|| it.next()) else {
            return;
        };
        let Some(t) = t else {
            check(i == src.c.len(), "text is left when there are no more tokens");
            reach(1);
            break;
        };
        if i >= src.c.len() {
            fail("there is a token after the end of the text");
        }
        match (t, src.item(i)) {
            (Ok(t), Ok((item, end))) => {
                let s = real::span(t.get_span());
                observe(s.1.byte as u64);
                check(s.0.byte == src.o[i] && s.1.byte == src.o[end], "a token is not the next item");
                check(t.is_whitespace() == matches!(item, Item::Space), "a token is taken for whitespace");
                check(t.is_attribute() == matches!(item, Item::Attr { .. }), "a token is taken for an attribute");
                check(!t.is_eof(), "a token is taken for the end");
                let shown = format!("{}", t);
                let shows = |depth: usize, prefix: R, local: R, rest: &str| {
                    let names = format!("{}:{}{}", src.text(prefix), src.text(local), rest);
                    shown.ends_with(&names) && (depth == 0 || shown[..shown.len() - names.len()].ends_with(&format!("<{}>", depth)))
                };
                check(
                    match &item {
                        Item::Open { depth, prefix, local, boxed } => shows(*depth, *prefix, *local, if *boxed { "{" } else { "" }),
                        Item::Close { depth, prefix, local } => shows(*depth, *prefix, *local, "}"),
                        Item::Attr { prefix, local, value } => shows(0, *prefix, *local, &format!("={}", src.text(*value))),
                        Item::Str { raw, .. } => shown.ends_with("chars ...") && shown.ends_with("rawchars ...") == *raw,
                        _ => !shown.is_empty(),
                    },
                    "a token is shown with other details",
                );
                let (depth, boxed) = match item {
                    Item::Open { depth, boxed, .. } => (depth, boxed),
                    Item::Close { depth, .. } => (depth, false),
                    _ => (t.get_depth(), false),
                };
                check(t.get_depth() == depth && t.get_boxed() == boxed, "a tag has another depth");
                let want: Vec<String> = match item {
                    Item::Space => vec![],
                    Item::Comment(lines) => lines.into_iter().map(|r| src.text(r)).collect(),
                    Item::Str { body, .. } => vec![src.text(body)],
                    Item::Open { prefix, local, .. } | Item::Close { prefix, local, .. } => vec![src.text(prefix), src.text(local)],
                    Item::Attr { prefix, local, value } => vec![src.text(prefix), src.text(local), src.text(value)],
                };
                check(t.contents().len() == want.len(), "a token has other contents");
                for (x, y) in t.contents().iter().zip(want.iter()) {
                    check(x == y, "a token has other contents");
                }
                i = end;
                reach(2);
            }
            (Err(_), Err(_)) => {
                reach(3);
                break;
            }
            (Ok(_), Err(_)) => fail("text that is not an item is a token"),
            (Err(_), Ok(_)) => fail("an item is not a token"),
        }
    }
}
