//! Runs the reader under check and records what it delivers
use crate::model::*;
use crate::spec::Cfg;
use hml_rs::hml_reader::{parse_fns, Parser};
use hml_rs::markup::{ContentType, Event};
use hml_rs::names::{Name, Namespace, NamespaceStack};
use hml_rs::{HmlError, MarkupError, Posn, Span};
use lexer_rs::{Lexer, LexerOfStr, LexerOfString, LineColumn, StreamCharPos};

pub type P = StreamCharPos<LineColumn>;

/// More events than any document within the bounds can have
pub const MAX_EVENTS: usize = 4000;

pub fn pos<Q: Posn>(p: &Q) -> Pos {
    Pos { byte: p.byte_ofs(), line: p.line(), col: p.column() }
}
pub fn span<Q: Posn>(s: &Span<Q>) -> (Pos, Pos) {
    (pos(s.start()), pos(s.end()))
}
pub fn qname(ns: &NamespaceStack, n: &Name) -> QName {
    QName {
        prefix: ns.prefix_str(n.prefix).into(),
        uri: ns.uri_str(n.uri).into(),
        local: ns.name_str(n.name).into(),
    }
}
pub fn event<Q: Posn>(ns: &NamespaceStack, e: Event<Q>) -> Ev {
    let sp = span(e.borrow_span());
    match e {
        Event::StartDocument { version, .. } => {
            let mut r = Ev::new(K::StartDoc, sp);
            r.version = version;
            r
        }
        Event::EndDocument { .. } => Ev::new(K::EndDoc, sp),
        Event::StartElement { tag, .. } => {
            let mut r = Ev::new(K::Start, sp);
            r.name = qname(ns, &tag.name);
            for a in tag.attributes.attributes() {
                r.attrs.push((qname(ns, &a.name), a.value.clone()));
            }
            r
        }
        Event::EndElement { name, .. } => {
            let mut r = Ev::new(K::End, sp);
            r.name = qname(ns, &name);
            r
        }
        Event::Content { ctype, data, .. } => {
            let mut r = Ev::new(K::Content, sp);
            r.raw = ctype == ContentType::Raw;
            if ctype == ContentType::Whitespace {
                r.version = 1;
            }
            r.data = data;
            r
        }
        Event::Comment { data, lengths, .. } => {
            let mut r = Ev::new(K::Comment, sp);
            r.data = data;
            r.lengths = lengths;
            r
        }
        Event::ProcessingInstruction { .. } => Ev::new(K::Pi, sp),
    }
}
pub fn error<Q: Posn>(e: &HmlError<Q>) -> Er {
    let mut num = 0;
    let k = match e {
        HmlError::ExpectedTagName { .. } => E::TagName,
        HmlError::ExpectedWhitespaceAfterTag { .. } => E::AfterTag,
        HmlError::ExpectedEquals { ch, .. } => {
            num = *ch as u64;
            E::Equals
        }
        HmlError::UnexpectedEOF { .. } => E::Eof,
        HmlError::UnexpectedCharacter { ch, .. } => {
            num = *ch as u64;
            E::Char
        }
        HmlError::UnexpectedTagIndent { depth, .. } => {
            num = *depth as u64;
            E::Indent
        }
        HmlError::UnexpectedCloseTag { .. } => E::CloseTag,
        HmlError::UnexpectedContent { .. } => E::Content,
        HmlError::UnexpectedAttribute { .. } => E::Attribute,
        HmlError::MarkupError { source: MarkupError::UnmappedPrefix { .. }, .. } => E::Unmapped,
        HmlError::BeyondEndOfTokens => E::Beyond,
        _ => E::Other,
    };
    Er { e: k, span: e.span().map(span), num }
}

/// Runs code under check; in the replay a panic in it gives `None`
#[cfg(not(feature = "native"))]
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    Some(f())
}
#[cfg(feature = "native")]
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    // set when the replay is known not to come back
    if std::env::var_os("HARNESS_STUCK").is_some() {
        return None;
    }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) if e.is::<crate::sym::Stop>() => std::panic::resume_unwind(e),
        Err(_) => None,
    }
}

/// Events up to the end of the document or the first error, then what `more`
/// further requests give
fn events<Q: Posn>(ns: &mut NamespaceStack, mut next: impl FnMut(&mut NamespaceStack) -> Result<Event<Q>, HmlError<Q>>, more: usize) -> (Out, Vec<Option<Er>>) {
    let crash = || Er { e: E::Crash, span: None, num: 0 };
    let mut ev = Vec::new();
    let mut err = None;
    loop {
        match guard(|| next(ns)) {
            Some(Ok(e)) => {
                let end = e.is_end_document();
                ev.push(event(ns, e));
                if end {
                    break;
                }
            }
            Some(Err(e)) => {
                err = Some(error(&e));
                break;
            }
            None => {
                err = Some(crash());
                break;
            }
        }
        if ev.len() > MAX_EVENTS {
            crate::sym::fail("the reader keeps delivering events for a finite text");
        }
    }
    let mut after = vec![];
    for _ in 0..more {
        after.push(match guard(|| next(ns)) {
            Some(Ok(_)) => None,
            Some(Err(e)) => Some(error(&e)),
            None => Some(crash()),
        });
    }
    (Out { ev, err, item: (0, 0), open: None }, after)
}

/// Reads up to the end of the document or the first error
pub fn read_ns(s: &str, cfg: Cfg, ns: &mut NamespaceStack) -> Out {
    read_more(s, cfg, ns, 0).0
}

/// Reads up to the end of the document or the first error, then asks for
/// `more` further events
pub fn read_more(s: &str, cfg: Cfg, ns: &mut NamespaceStack, more: usize) -> (Out, Vec<Option<Er>>) {
    let l = LexerOfStr::<P, _, HmlError<P>>::new(s);
    let fns = parse_fns();
    let mut it = l.iter(&fns);
    let mut parser: Parser<P> = Parser::default().set_version(cfg.version);
    events(ns, |ns| parser.next_event(ns, || it.next()), more)
}

/// Reads with plain byte offsets as positions
pub fn read_usize(s: &str, cfg: Cfg, ns: &mut NamespaceStack) -> Out {
    let l = LexerOfStr::<usize, _, HmlError<usize>>::new(s);
    let fns = parse_fns();
    let mut it = l.iter(&fns);
    let mut parser: Parser<usize> = Parser::default().set_version(cfg.version);
    events(ns, |ns| parser.next_event(ns, || it.next()), 0).0
}

/// Reads from an owned string holder
pub fn read_string(s: &str, cfg: Cfg, ns: &mut NamespaceStack) -> Out {
    let ls = LexerOfString::<P, _, HmlError<P>>::default().set_text(s);
    let l = ls.lexer();
    let fns = parse_fns();
    let mut it = l.iter(&fns);
    let mut parser: Parser<P> = Parser::default().set_version(cfg.version);
    events(ns, |ns| parser.next_event(ns, || it.next()), 0).0
}

/// Reads with a fresh namespace
pub fn read(s: &str, cfg: Cfg) -> Out {
    let mut n = Namespace::new(cfg.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    read_ns(s, cfg, &mut ns)
}

/// The description and the line of the mistake in a text, if there is one
pub fn mistake(s: &str, cfg: Cfg) -> Option<(String, usize)> {
    let mut n = Namespace::new(cfg.xmlns);
    let mut ns = NamespaceStack::new(&mut n);
    let l = LexerOfStr::<P, _, HmlError<P>>::new(s);
    let fns = parse_fns();
    let mut it = l.iter(&fns);
    let mut parser: Parser<P> = Parser::default().set_version(cfg.version);
    loop {
        match parser.next_event(&mut ns, || it.next()) {
            Ok(e) if e.is_end_document() => return None,
            Ok(_) => (),
            Err(e) => return Some((e.to_string(), e.span().map_or(0, |s| pos(s.start()).line))),
        }
    }
}
