//! Reference reading of an HML document, written from the documented grammar
//!
//! It is independent of the implementation: it works on an array of
//! characters, first splitting off one item at a time, then applying the
//! nesting rules.
use crate::model::*;

pub struct Src<'a> {
    pub s: &'a str,
    pub c: Vec<char>,
    /// byte offset of each character, and of the end
    pub o: Vec<usize>,
    pub lines: bool,
}

pub type R = (usize, usize);

pub enum Item {
    Space,
    Comment(Vec<R>),
    Str { raw: bool, body: R },
    Open { depth: usize, boxed: bool, prefix: R, local: R },
    Close { depth: usize, prefix: R, local: R },
    Attr { prefix: R, local: R, value: R },
}

pub struct LexErr {
    pub e: E,
    pub end: usize,
    pub ch: u32,
}

/// XML 1.0 5th edition, production 4, without the colon
pub fn name_start(c: char) -> bool {
    let c = c as u32;
    let r = |a: u32, b: u32| c >= a && c <= b;
    r(0x41, 0x5a)
        | r(0x61, 0x7a)
        | (c == 0x5f)
        | r(0xc0, 0xd6)
        | r(0xd8, 0xf6)
        | r(0xf8, 0x2ff)
        | r(0x370, 0x37d)
        | r(0x37f, 0x1fff)
        | r(0x200c, 0x200d)
        | r(0x2070, 0x218f)
        | r(0x2c00, 0x2fef)
        | r(0x3001, 0xd7ff)
        | r(0xf900, 0xfdcf)
        | r(0xfdf0, 0xfffd)
        | r(0x10000, 0xeffff)
}
/// XML 1.0 5th edition, production 4a, without the colon
pub fn name_char(c: char) -> bool {
    let d = c as u32;
    let r = |a: u32, b: u32| d >= a && d <= b;
    name_start(c) | (d == 0x2d) | (d == 0x2e) | r(0x30, 0x39) | (d == 0xb7) | r(0x300, 0x36f) | r(0x203f, 0x2040)
}

fn quote(c: char) -> bool {
    c == '"' || c == '\''
}

impl<'a> Src<'a> {
    pub fn new(s: &'a str, lines: bool) -> Src<'a> {
        let mut c = Vec::with_capacity(s.len());
        let mut o = Vec::with_capacity(s.len() + 1);
        for (i, ch) in s.char_indices() {
            c.push(ch);
            o.push(i);
        }
        o.push(s.len());
        Src { s, c, o, lines }
    }
    pub fn text(&self, r: R) -> String {
        self.s[self.o[r.0]..self.o[r.1]].to_string()
    }
    /// The position of character `i`
    pub fn pos(&self, i: usize) -> Pos {
        let mut p = Pos { byte: self.o[i], line: 1, col: 1 };
        if self.lines {
            for ch in &self.c[..i] {
                if *ch == '\n' {
                    p.line += 1;
                    p.col = 1;
                } else {
                    p.col += 1;
                }
            }
        }
        p
    }
    pub fn span(&self, a: usize, b: usize) -> (Pos, Pos) {
        (self.pos(a), self.pos(b))
    }
    fn name(&self, i: usize) -> Option<usize> {
        if i >= self.c.len() || !name_start(self.c[i]) {
            return None;
        }
        let mut j = i + 1;
        while j < self.c.len() && name_char(self.c[j]) {
            j += 1;
        }
        Some(j)
    }
    /// A name with optional prefix
    fn qname(&self, i: usize) -> Option<(R, R, usize)> {
        let j = self.name(i)?;
        if j < self.c.len() && self.c[j] == ':' {
            let k = self.name(j + 1)?;
            Some(((i, j), (j + 1, k), k))
        } else {
            Some(((i, i), (i, j), j))
        }
    }
    fn string(&self, i: usize) -> Option<(Item, usize)> {
        let n = self.c.len();
        let raw = self.c[i] == 'r';
        let mut j = if raw { i + 1 } else { i };
        let h0 = j;
        while j < n && self.c[j] == '#' {
            j += 1;
        }
        let h = j - h0;
        if j >= n || !quote(self.c[j]) {
            return None;
        }
        let q = self.c[j];
        let a = j + 1;
        let mut k = a;
        loop {
            if k >= n || (h == 0 && self.c[k] == '\n') {
                return None;
            }
            if self.c[k] == q {
                let mut m = 0;
                while m < h && k + 1 + m < n && self.c[k + 1 + m] == '#' {
                    m += 1;
                }
                if m == h {
                    return Some((Item::Str { raw, body: (a, k) }, k + 1 + h));
                }
            }
            k += 1;
        }
    }
    /// The item at character `i` and its end, or the mistake there
    pub fn item(&self, i: usize) -> Result<(Item, usize), LexErr> {
        let n = self.c.len();
        let ch = self.c[i];
        if ch.is_whitespace() {
            let mut j = i + 1;
            while j < n && self.c[j].is_whitespace() {
                j += 1;
            }
            return Ok((Item::Space, j));
        }
        if ch == ';' {
            let mut lines = vec![];
            let mut i = i;
            loop {
                let a = i + 1;
                let mut e = a;
                while e < n && self.c[e] != '\n' {
                    e += 1;
                }
                lines.push((a, e));
                if e >= n {
                    return Ok((Item::Comment(lines), n));
                }
                let mut k = e + 1;
                while k < n && self.c[k] != '\n' && self.c[k].is_whitespace() {
                    k += 1;
                }
                if k < n && self.c[k] == ';' {
                    i = k;
                } else {
                    return Ok((Item::Comment(lines), e + 1));
                }
            }
        }
        if let Some(x) = self.string(i) {
            return Ok(x);
        }
        if ch == '#' {
            let mut j = i;
            while j < n && self.c[j] == '#' {
                j += 1;
            }
            let depth = j - i;
            let Some((prefix, local, mut k)) = self.qname(j) else {
                return Err(LexErr { e: E::TagName, end: j, ch: 0 });
            };
            let item = if k < n && self.c[k] == '{' {
                k += 1;
                Item::Open { depth, boxed: true, prefix, local }
            } else if k < n && self.c[k] == '}' {
                k += 1;
                Item::Close { depth, prefix, local }
            } else {
                Item::Open { depth, boxed: false, prefix, local }
            };
            if k < n && !self.c[k].is_whitespace() {
                return Err(LexErr { e: E::AfterTag, end: k, ch: 0 });
            }
            return Ok((item, k));
        }
        let Some((prefix, local, k)) = self.qname(i) else {
            return Err(LexErr { e: E::Char, end: i, ch: ch as u32 });
        };
        if k >= n {
            return Err(LexErr { e: E::NoEquals, end: k, ch: 0 });
        }
        if self.c[k] != '=' {
            return Err(LexErr { e: E::Equals, end: k, ch: self.c[k] as u32 });
        }
        let a = k + 1;
        if a >= n || self.c[a].is_whitespace() {
            return Err(LexErr { e: E::Equals, end: a, ch: '=' as u32 });
        }
        let mut j = a + 1;
        if quote(self.c[a]) {
            while j < n && self.c[j] != self.c[a] && self.c[j] != '\n' {
                j += 1;
            }
            if j >= n || self.c[j] == '\n' {
                return Err(LexErr { e: E::Equals, end: a, ch: '=' as u32 });
            }
            return Ok((Item::Attr { prefix, local, value: (a + 1, j) }, j + 1));
        }
        while j < n && !self.c[j].is_whitespace() {
            j += 1;
        }
        Ok((Item::Attr { prefix, local, value: (a, j) }, j))
    }
}

struct El {
    depth: usize,
    boxed: bool,
    /// depth that applies again once this element is closed
    outer: usize,
    name: QName,
}

pub struct Scopes {
    pub frames: Vec<Vec<(String, String)>>,
}
impl Scopes {
    pub fn new(xmlns: bool) -> Scopes {
        let mut f = vec![(String::new(), String::new())];
        if xmlns {
            f.push(("xmlns".into(), "http://www.w3.org/2000/xmlns/".into()));
            f.push(("xml".into(), "http://www.w3.org/XML/1998/namespace".into()));
        }
        Scopes { frames: vec![f] }
    }
    /// All mappings in force
    pub fn all(&self) -> Vec<(String, String)> {
        let mut r: Vec<(String, String)> = vec![];
        for f in self.frames.iter().rev() {
            for (p, u) in f.iter().rev() {
                if !r.iter().any(|x| x.0 == *p) {
                    r.push((p.clone(), u.clone()));
                }
            }
        }
        r
    }
    pub fn find(&self, prefix: &str) -> Option<&str> {
        for f in self.frames.iter().rev() {
            for (p, u) in f.iter().rev() {
                if p == prefix {
                    return Some(u);
                }
            }
        }
        None
    }
    fn resolve(&self, prefix: &str, local: &str) -> Option<QName> {
        self.find(prefix).map(|u| QName {
            prefix: prefix.into(),
            uri: u.into(),
            local: local.into(),
        })
    }
}

struct Pending {
    span: (usize, usize),
    prefix: String,
    local: String,
    attrs: Vec<(usize, usize, String, String, String)>,
}

/// How the reference is to read
#[derive(Clone, Copy)]
pub struct Cfg {
    pub xmlns: bool,
    pub version: usize,
    /// track lines and columns
    pub lines: bool,
}

pub struct Machine<'a> {
    src: &'a Src<'a>,
    cfg: Cfg,
    stack: Vec<El>,
    depth: usize,
    ns: Scopes,
    pending: Option<Pending>,
    last: usize,
    ev: Vec<Ev>,
    /// a prefix was declared twice for one element
    pub dup_decl: bool,
    /// the mappings in force at each event, if wanted
    states: Option<Vec<Vec<(String, String)>>>,
}

impl<'a> Machine<'a> {
    fn start(&mut self, p: &Pending) -> Result<Ev, (usize, usize)> {
        let mut ev = Ev::new(K::Start, self.src.span(p.span.0, p.span.1));
        if self.cfg.xmlns {
            let mut f: Vec<(String, String)> = vec![];
            for (_, _, prefix, local, value) in &p.attrs {
                let d = if prefix.is_empty() && local == "xmlns" {
                    ""
                } else if prefix == "xmlns" {
                    local.as_str()
                } else {
                    continue;
                };
                for (q, _) in &f {
                    if q == d {
                        self.dup_decl = true;
                    }
                }
                f.push((d.into(), value.clone()));
            }
            *self.ns.frames.last_mut().unwrap() = f;
        }
        for (a, b, prefix, local, value) in &p.attrs {
            let prefix = if self.cfg.xmlns && prefix.is_empty() && local == "xmlns" {
                "xmlns"
            } else {
                prefix.as_str()
            };
            let Some(q) = self.ns.resolve(prefix, local) else {
                return Err((*a, *b));
            };
            ev.attrs.push((q, value.clone()));
        }
        let Some(q) = self.ns.resolve(&p.prefix, &p.local) else {
            return Err(p.span);
        };
        ev.name = q;
        Ok(ev)
    }
    fn emit(&mut self, ev: Ev) {
        if let Some(s) = &mut self.states {
            s.push(self.ns.all());
        }
        self.ev.push(ev);
    }
    fn flush(&mut self) -> Result<(), (usize, usize)> {
        if let Some(p) = self.pending.take() {
            let ev = self.start(&p)?;
            self.stack.last_mut().unwrap().name = ev.name.clone();
            self.emit(ev);
        }
        Ok(())
    }
    fn pop(&mut self, span: (usize, usize)) {
        let e = self.stack.pop().unwrap();
        self.ns.frames.pop();
        self.depth = e.outer;
        let mut ev = Ev::new(K::End, self.src.span(span.0, span.1));
        ev.name = e.name;
        self.emit(ev);
    }
    fn out(self, err: Option<(E, usize, usize, u64)>) -> Out {
        let (err, item) = match err {
            None => (None, (0, 0)),
            Some((e, a, b, num)) => (
                Some(Er { e, span: Some(self.src.span(a, b)), num }),
                (self.src.o[a], self.src.o[b]),
            ),
        };
        Out { ev: self.ev, err, item, open: None }
    }
}

/// Reads a whole document
pub fn read(src: &Src, cfg: Cfg) -> Out {
    read_dup(src, cfg).0
}

/// Reads a whole document; also tells if some element declares a prefix twice
pub fn read_dup(src: &Src, cfg: Cfg) -> (Out, bool) {
    let (o, dup, _) = read_scopes(src, cfg, Scopes::new(cfg.xmlns), false);
    (o, dup)
}

/// Reads a whole document starting with the given mappings; also gives those in
/// force at each event
pub fn read_scopes(src: &Src, cfg: Cfg, ns: Scopes, record: bool) -> (Out, bool, Vec<Vec<(String, String)>>) {
    let mut m = Machine {
        src,
        cfg,
        stack: vec![],
        depth: 0,
        ns,
        pending: None,
        last: 0,
        ev: vec![],
        dup_decl: false,
        states: if record { Some(vec![]) } else { None },
    };
    let r = run(&mut m);
    let dup = m.dup_decl;
    let states = m.states.take().unwrap_or_default();
    let o = match r {
        Ok(()) => m.out(None),
        Err((e, a, b, num)) => {
            let open = match (e.lexical(), m.pending.take()) {
                (true, Some(p)) => m.start(&p).ok(),
                _ => None,
            };
            let mut o = m.out(Some((e, a, b, num)));
            o.open = open;
            o
        }
    };
    (o, dup, states)
}

fn run(m: &mut Machine) -> Result<(), (E, usize, usize, u64)> {
    let src = m.src;
    let n = src.c.len();
    let mut ev = Ev::new(K::StartDoc, src.span(0, 0));
    ev.version = m.cfg.version;
    m.emit(ev);
    let mut i = 0;
    while i < n {
        let (item, end) = match src.item(i) {
            Ok(x) => x,
            Err(e) => return Err((e.e, i, e.end, e.ch as u64)),
        };
        let here = (i, end);
        i = end;
        match item {
            Item::Space => continue,
            Item::Attr { prefix, local, value } => {
                m.last = end;
                let Some(p) = &mut m.pending else {
                    return Err((E::Attribute, here.0, here.1, 0));
                };
                p.attrs.push((here.0, here.1, src.text(prefix), src.text(local), src.text(value)));
                continue;
            }
            _ => (),
        }
        if let Err((a, b)) = m.flush() {
            return Err((E::Unmapped, a, b, 0));
        }
        m.last = end;
        match item {
            Item::Comment(lines) => {
                let mut ev = Ev::new(K::Comment, src.span(here.0, here.1));
                for (j, r) in lines.into_iter().enumerate() {
                    if j > 0 {
                        ev.data.push('\n');
                    }
                    ev.lengths.push(src.o[r.1] - src.o[r.0]);
                    ev.data.push_str(&src.text(r));
                }
                m.emit(ev);
            }
            Item::Str { raw, body } => {
                if m.stack.is_empty() {
                    return Err((E::Content, here.0, here.1, 0));
                }
                let mut ev = Ev::new(K::Content, src.span(here.0, here.1));
                ev.raw = raw;
                ev.data = src.text(body);
                m.emit(ev);
            }
            Item::Open { depth, boxed, prefix, local } => {
                while depth <= m.depth {
                    m.pop((here.0, here.0));
                }
                if depth > m.depth + 1 {
                    return Err((E::Indent, here.0, here.1, m.depth as u64 + 1));
                }
                m.stack.push(El { depth, boxed, outer: m.depth, name: QName::default() });
                m.ns.frames.push(vec![]);
                m.depth = if boxed { 0 } else { depth };
                m.pending = Some(Pending {
                    span: here,
                    prefix: src.text(prefix),
                    local: src.text(local),
                    attrs: vec![],
                });
            }
            Item::Close { depth, prefix, local } => {
                let prefix = src.text(prefix);
                let local = src.text(local);
                if m.ns.find(&prefix).is_none() {
                    return Err((E::Unmapped, here.0, here.1, 0));
                }
                while m.depth > 0 {
                    m.pop((here.0, here.0));
                }
                match m.stack.last() {
                    Some(e) if e.boxed && e.depth == depth && e.name.prefix == prefix && e.name.local == local => m.pop(here),
                    _ => return Err((E::CloseTag, here.0, here.1, 0)),
                }
            }
            _ => (),
        }
    }
    if let Err((a, b)) = m.flush() {
        return Err((E::Unmapped, a, b, 0));
    }
    let last = m.last;
    while !m.stack.is_empty() {
        if m.depth == 0 {
            return Err((E::OpenBox, last, last, 0));
        }
        m.pop((last, last));
    }
    m.emit(Ev::new(K::EndDoc, src.span(last, last)));
    Ok(())
}
