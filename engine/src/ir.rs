//! Reader for textual LLVM IR as printed by rustc (LLVM 20+ syntax).
//!
//! Function bodies are parsed lazily, the first time they are called.

use crate::exec::Val;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Vec<Rc<Ty>>, bool),
    Opaque,
    Label,
    Metadata,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64 + 7) / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(_, _) => self.store_size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64 + 7) / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    /// Allocation size
    pub fn size(&self) -> u64 {
        let a = self.align();
        (self.store_size() + a - 1) / a * a
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Float(w) => *w as u64,
            Ty::Vector(n, t) => n * t.bits(),
            _ => self.store_size() * 8,
        }
    }
    pub fn field_offset(&self, i: u64) -> (u64, Rc<Ty>) {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => (i * t.size(), t.clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("bad field")
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn nfields(&self) -> u64 {
        match self {
            Ty::Array(n, _) | Ty::Vector(n, _) => *n,
            Ty::Struct(f, _) => f.len() as u64,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Const(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Indirect(Opnd),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Rc<Ty>, u32, Opnd, Opnd),
    Cast(Cast, Rc<Ty>, Rc<Ty>, u32, Opnd),
    Icmp(Pred, Rc<Ty>, u32, Opnd, Opnd),
    /// An operation on floating point numbers: name, types of the operands and the result
    Float(String, Rc<Ty>, Rc<Ty>, u32, Vec<Opnd>),
    Select(Rc<Ty>, Rc<Ty>, u32, Opnd, Opnd, Opnd),
    Load(Rc<Ty>, u32, Opnd),
    Store(Rc<Ty>, Opnd, Opnd),
    Alloca(u32, u64, Opnd),
    Gep(u32, Opnd, u64, Vec<(Opnd, u64, u32)>),
    Call(Option<u32>, Rc<Ty>, Callee, Vec<Opnd>),
    Extract(u32, Opnd, Vec<u32>),
    Insert(u32, Opnd, Opnd, Vec<u32>),
    ExtractElt(u32, Opnd, Opnd),
    InsertElt(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<u32>),
    Copy(u32, Opnd),
    Bitcast(u32, Rc<Ty>, Rc<Ty>, Opnd),
    AtomicRmw(String, Rc<Ty>, u32, Opnd, Opnd),
    CmpXchg(Rc<Ty>, u32, Opnd, Opnd, Opnd),
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Rc<Ty>,
    pub inc: Vec<(u32, Opnd)>,
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
    pub succs: Vec<u32>,
    pub preds: Vec<u32>,
    pub pure_: bool,
    /// Numbers of the source locations of the instructions
    pub places: Vec<u32>,
    /// Whether it was executed
    pub seen: std::cell::Cell<bool>,
}

#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub text: Option<(usize, usize)>, // start of "define" line, end
    pub body: Option<Rc<Body>>,
}

pub struct GlobalDef {
    pub name: String,
    pub text: (usize, usize),
    pub constant: bool,
}

pub struct Module<'t> {
    pub text: &'t str,
    pub types: HashMap<String, Rc<Ty>>,
    pub type_text: HashMap<String, (usize, usize)>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<GlobalDef>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

/// Addresses: the top 32 bits name an object, the low 32 bits are an offset
pub const FUNC_OBJ: u64 = 1;
pub const GLOBAL_OBJ: u64 = 0x1000;

pub fn func_addr(i: u32) -> u64 {
    (FUNC_OBJ << 32) + 16 * (i as u64 + 1)
}
pub fn global_addr(i: u32) -> u64 {
    (GLOBAL_OBJ + i as u64) << 32
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Meta(&'a str),
    Num(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Attr(&'a str),
    P(u8),
    Label(&'a str),
    Nl,
    Eof,
}

fn is_id(b: u8) -> bool {
    b.is_ascii_alphanumeric() || matches!(b, b'_' | b'.' | b'$' | b'-')
}

pub fn tokenize(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(s.len() / 4);
    let mut i = 0;
    let mut bol = true;
    while i < b.len() {
        let c = b[i];
        match c {
            b'\n' => {
                v.push(Tok::Nl);
                i += 1;
                bol = true;
                continue;
            }
            b' ' | b'\t' | b'\r' => {
                i += 1;
                continue;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            b'%' | b'@' | b'!' => {
                let st = i + 1;
                if st < b.len() && b[st] == b'"' {
                    let mut j = st + 1;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    let t = &s[st + 1..j];
                    v.push(match c {
                        b'%' => Tok::Local(t),
                        b'@' => Tok::Global(t),
                        _ => Tok::Meta(t),
                    });
                    i = j + 1;
                } else {
                    let mut j = st;
                    while j < b.len() && is_id(b[j]) {
                        j += 1;
                    }
                    let t = &s[st..j];
                    v.push(match c {
                        b'%' => Tok::Local(t),
                        b'@' => Tok::Global(t),
                        _ => Tok::Meta(t),
                    });
                    i = j;
                }
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                v.push(Tok::Attr(&s[i + 1..j]));
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                if bol && j + 1 < b.len() && b[j + 1] == b':' {
                    v.push(Tok::Label(&s[i + 1..j]));
                    i = j + 2;
                } else {
                    v.push(Tok::Str(&s[i + 1..j]));
                    i = j + 1;
                }
            }
            _ if is_id(c) => {
                if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    v.push(Tok::CStr(&s[i + 2..j]));
                    i = j + 1;
                } else {
                    let mut j = i;
                    while j < b.len() && (is_id(b[j]) || (b[j] == b'+' && c.is_ascii_digit() && b[j - 1] == b'e')) {
                        j += 1;
                    }
                    let t = &s[i..j];
                    if bol && j < b.len() && b[j] == b':' {
                        v.push(Tok::Label(t));
                        i = j + 1;
                    } else {
                        let f = t.as_bytes()[0];
                        if f.is_ascii_digit() || (f == b'-' && t.len() > 1) {
                            // floats such as 1.5e+00 are not needed
                            v.push(Tok::Num(t));
                        } else {
                            v.push(Tok::Word(t));
                        }
                        i = j;
                    }
                }
            }
            _ => {
                v.push(Tok::P(c));
                i += 1;
            }
        }
        bol = false;
    }
    v.push(Tok::Eof);
    v
}

pub type PResult<T> = Result<T, String>;

struct P<'a, 'm, 't> {
    t: Vec<Tok<'a>>,
    i: usize,
    m: &'m Module<'t>,
    regs: HashMap<&'a str, u32>,
    blocks: HashMap<&'a str, u32>,
}

fn parse_num(s: &str) -> Option<u128> {
    if let Some(r) = s.strip_prefix('-') {
        r.parse::<u128>().ok().map(|x| x.wrapping_neg())
    } else if let Some(h) = s.strip_prefix("0x") {
        u128::from_str_radix(h, 16).ok()
    } else {
        s.parse::<u128>().ok()
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

impl<'a, 'm, 't> P<'a, 'm, 't> {
    fn peek(&self) -> Tok<'a> {
        self.t[self.i]
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.t[self.i];
        if t != Tok::Eof {
            self.i += 1;
        }
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> PResult<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?}", c as char, self.peek()))
        }
    }
    fn word(&mut self, w: &str) -> bool {
        if self.peek() == Tok::Word(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_balanced(&mut self) {
        // at '(' : consume through the matching ')'
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
    fn skip_line(&mut self) {
        loop {
            match self.peek() {
                Tok::Nl | Tok::Eof => return,
                _ => {
                    self.i += 1;
                }
            }
        }
    }

    /// The source location of the instruction being parsed
    fn place(&self) -> Option<u32> {
        let mut i = self.i;
        let mut depth = 0;
        loop {
            match self.t[i] {
                // the cases of a switch are on lines of their own
                Tok::P(b'[') => depth += 1,
                Tok::P(b']') => depth -= 1,
                Tok::Nl if depth <= 0 => return None,
                Tok::Eof => return None,
                Tok::Meta("dbg") => {
                    return match self.t[i + 1] {
                        Tok::Meta(n) => n.parse().ok(),
                        _ => None,
                    }
                }
                _ => {}
            }
            i += 1;
        }
    }

    fn is_type_start(&self) -> bool {
        match self.peek() {
            Tok::Word(w) => {
                matches!(
                    w,
                    "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label"
                        | "metadata" | "token" | "bfloat" | "opaque"
                ) || (w.len() > 1
                    && w.as_bytes()[0] == b'i'
                    && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::Local(_) => true,
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            _ => false,
        }
    }

    fn ty(&mut self) -> PResult<Rc<Ty>> {
        let t = match self.next() {
            Tok::Word("void") => Ty::Void,
            Tok::Word("ptr") => {
                if self.word("addrspace") {
                    self.skip_balanced();
                }
                Ty::Ptr
            }
            Tok::Word("float") => Ty::Float(32),
            Tok::Word("double") => Ty::Float(64),
            Tok::Word("half") | Tok::Word("bfloat") => Ty::Float(16),
            Tok::Word("fp128") => Ty::Float(128),
            Tok::Word("x86_fp80") => Ty::Float(80),
            Tok::Word("label") => Ty::Label,
            Tok::Word("metadata") | Tok::Word("token") => Ty::Metadata,
            Tok::Word("opaque") => Ty::Opaque,
            Tok::Word(w) if w.starts_with('i') => {
                Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?)
            }
            Tok::Local(n) => {
                return self
                    .m
                    .types
                    .get(n)
                    .cloned()
                    .ok_or_else(|| format!("unknown type {}", n))
            }
            Tok::P(b'[') => {
                let n = self.num()? as u64;
                if !self.word("x") {
                    return Err("array".into());
                }
                let e = self.ty()?;
                self.need(b']')?;
                Ty::Array(n, e)
            }
            Tok::P(b'{') => {
                let f = self.fields(b'}')?;
                Ty::Struct(f, false)
            }
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let f = self.fields(b'}')?;
                    self.need(b'>')?;
                    Ty::Struct(f, true)
                } else {
                    let n = self.num()? as u64;
                    if !self.word("x") {
                        return Err("vector".into());
                    }
                    let e = self.ty()?;
                    self.need(b'>')?;
                    Ty::Vector(n, e)
                }
            }
            t => return Err(format!("bad type {:?}", t)),
        };
        Ok(Rc::new(t))
    }
    fn fields(&mut self, close: u8) -> PResult<Vec<Rc<Ty>>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(close) {
                return Ok(v);
            }
            self.need(b',')?;
        }
    }
    fn num(&mut self) -> PResult<u128> {
        match self.next() {
            Tok::Num(s) => parse_num(s).ok_or_else(|| format!("num {}", s)),
            t => Err(format!("num {:?}", t)),
        }
    }

    fn reg(&mut self, n: &'a str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }

    fn gaddr(&self, n: &str) -> PResult<u64> {
        let mut n = n;
        while let Some(a) = self.m.aliases.get(n) {
            n = a;
        }
        if let Some(i) = self.m.gidx.get(n) {
            return Ok(global_addr(*i));
        }
        if let Some(i) = self.m.fidx.get(n) {
            return Ok(func_addr(*i));
        }
        Err(format!("unknown global {}", n))
    }

    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Array(n, t) | Ty::Vector(n, t) => Val::Agg(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(|t| Self::zero(t)).collect())),
            _ => Val::C(0),
        }
    }

    fn int_val(ty: &Ty, v: u128) -> Val {
        let w = ty.bits() as u32;
        Val::mk(v & crate::expr::mask(w))
    }

    fn val(&mut self, ty: &Rc<Ty>) -> PResult<Opnd> {
        let t = self.next();
        Ok(match t {
            Tok::Local(n) => Opnd::Reg(self.reg(n)),
            Tok::Global(n) => Opnd::Const(Val::C(self.gaddr(n)?)),
            Tok::Num(s) => {
                if let Ty::Float(w) = **ty {
                    let bits = if s.starts_with("0x") {
                        parse_num(s).unwrap_or(0)
                    } else {
                        s.parse::<f64>().map(|f| f.to_bits() as u128).unwrap_or(0)
                    };
                    let bits = if w == 32 {
                        (f64::from_bits(bits as u64) as f32).to_bits() as u128
                    } else {
                        bits
                    };
                    Opnd::Const(Val::mk(bits))
                } else {
                    let n = parse_num(s).ok_or_else(|| format!("number {}", s))?;
                    Opnd::Const(Self::int_val(ty, n))
                }
            }
            Tok::P(b'+') => {
                let x = match self.next() {
                    Tok::Word("inf") => f64::INFINITY,
                    Tok::Word("qnan") => f64::NAN,
                    t => return Err(format!("bad number {:?}", t)),
                };
                Opnd::Const(Val::mk(if ty.bits() == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 }))
            }
            Tok::Word("true") => Opnd::Const(Val::C(1)),
            Tok::Word("false") => Opnd::Const(Val::C(0)),
            Tok::Word("null") | Tok::Word("none") => Opnd::Const(Val::C(0)),
            Tok::Word("undef") | Tok::Word("poison") | Tok::Word("zeroinitializer") => {
                Opnd::Const(Self::zero(ty))
            }
            Tok::Word("splat") => {
                self.need(b'(')?;
                let et = self.ty()?;
                let v = match self.val(&et)? {
                    Opnd::Const(v) => v,
                    _ => return Err("splat reg".into()),
                };
                self.need(b')')?;
                Opnd::Const(Val::Agg(Rc::new(vec![v; ty.nfields() as usize])))
            }
            Tok::CStr(s) => {
                let v = unescape(s);
                Opnd::Const(Val::Agg(Rc::new(v.into_iter().map(|b| Val::C(b as u64)).collect())))
            }
            Tok::P(b'{') => self.agg(b'}')?,
            Tok::P(b'[') => self.agg(b']')?,
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let r = self.agg(b'}')?;
                    self.need(b'>')?;
                    r
                } else {
                    self.agg(b'>')?
                }
            }
            Tok::Word(w @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast")) => {
                self.need(b'(')?;
                let st = self.ty()?;
                let v = self.const_val(&st)?;
                if !self.word("to") {
                    return Err("cast to".into());
                }
                let dt = self.ty()?;
                self.need(b')')?;
                let _ = w;
                Opnd::Const(Val::mk(v.as_u128().ok_or("const cast")? & crate::expr::mask(dt.bits() as u32)))
            }
            Tok::Word("getelementptr") => {
                while let Tok::Word(w) = self.peek() {
                    if self.is_type_start() {
                        break;
                    }
                    self.next();
                    if w == "inrange" {
                        self.skip_balanced();
                    }
                }
                self.need(b'(')?;
                let bt = self.ty()?;
                self.need(b',')?;
                let pt = self.ty()?;
                let base = self.const_val(&pt)?.as_u128().ok_or("gep")? as u64;
                let mut off = 0u64;
                let mut cur = bt.clone();
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty()?;
                    let iv = self.const_val(&it)?.as_u128().ok_or("gepi")?;
                    let iv = crate::expr::sext(iv, it.bits() as u32) as i64 as u64;
                    if first {
                        off = off.wrapping_add(iv.wrapping_mul(bt.size()));
                        first = false;
                    } else {
                        let (o, n) = cur.field_offset(iv);
                        off = off.wrapping_add(o);
                        cur = n;
                    }
                }
                self.need(b')')?;
                Opnd::Const(Val::C(base.wrapping_add(off)))
            }
            Tok::Word(w @ ("sub" | "add" | "xor" | "and" | "or" | "mul" | "shl")) => {
                while let Tok::Word("nuw" | "nsw") = self.peek() {
                    self.next();
                }
                self.need(b'(')?;
                let t1 = self.ty()?;
                let a = self.const_val(&t1)?.as_u128().ok_or("cb")?;
                self.need(b',')?;
                let t2 = self.ty()?;
                let b = self.const_val(&t2)?.as_u128().ok_or("cb")?;
                self.need(b')')?;
                let op = match w {
                    "sub" => crate::expr::Op::Sub,
                    "add" => crate::expr::Op::Add,
                    "xor" => crate::expr::Op::Xor,
                    "and" => crate::expr::Op::And,
                    "or" => crate::expr::Op::Or,
                    "mul" => crate::expr::Op::Mul,
                    _ => crate::expr::Op::Shl,
                };
                Opnd::Const(Val::mk(crate::expr::fold(op, t1.bits() as u32, a, b)))
            }
            t => return Err(format!("bad value {:?}", t)),
        })
    }
    fn const_val(&mut self, ty: &Rc<Ty>) -> PResult<Val> {
        match self.val(ty)? {
            Opnd::Const(v) => Ok(v),
            _ => Err("register in constant".into()),
        }
    }
    fn agg(&mut self, close: u8) -> PResult<Opnd> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(Opnd::Const(Val::Agg(Rc::new(v))));
        }
        loop {
            let t = self.ty()?;
            v.push(self.const_val(&t)?);
            if self.eat(close) {
                return Ok(Opnd::Const(Val::Agg(Rc::new(v))));
            }
            self.need(b',')?;
        }
    }

    /// Skip parameter attributes between a type and its value
    fn skip_param_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) => {
                    if matches!(
                        w,
                        "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer"
                            | "splat" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext"
                            | "getelementptr" | "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl"
                            | "addrspacecast" | "asm"
                    ) {
                        return;
                    }
                    self.next();
                    if self.peek() == Tok::P(b'(') {
                        self.skip_balanced();
                    } else if w == "align" {
                        self.next();
                    }
                }
                Tok::Str(_) => {
                    self.next();
                    if self.eat(b'=') {
                        self.next();
                    }
                }
                _ => return,
            }
        }
    }
    /// Skip words (attributes, flags, conventions) until a type starts
    fn skip_to_type(&mut self) -> PResult<()> {
        while !self.is_type_start() {
            match self.next() {
                Tok::Word(w) => {
                    if self.peek() == Tok::P(b'(') {
                        self.skip_balanced();
                    } else if w == "align" || w == "cc" {
                        self.next();
                    }
                }
                Tok::Attr(_) | Tok::Str(_) => {}
                t => return Err(format!("type expected at {:?}", t)),
            }
        }
        Ok(())
    }

    fn tyval(&mut self) -> PResult<(Rc<Ty>, Opnd)> {
        let t = self.ty()?;
        self.skip_param_attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }

    fn label(&mut self) -> PResult<u32> {
        if !self.word("label") {
            return Err(format!("label expected at {:?}", self.peek()));
        }
        match self.next() {
            Tok::Local(n) => self
                .blocks
                .get(n)
                .copied()
                .ok_or_else(|| format!("no block {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }

    fn call(&mut self, dst: Option<u32>) -> PResult<Inst> {
        self.skip_to_type()?;
        let rt = self.ty()?;
        if self.peek() == Tok::P(b'(') {
            self.skip_balanced();
        }
        if self.word("asm") {
            self.skip_line();
            return Ok(Inst::Nop);
        }
        let callee = match self.next() {
            Tok::Global(n) => {
                let mut n = n;
                while let Some(a) = self.m.aliases.get(n) {
                    n = a;
                }
                match self.m.fidx.get(n) {
                    Some(i) => Callee::Func(*i),
                    None => return Err(format!("unknown callee {}", n)),
                }
            }
            Tok::Local(n) => Callee::Indirect(Opnd::Reg(self.reg(n))),
            t => return Err(format!("callee {:?}", t)),
        };
        self.need(b'(')?;
        let mut args = vec![];
        if !self.eat(b')') {
            loop {
                let t = self.ty()?;
                self.skip_param_attrs();
                if *t == Ty::Metadata {
                    // metadata operand: skip to , or )
                    let mut d = 0;
                    loop {
                        match self.peek() {
                            Tok::P(b'(') => d += 1,
                            Tok::P(b')') if d == 0 => break,
                            Tok::P(b')') => d -= 1,
                            Tok::P(b',') if d == 0 => break,
                            Tok::Eof => return Err("metadata".into()),
                            _ => {}
                        }
                        self.next();
                    }
                    args.push(Opnd::Const(Val::C(0)));
                } else {
                    let v = self.val(&t)?;
                    args.push(v);
                }
                if self.eat(b')') {
                    break;
                }
                self.need(b',')?;
            }
        }
        let dst = if *rt == Ty::Void { None } else { dst };
        Ok(Inst::Call(dst, rt, callee, args))
    }

    fn idxs(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.peek() == Tok::P(b',') {
            if let Tok::Num(s) = self.t[self.i + 1] {
                self.i += 2;
                v.push(s.parse().unwrap_or(0));
            } else {
                break;
            }
        }
        v
    }

    fn inst(&mut self, dst: Option<u32>, op: &'a str, blk: &mut Block) -> PResult<()> {
        let d = dst.unwrap_or(u32::MAX);
        let bop = |s: &str| {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                _ => return None,
            })
        };
        let i = match op {
            _ if bop(op).is_some() => {
                self.skip_to_type()?;
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.need(b',')?;
                let b = self.val(&t)?;
                Inst::Bin(bop(op).unwrap(), t, d, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                self.skip_to_type()?;
                let (t, v) = self.tyval()?;
                if !self.word("to") {
                    return Err("to".into());
                }
                let t2 = self.ty()?;
                let k = match op {
                    "sext" => Cast::SExt,
                    _ if t2.bits() < t.bits() => Cast::Trunc,
                    _ => Cast::ZExt,
                };
                if t2.bits() == t.bits() {
                    Inst::Copy(d, v)
                } else {
                    Inst::Cast(k, t, t2, d, v)
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_to_type()?;
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.need(b',')?;
                let b = self.val(&t)?;
                Inst::Float(op.into(), t.clone(), t, d, vec![a, b])
            }
            "fneg" => {
                self.skip_to_type()?;
                let (t, a) = self.tyval()?;
                Inst::Float(op.into(), t.clone(), t, d, vec![a])
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                self.skip_to_type()?;
                let (t, a) = self.tyval()?;
                if !self.word("to") {
                    return Err("to".into());
                }
                let t2 = self.ty()?;
                Inst::Float(op.into(), t, t2, d, vec![a])
            }
            "fcmp" => {
                let mut p = String::new();
                while !self.is_type_start() {
                    match self.next() {
                        Tok::Word(w) => p = w.into(),
                        t => return Err(format!("fcmp {:?}", t)),
                    }
                }
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.need(b',')?;
                let b = self.val(&t)?;
                Inst::Float(p, t, Rc::new(Ty::Int(1)), d, vec![a, b])
            }
            "bitcast" => {
                let (t, v) = self.tyval()?;
                if !self.word("to") {
                    return Err("to".into());
                }
                let t2 = self.ty()?;
                Inst::Bitcast(d, t, t2, v)
            }
            "freeze" => {
                let (_, v) = self.tyval()?;
                Inst::Copy(d, v)
            }
            "icmp" => {
                self.word("samesign");
                let p = match self.next() {
                    Tok::Word("eq") => Pred::Eq,
                    Tok::Word("ne") => Pred::Ne,
                    Tok::Word("ugt") => Pred::Ugt,
                    Tok::Word("uge") => Pred::Uge,
                    Tok::Word("ult") => Pred::Ult,
                    Tok::Word("ule") => Pred::Ule,
                    Tok::Word("sgt") => Pred::Sgt,
                    Tok::Word("sge") => Pred::Sge,
                    Tok::Word("slt") => Pred::Slt,
                    Tok::Word("sle") => Pred::Sle,
                    t => return Err(format!("icmp {:?}", t)),
                };
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.need(b',')?;
                let b = self.val(&t)?;
                Inst::Icmp(p, t, d, a, b)
            }
            "select" => {
                self.skip_to_type()?;
                let (ct, c) = self.tyval()?;
                self.need(b',')?;
                let (t, a) = self.tyval()?;
                self.need(b',')?;
                let (_, b) = self.tyval()?;
                Inst::Select(ct, t, d, c, a, b)
            }
            "load" => {
                self.word("atomic");
                self.word("volatile");
                let t = self.ty()?;
                self.need(b',')?;
                let (_, p) = self.tyval()?;
                Inst::Load(t, d, p)
            }
            "store" => {
                self.word("atomic");
                self.word("volatile");
                let (t, v) = self.tyval()?;
                self.need(b',')?;
                let (_, p) = self.tyval()?;
                Inst::Store(t, v, p)
            }
            "alloca" => {
                self.word("inalloca");
                let t = self.ty()?;
                let mut n = Opnd::Const(Val::C(1));
                if self.peek() == Tok::P(b',') {
                    self.next();
                    if self.is_type_start() {
                        let (_, v) = self.tyval()?;
                        n = v;
                    }
                }
                Inst::Alloca(d, t.size(), n)
            }
            "getelementptr" => {
                while let Tok::Word(_) = self.peek() {
                    if self.is_type_start() {
                        break;
                    }
                    self.next();
                    if self.peek() == Tok::P(b'(') {
                        self.skip_balanced();
                    }
                }
                let bt = self.ty()?;
                self.need(b',')?;
                let (pt, base) = self.tyval()?;
                if *pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0u64;
                let mut dynv = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while self.peek() == Tok::P(b',') {
                    if let Tok::Meta(_) = self.t[self.i + 1] {
                        break;
                    }
                    self.next();
                    let (it, iv) = self.tyval()?;
                    let iw = it.bits() as u32;
                    let scale;
                    if first {
                        scale = bt.size();
                        first = false;
                    } else {
                        match &*cur.clone() {
                            Ty::Struct(_, _) => {
                                let k = match &iv {
                                    Opnd::Const(v) => v.as_u128().ok_or("gep idx")? as u64,
                                    _ => return Err("struct gep".into()),
                                };
                                let (o, n) = cur.field_offset(k);
                                off = off.wrapping_add(o);
                                cur = n;
                                continue;
                            }
                            Ty::Array(_, t) | Ty::Vector(_, t) => {
                                scale = t.size();
                                cur = t.clone();
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                    match iv {
                        Opnd::Const(v) => {
                            let k = crate::expr::sext(v.as_u128().ok_or("gep")?, iw) as i64 as u64;
                            off = off.wrapping_add(k.wrapping_mul(scale));
                        }
                        r => dynv.push((r, scale, iw)),
                    }
                }
                Inst::Gep(d, base, off, dynv)
            }
            "call" => self.call(dst)?,
            "invoke" => {
                let c = self.call(dst)?;
                // operand bundles / attributes, then: to label %x unwind label %y
                loop {
                    match self.next() {
                        Tok::Word("to") => break,
                        Tok::Eof => return Err("invoke".into()),
                        _ => {}
                    }
                }
                let n = self.label()?;
                blk.insts.push(c);
                blk.succs.push(n);
                Inst::Br(n)
            }
            "extractvalue" => {
                let (_, v) = self.tyval()?;
                Inst::Extract(d, v, self.idxs())
            }
            "insertvalue" => {
                let (_, a) = self.tyval()?;
                self.need(b',')?;
                let (_, v) = self.tyval()?;
                Inst::Insert(d, a, v, self.idxs())
            }
            "extractelement" => {
                let (_, a) = self.tyval()?;
                self.need(b',')?;
                let (_, v) = self.tyval()?;
                Inst::ExtractElt(d, a, v)
            }
            "insertelement" => {
                let (_, a) = self.tyval()?;
                self.need(b',')?;
                let (_, v) = self.tyval()?;
                self.need(b',')?;
                let (_, i) = self.tyval()?;
                Inst::InsertElt(d, a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.tyval()?;
                self.need(b',')?;
                let (_, b) = self.tyval()?;
                self.need(b',')?;
                let (_, m) = self.tyval()?;
                let m = match m {
                    Opnd::Const(Val::Agg(v)) => {
                        v.iter().map(|x| x.as_u128().unwrap_or(0) as u32).collect()
                    }
                    _ => return Err("shuffle mask".into()),
                };
                Inst::Shuffle(d, a, b, m)
            }
            "atomicrmw" => {
                self.word("volatile");
                let op = match self.next() {
                    Tok::Word(w) => w.to_string(),
                    t => return Err(format!("{:?}", t)),
                };
                let (_, p) = self.tyval()?;
                self.need(b',')?;
                let (t, v) = self.tyval()?;
                Inst::AtomicRmw(op, t, d, p, v)
            }
            "cmpxchg" => {
                self.word("weak");
                self.word("volatile");
                let (_, p) = self.tyval()?;
                self.need(b',')?;
                let (t, c) = self.tyval()?;
                self.need(b',')?;
                let (_, n) = self.tyval()?;
                Inst::CmpXchg(t, d, p, c, n)
            }
            "fence" => Inst::Nop,
            "landingpad" => {
                self.skip_line();
                // clauses on following lines
                loop {
                    let save = self.i;
                    while self.peek() == Tok::Nl {
                        self.next();
                    }
                    match self.peek() {
                        Tok::Word("cleanup") | Tok::Word("catch") | Tok::Word("filter") => {
                            self.skip_line()
                        }
                        _ => {
                            self.i = save;
                            break;
                        }
                    }
                }
                Inst::Unsupported("landingpad".into())
            }
            "resume" => Inst::Unsupported("resume".into()),
            "br" => {
                if self.peek() == Tok::Word("label") {
                    let l = self.label()?;
                    blk.succs.push(l);
                    Inst::Br(l)
                } else {
                    let (_, c) = self.tyval()?;
                    self.need(b',')?;
                    let a = self.label()?;
                    self.need(b',')?;
                    let b = self.label()?;
                    blk.succs.push(a);
                    if a != b {
                        blk.succs.push(b);
                    }
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.need(b',')?;
                let def = self.label()?;
                self.need(b'[')?;
                let mut cases = vec![];
                loop {
                    while self.peek() == Tok::Nl {
                        self.next();
                    }
                    if self.eat(b']') {
                        break;
                    }
                    let t = self.ty()?;
                    let k = self.const_val(&t)?.as_u128().ok_or("case")?;
                    self.need(b',')?;
                    let l = self.label()?;
                    cases.push((k, l));
                }
                let mut s: Vec<u32> = vec![def];
                for (_, l) in &cases {
                    if !s.contains(l) {
                        s.push(*l);
                    }
                }
                blk.succs.extend(s);
                Inst::Switch(t.bits() as u32, v, def, cases)
            }
            "ret" => {
                if self.word("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.tyval()?;
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "phi" => {
                self.skip_to_type()?;
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.need(b'[')?;
                    let v = self.val(&t)?;
                    self.need(b',')?;
                    let b = match self.next() {
                        Tok::Local(n) => *self.blocks.get(n).ok_or("phi block")?,
                        t => return Err(format!("phi {:?}", t)),
                    };
                    self.need(b']')?;
                    inc.push((b, v));
                    if self.peek() == Tok::P(b',') && self.t[self.i + 1] == Tok::P(b'[') {
                        self.next();
                    } else {
                        break;
                    }
                }
                blk.phis.push(Phi { dst: d, ty: t, inc });
                return Ok(());
            }
            _ => return Err(format!("opcode {}", op)),
        };
        blk.insts.push(i);
        Ok(())
    }
}

fn scan_header<'a>(text: &'a str) -> Option<&'a str> {
    // name of the function in a define/declare line
    let at = text.find('@')?;
    let r = &text[at + 1..];
    if let Some(q) = r.strip_prefix('"') {
        Some(&q[..q.find('"')?])
    } else {
        let e = r.bytes().position(|b| !is_id(b))?;
        Some(&r[..e])
    }
}

impl<'t> Module<'t> {
    pub fn load(text: &'t str) -> Module<'t> {
        let mut m = Module {
            text,
            types: HashMap::new(),
            type_text: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut pos = 0;
        let b = text.as_bytes();
        let mut tydefs: Vec<(&str, &str)> = vec![];
        while pos < b.len() {
            let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &text[pos..eol];
            if line.starts_with("define ") || line.starts_with("declare ") {
                if let Some(n) = scan_header(line) {
                    let idx = m.funcs.len() as u32;
                    let mut range = None;
                    if line.starts_with("define ") {
                        let end = text[eol..].find("\n}\n").map(|x| eol + x + 1).unwrap_or(b.len());
                        range = Some((pos, end));
                        pos = end;
                    }
                    m.fidx.insert(n.to_string(), idx);
                    m.funcs.push(Func { name: n.to_string(), text: range, body: None });
                }
                if line.starts_with("define ") {
                    pos += 2;
                    continue;
                }
            } else if line.starts_with('@') {
                let (name, rest) = if let Some(q) = line[1..].strip_prefix('"') {
                    let e = q.find('"').unwrap();
                    (&q[..e], pos + 2 + e + 1)
                } else {
                    let e = line[1..].bytes().position(|b| !is_id(b)).unwrap();
                    (&line[1..1 + e], pos + 1 + e)
                };
                let body = &text[rest..eol];
                // alias?
                let is_alias = body
                    .split(' ')
                    .take(8)
                    .take_while(|w| *w != "global" && *w != "constant")
                    .any(|w| w == "alias");
                if is_alias {
                    if let Some(t) = body.rfind('@') {
                        let r = &body[t + 1..];
                        let tgt = if let Some(q) = r.strip_prefix('"') {
                            &q[..q.find('"').unwrap_or(0)]
                        } else {
                            let e = r.bytes().position(|b| !is_id(b)).unwrap_or(r.len());
                            &r[..e]
                        };
                        m.aliases.insert(name.to_string(), tgt.to_string());
                    }
                } else {
                    let gi = body.find(" global ");
                    let ci = body.find(" constant ");
                    let constant = match (gi, ci) {
                        (Some(g), Some(c)) => c < g,
                        (None, Some(_)) => true,
                        _ => false,
                    };
                    let idx = m.globals.len() as u32;
                    m.gidx.insert(name.to_string(), idx);
                    m.globals.push(GlobalDef {
                        name: name.to_string(),
                        text: (rest, eol),
                        constant,
                    });
                }
            } else if line.starts_with('%') {
                if let Some((n, t)) = line[1..].split_once(" = type ") {
                    tydefs.push((n.trim_matches('"'), t));
                }
            }
            pos = eol + 1;
        }
        // resolve named types (repeat until no progress)
        let mut pending = tydefs;
        loop {
            let before = pending.len();
            let mut rest = vec![];
            for (n, t) in pending {
                let r = {
                    let mut p = P {
                        t: tokenize(t),
                        i: 0,
                        m: &m,
                        regs: HashMap::new(),
                        blocks: HashMap::new(),
                    };
                    p.ty()
                };
                match r {
                    Ok(ty) => {
                        m.types.insert(n.to_string(), ty);
                    }
                    Err(_) => rest.push((n, t)),
                }
            }
            if rest.is_empty() || rest.len() == before {
                break;
            }
            pending = rest;
        }
        m
    }

    /// Type and initial value of a global
    pub fn global_init(&self, i: u32) -> PResult<(Rc<Ty>, Option<Val>)> {
        let g = &self.globals[i as usize];
        let text = &self.text[g.text.0..g.text.1];
        let mut p = P {
            t: tokenize(text),
            i: 0,
            m: self,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        let mut external = false;
        loop {
            match p.next() {
                Tok::Word("global") | Tok::Word("constant") => break,
                Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                Tok::Eof => return Err(format!("global {}", g.name)),
                _ => {}
            }
        }
        let t = p.ty()?;
        if external {
            return Ok((t, None));
        }
        let v = p.const_val(&t)?;
        Ok((t, Some(v)))
    }

    pub fn body(&mut self, fi: u32) -> PResult<Rc<Body>> {
        if let Some(b) = &self.funcs[fi as usize].body {
            return Ok(b.clone());
        }
        let (s, e) = self.funcs[fi as usize].text.ok_or("declaration only")?;
        let text = self.text;
        let b = Rc::new(self.parse_body(&text[s..e]).map_err(|x| {
            format!("parsing {}: {}", self.funcs[fi as usize].name, x)
        })?);
        self.funcs[fi as usize].body = Some(b.clone());
        Ok(b)
    }

    fn parse_body(&self, text: &'t str) -> PResult<Body> {
        let toks = tokenize(text);
        let mut p = P { t: toks, i: 0, m: self, regs: HashMap::new(), blocks: HashMap::new() };
        // header: define ... @name(params) ... {
        p.next();
        loop {
            match p.next() {
                Tok::Global(_) => break,
                Tok::Eof => return Err("header".into()),
                _ => {}
            }
        }
        p.need(b'(')?;
        let mut nparams = 0;
        if !p.eat(b')') {
            loop {
                if p.peek() == Tok::P(b'.') || p.peek() == Tok::Word("...") {
                    return Err("varargs".into());
                }
                p.ty()?;
                p.skip_param_attrs();
                match p.next() {
                    Tok::Local(n) => {
                        let r = p.reg(n);
                        if r != nparams {
                            return Err("param order".into());
                        }
                    }
                    t => return Err(format!("param {:?}", t)),
                }
                nparams += 1;
                if p.eat(b')') {
                    break;
                }
                p.need(b',')?;
            }
        }
        // up to end of header line
        p.skip_line();
        // pre-scan labels
        let mut names: Vec<&str> = vec![];
        let mut saw_inst = false;
        let mut j = p.i;
        while j < p.t.len() {
            match p.t[j] {
                Tok::Label(n) => {
                    names.push(n);
                    saw_inst = true;
                }
                Tok::Nl | Tok::Eof => {}
                _ => {
                    if !saw_inst {
                        // implicit entry block label
                        names.push("");
                        saw_inst = true;
                    }
                }
            }
            j += 1;
        }
        let mut implicit = None;
        for (i, n) in names.iter().enumerate() {
            if n.is_empty() {
                implicit = Some(i);
            } else {
                p.blocks.insert(n, i as u32);
            }
        }
        if implicit.is_some() {
            // the implicit entry block is numbered after the parameters
            let key: &'static str = Box::leak(format!("{}", nparams).into_boxed_str());
            p.blocks.insert(key, implicit.unwrap() as u32);
        }
        let mut blocks: Vec<Block> = names.iter().map(|_| Block::default()).collect();
        let mut cur: i64 = if implicit.is_some() { 0 } else { -1 };
        loop {
            match p.peek() {
                Tok::Nl => {
                    p.next();
                }
                Tok::Eof => break,
                Tok::P(b'}') => break,
                Tok::Attr(_) => p.skip_line(),
                Tok::Label(n) => {
                    p.next();
                    cur = p.blocks[n] as i64;
                }
                _ => {
                    let start = p.i;
                    let mut dst = None;
                    if let Tok::Local(n) = p.peek() {
                        p.next();
                        p.need(b'=')?;
                        dst = Some(p.reg(n));
                    }
                    let op = loop {
                        match p.next() {
                            Tok::Word("tail" | "musttail" | "notail") => {}
                            Tok::Word(w) => break w,
                            t => return Err(format!("opcode {:?}", t)),
                        }
                    };
                    let blk = &mut blocks[cur as usize];
                    if let Some(n) = p.place() {
                        if blk.places.last() != Some(&n) {
                            blk.places.push(n);
                        }
                    }
                    if let Err(e) = p.inst(dst, op, blk) {
                        // keep going: the instruction only matters if executed
                        p.i = start;
                        p.skip_line();
                        if matches!(op, "br" | "switch" | "invoke" | "phi") {
                            return Err(format!("{}: {}", op, e));
                        }
                        blk.insts.push(Inst::Unsupported(format!("{}: {}", op, e)));
                    }
                    p.skip_line();
                }
            }
        }
        let nregs = p.regs.len() as u32;
        // predecessors and purity
        for i in 0..blocks.len() {
            let s = blocks[i].succs.clone();
            for t in s {
                let pr = &mut blocks[t as usize].preds;
                if !pr.contains(&(i as u32)) {
                    pr.push(i as u32);
                }
            }
        }
        let fname = |f: &u32| self.funcs[*f as usize].name.as_str();
        for b in blocks.iter_mut() {
            b.pure_ = b.insts.iter().all(|i| match i {
                Inst::Bin(op, _, _, _, y) => match op {
                    BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem => {
                        matches!(y, Opnd::Const(Val::C(k)) if *k != 0)
                    }
                    _ => true,
                },
                Inst::Cast(..)
                | Inst::Icmp(..)
                | Inst::Select(..)
                | Inst::Gep(..)
                | Inst::Extract(..)
                | Inst::Insert(..)
                | Inst::Copy(..)
                | Inst::Nop
                | Inst::Br(_)
                | Inst::CondBr(..)
                | Inst::Switch(..) => true,
                Inst::Call(_, _, Callee::Func(f), _) => {
                    let n = fname(f);
                    n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.umin")
                        || n.starts_with("llvm.umax")
                        || n.starts_with("llvm.usub.sat")
                        || n.starts_with("llvm.uadd.sat")
                }
                _ => false,
            }) && !b.insts.is_empty();
        }
        Ok(Body { nregs, nparams, blocks })
    }
}

/// What the source locations with the given numbers stand for: lines of files
/// below a directory, the functions of those files they are in, and the names
/// of all functions they are in
pub fn sources(text: &str, numbers: &BTreeSet<u32>, dir: &str, also: &str) -> (BTreeSet<(String, u32)>, BTreeSet<String>, BTreeSet<String>) {
    let mut nodes: HashMap<u32, &str> = HashMap::new();
    if let Some(i) = text.find("\n!0 = ") {
        for l in text[i + 1..].lines() {
            if let Some((n, rest)) = l.strip_prefix('!').and_then(|l| l.split_once(" = ")) {
                if let Ok(n) = n.parse() {
                    nodes.insert(n, rest);
                }
            }
        }
    }
    let field = |node: &str, name: &str| -> Option<String> {
        let i = [format!("({}: ", name), format!(", {}: ", name)].iter().find_map(|k| node.find(k.as_str()).map(|i| i + k.len()))?;
        let rest = &node[i..];
        if let Some(r) = rest.strip_prefix('"') {
            return r.split('"').next().map(|x| x.to_string());
        }
        rest.split([',', ')']).next().map(|x| x.to_string())
    };
    let follow = |node: &str, name: &str| -> Option<&str> { nodes.get(&field(node, name)?.strip_prefix('!')?.parse().ok()?).copied() };
    let mut lines = BTreeSet::new();
    let mut own = BTreeSet::new();
    let mut funcs = BTreeSet::new();
    for n in numbers {
        let mut at = nodes.get(n).copied();
        while let Some(loc) = at {
            let mut scope = follow(loc, "scope");
            // the file, if it is below the directory or a copy
            let file = |node: Option<&str>| {
                let f = follow(node?, "file")?;
                let name = field(f, "filename")?;
                match also.split_once('=') {
                    Some((end, original)) if name.ends_with(end) => Some(original.to_string()),
                    _ => (field(f, "directory").as_deref() == Some(dir)).then_some(name),
                }
            };
            if let (Some(f), Some(l)) = (file(scope), field(loc, "line").and_then(|x| x.parse().ok())) {
                if l > 0 {
                    lines.insert((f, l));
                }
            }
            while let Some(s) = scope {
                if s.contains("DISubprogram(") {
                    if let Some(f) = field(s, "linkageName") {
                        funcs.insert(f);
                    }
                    if let (Some(f), Some(n), Some(l)) = (file(scope), field(s, "name"), field(s, "line")) {
                        own.insert(format!("{}:{} {}", f, l, n.split('<').next().unwrap_or(&n)));
                    }
                    break;
                }
                scope = follow(s, "scope");
            }
            at = follow(loc, "inlinedAt");
        }
    }
    (lines, own, funcs)
}
