//! The symbolic executor: states, memory, instruction semantics.

use crate::expr::{fold, mask, sext, Op, Pool, E};
use crate::ir::*;
use crate::z3::{Answer, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

/// A value; integer widths are known from the instruction types
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u64),
    W(Rc<u128>),
    S(E),
    Agg(Rc<Vec<Val>>),
}

impl Val {
    pub fn mk(v: u128) -> Val {
        if v >> 64 == 0 {
            Val::C(v as u64)
        } else {
            Val::W(Rc::new(v))
        }
    }
    pub fn as_u128(&self) -> Option<u128> {
        match self {
            Val::C(v) => Some(*v as u128),
            Val::W(v) => Some(**v),
            _ => None,
        }
    }
}

const STACK_OBJ: u64 = 0x0100_0000;
const HEAP_OBJ: u64 = 0x4000_0000;

#[derive(Clone, Default)]
pub struct Obj {
    data: Vec<u8>,
    /// Empty if wholly concrete, otherwise one entry per byte (0 = concrete)
    sym: Vec<E>,
    ro: bool,
}

const CH: usize = 32;
#[derive(Clone, Default)]
struct Heap {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    len: usize,
}
impl Heap {
    fn push(&mut self, o: Rc<Obj>) -> usize {
        let i = self.len;
        if i % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(Some(o));
        self.len += 1;
        i
    }
    fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(i / CH)?.get(i % CH)?.as_ref()
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut Rc<Obj>> {
        Rc::make_mut(self.chunks.get_mut(i / CH)?).get_mut(i % CH)?.as_mut()
    }
    fn remove(&mut self, i: usize) {
        Rc::make_mut(&mut self.chunks[i / CH])[i % CH] = None;
    }
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    body: *const Body,
    bb: u32,
    ip: u32,
    regs: Vec<Val>,
    ret: Option<u32>,
    stack_base: u32,
}

struct FrameNode {
    f: Frame,
    next: Option<Rc<FrameNode>>,
    depth: u32,
}

#[derive(Clone)]
pub struct State {
    cur: Frame,
    callers: Option<Rc<FrameNode>>,
    stack: Vec<Rc<Obj>>,
    heap: Heap,
    gover: Rc<HashMap<u32, Rc<Obj>>>,
    cons: Vec<E>,
    known: Rc<HashMap<E, u64>>,
    model: Rc<Vec<u64>>,
    inputs: Vec<u32>,
    obs: Vec<Val>,
    steps: u64,
    depth: u32,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Fail,
    Panic,
    Ub,
    Steps,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: Kind,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<u64>,
}

pub enum Stop {
    Violation(Kind, String),
    Error(String),
    Done,
    Pruned,
    Concretize(E),
    /// Successor states (current one is consumed)
    Fork(Vec<State>),
}

type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub steps: u64,
    pub decisions: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub unknown: u64,
    pub solver_ms: u64,
    pub concretizations: u64,
    pub merged: u64,
    pub max_path_steps: u64,
}

struct Region {
    blocks: Vec<u32>,
}

pub struct Config {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub hash_key: u64,
    /// Printing is followed, not ignored
    pub print: bool,
}

pub struct Engine<'t> {
    pub m: Module<'t>,
    pub p: Pool,
    pub z: Z3,
    pub cfg: Config,
    pub st: Stats,
    globals: Vec<Option<Rc<Obj>>>,
    cache: HashMap<Box<[E]>, Option<Vec<(u32, u64)>>>,
    regions: HashMap<(usize, u32), Option<Rc<Region>>>,
    pub funcs_run: HashSet<u32>,
    pub reach: BTreeMap<u64, u64>,
    ext: HashMap<u32, Ext>,
    hash_calls: Option<bool>,
    in_region: bool,
    slice_mark: Vec<u32>,
    slice_gen: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    None,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    Bcmp,
    Strlen,
    Panic,
    Print,
    Getrandom,
    RandomKeys,
    HashText,
    Abort,
    Nop0,
    SymU(u32),
    SymParam,
    SymAssume,
    SymFail,
    SymReach,
    SymObserve,
    SymConcretize,
    SymInit,
    SymEnd,
    Intrinsic,
}

pub fn pretty(n: &str) -> String {
    // pick out the length-prefixed identifiers of a mangled name
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 14 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + l <= b.len() && l > 0 {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    out.truncate(8);
    out.join("::")
}

impl<'t> Engine<'t> {
    pub fn new(text: &'t str, cfg: Config) -> Engine<'t> {
        let m = Module::load(text);
        let ng = m.globals.len();
        Engine {
            m,
            p: Pool::new(),
            z: Z3::new(),
            cfg,
            st: Stats::default(),
            globals: vec![None; ng],
            cache: HashMap::new(),
            regions: HashMap::new(),
            funcs_run: HashSet::new(),
            reach: BTreeMap::new(),
            ext: HashMap::new(),
            hash_calls: None,
            in_region: false,
            slice_mark: vec![],
            slice_gen: 0,
        }
    }

    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let fi = *self.m.fidx.get(entry).ok_or_else(|| format!("no function {}", entry))?;
        let body = self.m.body(fi)?;
        self.funcs_run.insert(fi);
        Ok(State {
            cur: Frame {
                func: fi,
                body: Rc::as_ptr(&body),
                bb: 0,
                ip: 0,
                regs: vec![Val::C(0); body.nregs as usize],
                ret: None,
                stack_base: 0,
            },
            callers: None,
            stack: vec![],
            heap: Heap::default(),
            gover: Rc::new(HashMap::new()),
            cons: vec![],
            known: Rc::new(HashMap::new()),
            model: Rc::new(vec![]),
            inputs: vec![],
            obs: vec![],
            steps: 0,
            depth: 0,
        })
    }

    pub fn state_inputs(&mut self, s: &State) -> Vec<u64> {
        s.inputs.iter().map(|i| s.model.get(*i as usize).copied().unwrap_or(0)).collect()
    }
    pub fn state_obs(&mut self, s: &State) -> Vec<u64> {
        let m = s.model.clone();
        s.obs
            .iter()
            .map(|v| match v {
                Val::C(c) => *c,
                Val::S(e) => self.p.eval(*e, &m) as u64,
                _ => 0,
            })
            .collect()
    }
    pub fn state_steps(&self, s: &State) -> u64 {
        s.steps
    }
    pub fn state_stack(&self, s: &State) -> Vec<String> {
        let mut v = vec![pretty(&self.m.funcs[s.cur.func as usize].name)];
        let mut c = s.callers.clone();
        while let Some(n) = c {
            v.push(pretty(&self.m.funcs[n.f.func as usize].name));
            c = n.next.clone();
        }
        v
    }

    // ---------------------------------------------------------------- solver

    fn slice(&mut self, cons: &[E], q: E) -> Vec<E> {
        self.slice_gen += 1;
        let g = self.slice_gen;
        let mut taken = vec![false; cons.len()];
        let mut out = vec![];
        for d in self.p.deps(q) {
            let d = *d as usize;
            if d >= self.slice_mark.len() {
                self.slice_mark.resize(d + 64, 0);
            }
            self.slice_mark[d] = g;
        }
        loop {
            let mut change = false;
            for (i, c) in cons.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let deps = self.p.deps(*c);
                if deps.iter().any(|d| {
                    self.slice_mark.get(*d as usize).copied().unwrap_or(0) == g
                }) {
                    taken[i] = true;
                    out.push(*c);
                    for d in deps {
                        let d = *d as usize;
                        if d >= self.slice_mark.len() {
                            self.slice_mark.resize(d + 64, 0);
                        }
                        if self.slice_mark[d] != g {
                            self.slice_mark[d] = g;
                            change = true;
                        }
                    }
                }
            }
            if !change {
                break;
            }
        }
        out
    }

    /// Is `cons` and `q` satisfiable; on success the values of the symbols involved
    fn query(&mut self, cons: &[E], q: E) -> R<Option<Vec<(u32, u64)>>> {
        if let Some(k) = self.p.as_const(q) {
            return Ok(if k == 1 { Some(vec![]) } else { None });
        }
        let mut key = self.slice(cons, q);
        key.push(q);
        key.sort_unstable();
        key.dedup();
        let key: Box<[E]> = key.into();
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return Ok(r.clone());
        }
        let r = match self.z.check(&self.p, &key) {
            Answer::Sat(m) => {
                // the model must satisfy the constraints under our own semantics
                let mut full = vec![];
                for (s, v) in &m {
                    if full.len() <= *s as usize {
                        full.resize(*s as usize + 1, 0);
                    }
                    full[*s as usize] = *v;
                }
                for e in key.iter() {
                    if self.p.eval(*e, &full) != 1 {
                        return err("solver model does not satisfy the query (encoding mismatch)");
                    }
                }
                Some(m)
            }
            Answer::Unsat => None,
            Answer::Unknown => {
                self.st.unknown += 1;
                return err("solver returned unknown");
            }
        };
        self.cache.insert(key, r.clone());
        Ok(r)
    }

    fn merge_model(s: &State, m: &[(u32, u64)]) -> Rc<Vec<u64>> {
        let mut v = (*s.model).clone();
        for (i, x) in m {
            if v.len() <= *i as usize {
                v.resize(*i as usize + 1, 0);
            }
            v[*i as usize] = *x;
        }
        Rc::new(v)
    }

    fn add_con(&mut self, s: &mut State, e: E) {
        if self.p.as_const(e).is_some() {
            return;
        }
        let n = self.p.n(e);
        if n.op == Op::And && n.w == 1 {
            self.add_con(s, n.a);
            self.add_con(s, n.b);
            return;
        }
        if n.op == Op::Xor && self.p.as_const(n.b) == Some(1) {
            let i = self.p.n(n.a);
            if i.op == Op::Or && i.w == 1 {
                let (x, y) = (self.p.not(i.a), self.p.not(i.b));
                self.add_con(s, x);
                self.add_con(s, y);
                return;
            }
            Rc::make_mut(&mut s.known).insert(n.a, 0);
        }
        if n.op == Op::Eq {
            if let Some(k) = self.p.as_const(n.b) {
                if k >> 64 == 0 {
                    Rc::make_mut(&mut s.known).insert(n.a, k as u64);
                }
            }
        }
        Rc::make_mut(&mut s.known).insert(e, 1);
        if !s.cons.contains(&e) {
            s.cons.push(e);
        }
    }

    /// Fork children from (condition, continuation) alternatives that are
    /// mutually exclusive and cover everything
    fn fork_alts(
        &mut self,
        s: State,
        alts: Vec<(E, Box<dyn Fn(&mut Engine<'t>, &mut State) -> R<()> + 't>)>,
    ) -> R<Vec<State>> {
        let mut out = vec![];
        let mut feas = vec![];
        for (i, (c, _)) in alts.iter().enumerate() {
            if self.p.as_const(*c) == Some(0) {
                continue;
            }
            let m = if self.p.eval(*c, &s.model) == 1 {
                s.model.clone()
            } else {
                match self.query(&s.cons, *c)? {
                    Some(m) => Self::merge_model(&s, &m),
                    None => continue,
                }
            };
            feas.push((i, m));
        }
        if feas.len() > 1 {
            self.st.forks += feas.len() as u64 - 1;
        }
        let n = feas.len();
        let mut s = Some(s);
        for (k, (i, m)) in feas.into_iter().enumerate() {
            let mut t = if k + 1 == n { s.take().unwrap() } else { s.as_ref().unwrap().clone() };
            t.model = m;
            t.depth += (n > 1) as u32;
            self.add_con(&mut t, alts[i].0);
            (alts[i].1)(self, &mut t)?;
            out.push(t);
        }
        Ok(out)
    }

    /// Some(b) if the condition can only be b
    fn decide(&mut self, s: &State, e: E) -> R<Option<bool>> {
        if let Some(k) = self.p.as_const(e) {
            return Ok(Some(k == 1));
        }
        if let Some(k) = s.known.get(&e) {
            return Ok(Some(*k == 1));
        }
        self.st.decisions += 1;
        let v = self.p.eval(e, &s.model) == 1;
        let other = if v { self.p.not(e) } else { e };
        Ok(match self.query(&s.cons, other)? {
            Some(_) => None,
            None => Some(v),
        })
    }

    // ---------------------------------------------------------------- memory

    fn global_obj(&mut self, gi: u32) -> R<Rc<Obj>> {
        if let Some(o) = &self.globals[gi as usize] {
            return Ok(o.clone());
        }
        let (ty, v) = self.m.global_init(gi).map_err(Stop::Error)?;
        let mut o = Obj { data: vec![0; ty.size() as usize], sym: vec![], ro: self.m.globals[gi as usize].constant };
        if let Some(v) = v {
            Self::init_bytes(&mut o.data, 0, &ty, &v);
        }
        let o = Rc::new(o);
        self.globals[gi as usize] = Some(o.clone());
        Ok(o)
    }

    fn init_bytes(d: &mut [u8], off: usize, ty: &Ty, v: &Val) {
        match v {
            Val::Agg(a) => {
                for (i, x) in a.iter().enumerate() {
                    let (o, t) = ty.field_offset(i as u64);
                    Self::init_bytes(d, off + o as usize, &t, x);
                }
            }
            _ => {
                let k = v.as_u128().unwrap_or(0);
                let n = ty.store_size() as usize;
                d[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
            }
        }
    }

    fn obj(&mut self, s: &State, addr: u64, n: u64, what: &str) -> R<(Rc<Obj>, usize)> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        let o = if id >= HEAP_OBJ {
            match s.heap.get((id - HEAP_OBJ) as usize) {
                Some(o) => o.clone(),
                None => return self.ub(format!("{} of freed or unallocated heap memory", what)),
            }
        } else if id >= STACK_OBJ {
            match s.stack.get((id - STACK_OBJ) as usize) {
                Some(o) => o.clone(),
                None => return self.ub(format!("{} of dead stack memory", what)),
            }
        } else if id >= GLOBAL_OBJ && ((id - GLOBAL_OBJ) as usize) < self.globals.len() {
            let gi = (id - GLOBAL_OBJ) as u32;
            match s.gover.get(&gi) {
                Some(o) => o.clone(),
                None => self.global_obj(gi)?,
            }
        } else {
            return self.ub(format!("{} through invalid pointer {:#x}", what, addr));
        };
        if off as u64 + n > o.data.len() as u64 {
            return self.ub(format!(
                "{} of {} bytes at offset {} of an object of {} bytes",
                what,
                n,
                off as i32,
                o.data.len()
            ));
        }
        Ok((o, off))
    }

    fn ub<T>(&self, m: String) -> R<T> {
        Err(Stop::Violation(Kind::Ub, m))
    }

    fn write(
        &mut self,
        s: &mut State,
        addr: u64,
        n: u64,
        f: &mut dyn FnMut(&mut Obj, usize),
    ) -> R<()> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        let o: &mut Rc<Obj> = if id >= HEAP_OBJ {
            match s.heap.get_mut((id - HEAP_OBJ) as usize) {
                Some(o) => o,
                None => return self.ub("write to freed or unallocated heap memory".into()),
            }
        } else if id >= STACK_OBJ {
            match s.stack.get_mut((id - STACK_OBJ) as usize) {
                Some(o) => o,
                None => return self.ub("write to dead stack memory".into()),
            }
        } else if id >= GLOBAL_OBJ && ((id - GLOBAL_OBJ) as usize) < self.globals.len() {
            let gi = (id - GLOBAL_OBJ) as u32;
            if !s.gover.contains_key(&gi) {
                let o = self.global_obj(gi)?;
                if o.ro {
                    return self.ub(format!("write to constant {}", self.m.globals[gi as usize].name));
                }
                Rc::make_mut(&mut s.gover).insert(gi, o);
            }
            Rc::make_mut(&mut s.gover).get_mut(&gi).unwrap()
        } else {
            return self.ub(format!("write through invalid pointer {:#x}", addr));
        };
        if off as u64 + n > o.data.len() as u64 {
            return self.ub(format!(
                "write of {} bytes at offset {} of an object of {} bytes",
                n,
                off as i32,
                o.data.len()
            ));
        }
        f(Rc::make_mut(o), off);
        Ok(())
    }

    fn byte_of(s: &State, o: &Obj, i: usize) -> (u8, E) {
        if o.sym.is_empty() || o.sym[i] == 0 {
            (o.data[i], 0)
        } else if let Some(k) = s.known.get(&o.sym[i]) {
            (*k as u8, 0)
        } else {
            (0, o.sym[i])
        }
    }

    fn load_int(&mut self, s: &State, o: &Obj, off: usize, w: u32) -> Val {
        let n = ((w + 7) / 8) as usize;
        let any = !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0);
        if !any {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let v = u128::from_le_bytes(b) & mask(w);
            return Val::mk(v);
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let (c, e) = Self::byte_of(s, o, off + i);
            let e = if e == 0 { self.p.cst(8, c as u128) } else { e };
            acc = Some(match acc {
                None => e,
                Some(lo) => self.p.concat(e, lo),
            });
        }
        let mut e = acc.unwrap();
        if w % 8 != 0 {
            e = self.p.extract(e, 0, w);
        }
        self.norm(s, e)
    }

    fn norm(&self, s: &State, e: E) -> Val {
        if let Some(k) = self.p.as_const(e) {
            return Val::mk(k);
        }
        if let Some(k) = s.known.get(&e) {
            return Val::C(*k);
        }
        Val::S(e)
    }

    fn load(&mut self, s: &State, ty: &Ty, addr: u64) -> R<Val> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(Val::Agg(Rc::new(vec![])));
        }
        let (o, off) = self.obj(s, addr, n, "read")?;
        self.load_ty(s, &o, off, ty)
    }

    fn load_ty(&mut self, s: &State, o: &Obj, off: usize, ty: &Ty) -> R<Val> {
        Ok(match ty {
            Ty::Int(w) => self.load_int(s, o, off, *w),
            Ty::Ptr => self.load_int(s, o, off, 64),
            Ty::Float(w) => self.load_int(s, o, off, *w),
            Ty::Vector(n, t) if t.bits() % 8 != 0 => {
                // packed bits
                let w = ty.bits() as u32;
                let v = self.load_int(s, o, off, w);
                let _ = n;
                self.from_bits(s, v, ty)
            }
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                let mut v = vec![];
                for i in 0..ty.nfields() {
                    let (fo, t) = ty.field_offset(i);
                    v.push(self.load_ty(s, o, off + fo as usize, &t)?);
                }
                Val::Agg(Rc::new(v))
            }
            _ => return err("load of odd type"),
        })
    }

    fn store(&mut self, s: &mut State, ty: &Ty, addr: u64, v: &Val) -> R<()> {
        match ty {
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                if let (Ty::Vector(_, t), true) = (ty, true) {
                    if t.bits() % 8 != 0 {
                        let w = ty.bits() as u32;
                        let b = self.to_bits(v, ty);
                        return self.store_int(s, addr, w, &b);
                    }
                }
                if let Val::Agg(a) = v {
                    for (i, x) in a.iter().enumerate() {
                        let (fo, t) = ty.field_offset(i as u64);
                        self.store(s, &t, addr + fo, x)?;
                    }
                    Ok(())
                } else {
                    err("store of aggregate")
                }
            }
            _ => self.store_int(s, addr, ty.bits() as u32, v),
        }
    }

    fn store_int(&mut self, s: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::S(e) => {
                let mut e = *e;
                if w % 8 != 0 {
                    e = self.p.zext(e, n as u32 * 8);
                }
                let mut es = [0u32; 16];
                let mut cs = [0u8; 16];
                for i in 0..n {
                    let b = self.p.extract(e, i as u32 * 8, 8);
                    match self.p.as_const(b) {
                        Some(k) => cs[i] = k as u8,
                        None => match s.known.get(&b) {
                            Some(k) => cs[i] = *k as u8,
                            None => es[i] = b,
                        },
                    }
                }
                self.write(s, addr, n as u64, &mut |o, off| {
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.data.len()];
                    }
                    o.sym[off..off + n].copy_from_slice(&es[..n]);
                    o.data[off..off + n].copy_from_slice(&cs[..n]);
                })
            }
            _ => {
                let k = match v.as_u128() {
                    Some(k) => k,
                    None => return err("store of aggregate as int"),
                };
                let b = k.to_le_bytes();
                self.write(s, addr, n as u64, &mut |o, off| {
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                    if !o.sym.is_empty() {
                        for x in &mut o.sym[off..off + n] {
                            *x = 0;
                        }
                    }
                })
            }
        }
    }

    fn alloc(&mut self, s: &mut State, size: u64) -> R<u64> {
        if size > 1 << 30 {
            return err(format!("allocation of {} bytes", size));
        }
        let i = s.heap.push(Rc::new(Obj { data: vec![0; size as usize], sym: vec![], ro: false }));
        Ok((HEAP_OBJ + i as u64) << 32)
    }

    fn free(&mut self, s: &mut State, addr: u64) -> R<()> {
        if addr == 0 {
            return Ok(());
        }
        let id = addr >> 32;
        if id < HEAP_OBJ || addr & 0xffff_ffff != 0 {
            return self.ub(format!("free of invalid pointer {:#x}", addr));
        }
        let i = (id - HEAP_OBJ) as usize;
        if s.heap.get(i).is_none() {
            return self.ub("double free".into());
        }
        s.heap.remove(i);
        Ok(())
    }

    fn memcpy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj(s, src, n, "read")?;
        let n = n as usize;
        let sy: Option<&[E]> = if o.sym.is_empty() { None } else { Some(&o.sym[off..off + n]) };
        let data = &o.data[off..off + n];
        // the source may be the destination object: work from copies
        let data = data.to_vec();
        let sy = sy.map(|x| x.to_vec());
        drop(o);
        self.write(s, d, n as u64, &mut |o, off| {
            o.data[off..off + n].copy_from_slice(&data);
            match &sy {
                Some(v) if v.iter().any(|x| *x != 0) => {
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.data.len()];
                    }
                    o.sym[off..off + n].copy_from_slice(v);
                }
                _ => {
                    if !o.sym.is_empty() {
                        for x in &mut o.sym[off..off + n] {
                            *x = 0;
                        }
                    }
                }
            }
        })
    }

    fn read_bytes(&mut self, s: &State, a: u64, n: u64) -> R<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.obj(s, a, n, "read")?;
        Ok((0..n as usize).map(|i| Self::byte_of(s, &o, off + i)).collect())
    }

    fn read_str(&mut self, s: &State, a: u64, n: u64) -> String {
        if n > 4096 {
            return "?".into();
        }
        match self.read_bytes(s, a, n) {
            Ok(v) => String::from_utf8_lossy(&v.iter().map(|x| if x.1 == 0 { x.0 } else { b'?' }).collect::<Vec<_>>()).into_owned(),
            Err(_) => "?".into(),
        }
    }

    // ---------------------------------------------------------------- values

    #[inline]
    fn get(&self, s: &State, o: &Opnd) -> Val {
        match o {
            Opnd::Reg(r) => s.cur.regs[*r as usize].clone(),
            Opnd::Const(v) => v.clone(),
        }
    }

    /// The value of an operand that must be concrete
    #[inline]
    fn getc(&self, s: &State, o: &Opnd) -> R<u64> {
        match self.get(s, o) {
            Val::C(v) => Ok(v),
            Val::S(e) => self.conc(s, e),
            Val::W(_) => err("wide value used as address"),
            Val::Agg(_) => err("aggregate used as scalar"),
        }
    }

    fn conc(&self, s: &State, e: E) -> R<u64> {
        if let Some(k) = self.p.as_const(e) {
            return Ok(k as u64);
        }
        match s.known.get(&e) {
            Some(k) => Ok(*k),
            None => Err(Stop::Concretize(e)),
        }
    }

    fn ex(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::S(e) => *e,
            Val::C(k) => self.p.cst(w, *k as u128),
            Val::W(k) => self.p.cst(w, **k),
            Val::Agg(_) => panic!("aggregate in expression"),
        }
    }

    fn to_bits(&mut self, v: &Val, ty: &Ty) -> Val {
        match ty {
            Ty::Vector(n, t) => {
                let ew = t.bits() as u32;
                if let Val::Agg(a) = v {
                    let mut acc: Option<E> = None;
                    for i in 0..*n as usize {
                        let e = self.ex(&a[i], ew);
                        acc = Some(match acc {
                            None => e,
                            Some(lo) => self.p.concat(e, lo),
                        });
                    }
                    let e = acc.unwrap();
                    match self.p.as_const(e) {
                        Some(k) => Val::mk(k),
                        None => Val::S(e),
                    }
                } else {
                    v.clone()
                }
            }
            _ => v.clone(),
        }
    }

    fn from_bits(&mut self, s: &State, v: Val, ty: &Ty) -> Val {
        match ty {
            Ty::Vector(n, t) => {
                let ew = t.bits() as u32;
                let e = self.ex(&v, ew * *n as u32);
                let mut out = vec![];
                for i in 0..*n as u32 {
                    let x = self.p.extract(e, i * ew, ew);
                    out.push(self.norm(s, x));
                }
                Val::Agg(Rc::new(out))
            }
            _ => v,
        }
    }

    fn vop(op: BinOp) -> Op {
        match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
        }
    }

    fn bin(&mut self, s: &State, op: BinOp, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vector(_, t) = ty {
            if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
                let mut v = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    v.push(self.bin(s, op, t, &x[i], &y[i])?);
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
        }
        let w = ty.bits() as u32;
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = mask(w) as u64;
                let r = match op {
                    BinOp::Add => x.wrapping_add(*y) & m,
                    BinOp::Sub => x.wrapping_sub(*y) & m,
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    _ => {
                        if *y == 0
                            && matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem)
                        {
                            return self.ub("division by zero".into());
                        }
                        fold(Self::vop(op), w, *x as u128, *y as u128) as u64
                    }
                };
                return Ok(Val::C(r));
            }
        }
        let (ea, eb) = (self.ex(a, w), self.ex(b, w));
        let r = self.p.bin(Self::vop(op), ea, eb);
        Ok(self.norm(s, r))
    }

    fn icmp(&mut self, s: &State, p: Pred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vector(_, t) = ty {
            if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
                let mut v = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    v.push(self.icmp(s, p, t, &x[i], &y[i])?);
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
        }
        let w = ty.bits() as u32;
        if let (Some(x), Some(y)) = (a.as_u128(), b.as_u128()) {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return Ok(Val::C(r as u64));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let p_ = &mut self.p;
        let r = match p {
            Pred::Eq => p_.eq(x, y),
            Pred::Ne => {
                let e = p_.eq(x, y);
                p_.not(e)
            }
            Pred::Ugt => p_.ult(y, x),
            Pred::Uge => p_.ule(y, x),
            Pred::Ult => p_.ult(x, y),
            Pred::Ule => p_.ule(x, y),
            Pred::Sgt => p_.bin(Op::Slt, y, x),
            Pred::Slt => p_.bin(Op::Slt, x, y),
            Pred::Sge => {
                let e = p_.bin(Op::Slt, x, y);
                p_.not(e)
            }
            Pred::Sle => {
                let e = p_.bin(Op::Slt, y, x);
                p_.not(e)
            }
        };
        Ok(self.norm(s, r))
    }

    fn cast(&mut self, s: &State, k: Cast, from: &Ty, to: &Ty, a: &Val) -> Val {
        if let (Ty::Vector(_, f), Ty::Vector(_, t)) = (from, to) {
            if let Val::Agg(x) = a {
                let mut v = vec![];
                for i in x.iter() {
                    v.push(self.cast(s, k, f, t, i));
                }
                return Val::Agg(Rc::new(v));
            }
        }
        let (fw, tw) = (from.bits() as u32, to.bits() as u32);
        match a.as_u128() {
            Some(x) => Val::mk(match k {
                Cast::Trunc => x & mask(tw),
                Cast::ZExt => x,
                Cast::SExt => sext(x, fw) as u128 & mask(tw),
            }),
            None => {
                let e = self.ex(a, fw);
                let r = match k {
                    Cast::Trunc => self.p.extract(e, 0, tw),
                    Cast::ZExt => self.p.zext(e, tw),
                    Cast::SExt => self.p.sext(e, tw),
                };
                self.norm(s, r)
            }
        }
    }

    fn ite_val(&mut self, s: &State, c: E, ty: &Ty, a: &Val, b: &Val) -> Val {
        if a == b {
            return a.clone();
        }
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
                    let mut v = vec![];
                    for i in 0..x.len() {
                        let (_, t) = ty.field_offset(i as u64);
                        v.push(self.ite_val(s, c, &t, &x[i], &y[i]));
                    }
                    return Val::Agg(Rc::new(v));
                }
                a.clone()
            }
            _ => {
                let w = ty.bits() as u32;
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let r = self.p.ite(c, x, y);
                self.norm(s, r)
            }
        }
    }

    fn narrow(ty: &Ty) -> bool {
        match ty {
            Ty::Int(w) => *w <= 32,
            Ty::Struct(f, _) => f.iter().all(|t| Self::narrow(t)),
            _ => false,
        }
    }

    fn select(&mut self, s: &State, cty: &Ty, ty: &Ty, c: &Val, a: &Val, b: &Val) -> R<Val> {
        if let (Ty::Vector(..), Val::Agg(cs)) = (cty, c) {
            if let (Val::Agg(x), Val::Agg(y), Ty::Vector(_, t)) = (a, b, ty) {
                let mut v = vec![];
                for i in 0..cs.len() {
                    v.push(self.select(s, &Ty::Int(1), t, &cs[i], &x[i], &y[i])?);
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
        }
        match c {
            Val::C(k) => Ok(if *k == 1 { a.clone() } else { b.clone() }),
            Val::S(e) => {
                if a == b {
                    return Ok(a.clone());
                }
                if let Some(k) = s.known.get(e) {
                    return Ok(if *k == 1 { a.clone() } else { b.clone() });
                }
                if Self::narrow(ty) {
                    return Ok(self.ite_val(s, *e, ty, a, b));
                }
                // values that steer addresses and lengths: decide now
                Err(Stop::Concretize(*e))
            }
            _ => err("select condition"),
        }
    }

    // ---------------------------------------------------------------- control

    fn enter_block(&mut self, s: &mut State, from: u32, to: u32) -> R<()> {
        let body = unsafe { &*s.cur.body };
        let b = &body.blocks[to as usize];
        b.seen.set(true);
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let ph = &b.phis[0];
                let v = match ph.inc.iter().find(|x| x.0 == from) {
                    Some((_, o)) => self.get(s, o),
                    None => return err("phi without edge"),
                };
                s.cur.regs[ph.dst as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for ph in &b.phis {
                    match ph.inc.iter().find(|x| x.0 == from) {
                        Some((_, o)) => vals.push(self.get(s, o)),
                        None => return err("phi without edge"),
                    }
                }
                for (ph, v) in b.phis.iter().zip(vals) {
                    s.cur.regs[ph.dst as usize] = v;
                }
            }
        }
        s.cur.bb = to;
        s.cur.ip = 0;
        Ok(())
    }

    fn region(&mut self, body: *const Body, bb: u32) -> Option<Rc<Region>> {
        let key = (body as usize, bb);
        if let Some(r) = self.regions.get(&key) {
            return r.clone();
        }
        let b = unsafe { &*body };
        let mut inr: Vec<u32> = vec![];
        loop {
            let mut add = None;
            'outer: for x in std::iter::once(&bb).chain(inr.iter()) {
                for t in &b.blocks[*x as usize].succs {
                    if *t == bb || inr.contains(t) {
                        continue;
                    }
                    let tb = &b.blocks[*t as usize];
                    if !tb.pure_ || !tb.preds.iter().all(|q| *q == bb || inr.contains(q)) {
                        continue;
                    }
                    if tb.phis.iter().any(|ph| !Self::narrow(&ph.ty)) && tb.preds.len() > 1 {
                        continue;
                    }
                    add = Some(*t);
                    break 'outer;
                }
            }
            match add {
                Some(t) if inr.len() < 64 => inr.push(t),
                _ => break,
            }
        }
        let r = if inr.is_empty() { None } else { Some(Rc::new(Region { blocks: inr })) };
        self.regions.insert(key, r.clone());
        r
    }

    fn edges_of(
        &mut self,
        s: &State,
        inst: &Inst,
        ex: E,
    ) -> R<Vec<(u32, E)>> {
        let mut out: Vec<(u32, E)> = vec![];
        match inst {
            Inst::Br(t) => out.push((*t, ex)),
            Inst::CondBr(c, t, f) => {
                let cv = self.get(s, c);
                let mut c = self.ex(&cv, 1);
                if let Some(k) = s.known.get(&c) {
                    c = self.p.cst(1, *k as u128);
                }
                let n = self.p.not(c);
                let (a, b) = (self.p.and1(ex, c), self.p.and1(ex, n));
                if t == f {
                    out.push((*t, ex));
                } else {
                    out.push((*t, a));
                    out.push((*f, b));
                }
            }
            Inst::Switch(w, v, def, cases) => {
                let vv = self.get(s, v);
                let mut ve = self.ex(&vv, *w);
                if let Some(k) = s.known.get(&ve) {
                    ve = self.p.cst(*w, *k as u128);
                }
                let mut by: Vec<(u32, E)> = vec![];
                let mut rest = self.p.cst(1, 1);
                for (k, t) in cases {
                    let kc = self.p.cst(*w, *k);
                    let c = self.p.eq(ve, kc);
                    let n = self.p.not(c);
                    rest = self.p.and1(rest, n);
                    if let Some(x) = by.iter_mut().find(|x| x.0 == *t) {
                        x.1 = self.p.or1(x.1, c);
                    } else {
                        by.push((*t, c));
                    }
                }
                if let Some(x) = by.iter_mut().find(|x| x.0 == *def) {
                    x.1 = self.p.or1(x.1, rest);
                } else {
                    by.push((*def, rest));
                }
                for (t, c) in by {
                    let e = self.p.and1(ex, c);
                    out.push((t, e));
                }
            }
            _ => return err("edges"),
        }
        Ok(out)
    }

    /// Symbolic branch: merge side-effect free code, then fork
    fn branch(&mut self, s: &mut State, inst: &Inst) -> R<()> {
        let body = s.cur.body;
        let bb = s.cur.bb;
        let b = unsafe { &*body };
        let one = self.p.cst(1, 1);
        let first = self.edges_of(s, inst, one)?;
        // (target, from) -> cond
        let mut edges: Vec<(u32, u32, E)> =
            first.iter().filter(|x| self.p.as_const(x.1) != Some(0)).map(|x| (x.0, bb, x.1)).collect();
        if edges.len() > 1 {
            // cheap decision first: is only one of the targets possible?
            let mut feas: Vec<(u32, u32, E)> = vec![];
            for x in edges.iter() {
                let ok = self.p.eval(x.2, &s.model) == 1 || self.query(&s.cons, x.2)?.is_some();
                if ok {
                    feas.push(*x);
                }
            }
            edges = feas;
            self.st.decisions += 1;
        }
        if edges.len() == 1 {
            let (t, f, c) = edges[0];
            if self.p.as_const(c).is_none() {
                Rc::make_mut(&mut s.known).insert(c, 1);
                let n = self.p.not(c);
                Rc::make_mut(&mut s.known).insert(n, 0);
            }
            return self.enter_block(s, f, t);
        }
        let saved = edges.clone();
        let mut exits: Vec<(u32, u32, E)> = edges.clone();
        if let Some(r) = self.region(body, bb) {
            let mut ok = true;
            let mut cur = edges;
            let save_regs = s.cur.regs.clone();
            self.in_region = true;
            for x in &r.blocks {
                let inc: Vec<(u32, u32, E)> = cur.iter().filter(|e| e.0 == *x).cloned().collect();
                cur.retain(|e| e.0 != *x);
                if inc.is_empty() {
                    continue;
                }
                let mut ex = self.p.cst(1, 0);
                for e in &inc {
                    ex = self.p.or1(ex, e.2);
                }
                let blk = &b.blocks[*x as usize];
                blk.seen.set(true);
                let mut vals = vec![];
                for ph in &blk.phis {
                    match self.phi_merge(s, ph, &inc) {
                        Ok(v) => vals.push((ph.dst, v)),
                        Err(_) => ok = false,
                    }
                }
                if !ok {
                    break;
                }
                for (d, v) in vals {
                    s.cur.regs[d as usize] = v;
                }
                let n = blk.insts.len();
                for i in &blk.insts[..n - 1] {
                    if self.exec_simple(s, i).is_err() {
                        ok = false;
                        break;
                    }
                }
                if !ok {
                    break;
                }
                for (t, c) in self.edges_of(s, &blk.insts[n - 1], ex)? {
                    if self.p.as_const(c) != Some(0) {
                        cur.push((t, *x, c));
                    }
                }
            }
            self.in_region = false;
            if ok {
                exits = cur;
                self.st.merged += 1;
            } else {
                s.cur.regs = save_regs;
                exits = saved;
            }
        }
        // group exit edges by target, and by the values of phis that must not be merged
        let mut groups: Vec<(u32, Vec<(u32, u32, E)>, Vec<Val>)> = vec![];
        for e in exits {
            let tb = &b.blocks[e.0 as usize];
            let mut wide = vec![];
            for ph in &tb.phis {
                if !Self::narrow(&ph.ty) {
                    match ph.inc.iter().find(|x| x.0 == e.1) {
                        Some((_, o)) => wide.push(self.get(s, o)),
                        None => return err("phi without edge"),
                    }
                }
            }
            if let Some(g) = groups.iter_mut().find(|g| g.0 == e.0 && g.2 == wide) {
                g.1.push(e);
            } else {
                groups.push((e.0, vec![e], wide));
            }
        }
        let mut alts: Vec<(E, Box<dyn Fn(&mut Engine<'t>, &mut State) -> R<()> + 't>)> = vec![];
        for (t, es, _) in groups {
            let mut c = self.p.cst(1, 0);
            for e in &es {
                c = self.p.or1(c, e.2);
            }
            let body = body;
            alts.push((
                c,
                Box::new(move |en, st| {
                    let b = unsafe { &*body };
                    if es.len() == 1 {
                        return en.enter_block(st, es[0].1, t);
                    }
                    let tb = &b.blocks[t as usize];
                    let mut vals = vec![];
                    for ph in &tb.phis {
                        vals.push(en.phi_merge(st, ph, &es)?);
                    }
                    for (ph, v) in tb.phis.iter().zip(vals) {
                        st.cur.regs[ph.dst as usize] = v;
                    }
                    st.cur.bb = t;
                    st.cur.ip = 0;
                    Ok(())
                }),
            ));
        }
        let me = std::mem::replace(s, self.dead_state());
        let out = self.fork_alts(me, alts)?;
        Err(Stop::Fork(out))
    }

    fn dead_state(&self) -> State {
        State {
            cur: Frame { func: 0, body: std::ptr::null(), bb: 0, ip: 0, regs: vec![], ret: None, stack_base: 0 },
            callers: None,
            stack: vec![],
            heap: Heap::default(),
            gover: Rc::new(HashMap::new()),
            cons: vec![],
            known: Rc::new(HashMap::new()),
            model: Rc::new(vec![]),
            inputs: vec![],
            obs: vec![],
            steps: 0,
            depth: 0,
        }
    }

    fn phi_merge(&mut self, s: &State, ph: &Phi, inc: &[(u32, u32, E)]) -> R<Val> {
        let mut acc: Option<Val> = None;
        for e in inc.iter().rev() {
            let v = match ph.inc.iter().find(|x| x.0 == e.1) {
                Some((_, o)) => self.get(s, o),
                None => return err("phi without edge"),
            };
            acc = Some(match acc {
                None => v,
                Some(a) => self.ite_val(s, e.2, &ph.ty, &v, &a),
            });
        }
        acc.ok_or(Stop::Error("empty phi".into()))
    }

    /// Instructions without control flow
    fn exec_simple(&mut self, s: &mut State, i: &Inst) -> R<()> {
        match i {
            Inst::Bin(op, ty, d, a, b) => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                if let (Val::S(e), BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) = (&y, op) {
                    // division by zero is checked by the compiler; insist
                    let z = self.p.cst(ty.bits() as u32, 0);
                    let c = self.p.eq(*e, z);
                    if self.decide(s, c)? != Some(false) {
                        return err("possible division by zero");
                    }
                }
                let v = self.bin(s, *op, ty, &x, &y)?;
                s.cur.regs[*d as usize] = v;
            }
            Inst::Cast(k, f, t, d, a) => {
                let x = self.get(s, a);
                let v = self.cast(s, *k, f, t, &x);
                s.cur.regs[*d as usize] = v;
            }
            Inst::Icmp(p, ty, d, a, b) => {
                let (x, y) = (self.get(s, a), self.get(s, b));
                let v = self.icmp(s, *p, ty, &x, &y)?;
                s.cur.regs[*d as usize] = v;
            }
            Inst::Float(op, f, t, d, a) => {
                let mut v = vec![];
                for x in a {
                    v.push(self.getc(s, x)?);
                }
                s.cur.regs[*d as usize] = match float(op, f.bits() as u32, t.bits() as u32, &v) {
                    Some(r) => Val::mk(r as u128),
                    None => return err(format!("unsupported instruction: {}", op)),
                };
            }
            Inst::Select(ct, t, d, c, a, b) => {
                let (cv, x, y) = (self.get(s, c), self.get(s, a), self.get(s, b));
                let v = self.select(s, ct, t, &cv, &x, &y)?;
                s.cur.regs[*d as usize] = v;
            }
            Inst::Load(ty, d, p) => {
                let pv = self.get(s, p);
                let v = match pv {
                    Val::C(a) => self.load(s, ty, a)?,
                    Val::S(e) => match s.known.get(&e) {
                        Some(k) => self.load(s, ty, *k)?,
                        None => match self.table_load(s, ty, e)? {
                            Some(v) => v,
                            None => return Err(Stop::Concretize(e)),
                        },
                    },
                    _ => return err("load pointer"),
                };
                s.cur.regs[*d as usize] = v;
            }
            Inst::Store(ty, v, p) => {
                let a = self.getc(s, p)?;
                let v = self.get(s, v);
                self.store(s, ty, a, &v)?;
            }
            Inst::Alloca(d, sz, n) => {
                let n = self.getc(s, n)?;
                let i = s.stack.len() as u64;
                s.stack.push(Rc::new(Obj { data: vec![0; (*sz * n) as usize], sym: vec![], ro: false }));
                s.cur.regs[*d as usize] = Val::C((STACK_OBJ + i) << 32);
            }
            Inst::Gep(d, base, off, dynv) => {
                let b = self.get(s, base);
                let mut acc_c = *off;
                let mut acc_e: Option<E> = None;
                match b {
                    Val::C(x) => acc_c = acc_c.wrapping_add(x),
                    Val::S(e) => acc_e = Some(e),
                    _ => return err("gep base"),
                }
                for (o, scale, w) in dynv {
                    match self.get(s, o) {
                        Val::C(x) => {
                            let x = sext(x as u128, *w) as i64 as u64;
                            acc_c = acc_c.wrapping_add(x.wrapping_mul(*scale));
                        }
                        Val::S(e) => {
                            let e = if *w < 64 { self.p.sext(e, 64) } else { e };
                            let k = self.p.cst(64, *scale as u128);
                            let t = self.p.bin(Op::Mul, e, k);
                            acc_e = Some(match acc_e {
                                None => t,
                                Some(a) => self.p.bin(Op::Add, a, t),
                            });
                        }
                        _ => return err("gep index"),
                    }
                }
                s.cur.regs[*d as usize] = match acc_e {
                    None => Val::C(acc_c),
                    Some(e) => {
                        let k = self.p.cst(64, acc_c as u128);
                        let r = self.p.bin(Op::Add, e, k);
                        self.norm(s, r)
                    }
                };
            }
            Inst::Extract(d, a, idx) => {
                let mut v = self.get(s, a);
                for i in idx {
                    v = match v {
                        Val::Agg(x) => x[*i as usize].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                s.cur.regs[*d as usize] = v;
            }
            Inst::Insert(d, a, x, idx) => {
                let mut v = self.get(s, a);
                let x = self.get(s, x);
                fn ins(v: &mut Val, idx: &[u32], x: Val) -> bool {
                    if idx.is_empty() {
                        *v = x;
                        return true;
                    }
                    match v {
                        Val::Agg(a) => ins(&mut Rc::make_mut(a)[idx[0] as usize], &idx[1..], x),
                        _ => false,
                    }
                }
                if !ins(&mut v, idx, x) {
                    return err("insertvalue");
                }
                s.cur.regs[*d as usize] = v;
            }
            Inst::ExtractElt(d, a, i) => {
                let k = self.getc(s, i)? as usize;
                let v = match self.get(s, a) {
                    Val::Agg(x) => x[k].clone(),
                    _ => return err("extractelement"),
                };
                s.cur.regs[*d as usize] = v;
            }
            Inst::InsertElt(d, a, x, i) => {
                let k = self.getc(s, i)? as usize;
                let x = self.get(s, x);
                let mut v = self.get(s, a);
                match &mut v {
                    Val::Agg(y) => Rc::make_mut(y)[k] = x,
                    _ => return err("insertelement"),
                }
                s.cur.regs[*d as usize] = v;
            }
            Inst::Shuffle(d, a, b, m) => {
                let v = match (self.get(s, a), self.get(s, b)) {
                    (Val::Agg(x), Val::Agg(y)) => m
                        .iter()
                        .map(|i| {
                            let i = *i as usize;
                            if i < x.len() {
                                x[i].clone()
                            } else {
                                y[i - x.len()].clone()
                            }
                        })
                        .collect(),
                    _ => return err("shuffle"),
                };
                s.cur.regs[*d as usize] = Val::Agg(Rc::new(v));
            }
            Inst::Copy(d, a) => {
                let v = self.get(s, a);
                s.cur.regs[*d as usize] = v;
            }
            Inst::Bitcast(d, f, t, a) => {
                let v = self.get(s, a);
                let b = self.to_bits(&v, f);
                let v = self.from_bits(s, b, t);
                s.cur.regs[*d as usize] = v;
            }
            Inst::AtomicRmw(op, ty, d, p, v) => {
                let a = self.getc(s, p)?;
                let old = self.load(s, ty, a)?;
                let v = self.get(s, v);
                let w = ty.bits() as u32;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(s, BinOp::Add, ty, &old, &v)?,
                    "sub" => self.bin(s, BinOp::Sub, ty, &old, &v)?,
                    "and" => self.bin(s, BinOp::And, ty, &old, &v)?,
                    "or" => self.bin(s, BinOp::Or, ty, &old, &v)?,
                    "xor" => self.bin(s, BinOp::Xor, ty, &old, &v)?,
                    "umax" | "umin" => match (&old, &v) {
                        (Val::C(x), Val::C(y)) => {
                            Val::C(if op == "umax" { *x.max(y) } else { *x.min(y) })
                        }
                        _ => return err("atomicrmw"),
                    },
                    _ => return err(format!("atomicrmw {} {}", op, w)),
                };
                self.store(s, ty, a, &new)?;
                s.cur.regs[*d as usize] = old;
            }
            Inst::CmpXchg(ty, d, p, c, n) => {
                let a = self.getc(s, p)?;
                let old = self.load(s, ty, a)?;
                let (c, n) = (self.get(s, c), self.get(s, n));
                let eq = self.icmp(s, Pred::Eq, ty, &old, &c)?;
                let k = match eq {
                    Val::C(k) => k,
                    Val::S(e) => self.conc(s, e)?,
                    _ => return err("cmpxchg"),
                };
                if k == 1 {
                    self.store(s, ty, a, &n)?;
                }
                s.cur.regs[*d as usize] = Val::Agg(Rc::new(vec![old, Val::C(k)]));
            }
            Inst::Call(d, rt, Callee::Func(f), args) => {
                // only pure intrinsics get here
                let argv: Vec<Val> = args.iter().map(|a| self.get(s, a)).collect();
                let name = self.m.funcs[*f as usize].name.clone();
                let v = self.intrinsic(s, &name, rt, &argv)?;
                if let (Some(d), Some(v)) = (d, v) {
                    s.cur.regs[*d as usize] = v;
                }
            }
            Inst::Nop => {}
            Inst::Unsupported(m) => return err(format!("unsupported instruction: {}", m)),
            _ => return err("not a simple instruction"),
        }
        Ok(())
    }

    /// Load from a small constant table with a symbolic index
    fn table_load(&mut self, s: &State, ty: &Ty, e: E) -> R<Option<Val>> {
        let w = match ty {
            Ty::Int(w) if *w <= 32 && *w % 8 == 0 => *w,
            _ => return Ok(None),
        };
        // address = base const + idx
        let n = self.p.n(e);
        if n.op != Op::Add {
            return Ok(None);
        }
        let base = match self.p.as_const(n.b) {
            Some(k) => k as u64,
            None => return Ok(None),
        };
        let id = base >> 32;
        if id < GLOBAL_OBJ || (id - GLOBAL_OBJ) as usize >= self.globals.len() {
            return Ok(None);
        }
        let gi = (id - GLOBAL_OBJ) as u32;
        let o = self.global_obj(gi)?;
        if !o.ro || base & 0xffff_ffff != 0 || o.data.len() > 1024 {
            return Ok(None);
        }
        // index scale
        let idx = n.a;
        let ni = self.p.n(idx);
        let (idx, scale) = if ni.op == Op::Mul {
            match self.p.as_const(ni.b) {
                Some(k) => (ni.a, k as u64),
                None => (idx, 1),
            }
        } else {
            (idx, 1)
        };
        let bytes = (w / 8) as u64;
        let count = if scale >= bytes { o.data.len() as u64 / scale } else { o.data.len() as u64 - bytes + 1 };
        if count == 0 {
            return Ok(None);
        }
        // all feasible indexes must be in bounds
        let lim = self.p.cst(64, count as u128);
        let inb = self.p.ult(idx, lim);
        if self.decide(s, inb)? != Some(true) {
            return Ok(None);
        }
        let val_at = |i: u64| -> u128 {
            let off = (i * scale) as usize;
            let mut b = [0u8; 16];
            b[..bytes as usize].copy_from_slice(&o.data[off..off + bytes as usize]);
            u128::from_le_bytes(b)
        };
        let mut runs: Vec<(u64, u128)> = vec![]; // (end, value)
        for i in 0..count {
            let v = val_at(i);
            match runs.last_mut() {
                Some((end, x)) if *x == v => *end = i + 1,
                _ => runs.push((i + 1, v)),
            }
        }
        let mut acc = self.p.cst(w, runs.last().unwrap().1);
        for (end, v) in runs.iter().rev().skip(1) {
            let k = self.p.cst(64, *end as u128);
            let c = self.p.ult(idx, k);
            let x = self.p.cst(w, *v);
            acc = self.p.ite(c, x, acc);
        }
        Ok(Some(self.norm(s, acc)))
    }

    fn intrinsic(&mut self, s: &mut State, name: &str, rt: &Ty, a: &[Val]) -> R<Option<Val>> {
        let base = &name[5..];
        let w = match rt {
            Ty::Struct(f, _) if !f.is_empty() => f[0].bits() as u32,
            t => t.bits() as u32,
        };
        let starts = |p: &str| base.starts_with(p);
        if starts("lifetime.") || starts("experimental.noalias") || starts("dbg.")
            || starts("x86.sse2.pause") || starts("prefetch") || starts("sideeffect")
            || starts("donothing") || starts("invariant.")
        {
            return Ok(Some(Val::C(0)));
        }
        if let Ty::Vector(n, t) = rt {
            // lane-wise
            let mut out = vec![];
            for i in 0..*n as usize {
                let av: Vec<Val> = a
                    .iter()
                    .map(|v| match v {
                        Val::Agg(x) => x[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                match self.intrinsic(s, name, t, &av)? {
                    Some(v) => out.push(v),
                    None => return err("vector intrinsic"),
                }
            }
            return Ok(Some(Val::Agg(Rc::new(out))));
        }
        let fw = if base.ends_with(".f32") { 32 } else { 64 };
        if base.ends_with(".f32") || base.ends_with(".f64") {
            let mut v = vec![];
            for x in a {
                v.push(match x {
                    Val::S(e) => self.conc(s, *e)?,
                    v => v.as_u128().unwrap_or(0) as u64,
                });
            }
            let op = base.split(".i").next().unwrap_or("").trim_end_matches(".f32").trim_end_matches(".f64");
            return Ok(float(op, fw, w, &v).map(|r| Val::mk(r as u128)));
        }
        let mm = if starts("umin.") {
            Some(Pred::Ult)
        } else if starts("umax.") {
            Some(Pred::Ugt)
        } else if starts("smin.") {
            Some(Pred::Slt)
        } else if starts("smax.") {
            Some(Pred::Sgt)
        } else {
            None
        };
        if let Some(p) = mm {
            let c = self.icmp(s, p, rt, &a[0], &a[1])?;
            return Ok(Some(self.select(s, &Ty::Int(1), rt, &c, &a[0], &a[1])?));
        }
        if starts("usub.sat.") {
            let c = self.icmp(s, Pred::Ult, rt, &a[0], &a[1])?;
            let d = self.bin(s, BinOp::Sub, rt, &a[0], &a[1])?;
            return Ok(Some(self.select(s, &Ty::Int(1), rt, &c, &Val::C(0), &d)?));
        }
        if starts("uadd.sat.") {
            let d = self.bin(s, BinOp::Add, rt, &a[0], &a[1])?;
            let c = self.icmp(s, Pred::Ult, rt, &d, &a[0])?;
            return Ok(Some(self.select(s, &Ty::Int(1), rt, &c, &Val::mk(mask(w)), &d)?));
        }
        if base.contains(".with.overflow.") {
            let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
            let signed = base.starts_with('s');
            let op = match &base[1..4] {
                "add" => Op::Add,
                "sub" => Op::Sub,
                _ => Op::Mul,
            };
            if w > 63 {
                if let (Some(p), Some(q)) = (self.p.as_const(x), self.p.as_const(y)) {
                    // concrete 64/128-bit case
                    let r = fold(op, w, p, q);
                    let o = if signed {
                        let (p, q) = (sext(p, w), sext(q, w));
                        let t = match op {
                            Op::Add => p.checked_add(q),
                            Op::Sub => p.checked_sub(q),
                            _ => p.checked_mul(q),
                        };
                        t.map_or(true, |t| t != sext(r, w))
                    } else {
                        let t = match op {
                            Op::Add => p.checked_add(q),
                            Op::Sub => p.checked_sub(q),
                            _ => p.checked_mul(q),
                        };
                        t.map_or(true, |t| t != r)
                    };
                    return Ok(Some(Val::Agg(Rc::new(vec![Val::mk(r), Val::C(o as u64)]))));
                }
                if w > 64 {
                    return err("wide symbolic overflow arithmetic");
                }
            }
            let ww = if op == Op::Mul { (2 * w).min(128) } else { w + 1 };
            let (xe, ye) = if signed {
                (self.p.sext(x, ww), self.p.sext(y, ww))
            } else {
                (self.p.zext(x, ww), self.p.zext(y, ww))
            };
            let full = self.p.bin(op, xe, ye);
            let r = self.p.bin(op, x, y);
            let o = if signed {
                let re = self.p.sext(r, ww);
                let e = self.p.eq(full, re);
                self.p.not(e)
            } else if op == Op::Sub {
                self.p.ult(x, y)
            } else if op == Op::Add {
                self.p.ult(r, x)
            } else {
                let re = self.p.zext(r, ww);
                let e = self.p.eq(full, re);
                self.p.not(e)
            };
            let (r, o) = (self.norm(s, r), self.norm(s, o));
            return Ok(Some(Val::Agg(Rc::new(vec![r, o]))));
        }
        if starts("ctpop.") || starts("cttz.") || starts("ctlz.") || starts("bitreverse.") || starts("bswap.") {
            if let Some(x) = a[0].as_u128() {
                let r = if starts("ctpop.") {
                    x.count_ones() as u128
                } else if starts("cttz.") {
                    if x == 0 { w as u128 } else { x.trailing_zeros() as u128 }
                } else if starts("ctlz.") {
                    (x.leading_zeros() - (128 - w)) as u128
                } else if starts("bswap.") {
                    x.swap_bytes() >> (128 - w)
                } else {
                    x.reverse_bits() >> (128 - w)
                };
                return Ok(Some(Val::mk(r)));
            }
            let x = self.ex(&a[0], w);
            let r = if starts("ctpop.") {
                let mut acc = self.p.cst(w, 0);
                for i in 0..w {
                    let b = self.p.extract(x, i, 1);
                    let z = self.p.zext(b, w);
                    acc = self.p.bin(Op::Add, acc, z);
                }
                acc
            } else if starts("cttz.") {
                let mut acc = self.p.cst(w, w as u128);
                for i in (0..w).rev() {
                    let b = self.p.extract(x, i, 1);
                    let k = self.p.cst(w, i as u128);
                    acc = self.p.ite(b, k, acc);
                }
                acc
            } else if starts("ctlz.") {
                let mut acc = self.p.cst(w, w as u128);
                for i in 0..w {
                    let b = self.p.extract(x, i, 1);
                    let k = self.p.cst(w, (w - 1 - i) as u128);
                    acc = self.p.ite(b, k, acc);
                }
                acc
            } else if starts("bswap.") {
                let mut acc = self.p.extract(x, 0, 8);
                for i in 1..w / 8 {
                    let b = self.p.extract(x, i * 8, 8);
                    acc = self.p.concat(acc, b);
                }
                acc
            } else {
                let mut acc = self.p.extract(x, 0, 1);
                for i in 1..w {
                    let b = self.p.extract(x, i, 1);
                    acc = self.p.concat(acc, b);
                }
                acc
            };
            return Ok(Some(self.norm(s, r)));
        }
        if starts("fshl.") || starts("fshr.") {
            let k = match a[2].as_u128() {
                Some(k) => (k % w as u128) as u32,
                None => return err("symbolic funnel shift"),
            };
            let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
            // concat(x,y) shifted: take bit slices instead of building 2w bits
            let r = if starts("fshl.") {
                if k == 0 {
                    x
                } else {
                    let hi = self.p.extract(x, 0, w - k);
                    let lo = self.p.extract(y, w - k, k);
                    self.p.concat(hi, lo)
                }
            } else if k == 0 {
                y
            } else {
                let hi = self.p.extract(x, 0, k);
                let lo = self.p.extract(y, k, w - k);
                self.p.concat(hi, lo)
            };
            return Ok(Some(self.norm(s, r)));
        }
        if starts("abs.") {
            let c = self.icmp(s, Pred::Slt, rt, &a[0], &Val::C(0))?;
            let n = self.bin(s, BinOp::Sub, rt, &Val::C(0), &a[0])?;
            return Ok(Some(self.select(s, &Ty::Int(1), rt, &c, &n, &a[0])?));
        }
        if starts("ucmp.") || starts("scmp.") {
            let iw: u32 = base.rsplit(".i").next().and_then(|x| x.parse().ok()).unwrap_or(64);
            let it = Ty::Int(iw);
            let p = if starts("ucmp.") { Pred::Ult } else { Pred::Slt };
            let lt = self.icmp(s, p, &it, &a[0], &a[1])?;
            let eq = self.icmp(s, Pred::Eq, &it, &a[0], &a[1])?;
            let (lt, eq) = (self.ex(&lt, 1), self.ex(&eq, 1));
            let (m1, z, p1) = (self.p.cst(w, mask(w)), self.p.cst(w, 0), self.p.cst(w, 1));
            let r = self.p.ite(eq, z, p1);
            let r = self.p.ite(lt, m1, r);
            return Ok(Some(self.norm(s, r)));
        }
        if starts("expect.") || starts("threadlocal.address") || starts("ssa.copy") {
            return Ok(Some(a[0].clone()));
        }
        if starts("is.constant.") {
            return Ok(Some(Val::C(0)));
        }
        if starts("objectsize.") {
            return Ok(Some(Val::C(u64::MAX)));
        }
        if starts("vector.reduce.") {
            if let Val::Agg(v) = &a[0] {
                let op = base.split('.').nth(2).unwrap_or("");
                let mut acc = v[0].clone();
                for x in &v[1..] {
                    acc = match op {
                        "add" => self.bin(s, BinOp::Add, rt, &acc, x)?,
                        "or" => self.bin(s, BinOp::Or, rt, &acc, x)?,
                        "and" => self.bin(s, BinOp::And, rt, &acc, x)?,
                        "xor" => self.bin(s, BinOp::Xor, rt, &acc, x)?,
                        "umax" => self.intrinsic(s, "llvm.umax.", rt, &[acc, x.clone()])?.unwrap(),
                        "umin" => self.intrinsic(s, "llvm.umin.", rt, &[acc, x.clone()])?.unwrap(),
                        _ => return err(format!("intrinsic {}", name)),
                    };
                }
                return Ok(Some(acc));
            }
        }
        err(format!("intrinsic {}", name))
    }

    /// True if the default hasher is only ever used through calls that can be
    /// intercepted
    fn hash_calls_only(&mut self) -> bool {
        if let Some(r) = self.hash_calls {
            return r;
        }
        // the first constant of the SipHash state
        let r = self.m.funcs.iter().all(|f| match f.text {
            Some((a, b)) if !f.name.contains("8hash_one") => !self.m.text[a..b].contains("8317987319222330741"),
            _ => true,
        });
        self.hash_calls = Some(r);
        r
    }

    fn classify(&mut self, f: u32) -> Ext {
        if let Some(e) = self.ext.get(&f) {
            return *e;
        }
        let one_hash = hashes_text(&self.m.funcs[f as usize].name) && self.hash_calls_only();
        let n = self.m.funcs[f as usize].name.as_str();
        let has_body = self.m.funcs[f as usize].text.is_some();
        let e = if n.starts_with("llvm.") {
            Ext::Intrinsic
        } else if n.contains("12___rust_alloc") && n.ends_with("12___rust_alloc") {
            Ext::Alloc
        } else if n.ends_with("19___rust_alloc_zeroed") {
            Ext::AllocZeroed
        } else if n.ends_with("14___rust_dealloc") {
            Ext::Dealloc
        } else if n.ends_with("14___rust_realloc") {
            Ext::Realloc
        } else if n.contains("4core9panicking") && (n.starts_with("_RNv") || n.starts_with("_RINv")) {
            Ext::Panic
        } else if n.ends_with("17rust_begin_unwind") || n.ends_with("10rust_panic") {
            Ext::Panic
        } else if !self.cfg.print && (n.ends_with("3std2io5stdio6__print") || n.ends_with("3std2io5stdio7__eprint")) {
            Ext::Print
        } else if n.contains("19hashmap_random_keys") {
            Ext::RandomKeys
        } else if one_hash {
            Ext::HashText
        } else if !has_body {
            match n {
                "malloc" => Ext::Malloc,
                "calloc" => Ext::Calloc,
                "free" => Ext::Free,
                "bcmp" | "memcmp" => Ext::Bcmp,
                "strlen" => Ext::Strlen,
                "getrandom" => Ext::Getrandom,
                "abort" => Ext::Abort,
                "__cxa_thread_atexit_impl" => Ext::Nop0,
                "sym_u8" => Ext::SymU(8),
                "sym_u16" => Ext::SymU(16),
                "sym_u32" => Ext::SymU(32),
                "sym_u64" => Ext::SymU(64),
                "sym_param" => Ext::SymParam,
                "sym_assume" => Ext::SymAssume,
                "sym_fail" => Ext::SymFail,
                "sym_reach" => Ext::SymReach,
                "sym_observe" => Ext::SymObserve,
                "sym_concretize" => Ext::SymConcretize,
                "sym_end" => Ext::SymEnd,
                "sym_init" => Ext::SymInit,
                _ => Ext::None,
            }
        } else {
            Ext::None
        };
        self.ext.insert(f, e);
        e
    }

    fn cval(&self, s: &State, v: &Val) -> R<u64> {
        match v {
            Val::C(k) => Ok(*k),
            Val::S(e) => self.conc(s, *e),
            _ => err("concrete value expected"),
        }
    }

    fn call(&mut self, s: &mut State, dst: Option<u32>, rt: &Ty, f: u32, args: &[Opnd]) -> R<()> {
        let kind = self.classify(f);
        if kind == Ext::None {
            // ordinary call
            if self.m.funcs[f as usize].text.is_none() {
                return err(format!("call of external function {}", self.m.funcs[f as usize].name));
            }
            let body = match &self.m.funcs[f as usize].body {
                Some(b) => Rc::as_ptr(b),
                None => {
                    let b = self.m.body(f).map_err(Stop::Error)?;
                    self.funcs_run.insert(f);
                    Rc::as_ptr(&b)
                }
            };
            let b = unsafe { &*body };
            if b.nparams as usize != args.len() {
                return err("argument count");
            }
            let mut regs = Vec::with_capacity(b.nregs as usize);
            for a in args {
                regs.push(self.get(s, a));
            }
            regs.resize(b.nregs as usize, Val::C(0));
            let depth = s.callers.as_ref().map_or(0, |c| c.depth) + 1;
            if depth > 2000 {
                return Err(Stop::Violation(Kind::Steps, "call depth 2000 exceeded".into()));
            }
            let nf = Frame {
                func: f,
                body,
                bb: 0,
                ip: 0,
                regs,
                ret: dst,
                stack_base: s.stack.len() as u32,
            };
            s.cur.ip += 1;
            let old = std::mem::replace(&mut s.cur, nf);
            s.callers = Some(Rc::new(FrameNode { f: old, next: s.callers.take(), depth }));
            return Ok(());
        }
        let a: Vec<Val> = args.iter().map(|x| self.get(s, x)).collect();
        let mut result: Option<Val> = None;
        match kind {
            Ext::None => unreachable!(),
            Ext::Intrinsic => {
                let name = self.m.funcs[f as usize].name.clone();
                if name.starts_with("llvm.assume") {
                    match &a[0] {
                        Val::C(1) => {}
                        Val::C(_) => return self.ub("llvm.assume violated".into()),
                        Val::S(e) => {
                            if let Some(true) = self.decide(s, *e)? {
                            } else if let Some(false) = self.decide(s, *e)? {
                                return self.ub("llvm.assume violated".into());
                            } else {
                                return Err(Stop::Concretize(*e));
                            }
                        }
                        _ => return err("assume"),
                    }
                } else if name.starts_with("llvm.memcpy") || name.starts_with("llvm.memmove") {
                    let (d, src, n) = (self.cval(s, &a[0])?, self.cval(s, &a[1])?, self.cval(s, &a[2])?);
                    self.memcpy(s, d, src, n)?;
                } else if name.starts_with("llvm.memset") {
                    let (d, n) = (self.cval(s, &a[0])?, self.cval(s, &a[2])?);
                    if n > 0 {
                        let (b, e) = match &a[1] {
                            Val::C(k) => (*k as u8, 0),
                            Val::S(e) => (0, *e),
                            _ => return err("memset"),
                        };
                        let n = n as usize;
                        self.write(s, d, n as u64, &mut |o, off| {
                            for x in &mut o.data[off..off + n] {
                                *x = b;
                            }
                            if e != 0 && o.sym.is_empty() {
                                o.sym = vec![0; o.data.len()];
                            }
                            if !o.sym.is_empty() {
                                for x in &mut o.sym[off..off + n] {
                                    *x = e;
                                }
                            }
                        })?;
                    }
                } else if name.starts_with("llvm.trap") || name.starts_with("llvm.ubsantrap") {
                    return Err(Stop::Violation(Kind::Panic, "trap".into()));
                } else {
                    result = self.intrinsic(s, &name, rt, &a)?;
                }
            }
            Ext::Alloc | Ext::AllocZeroed => {
                let n = self.cval(s, &a[0])?;
                result = Some(Val::C(self.alloc(s, n)?));
            }
            Ext::Malloc => {
                let n = self.cval(s, &a[0])?;
                result = Some(Val::C(self.alloc(s, n)?));
            }
            Ext::Calloc => {
                let n = self.cval(s, &a[0])? * self.cval(s, &a[1])?;
                result = Some(Val::C(self.alloc(s, n)?));
            }
            Ext::Dealloc => {
                let p = self.cval(s, &a[0])?;
                let n = self.cval(s, &a[1])?;
                if n > 0 {
                    self.free(s, p)?;
                }
            }
            Ext::Free => {
                let p = self.cval(s, &a[0])?;
                self.free(s, p)?;
            }
            Ext::Realloc => {
                let p = self.cval(s, &a[0])?;
                let old = self.cval(s, &a[1])?;
                let new = self.cval(s, &a[3])?;
                let q = self.alloc(s, new)?;
                self.memcpy(s, q, p, old.min(new))?;
                self.free(s, p)?;
                result = Some(Val::C(q));
            }
            Ext::Bcmp => {
                let is_bcmp = self.m.funcs[f as usize].name == "bcmp";
                let (p, q, n) = (self.cval(s, &a[0])?, self.cval(s, &a[1])?, self.cval(s, &a[2])?);
                let x = self.read_bytes(s, p, n)?;
                let y = self.read_bytes(s, q, n)?;
                let mut acc = self.p.cst(32, 0);
                if is_bcmp {
                    let mut eq = self.p.cst(1, 1);
                    for i in 0..n as usize {
                        if x[i].1 == 0 && y[i].1 == 0 {
                            if x[i].0 != y[i].0 {
                                eq = self.p.cst(1, 0);
                                break;
                            }
                        } else {
                            let u = if x[i].1 == 0 { self.p.cst(8, x[i].0 as u128) } else { x[i].1 };
                            let v = if y[i].1 == 0 { self.p.cst(8, y[i].0 as u128) } else { y[i].1 };
                            let e = self.p.eq(u, v);
                            eq = self.p.and1(eq, e);
                        }
                    }
                    let (z, o) = (self.p.cst(32, 0), self.p.cst(32, 1));
                    acc = self.p.ite(eq, z, o);
                } else {
                    for i in (0..n as usize).rev() {
                        let u = if x[i].1 == 0 { self.p.cst(8, x[i].0 as u128) } else { x[i].1 };
                        let v = if y[i].1 == 0 { self.p.cst(8, y[i].0 as u128) } else { y[i].1 };
                        let e = self.p.eq(u, v);
                        let l = self.p.ult(u, v);
                        let (m1, p1) = (self.p.cst(32, mask(32)), self.p.cst(32, 1));
                        let d = self.p.ite(l, m1, p1);
                        acc = self.p.ite(e, acc, d);
                    }
                }
                result = Some(self.norm(s, acc));
            }
            Ext::Strlen => {
                let p = self.cval(s, &a[0])?;
                let mut n = 0;
                loop {
                    let b = self.read_bytes(s, p + n, 1)?;
                    if b[0].1 != 0 {
                        return err("strlen of symbolic data");
                    }
                    if b[0].0 == 0 {
                        break;
                    }
                    n += 1;
                }
                result = Some(Val::C(n));
            }
            Ext::Panic => {
                let name = pretty(&self.m.funcs[f as usize].name);
                let mut msg = name;
                if a.len() >= 2 {
                    if let (Val::C(p), Val::C(n)) = (&a[0], &a[1]) {
                        if *n < 512 && p >> 32 >= GLOBAL_OBJ {
                            msg = format!("{}: {}", msg, self.read_str(s, *p, *n));
                        }
                    }
                }
                // source location: the last pointer argument
                for v in a.iter().rev() {
                    if let Val::C(p) = v {
                        let id = p >> 32;
                        if id >= GLOBAL_OBJ && id < STACK_OBJ {
                            if let (Ok(Val::C(fp)), Ok(Val::C(fl)), Ok(Val::C(line))) = (
                                self.load(s, &Ty::Int(64), *p),
                                self.load(s, &Ty::Int(64), *p + 8),
                                self.load(s, &Ty::Int(32), *p + 16),
                            ) {
                                if fl < 300 && fp >> 32 >= GLOBAL_OBJ {
                                    msg = format!("{} at {}:{}", msg, self.read_str(s, fp, fl), line);
                                    break;
                                }
                            }
                        }
                    }
                }
                return Err(Stop::Violation(Kind::Panic, msg));
            }
            Ext::Abort => return Err(Stop::Violation(Kind::Panic, "abort".into())),
            Ext::Print => {}
            Ext::Nop0 => result = Some(Val::C(0)),
            Ext::Getrandom => {
                let (p, n) = (self.cval(s, &a[0])?, self.cval(s, &a[1])?);
                let k = self.cfg.hash_key as u8;
                self.write(s, p, n, &mut |o, off| {
                    for x in &mut o.data[off..off + n as usize] {
                        *x = k;
                    }
                })?;
                result = Some(Val::C(n));
            }
            // Text keys all have one hash, so that finding them in a map is
            // decided by comparing them; the hash of ids is the real one
            Ext::HashText => {
                let k = self.cfg.hash_key.wrapping_mul(0x9e37_79b9_7f4a_7c15);
                result = Some(Val::C(k));
            }
            Ext::RandomKeys => {
                let k = self.cfg.hash_key;
                result = Some(Val::Agg(Rc::new(vec![
                    Val::C(k.wrapping_mul(0x9E37_79B9_7F4A_7C15)),
                    Val::C(k.wrapping_add(0x1234_5678)),
                ])));
            }
            Ext::SymU(w) => {
                let cls = match w {
                    8 => 0,
                    16 => 1,
                    32 => 2,
                    _ => 3,
                };
                let id = s.inputs.len() as u32 * 4 + cls;
                s.inputs.push(id);
                result = Some(Val::S(self.p.sym(w, id)));
            }
            Ext::SymParam => {
                let i = self.cval(s, &a[0])? as usize;
                result = Some(Val::C(self.cfg.params.get(i).copied().unwrap_or(0)));
            }
            Ext::SymAssume => match &a[0] {
                Val::C(k) => {
                    if *k & 1 == 0 {
                        return Err(Stop::Pruned);
                    }
                }
                Val::S(e) => {
                    let mut e = *e;
                    if self.p.w(e) != 1 {
                        e = self.p.extract(e, 0, 1);
                    }
                    if self.p.eval(e, &s.model) != 1 {
                        match self.query(&s.cons, e)? {
                            None => return Err(Stop::Pruned),
                            Some(m) => s.model = Self::merge_model(s, &m),
                        }
                    }
                    self.add_con(s, e);
                }
                _ => return err("assume"),
            },
            Ext::SymFail => {
                let (p, n) = (self.cval(s, &a[0])?, self.cval(s, &a[1])?);
                let m = self.read_str(s, p, n);
                return Err(Stop::Violation(Kind::Fail, m));
            }
            Ext::SymEnd => return Err(Stop::Done),
            Ext::SymInit => {
                // where the address of the initializer of the arguments is
                let g = self.m.globals.iter().position(|g| g.name.contains("ARGV_INIT_ARRAY"));
                result = Some(Val::C(g.map_or(0, |i| global_addr(i as u32))));
            }
            Ext::SymReach => {
                let k = self.cval(s, &a[0])?;
                *self.reach.entry(k).or_insert(0) += 1;
            }
            Ext::SymObserve => {
                s.obs.push(a[0].clone());
            }
            Ext::SymConcretize => {
                let v = self.cval(s, &a[0])?;
                result = Some(Val::C(v));
            }
        }
        if let (Some(d), Some(v)) = (dst, result) {
            s.cur.regs[d as usize] = v;
        }
        s.cur.ip += 1;
        Ok(())
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        let body = unsafe { &*s.cur.body };
        let inst: &Inst = &body.blocks[s.cur.bb as usize].insts[s.cur.ip as usize];
        match inst {
            Inst::Br(t) => self.enter_block(s, s.cur.bb, *t),
            Inst::CondBr(c, t, f) => {
                let v = self.get(s, c);
                match v {
                    Val::C(k) => {
                        let to = if k & 1 == 1 { *t } else { *f };
                        self.enter_block(s, s.cur.bb, to)
                    }
                    Val::S(e) => {
                        if let Some(k) = s.known.get(&e) {
                            let to = if *k == 1 { *t } else { *f };
                            return self.enter_block(s, s.cur.bb, to);
                        }
                        self.branch(s, inst)
                    }
                    _ => err("branch on aggregate"),
                }
            }
            Inst::Switch(_, v, def, cases) => {
                let v = self.get(s, v);
                let k = match &v {
                    Val::S(e) => s.known.get(e).map(|k| *k as u128),
                    v => v.as_u128(),
                };
                match k {
                    Some(k) => {
                        let to = cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1);
                        self.enter_block(s, s.cur.bb, to)
                    }
                    None => self.branch(s, inst),
                }
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(s, o));
                s.stack.truncate(s.cur.stack_base as usize);
                match s.callers.take() {
                    None => Err(Stop::Done),
                    Some(n) => {
                        let ret = s.cur.ret;
                        match Rc::try_unwrap(n) {
                            Ok(n) => {
                                s.cur = n.f;
                                s.callers = n.next;
                            }
                            Err(n) => {
                                s.cur = n.f.clone();
                                s.callers = n.next.clone();
                            }
                        }
                        if let (Some(d), Some(v)) = (ret, v) {
                            s.cur.regs[d as usize] = v;
                        }
                        Ok(())
                    }
                }
            }
            Inst::Unreachable => self.ub("unreachable code reached".into()),
            Inst::Call(d, rt, c, args) => match c {
                Callee::Func(f) => self.call(s, *d, rt, *f, args),
                Callee::Indirect(o) => {
                    let a = self.getc(s, o)?;
                    if a >> 32 != FUNC_OBJ {
                        return self.ub(format!("call through invalid pointer {:#x}", a));
                    }
                    let f = ((a & 0xffff_ffff) / 16 - 1) as u32;
                    self.call(s, *d, rt, f, args)
                }
            },
            i => {
                self.exec_simple(s, i)?;
                s.cur.ip += 1;
                Ok(())
            }
        }
    }

    /// Run until the path ends or splits
    pub fn run(&mut self, s: &mut State) -> Stop {
        self.run_inner(s)
    }

    fn run_inner(&mut self, s: &mut State) -> Stop {
        loop {
            s.steps += 1;
            self.st.steps += 1;
            if s.steps > self.cfg.max_steps {
                return Stop::Violation(Kind::Steps, format!("path exceeded {} instructions", self.cfg.max_steps));
            }
            match self.step(s) {
                Ok(()) => {}
                Err(Stop::Concretize(e)) => {
                    self.st.concretizations += 1;
                    match self.concretize(s, e) {
                        Ok(None) => {}
                        Ok(Some(v)) => return Stop::Fork(v),
                        Err(x) => return x,
                    }
                }
                Err(x) => return x,
            }
        }
    }

    /// Enumerate every feasible value of e; with one value it becomes known
    fn concretize(&mut self, s: &mut State, e: E) -> R<Option<Vec<State>>> {
        let w = self.p.w(e);
        let mut vals: Vec<(u128, Rc<Vec<u64>>)> = vec![];
        let v0 = self.p.eval(e, &s.model);
        vals.push((v0, s.model.clone()));
        let mut excl = {
            let k = self.p.cst(w, v0);
            let q = self.p.eq(e, k);
            self.p.not(q)
        };
        while let Some(m) = self.query(&s.cons, excl)? {
            let mm = Self::merge_model(s, &m);
            let v = self.p.eval(e, &mm);
            vals.push((v, mm));
            if vals.len() > 2000 {
                return err("more than 2000 values for an address or length");
            }
            let k = self.p.cst(w, v);
            let q = self.p.eq(e, k);
            let n = self.p.not(q);
            excl = self.p.and1(excl, n);
        }
        if vals.len() == 1 {
            if v0 >> 64 != 0 {
                return err("wide concretization");
            }
            Rc::make_mut(&mut s.known).insert(e, v0 as u64);
            return Ok(None);
        }
        vals.sort_by_key(|x| x.0);
        self.st.forks += vals.len() as u64 - 1;
        let me = std::mem::replace(s, self.dead_state());
        let mut out = vec![];
        for (v, m) in vals {
            let mut t = me.clone();
            t.model = m;
            t.depth += 1;
            let k = self.p.cst(w, v);
            let q = self.p.eq(e, k);
            Rc::make_mut(&mut t.known).insert(e, v as u64);
            self.add_con(&mut t, q);
            out.push(t);
        }
        Ok(Some(out))
    }
}

/// True for the hash of a string, byte string or something that has them
fn hashes_text(n: &str) -> bool {
    let Some(i) = n.find("11BuildHasher8hash_one") else {
        return false;
    };
    if !n.contains("11RandomState") {
        return false;
    }
    let t = &n[i + "11BuildHasher8hash_one".len()..];
    let u = t.trim_start_matches(['R', 'L', '_', 'Q']);
    u.starts_with('e')
        || u.starts_with('S')
        || u.starts_with('A')
        || u.starts_with('T')
        || ["6string6String", "3vec3Vec", "6borrow3Cow", "2rc2Rc", "4sync3Arc", "5boxed3Box"].iter().any(|x| t.contains(x))
}

/// An operation on floating point numbers, whose values are always concrete
fn float(op: &str, fw: u32, tw: u32, a: &[u64]) -> Option<u64> {
    // a 32-bit number is exact as a 64-bit one, and a 64-bit result of one
    // operation on such numbers rounds to the right 32-bit one
    let get = |w: u32, x: u64| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
    let put = |w: u32, x: f64| if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() };
    if !matches!(fw, 32 | 64) && !op.ends_with("itofp") || !matches!(tw, 32 | 64) && tw > 64 {
        return None;
    }
    let m = mask(tw) as u64;
    if op == "uitofp" || op == "sitofp" {
        if fw > 64 {
            return None;
        }
        let x = a[0];
        let y = sext(x as u128, fw) as i64;
        return Some(match (op, tw) {
            ("uitofp", 32) => (x as f32).to_bits() as u64,
            ("uitofp", _) => (x as f64).to_bits(),
            (_, 32) => (y as f32).to_bits() as u64,
            _ => (y as f64).to_bits(),
        });
    }
    let x = get(fw, a[0]);
    let y = if a.len() > 1 { get(fw, a[1]) } else { 0.0 };
    let nan = x.is_nan() || y.is_nan();
    Some(match op {
        "fadd" => put(tw, x + y),
        "fsub" => put(tw, x - y),
        "fmul" => put(tw, x * y),
        "fdiv" => put(tw, x / y),
        "frem" => put(tw, x % y),
        "fneg" => put(tw, -x),
        "fpext" | "fptrunc" => put(tw, x),
        "fptoui" => x as u64 & m,
        "fptosi" => x as i64 as u64 & m,
        "fptoui.sat" => (x as u64).min(m),
        "fptosi.sat" => {
            let h = (m >> 1) as i64;
            (x as i64).clamp(-h - 1, h) as u64 & m
        }
        "fabs" => put(tw, x.abs()),
        "floor" => put(tw, x.floor()),
        "ceil" => put(tw, x.ceil()),
        "trunc" => put(tw, x.trunc()),
        "round" => put(tw, x.round()),
        "rint" | "nearbyint" | "roundeven" => put(tw, x.round_ties_even()),
        "minnum" => put(tw, x.min(y)),
        "maxnum" => put(tw, x.max(y)),
        "sqrt" => put(tw, x.sqrt()),
        "false" => 0,
        "true" => 1,
        "ord" => !nan as u64,
        "uno" => nan as u64,
        "oeq" => (x == y) as u64,
        "one" => (!nan && x != y) as u64,
        "ogt" => (x > y) as u64,
        "oge" => (x >= y) as u64,
        "olt" => (x < y) as u64,
        "ole" => (x <= y) as u64,
        "ueq" => (nan || x == y) as u64,
        "une" => (nan || x != y) as u64,
        "ugt" => (nan || x > y) as u64,
        "uge" => (nan || x >= y) as u64,
        "ult" => (nan || x < y) as u64,
        "ule" => (nan || x <= y) as u64,
        _ => return None,
    })
}
