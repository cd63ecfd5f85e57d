//! Minimal binding to the Z3 C API, and the translation of expressions.

use crate::expr::{Op, Pool, E};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Symbol = *mut c_void;
type Config = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> Config;
    fn Z3_del_config(c: Config);
    fn Z3_mk_context(c: Config) -> Ctx;
    fn Z3_set_param_value(c: Config, k: *const c_char, v: *const c_char);
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Symbol;
    fn Z3_mk_const(c: Ctx, s: Symbol, ty: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, n: *const c_char, ty: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, l: Symbol) -> Solver;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Symbol;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, complete: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_code(c: Ctx) -> c_int;
}

extern "C" fn ignore_error(_c: Ctx, _e: c_int) {}

pub enum Answer {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    bv: HashMap<E, Ast>,
    bl: HashMap<E, Ast>,
    syms: HashMap<u32, Ast>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: std::time::Duration,
}

impl Z3 {
    pub fn reset_counters(&mut self) {
        self.queries = 0;
        self.sat = 0;
        self.unsat = 0;
        self.time = std::time::Duration::ZERO;
    }

    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new("60000").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            // Z3_mk_context keeps every ast alive for the life of the context
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(ignore_error));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            Z3 {
                c,
                s,
                bv: HashMap::new(),
                bl: HashMap::new(),
                syms: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                time: Default::default(),
            }
        }
    }

    fn to_bool(&mut self, p: &Pool, e: E) -> Ast {
        if let Some(a) = self.bl.get(&e) {
            return *a;
        }
        let n = p.n(e);
        assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    if p.w(n.a) == 1 {
                        let (x, y) = (self.to_bool(p, n.a), self.to_bool(p, n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::And => {
                    let a = [self.to_bool(p, n.a), self.to_bool(p, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.to_bool(p, n.a), self.to_bool(p, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    if p.as_const(n.b) == Some(1) {
                        let x = self.to_bool(p, n.a);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.to_bool(p, n.a), self.to_bool(p, n.b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let x = self.to_bool(p, n.a);
                    let (y, z) = (self.to_bool(p, n.b), self.to_bool(p, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.to_bv(p, e);
                    let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.bl.insert(e, r);
        r
    }

    fn to_bv(&mut self, p: &Pool, e: E) -> Ast {
        if let Some(a) = self.bv.get(&e) {
            return *a;
        }
        let n = p.n(e);
        let c = self.c;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let s = Z3_mk_bv_sort(c, w);
                    if w <= 64 {
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let t = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Op::Sym => {
                    let a = Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, w));
                    self.syms.insert(n.k as u32, a);
                    a
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.to_bool(p, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Op::Ite => {
                    let x = self.to_bool(p, n.a);
                    let (y, z) = (self.to_bv(p, n.b), self.to_bv(p, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Concat => {
                    let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b));
                    Z3_mk_concat(c, x, y)
                }
                Op::Extract => {
                    let x = self.to_bv(p, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, x)
                }
                Op::ZExt => {
                    let x = self.to_bv(p, n.a);
                    Z3_mk_zero_ext(c, w - p.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.to_bv(p, n.a);
                    Z3_mk_sign_ext(c, w - p.w(n.a), x)
                }
                _ => {
                    let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        assert!(!r.is_null(), "z3 translation of {:?} failed: {}", n, unsafe {
            Z3_get_error_code(c)
        });
        self.bv.insert(e, r);
        r
    }

    /// Decide the conjunction of `cs`
    pub fn check(&mut self, p: &Pool, cs: &[E]) -> Answer {
        let t0 = std::time::Instant::now();
        let asts: Vec<Ast> = cs.iter().map(|e| self.to_bool(p, *e)).collect();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for a in asts {
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut syms: Vec<u32> = vec![];
                    for e in cs {
                        syms.extend_from_slice(p.deps(*e));
                    }
                    syms.sort_unstable();
                    syms.dedup();
                    let mut out = vec![];
                    for s in syms {
                        let a = self.syms[&s];
                        let mut v: Ast = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, a, true, &mut v);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(self.c, v, &mut u);
                        out.push((s, u));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Answer::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Answer::Unsat
                }
                _ => Answer::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.time += t0.elapsed();
        r
    }
}
