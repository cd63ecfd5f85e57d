//! Hash-consed bit-vector expressions with local simplification.
//!
//! Every expression has a width of 1..=128 bits. Expressions only ever
//! combine constants and input symbols, so they are valid in every state.

use std::collections::HashMap;

/// Handle of an expression in the [Pool]; 0 is never a valid handle
pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    /// k holds the lowest bit extracted
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// Concrete evaluation of a binary operator; division by zero and
/// over-wide shifts are given a total meaning here (their absence is
/// checked by the executor before they are used)
pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                (if x >= 0 { -1i128 } else { 1 }) as u128 & m
            } else {
                x.wrapping_div(y) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128 & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128 & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

pub struct Pool {
    pub nodes: Vec<Node>,
    deps: Vec<u32>,
    depsets: Vec<Vec<u32>>,
    depmap: HashMap<Vec<u32>, u32>,
    map: HashMap<Node, E>,
    memo: Vec<u128>,
    memo_gen: Vec<u32>,
    gen: u32,
}

impl Pool {
    pub fn new() -> Self {
        let dummy = Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 };
        Pool {
            nodes: vec![dummy],
            deps: vec![0],
            depsets: vec![vec![]],
            depmap: [(vec![], 0)].into_iter().collect(),
            map: HashMap::new(),
            memo: vec![0],
            memo_gen: vec![0],
            gen: 0,
        }
    }

    fn union(&mut self, x: u32, y: u32) -> u32 {
        if x == y || y == 0 {
            return x;
        }
        if x == 0 {
            return y;
        }
        let mut r = self.depsets[x as usize].clone();
        r.extend_from_slice(&self.depsets[y as usize]);
        r.sort_unstable();
        r.dedup();
        self.intern_deps(r)
    }

    fn intern_deps(&mut self, r: Vec<u32>) -> u32 {
        if let Some(i) = self.depmap.get(&r) {
            return *i;
        }
        let i = self.depsets.len() as u32;
        self.depsets.push(r.clone());
        self.depmap.insert(r, i);
        i
    }

    /// The sorted list of symbols an expression mentions
    pub fn deps(&self, e: E) -> &[u32] {
        &self.depsets[self.deps[e as usize] as usize]
    }

    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as E;
        let d = match n.op {
            Op::Const => 0,
            Op::Sym => self.intern_deps(vec![n.k as u32]),
            _ => {
                let mut d = self.deps[n.a as usize];
                if n.b != 0 {
                    d = self.union(d, self.deps[n.b as usize]);
                }
                if n.c != 0 {
                    d = self.union(d, self.deps[n.c as usize]);
                }
                d
            }
        };
        self.nodes.push(n);
        self.deps.push(d);
        self.memo.push(0);
        self.memo_gen.push(0);
        self.map.insert(n, e);
        e
    }

    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }

    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }

    pub fn cst(&mut self, w: u32, v: u128) -> E {
        self.mk(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: v & mask(w) })
    }

    pub fn sym(&mut self, w: u32, id: u32) -> E {
        self.mk(Node { op: Op::Sym, w: w as u8, a: 0, b: 0, c: 0, k: id as u128 })
    }

    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    /// If e is a (small) tree of Ite with constant leaves, return its size
    fn ite_tree(&self, e: E, budget: &mut i32) -> bool {
        *budget -= 1;
        if *budget < 0 {
            return false;
        }
        let n = self.n(e);
        match n.op {
            Op::Const => true,
            Op::Ite => self.ite_tree(n.b, budget) && self.ite_tree(n.c, budget),
            _ => false,
        }
    }

    fn map_tree(&mut self, e: E, f: &mut dyn FnMut(&mut Pool, u128) -> E) -> E {
        let n = self.n(e);
        match n.op {
            Op::Const => f(self, n.k),
            _ => {
                let b = self.map_tree(n.b, f);
                let c = self.map_tree(n.c, f);
                self.ite(n.a, b, c)
            }
        }
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        debug_assert_eq!(n.w, 1);
        if n.op == Op::Const {
            return self.cst(1, n.k ^ 1);
        }
        if n.op == Op::Xor && self.as_const(n.b) == Some(1) {
            return n.a;
        }
        let one = self.cst(1, 1);
        self.mk(Node { op: Op::Xor, w: 1, a, b: one, c: 0, k: 0 })
    }

    fn is_not_of(&self, a: E, b: E) -> bool {
        let n = self.n(a);
        if n.op == Op::Xor && n.w == 1 && n.a == b && self.as_const(n.b) == Some(1) {
            return true;
        }
        let n = self.n(b);
        n.op == Op::Xor && n.w == 1 && n.a == a && self.as_const(n.b) == Some(1)
    }

    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (mut ca, mut cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
            return self.cst(rw, fold(op, w, x, y));
        }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
            && (ca.is_some() || (cb.is_none() && a > b))
        {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        // operators over small constant decision trees
        if let Some(y) = cb {
            if self.n(a).op == Op::Ite && self.ite_tree(a, &mut 40) {
                return self.map_tree(a, &mut |p, x| {
                    let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
                    p.cst(rw, fold(op, w, x, y))
                });
            }
        }
        if let Some(x) = ca {
            if self.n(b).op == Op::Ite && self.ite_tree(b, &mut 40) {
                return self.map_tree(b, &mut |p, y| {
                    let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
                    p.cst(rw, fold(op, w, x, y))
                });
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(y), Op::Add) = (cb, na.op) {
                    if let Some(x) = self.as_const(na.b) {
                        let k = self.cst(w, x.wrapping_add(y));
                        return self.bin(Op::Add, na.a, k);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.cst(w, y.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            Op::UDiv | Op::SDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.cst(1, 0);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let k = self.cst(iw, y);
                        let i = self.bin(Op::And, na.a, k);
                        return self.zext(i, w);
                    }
                    if na.op == Op::And {
                        if let Some(x) = self.as_const(na.b) {
                            let k = self.cst(w, x & y);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    // low mask = extract
                    if (y & (y + 1)) == 0 {
                        let bits = 128 - y.leading_zeros();
                        if bits < w {
                            let x = self.extract(a, 0, bits);
                            return self.zext(x, w);
                        }
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.cst(1, 1);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if w == 1 && cb == Some(1) {
                    return self.not(a);
                }
                if let (Some(y), Op::Xor) = (cb, na.op) {
                    if let Some(x) = self.as_const(na.b) {
                        let k = self.cst(w, x ^ y);
                        return self.bin(Op::Xor, na.a, k);
                    }
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let x = self.extract(a, 0, w - y as u32);
                    let z = self.cst(y as u32, 0);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let x = self.extract(a, y as u32, w - y as u32);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if let Some(y) = cb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if y & !mask(iw) != 0 {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(iw, y);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = y & mask(iw);
                            if (sext(t, iw) as u128) & m != y {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(iw, t);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let kl = self.cst(lw, y);
                            let kh = self.cst(hw, y >> lw);
                            let l = self.bin(Op::Eq, na.b, kl);
                            if self.as_const(l) == Some(0) {
                                return l;
                            }
                            let h = self.bin(Op::Eq, na.a, kh);
                            return self.and1(h, l);
                        }
                        Op::Add => {
                            if let Some(x) = self.as_const(na.b) {
                                let k = self.cst(w, y.wrapping_sub(x));
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.as_const(na.b) {
                                let k = self.cst(w, y ^ x);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::And => {
                            if let Some(x) = self.as_const(na.b) {
                                if y & !x != 0 {
                                    return self.cst(1, 0);
                                }
                            }
                        }
                        Op::Or => {
                            if let Some(x) = self.as_const(na.b) {
                                if x & !y != 0 {
                                    return self.cst(1, 0);
                                }
                            }
                        }
                        Op::Ite => {
                            // constant leaf on one side
                            let (kb, kc) = (self.as_const(na.b), self.as_const(na.c));
                            if kb.is_some() || kc.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let z = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, z);
                            }
                        }
                        _ => {}
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult => {
                if a == b {
                    return self.cst(1, 0);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return self.cst(1, 0);
                    }
                    if y == 1 {
                        let z = self.cst(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if y == m {
                        let e = self.bin(Op::Eq, a, b);
                        return self.not(e);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if y > mask(iw) {
                            return self.cst(1, 1);
                        }
                        let k = self.cst(iw, y);
                        return self.bin(Op::Ult, na.a, k);
                    }
                }
                if let Some(x) = ca {
                    if x == m {
                        return self.cst(1, 0);
                    }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if x >= mask(iw) {
                            return self.cst(1, 0);
                        }
                        let k = self.cst(iw, x);
                        return self.bin(Op::Ult, k, nb.a);
                    }
                    if x == 0 {
                        let e = self.bin(Op::Eq, b, a);
                        return self.not(e);
                    }
                    // canonical: c < b  ==  !(b < c+1)
                    let k = self.cst(w, x + 1);
                    let u = self.bin(Op::Ult, b, k);
                    return self.not(u);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.cst(1, 0);
                }
                if na.op == Op::ZExt {
                    if let Some(y) = cb {
                        if sext(y, w) <= 0 {
                            return self.cst(1, 0);
                        }
                        return self.bin(Op::Ult, a, b);
                    }
                    if nb.op == Op::ZExt {
                        return self.bin(Op::Ult, a, b);
                    }
                }
                if nb.op == Op::ZExt {
                    if let Some(x) = ca {
                        if sext(x, w) < 0 {
                            return self.cst(1, 1);
                        }
                        return self.bin(Op::Ult, a, b);
                    }
                }
            }
            _ => {}
        }
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        self.mk(Node { op, w: rw as u8, a, b, c: 0, k: 0 })
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        self.bin(Op::Ult, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let u = self.bin(Op::Ult, b, a);
        self.not(u)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c1, x, ite(c2, x, y)) -> ite(c1|c2, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let o = self.or1(c, nb.a);
            return self.ite(o, a, nb.c);
        }
        self.mk(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b, k: 0 })
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        let n = self.n(a);
        match n.op {
            Op::Const => self.cst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.ite_tree(a, &mut 40) => self.map_tree(a, &mut |p, x| p.cst(w, x)),
            _ => self.mk(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0, k: 0 }),
        }
    }

    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.n(a);
        match n.op {
            Op::Const => self.cst(w, sext(n.k, aw) as u128),
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            Op::Ite if self.ite_tree(a, &mut 40) => {
                self.map_tree(a, &mut |p, x| p.cst(w, sext(x, aw) as u128))
            }
            _ => self.mk(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0, k: 0 }),
        }
    }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (h, l) = (self.n(hi), self.n(lo));
        let w = h.w as u32 + l.w as u32;
        debug_assert!(w <= 128);
        if h.op == Op::Const && l.op == Op::Const {
            return self.cst(w, (h.k << l.w) | l.k);
        }
        if h.op == Op::Const && h.k == 0 {
            return self.zext(lo, w);
        }
        if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.k == l.k + l.w as u128 {
            return self.extract(h.a, l.k as u32, w);
        }
        // extract of a whole expression is the expression itself
        if h.op == Op::Extract && h.a == lo && h.k == l.w as u128 {
            return self.extract(h.a, 0, w);
        }
        // concat(zext(x), const-free) stays; concat(concat(a,b),c) with mergeable b,c
        if h.op == Op::Concat {
            let inner = self.n(h.b);
            if (inner.op == Op::Extract
                && l.op == Op::Extract
                && inner.a == l.a
                && inner.k == l.k + l.w as u128)
                || (inner.op == Op::Const && l.op == Op::Const)
            {
                let m = self.concat(h.b, lo);
                return self.concat(h.a, m);
            }
        }
        if h.op == Op::ZExt {
            let iw = self.w(h.a);
            let inner = self.concat(h.a, lo);
            debug_assert!(iw < h.w as u32);
            return self.zext(inner, w);
        }
        self.mk(Node { op: Op::Concat, w: w as u8, a: hi, b: lo, c: 0, k: 0 })
    }

    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w as u32 {
            return a;
        }
        debug_assert!(lo + w <= n.w as u32);
        match n.op {
            Op::Const => self.cst(w, n.k >> lo),
            Op::Extract => self.extract(n.a, n.k as u32 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, lo + w - lw);
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.cst(w, 0)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.mk(Node { op: Op::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u128 })
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Sub if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Op::Ite if self.ite_tree(a, &mut 40) => {
                self.map_tree(a, &mut |p, x| p.cst(w, x >> lo))
            }
            _ => self.mk(Node { op: Op::Extract, w: w as u8, a, b: 0, c: 0, k: lo as u128 }),
        }
    }

    /// Evaluate under an assignment of the symbols (missing symbols are 0)
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        self.gen += 1;
        self.eval_rec(e, model)
    }

    fn eval_rec(&mut self, e: E, model: &[u64]) -> u128 {
        let i = e as usize;
        let n = self.nodes[i];
        match n.op {
            Op::Const => return n.k,
            Op::Sym => {
                return model.get(n.k as usize).copied().unwrap_or(0) as u128 & mask(n.w as u32)
            }
            _ => {}
        }
        if self.memo_gen[i] == self.gen {
            return self.memo[i];
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Ite => {
                if self.eval_rec(n.a, model) == 1 {
                    self.eval_rec(n.b, model)
                } else {
                    self.eval_rec(n.c, model)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval_rec(n.a, model) << lw) | self.eval_rec(n.b, model)
            }
            Op::Extract => (self.eval_rec(n.a, model) >> n.k) & mask(w),
            Op::ZExt => self.eval_rec(n.a, model),
            Op::SExt => {
                let iw = self.w(n.a);
                sext(self.eval_rec(n.a, model), iw) as u128 & mask(w)
            }
            _ => {
                let ow = self.w(n.a);
                let x = self.eval_rec(n.a, model);
                if n.w == 1 && ow == 1 {
                    if n.op == Op::And && x == 0 {
                        0
                    } else if n.op == Op::Or && x == 1 {
                        1
                    } else {
                        let y = self.eval_rec(n.b, model);
                        fold(n.op, ow, x, y)
                    }
                } else {
                    let y = self.eval_rec(n.b, model);
                    fold(n.op, ow, x, y)
                }
            }
        };
        self.memo[i] = r;
        self.memo_gen[i] = self.gen;
        r
    }
}
