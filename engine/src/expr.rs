//! Hash-consed bit-vector expressions with local simplification. Width-1 expressions are Booleans.

use crate::ir::{Bin, Pred};
use std::collections::HashMap;

pub type E = u32;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(u8, E, E),
    Cmp(u8, E, E), // Eq, Ult, Ule, Slt, Sle only
    Not(E),        // width 1
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Extract(E, u32),
    Concat(E, E), // hi, lo
}

#[derive(Clone, Copy)]
pub struct VarSet(pub [u64; 6]);

impl VarSet {
    pub const MAX: u32 = 384;
    pub fn inter(&self, o: &VarSet) -> bool {
        self.0.iter().zip(o.0.iter()).any(|(a, b)| a & b != 0)
    }
    pub fn union(&mut self, o: &VarSet) {
        for i in 0..6 {
            self.0[i] |= o.0[i];
        }
    }
    pub fn none() -> VarSet {
        VarSet([0; 6])
    }
    pub fn is_empty(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
    pub fn has(&self, i: u32) -> bool {
        self.0[(i / 64) as usize] >> (i % 64) & 1 == 1
    }
    pub fn insert(&mut self, i: u32) {
        self.0[(i / 64) as usize] |= 1 << (i % 64);
    }
    pub fn minus(&self, o: &VarSet) -> VarSet {
        let mut r = *self;
        for i in 0..6 {
            r.0[i] &= !o.0[i];
        }
        r
    }
    pub fn count(&self) -> u32 {
        self.0.iter().map(|x| x.count_ones()).sum()
    }
    pub fn iter(&self) -> impl Iterator<Item = u32> + '_ {
        (0..Self::MAX).filter(move |i| self.0[(i / 64) as usize] >> (i % 64) & 1 == 1)
    }
}

/// A scalar value in the machine: concrete or symbolic.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum V {
    C(u128),
    S(E),
}

pub struct Pool {
    pub nodes: Vec<(N, u32)>,
    pub vars_of: Vec<VarSet>,
    map: HashMap<(N, u32), E>,
    pub var_names: Vec<(String, u32)>,
    var_map: HashMap<(u32, u32, String), E>,
    stamp: Vec<u32>,
    val: Vec<u128>,
    cur: u32,
}

const EQ: u8 = 0;
const ULT: u8 = 1;
const ULE: u8 = 2;
const SLT: u8 = 3;
const SLE: u8 = 4;

pub fn m(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub const BINS: [Bin; 13] = [
    Bin::Add,
    Bin::Sub,
    Bin::Mul,
    Bin::UDiv,
    Bin::SDiv,
    Bin::URem,
    Bin::SRem,
    Bin::And,
    Bin::Or,
    Bin::Xor,
    Bin::Shl,
    Bin::LShr,
    Bin::AShr,
];

/// SMT-LIB semantics for division by zero and over-shifts (those are UB in LLVM and never relied on).
#[inline]
pub fn ev_bin(op: Bin, a: u128, b: u128, w: u32) -> u128 {
    match op {
        Bin::Add => m(a.wrapping_add(b), w),
        Bin::Sub => m(a.wrapping_sub(b), w),
        Bin::Mul => m(a.wrapping_mul(b), w),
        Bin::UDiv => {
            if b == 0 {
                m(u128::MAX, w)
            } else {
                a / b
            }
        }
        Bin::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Bin::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                m(if x < 0 { 1 } else { u128::MAX }, w)
            } else {
                m(x.wrapping_div(y) as u128, w)
            }
        }
        Bin::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                m(x.wrapping_rem(y) as u128, w)
            }
        }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => {
            if b >= w as u128 {
                0
            } else {
                m(a << b, w)
            }
        }
        Bin::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bin::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            m((sx(a, w) >> s) as u128, w)
        }
    }
}

#[inline]
pub fn ev_cmp(p: Pred, a: u128, b: u128, w: u32) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}

impl Pool {
    pub fn new() -> Pool {
        Pool {
            nodes: vec![],
            vars_of: vec![],
            map: HashMap::new(),
            var_names: vec![],
            var_map: HashMap::new(),
            stamp: vec![],
            val: vec![],
            cur: 0,
        }
    }

    pub fn width(&self, e: E) -> u32 {
        self.nodes[e as usize].1
    }

    fn mk(&mut self, n: N, w: u32) -> E {
        if let Some(e) = self.map.get(&(n, w)) {
            return *e;
        }
        let mut vs = VarSet([0; 6]);
        match n {
            N::Const(_) => {}
            N::Var(i) => vs.0[(i / 64) as usize] |= 1 << (i % 64),
            N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => {
                vs.union(&self.vars_of[a as usize]);
                vs.union(&self.vars_of[b as usize]);
            }
            N::Not(a) | N::ZExt(a) | N::SExt(a) | N::Extract(a, _) => vs.union(&self.vars_of[a as usize]),
            N::Ite(c, a, b) => {
                vs.union(&self.vars_of[c as usize]);
                vs.union(&self.vars_of[a as usize]);
                vs.union(&self.vars_of[b as usize]);
            }
        }
        let e = self.nodes.len() as u32;
        self.nodes.push((n, w));
        self.vars_of.push(vs);
        self.stamp.push(0);
        self.val.push(0);
        self.map.insert((n, w), e);
        e
    }

    /// canonical variable: the ordinal-th symbol of a path with this width and name
    pub fn var(&mut self, ordinal: u32, w: u32, name: &str) -> E {
        if let Some(e) = self.var_map.get(&(ordinal, w, name.to_string())) {
            return *e;
        }
        let i = self.var_names.len() as u32;
        assert!(i < VarSet::MAX, "too many symbolic variables");
        self.var_names.push((format!("{}!{}", name, ordinal), w));
        let e = self.mk(N::Var(i), w);
        self.var_map.insert((ordinal, w, name.to_string()), e);
        e
    }

    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.mk(N::Const(m(v, w)), w)
    }

    pub fn e(&mut self, v: V, w: u32) -> E {
        match v {
            V::C(k) => self.konst(k, w),
            V::S(e) => {
                debug_assert_eq!(self.width(e), w);
                e
            }
        }
    }

    fn v(&self, e: E) -> V {
        match self.nodes[e as usize].0 {
            N::Const(k) => V::C(k),
            _ => V::S(e),
        }
    }

    fn kval(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].0 {
            N::Const(k) => Some(k),
            _ => None,
        }
    }

    pub fn not(&mut self, a: V) -> V {
        match a {
            V::C(k) => V::C(k ^ 1),
            V::S(e) => match self.nodes[e as usize].0 {
                N::Not(x) => V::S(x),
                N::Cmp(ULT, x, y) => V::S(self.mk(N::Cmp(ULE, y, x), 1)),
                N::Cmp(ULE, x, y) => V::S(self.mk(N::Cmp(ULT, y, x), 1)),
                N::Cmp(SLT, x, y) => V::S(self.mk(N::Cmp(SLE, y, x), 1)),
                N::Cmp(SLE, x, y) => V::S(self.mk(N::Cmp(SLT, y, x), 1)),
                _ => V::S(self.mk(N::Not(e), 1)),
            },
        }
    }

    pub fn bin(&mut self, op: Bin, a: V, b: V, w: u32) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(ev_bin(op, x, y, w));
        }
        let ones = m(u128::MAX, w);
        match (op, a, b) {
            (Bin::Add | Bin::Or | Bin::Xor | Bin::Sub | Bin::Shl | Bin::LShr | Bin::AShr, x, V::C(0)) => return x,
            (Bin::Add | Bin::Or | Bin::Xor, V::C(0), y) => return y,
            (Bin::And, _, V::C(0)) | (Bin::And, V::C(0), _) => return V::C(0),
            (Bin::Mul, _, V::C(0)) | (Bin::Mul, V::C(0), _) => return V::C(0),
            (Bin::Mul, x, V::C(1)) | (Bin::UDiv, x, V::C(1)) => return x,
            (Bin::Mul, V::C(1), y) => return y,
            (Bin::URem, _, V::C(1)) => return V::C(0),
            (Bin::And, x, V::C(k)) if k == ones => return x,
            (Bin::And, V::C(k), y) if k == ones => return y,
            (Bin::Or, _, V::C(k)) if k == ones => return V::C(ones),
            (Bin::Or, V::C(k), _) if k == ones => return V::C(ones),
            (Bin::Shl | Bin::LShr, V::C(0), _) => return V::C(0),
            _ => {}
        }
        if a == b {
            match op {
                Bin::Sub | Bin::Xor => return V::C(0),
                Bin::And | Bin::Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            match (op, a, b) {
                (Bin::Xor | Bin::Add | Bin::Sub, x, V::C(1)) => return self.not(x),
                (Bin::Xor | Bin::Add, V::C(1), y) => return self.not(y),
                _ => {}
            }
            if op == Bin::Add || op == Bin::Sub {
                return self.bin(Bin::Xor, a, b, 1);
            }
            if op == Bin::Mul {
                return self.bin(Bin::And, a, b, 1);
            }
        }
        // shifts and masks by constants become extract/concat (joins byte loads back together)
        if w > 1 {
            match (op, a, b) {
                (Bin::LShr, V::S(_), V::C(k)) if k < w as u128 => {
                    let k = k as u32;
                    let x = self.extract(a, k, w - k, w);
                    return self.zext(x, w - k, w);
                }
                (Bin::LShr, V::S(_), V::C(_)) | (Bin::Shl, V::S(_), V::C(_)) if matches!(b, V::C(k) if k >= w as u128) => {
                    return V::C(0)
                }
                (Bin::Shl, V::S(_), V::C(k)) => {
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k, w);
                    return self.concat(x, V::C(0), w - k, k);
                }
                (Bin::And, V::S(_), V::C(k)) | (Bin::And, V::C(k), V::S(_)) if (k & (k + 1)) == 0 => {
                    let n = 128 - k.leading_zeros();
                    let s = if let V::S(_) = a { a } else { b };
                    let x = self.extract(s, 0, n, w);
                    return self.zext(x, n, w);
                }
                (Bin::Or, V::S(x), V::S(y)) => {
                    // disjoint or of [hi:0...] and zext(lo)
                    if let Some(r) = self.join_or(x, y, w) {
                        return r;
                    }
                    if let Some(r) = self.join_or(y, x, w) {
                        return r;
                    }
                }
                (Bin::Or, V::S(x), V::C(k)) | (Bin::Or, V::C(k), V::S(x)) => {
                    // concat(h, 0) | k with k < 2^lw
                    if let N::Concat(h, l) = self.nodes[x as usize].0 {
                        let lw = self.width(l);
                        if self.kval(l) == Some(0) && k >> lw == 0 {
                            let h = self.v(h);
                            return self.concat(h, V::C(k), w - lw, lw);
                        }
                    }
                    if let N::ZExt(l) = self.nodes[x as usize].0 {
                        let lw = self.width(l);
                        if m(k, lw) == 0 {
                            let l = self.v(l);
                            return self.concat(V::C(k >> lw), l, w - lw, lw);
                        }
                    }
                }
                // add of constants reassociates
                (Bin::Add, V::S(x), V::C(k)) => {
                    if let N::Bin(0, p, q) = self.nodes[x as usize].0 {
                        if let Some(j) = self.kval(q) {
                            let p = self.v(p);
                            return self.bin(Bin::Add, p, V::C(m(j.wrapping_add(k), w)), w);
                        }
                    }
                }
                (Bin::Sub, x, V::C(k)) => {
                    return self.bin(Bin::Add, x, V::C(m(0u128.wrapping_sub(k), w)), w);
                }
                (Bin::Add, V::C(_), V::S(_)) => return self.bin(Bin::Add, b, a, w),
                (Bin::Sub, V::S(x), y) => {
                    // (y + z) - y
                    if let N::Bin(0, p, q) = self.nodes[x as usize].0 {
                        let (pv, qv) = (self.v(p), self.v(q));
                        if pv == y {
                            return qv;
                        }
                        if qv == y {
                            return pv;
                        }
                    }
                }
                _ => {}
            }
        }
        // bitwise operations distribute over concatenation
        if w > 1 && matches!(op, Bin::And | Bin::Or | Bin::Xor) {
            let (x, y) = if let V::S(_) = a { (a, b) } else { (b, a) };
            if let V::S(xe) = x {
                let split = match (self.nodes[xe as usize].0, y) {
                    (N::Concat(h, l), V::C(_)) => Some((h, l)),
                    (N::Concat(h, l), V::S(ye)) => match self.nodes[ye as usize].0 {
                        N::Concat(_, l2) if self.width(l2) == self.width(l) => Some((h, l)),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((h, l)) = split {
                    let (hw, lw) = (self.width(h), self.width(l));
                    let (hv, lv) = (self.v(h), self.v(l));
                    let yh = self.extract(y, lw, hw, w);
                    let yl = self.extract(y, 0, lw, w);
                    let rh = self.bin(op, hv, yh, hw);
                    let rl = self.bin(op, lv, yl, lw);
                    return self.concat(rh, rl, hw, lw);
                }
                if let (N::ZExt(i), V::C(k)) = (self.nodes[xe as usize].0, y) {
                    let iw = self.width(i);
                    if m(k, iw) == k {
                        let iv = self.v(i);
                        let r = self.bin(op, iv, V::C(k), iw);
                        return self.zext(r, iw, w);
                    } else if op == Bin::And {
                        let iv = self.v(i);
                        let r = self.bin(op, iv, V::C(m(k, iw)), iw);
                        return self.zext(r, iw, w);
                    }
                }
            }
        }
        // push into ite with constant arms
        if let (V::S(x), V::C(_)) = (a, b) {
            if let N::Ite(c, t, f) = self.nodes[x as usize].0 {
                if self.kval(t).is_some() && self.kval(f).is_some() {
                    let (tv, fv, cv) = (self.v(t), self.v(f), self.v(c));
                    let t2 = self.bin(op, tv, b, w);
                    let f2 = self.bin(op, fv, b, w);
                    return self.ite(cv, t2, f2, w);
                }
            }
        }
        let ea = self.e(a, w);
        let eb = self.e(b, w);
        let (ea, eb) = match op {
            Bin::And | Bin::Or | Bin::Xor | Bin::Mul if self.kval(ea).is_some() || (self.kval(eb).is_none() && ea > eb) => {
                (eb, ea)
            }
            _ => (ea, eb),
        };
        V::S(self.mk(N::Bin(op as u8, ea, eb), w))
    }

    fn join_or(&mut self, hi: E, lo: E, w: u32) -> Option<V> {
        // hi = concat(h, 0:lw') (possibly zext of it), lo = zext(l) with width(l) <= lw'
        let (hw_total, core) = match self.nodes[hi as usize].0 {
            N::ZExt(i) => (self.width(i), i),
            _ => (w, hi),
        };
        if let N::Concat(h, z) = self.nodes[core as usize].0 {
            if self.kval(z) != Some(0) {
                return None;
            }
            let zw = self.width(z);
            let l = match self.nodes[lo as usize].0 {
                N::ZExt(l) => l,
                _ => return None,
            };
            let lw = self.width(l);
            if lw > zw {
                return None;
            }
            let lv = self.v(l);
            let lv = self.zext(lv, lw, zw);
            let hv = self.v(h);
            let r = self.concat(hv, lv, hw_total - zw, zw);
            return Some(self.zext(r, hw_total, w));
        }
        None
    }

    pub fn cmp(&mut self, p: Pred, a: V, b: V, w: u32) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(ev_cmp(p, x, y, w) as u128);
        }
        let (op, a, b, neg) = match p {
            Pred::Eq => (EQ, a, b, false),
            Pred::Ne => (EQ, a, b, true),
            Pred::Ult => (ULT, a, b, false),
            Pred::Ule => (ULE, a, b, false),
            Pred::Ugt => (ULT, b, a, false),
            Pred::Uge => (ULE, b, a, false),
            Pred::Slt => (SLT, a, b, false),
            Pred::Sle => (SLE, a, b, false),
            Pred::Sgt => (SLT, b, a, false),
            Pred::Sge => (SLE, b, a, false),
        };
        let r = self.cmp0(op, a, b, w);
        if neg {
            self.not(r)
        } else {
            r
        }
    }

    fn cmp0(&mut self, op: u8, a: V, b: V, w: u32) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let p = [Pred::Eq, Pred::Ult, Pred::Ule, Pred::Slt, Pred::Sle][op as usize];
            return V::C(ev_cmp(p, x, y, w) as u128);
        }
        if a == b {
            return V::C((op == EQ || op == ULE || op == SLE) as u128);
        }
        let ones = m(u128::MAX, w);
        match (op, a, b) {
            (ULT, _, V::C(0)) => return V::C(0),
            (ULE, V::C(0), _) => return V::C(1),
            (ULE, _, V::C(k)) if k == ones => return V::C(1),
            (ULT, V::C(k), _) if k == ones => return V::C(0),
            (ULT, x, V::C(1)) => return self.cmp0(EQ, x, V::C(0), w),
            _ => {}
        }
        if op == EQ {
            if let V::C(_) = a {
                return self.cmp0(EQ, b, a, w);
            }
            if w == 1 {
                match b {
                    V::C(1) => return a,
                    V::C(_) => return self.not(a),
                    _ => {}
                }
            }
        }
        // comparisons through zext / concat with constant parts
        match (a, b) {
            (V::S(x), V::C(k)) => match self.nodes[x as usize].0 {
                N::ZExt(i) => {
                    let iw = self.width(i);
                    let iv = self.v(i);
                    let fits = m(k, iw) == k;
                    match op {
                        EQ => {
                            return if fits { self.cmp0(EQ, iv, V::C(k), iw) } else { V::C(0) };
                        }
                        ULT | ULE => {
                            return if fits { self.cmp0(op, iv, V::C(k), iw) } else { V::C(1) };
                        }
                        SLT | SLE => {
                            if sx(k, w) < 0 {
                                return V::C(0);
                            }
                            let o = if op == SLT { ULT } else { ULE };
                            return if fits { self.cmp0(o, iv, V::C(k), iw) } else { V::C(1) };
                        }
                        _ => {}
                    }
                }
                N::Concat(h, l) if op == EQ => {
                    let (hw, lw) = (self.width(h), self.width(l));
                    let (hv, lv) = (self.v(h), self.v(l));
                    let c1 = self.cmp0(EQ, hv, V::C(k >> lw), hw);
                    if c1 == V::C(0) {
                        return c1;
                    }
                    let c2 = self.cmp0(EQ, lv, V::C(m(k, lw)), lw);
                    return self.bin(Bin::And, c1, c2, 1);
                }
                N::Ite(c, t, f) if self.kval(t).is_some() || self.kval(f).is_some() => {
                    let (cv, tv, fv) = (self.v(c), self.v(t), self.v(f));
                    let t2 = self.cmp0(op, tv, b, w);
                    let f2 = self.cmp0(op, fv, b, w);
                    return self.ite(cv, t2, f2, 1);
                }
                N::Bin(0, p, q) if op == EQ => {
                    if let Some(j) = self.kval(q) {
                        let pv = self.v(p);
                        return self.cmp0(EQ, pv, V::C(m(k.wrapping_sub(j), w)), w);
                    }
                }
                N::Bin(9, p, q) if op == EQ => {
                    if let Some(j) = self.kval(q) {
                        let pv = self.v(p);
                        return self.cmp0(EQ, pv, V::C(k ^ j), w);
                    }
                    if k == 0 {
                        let (pv, qv) = (self.v(p), self.v(q));
                        return self.cmp0(EQ, pv, qv, w);
                    }
                }
                N::SExt(i) if op == EQ => {
                    let iw = self.width(i);
                    let iv = self.v(i);
                    return if m(sx(m(k, iw), iw) as u128, w) == k { self.cmp0(EQ, iv, V::C(m(k, iw)), iw) } else { V::C(0) };
                }
                _ => {}
            },
            (V::C(k), V::S(y)) => match self.nodes[y as usize].0 {
                N::ZExt(i) => {
                    let iw = self.width(i);
                    let iv = self.v(i);
                    let fits = m(k, iw) == k;
                    match op {
                        ULT | ULE => {
                            return if fits { self.cmp0(op, V::C(k), iv, iw) } else { V::C(0) };
                        }
                        SLT | SLE => {
                            if sx(k, w) < 0 {
                                return V::C(1);
                            }
                            let o = if op == SLT { ULT } else { ULE };
                            return if fits { self.cmp0(o, V::C(k), iv, iw) } else { V::C(0) };
                        }
                        _ => {}
                    }
                }
                N::Ite(c, t, f) if self.kval(t).is_some() || self.kval(f).is_some() => {
                    let (cv, tv, fv) = (self.v(c), self.v(t), self.v(f));
                    let t2 = self.cmp0(op, a, tv, w);
                    let f2 = self.cmp0(op, a, fv, w);
                    return self.ite(cv, t2, f2, 1);
                }
                _ => {}
            },
            (V::S(x), V::S(y)) => {
                if let (N::ZExt(i), N::ZExt(j)) = (self.nodes[x as usize].0, self.nodes[y as usize].0) {
                    let (iw, jw) = (self.width(i), self.width(j));
                    let mw = iw.max(jw);
                    if mw < w {
                        let (iv, jv) = (self.v(i), self.v(j));
                        let i2 = self.zext(iv, iw, mw);
                        let j2 = self.zext(jv, jw, mw);
                        let o = match op {
                            SLT => ULT,
                            SLE => ULE,
                            o => o,
                        };
                        return self.cmp0(o, i2, j2, mw);
                    }
                }
            }
            _ => {}
        }
        let ea = self.e(a, w);
        let eb = self.e(b, w);
        let (ea, eb) = if op == EQ && self.kval(eb).is_none() && ea > eb { (eb, ea) } else { (ea, eb) };
        V::S(self.mk(N::Cmp(op, ea, eb), 1))
    }

    pub fn ite(&mut self, c: V, a: V, b: V, w: u32) -> V {
        match c {
            V::C(1) => return a,
            V::C(_) => return b,
            _ => {}
        }
        if a == b {
            return a;
        }
        if w == 1 {
            match (a, b) {
                (V::C(1), V::C(0)) => return c,
                (V::C(0), V::C(1)) => return self.not(c),
                (V::C(1), x) => return self.bin(Bin::Or, c, x, 1),
                (V::C(0), x) => {
                    let n = self.not(c);
                    return self.bin(Bin::And, n, x, 1);
                }
                (x, V::C(0)) => return self.bin(Bin::And, c, x, 1),
                (x, V::C(1)) => {
                    let n = self.not(c);
                    return self.bin(Bin::Or, n, x, 1);
                }
                _ => {}
            }
        }
        let V::S(ce) = c else { unreachable!() };
        // same-condition nesting
        if let V::S(x) = b {
            if let N::Ite(c2, _, f) = self.nodes[x as usize].0 {
                if c2 == ce {
                    let fv = self.v(f);
                    return self.ite(c, a, fv, w);
                }
            }
        }
        if let V::S(x) = a {
            if let N::Ite(c2, t, _) = self.nodes[x as usize].0 {
                if c2 == ce {
                    let tv = self.v(t);
                    return self.ite(c, tv, b, w);
                }
            }
        }
        let (ce, a, b) = if let N::Not(n) = self.nodes[ce as usize].0 { (n, b, a) } else { (ce, a, b) };
        let ea = self.e(a, w);
        let eb = self.e(b, w);
        V::S(self.mk(N::Ite(ce, ea, eb), w))
    }

    pub fn zext(&mut self, a: V, fw: u32, tw: u32) -> V {
        if fw == tw {
            return a;
        }
        match a {
            V::C(k) => V::C(k),
            V::S(e) => match self.nodes[e as usize].0 {
                N::ZExt(i) => V::S(self.mk(N::ZExt(i), tw)),
                _ => V::S(self.mk(N::ZExt(e), tw)),
            },
        }
    }

    pub fn sext(&mut self, a: V, fw: u32, tw: u32) -> V {
        if fw == tw {
            return a;
        }
        match a {
            V::C(k) => V::C(m(sx(k, fw) as u128, tw)),
            V::S(e) => match self.nodes[e as usize].0 {
                N::ZExt(i) => V::S(self.mk(N::ZExt(i), tw)),
                _ if fw == 1 => {
                    let ones = m(u128::MAX, tw);
                    self.ite(a, V::C(ones), V::C(0), tw)
                }
                _ => V::S(self.mk(N::SExt(e), tw)),
            },
        }
    }

    /// bits [lo, lo+w) of a (width aw)
    pub fn extract(&mut self, a: V, lo: u32, w: u32, aw: u32) -> V {
        if lo == 0 && w == aw {
            return a;
        }
        if w == 0 {
            return V::C(0);
        }
        match a {
            V::C(k) => V::C(m(k >> lo, w)),
            V::S(e) => match self.nodes[e as usize].0 {
                N::ZExt(i) => {
                    let iw = self.width(i);
                    let iv = self.v(i);
                    if lo >= iw {
                        V::C(0)
                    } else if lo + w <= iw {
                        self.extract(iv, lo, w, iw)
                    } else {
                        let x = self.extract(iv, lo, iw - lo, iw);
                        self.zext(x, iw - lo, w)
                    }
                }
                N::SExt(i) if lo + w <= self.width(i) => {
                    let iw = self.width(i);
                    let iv = self.v(i);
                    self.extract(iv, lo, w, iw)
                }
                N::Concat(h, l) => {
                    let (hw, lw) = (self.width(h), self.width(l));
                    let (hv, lv) = (self.v(h), self.v(l));
                    if lo >= lw {
                        self.extract(hv, lo - lw, w, hw)
                    } else if lo + w <= lw {
                        self.extract(lv, lo, w, lw)
                    } else {
                        let x = self.extract(hv, 0, lo + w - lw, hw);
                        let y = self.extract(lv, lo, lw - lo, lw);
                        self.concat(x, y, lo + w - lw, lw - lo)
                    }
                }
                N::Extract(i, l2) => {
                    let iw = self.width(i);
                    let iv = self.v(i);
                    self.extract(iv, lo + l2, w, iw)
                }
                N::Ite(c, t, f) if self.kval(t).is_some() || self.kval(f).is_some() => {
                    let (cv, tv, fv) = (self.v(c), self.v(t), self.v(f));
                    let t2 = self.extract(tv, lo, w, aw);
                    let f2 = self.extract(fv, lo, w, aw);
                    self.ite(cv, t2, f2, w)
                }
                N::Bin(op, x, y) if matches!(op, 7 | 8 | 9) => {
                    let (xv, yv) = (self.v(x), self.v(y));
                    let x2 = self.extract(xv, lo, w, aw);
                    let y2 = self.extract(yv, lo, w, aw);
                    self.bin(BINS[op as usize], x2, y2, w)
                }
                N::Bin(op, x, y) if lo == 0 && matches!(op, 0 | 1 | 2) => {
                    let (xv, yv) = (self.v(x), self.v(y));
                    let x2 = self.extract(xv, 0, w, aw);
                    let y2 = self.extract(yv, 0, w, aw);
                    self.bin(BINS[op as usize], x2, y2, w)
                }
                _ => {
                    let r = self.mk(N::Extract(e, lo), w);
                    V::S(r)
                }
            },
        }
    }

    pub fn concat(&mut self, h: V, l: V, hw: u32, lw: u32) -> V {
        if hw == 0 {
            return l;
        }
        if lw == 0 {
            return h;
        }
        let w = hw + lw;
        match (h, l) {
            (V::C(a), V::C(b)) => return V::C((a << lw) | b),
            (V::C(0), l) => return self.zext(l, lw, w),
            _ => {}
        }
        if let (V::S(a), V::S(b)) = (h, l) {
            // adjacent extracts of the same expression
            let ea = match self.nodes[a as usize].0 {
                N::Extract(x, lo) => Some((x, lo)),
                _ => None,
            };
            let eb = match self.nodes[b as usize].0 {
                N::Extract(x, lo) => Some((x, lo)),
                _ => Some((b, 0)),
            };
            if let (Some((x, lo)), Some((y, lo2))) = (ea, eb) {
                if x == y && lo == lo2 + lw {
                    let xv = self.v(x);
                    let xw = self.width(x);
                    return self.extract(xv, lo2, w, xw);
                }
            }
            // concat(zext-ish, ..)
            if let N::ZExt(i) = self.nodes[a as usize].0 {
                let iw = self.width(i);
                let iv = self.v(i);
                let inner = self.concat(iv, l, iw, lw);
                return self.zext(inner, iw + lw, w);
            }
            // right-nest so that neighbours can merge
            if let N::Concat(h2, l2) = self.nodes[a as usize].0 {
                let (h2w, l2w) = (self.width(h2), self.width(l2));
                let (h2v, l2v) = (self.v(h2), self.v(l2));
                let inner = self.concat(l2v, l, l2w, lw);
                return self.concat(h2v, inner, h2w, l2w + lw);
            }
        }
        if let (V::S(a), V::C(_)) = (h, l) {
            if let N::ZExt(i) = self.nodes[a as usize].0 {
                let iw = self.width(i);
                let iv = self.v(i);
                let inner = self.concat(iv, l, iw, lw);
                return self.zext(inner, iw + lw, w);
            }
        }
        let a = self.e(h, hw);
        let b = self.e(l, lw);
        // merge with the head of a right-nested concat
        if let N::Concat(bh, bl) = self.nodes[b as usize].0 {
            if let (N::Extract(x, lo), N::Extract(y, lo2)) = (self.nodes[a as usize].0, self.nodes[bh as usize].0) {
                let bhw = self.width(bh);
                if x == y && lo == lo2 + bhw {
                    let xv = self.v(x);
                    let xw = self.width(x);
                    let j = self.extract(xv, lo2, hw + bhw, xw);
                    let blv = self.v(bl);
                    let blw = self.width(bl);
                    return self.concat(j, blv, hw + bhw, blw);
                }
            }
        }
        V::S(self.mk(N::Concat(a, b), w))
    }

    /// Rewrite `e` as a decision tree over constants and map `g` over the constant leaves.
    /// None when e is not built from if-then-else over constants (or has too many leaves).
    pub fn leaves(&mut self, e: E, memo: &mut HashMap<E, Option<E>>, budget: &mut u32) -> Option<E> {
        // returns an equivalent expression consisting only of Ite and Const nodes
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let (n, w) = self.nodes[e as usize];
        let r = match n {
            N::Const(_) => Some(e),
            N::Ite(c, a, b) => {
                let a2 = self.leaves(a, memo, budget);
                let b2 = self.leaves(b, memo, budget);
                match (a2, b2) {
                    (Some(a2), Some(b2)) => {
                        let (cv, av, bv) = (self.v(c), self.v(a2), self.v(b2));
                        let v = self.ite(cv, av, bv, w);
                        Some(self.e(v, w))
                    }
                    _ => None,
                }
            }
            N::ZExt(a) => self.leaves(a, memo, budget).and_then(|t| self.map1(t, w, budget, &mut HashMap::new(), &|k| k)),
            N::SExt(a) => {
                let aw = self.width(a);
                self.leaves(a, memo, budget)
                    .and_then(|t| self.map1(t, w, budget, &mut HashMap::new(), &|k| m(sx(k, aw) as u128, w)))
            }
            N::Extract(a, lo) => self
                .leaves(a, memo, budget)
                .and_then(|t| self.map1(t, w, budget, &mut HashMap::new(), &|k| m(k >> lo, w))),
            N::Bin(op, a, b) => {
                let a2 = self.leaves(a, memo, budget);
                let b2 = if a2.is_some() { self.leaves(b, memo, budget) } else { None };
                match (a2, b2) {
                    (Some(a2), Some(b2)) => {
                        self.map2(a2, b2, w, budget, &mut HashMap::new(), &|x, y| ev_bin(BINS[op as usize], x, y, w))
                    }
                    _ => None,
                }
            }
            N::Concat(a, b) => {
                let bw = self.width(b);
                let a2 = self.leaves(a, memo, budget);
                let b2 = if a2.is_some() { self.leaves(b, memo, budget) } else { None };
                match (a2, b2) {
                    (Some(a2), Some(b2)) => self.map2(a2, b2, w, budget, &mut HashMap::new(), &|x, y| (x << bw) | y),
                    _ => None,
                }
            }
            _ => None,
        };
        memo.insert(e, r);
        r
    }

    fn map1(
        &mut self,
        t: E,
        w: u32,
        budget: &mut u32,
        memo: &mut HashMap<E, E>,
        g: &dyn Fn(u128) -> u128,
    ) -> Option<E> {
        if let Some(r) = memo.get(&t) {
            return Some(*r);
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let r = match self.nodes[t as usize].0 {
            N::Const(k) => self.konst(g(k), w),
            N::Ite(c, a, b) => {
                let a2 = self.map1(a, w, budget, memo, g)?;
                let b2 = self.map1(b, w, budget, memo, g)?;
                let (cv, av, bv) = (self.v(c), self.v(a2), self.v(b2));
                let v = self.ite(cv, av, bv, w);
                self.e(v, w)
            }
            _ => return None,
        };
        memo.insert(t, r);
        Some(r)
    }

    fn map2(
        &mut self,
        t: E,
        u: E,
        w: u32,
        budget: &mut u32,
        memo: &mut HashMap<(E, E), E>,
        g: &dyn Fn(u128, u128) -> u128,
    ) -> Option<E> {
        if let Some(r) = memo.get(&(t, u)) {
            return Some(*r);
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let r = match (self.nodes[t as usize].0, self.nodes[u as usize].0) {
            (N::Const(k), N::Const(j)) => self.konst(g(k, j), w),
            (N::Ite(c, a, b), _) => {
                let a2 = self.map2(a, u, w, budget, memo, g)?;
                let b2 = self.map2(b, u, w, budget, memo, g)?;
                let (cv, av, bv) = (self.v(c), self.v(a2), self.v(b2));
                let v = self.ite(cv, av, bv, w);
                self.e(v, w)
            }
            (_, N::Ite(c, a, b)) => {
                let a2 = self.map2(t, a, w, budget, memo, g)?;
                let b2 = self.map2(t, b, w, budget, memo, g)?;
                let (cv, av, bv) = (self.v(c), self.v(a2), self.v(b2));
                let v = self.ite(cv, av, bv, w);
                self.e(v, w)
            }
            _ => return None,
        };
        memo.insert((t, u), r);
        Some(r)
    }

    /// map a decision tree's constants to values
    pub fn map_tree(
        &mut self,
        t: E,
        w: u32,
        memo: &mut HashMap<E, V>,
        g: &mut dyn FnMut(&mut Pool, u128) -> Option<V>,
    ) -> Option<V> {
        if let Some(r) = memo.get(&t) {
            return Some(*r);
        }
        let r = match self.nodes[t as usize].0 {
            N::Const(k) => g(self, k)?,
            N::Ite(c, a, b) => {
                let a2 = self.map_tree(a, w, memo, g)?;
                let b2 = self.map_tree(b, w, memo, g)?;
                let cv = self.v(c);
                self.ite(cv, a2, b2, w)
            }
            _ => return None,
        };
        memo.insert(t, r);
        Some(r)
    }

    /// number of distinct constants, or None above the limit
    pub fn tree_consts(&self, t: E, limit: usize) -> Option<Vec<u128>> {
        let mut seen = std::collections::HashSet::new();
        let mut ks = std::collections::BTreeSet::new();
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            match self.nodes[x as usize].0 {
                N::Const(k) => {
                    ks.insert(k);
                    if ks.len() > limit {
                        return None;
                    }
                }
                N::Ite(_, a, b) => {
                    st.push(a);
                    st.push(b);
                }
                _ => return None,
            }
        }
        Some(ks.into_iter().collect())
    }

    /// evaluate under an assignment (missing variables are 0); iterative to survive deep DAGs
    pub fn eval(&mut self, e: E, model: &Model) -> u128 {
        self.cur += 1;
        self.eval_more(e, model)
    }

    pub fn eval_more(&mut self, e: E, model: &Model) -> u128 {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.stamp[xi] == self.cur {
                stack.pop();
                continue;
            }
            let (n, w) = self.nodes[xi];
            let cur = self.cur;
            let need = |s: &Self, k: E| s.stamp[k as usize] != cur;
            let r = match n {
                N::Const(k) => k,
                N::Var(i) => model.get(i),
                N::Bin(op, a, b) => {
                    let (na, nb) = (need(self, a), need(self, b));
                    if na || nb {
                        if na {
                            stack.push(a)
                        }
                        if nb {
                            stack.push(b)
                        }
                        continue;
                    }
                    ev_bin(BINS[op as usize], self.val[a as usize], self.val[b as usize], w)
                }
                N::Cmp(op, a, b) => {
                    let (na, nb) = (need(self, a), need(self, b));
                    if na || nb {
                        if na {
                            stack.push(a)
                        }
                        if nb {
                            stack.push(b)
                        }
                        continue;
                    }
                    let p = [Pred::Eq, Pred::Ult, Pred::Ule, Pred::Slt, Pred::Sle][op as usize];
                    let aw = self.nodes[a as usize].1;
                    ev_cmp(p, self.val[a as usize], self.val[b as usize], aw) as u128
                }
                N::Not(a) => {
                    if need(self, a) {
                        stack.push(a);
                        continue;
                    }
                    self.val[a as usize] ^ 1
                }
                N::Ite(c, a, b) => {
                    if need(self, c) {
                        stack.push(c);
                        continue;
                    }
                    let k = if self.val[c as usize] == 1 { a } else { b };
                    if need(self, k) {
                        stack.push(k);
                        continue;
                    }
                    self.val[k as usize]
                }
                N::ZExt(a) => {
                    if need(self, a) {
                        stack.push(a);
                        continue;
                    }
                    self.val[a as usize]
                }
                N::SExt(a) => {
                    if need(self, a) {
                        stack.push(a);
                        continue;
                    }
                    let aw = self.nodes[a as usize].1;
                    m(sx(self.val[a as usize], aw) as u128, w)
                }
                N::Extract(a, lo) => {
                    if need(self, a) {
                        stack.push(a);
                        continue;
                    }
                    m(self.val[a as usize] >> lo, w)
                }
                N::Concat(a, b) => {
                    let (na, nb) = (need(self, a), need(self, b));
                    if na || nb {
                        if na {
                            stack.push(a)
                        }
                        if nb {
                            stack.push(b)
                        }
                        continue;
                    }
                    let bw = self.nodes[b as usize].1;
                    (self.val[a as usize] << bw) | self.val[b as usize]
                }
            };
            self.val[xi] = r;
            self.stamp[xi] = self.cur;
            stack.pop();
        }
        self.val[e as usize]
    }
}

#[derive(Clone, Debug, Default)]
pub struct Model(pub Vec<u128>);

impl Model {
    pub fn get(&self, i: u32) -> u128 {
        self.0.get(i as usize).copied().unwrap_or(0)
    }
    pub fn set(&mut self, i: u32, v: u128) {
        if self.0.len() <= i as usize {
            self.0.resize(i as usize + 1, 0);
        }
        self.0[i as usize] = v;
    }
}
