//! A complete decision procedure for constraints over one variable: the exact set of satisfying
//! values as a union of intervals. A term is evaluated over a set as pieces on which it is either
//! constant or `v + k`; a term that does not have that form is left to Z3.
use crate::expr::*;
use crate::ir::Bin;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    C(u128),
    A(i128), // the variable's value plus this, within the term's width without wrapping
}

#[derive(Clone, Copy, Debug)]
struct Piece {
    lo: u64,
    hi: u64,
    k: K,
}

pub type Set = Rc<Vec<(u64, u64)>>;

const MAX_PIECES: usize = 12_000;

struct Ev<'a> {
    p: &'a Pool,
    s: &'a [(u64, u64)],
    var: u32,
    model: &'a Model, // of the variables that are pinned to one value
    memo: HashMap<E, Option<Rc<Vec<Piece>>>>,
}

fn push(out: &mut Vec<Piece>, lo: u64, hi: u64, k: K) {
    if let Some(l) = out.last_mut() {
        if l.k == k && l.hi.checked_add(1) == Some(lo) {
            l.hi = hi;
            return;
        }
    }
    out.push(Piece { lo, hi, k });
}

/// split a piece of `v + a` where the value's `unit`-sized block changes; at most MAX_PIECES blocks
fn blocks(p: &Piece, a: i128, unit: u128, f: &mut dyn FnMut(u64, u64, u128)) -> bool {
    let (x, y) = ((p.lo as i128 + a) as u128, (p.hi as i128 + a) as u128);
    let (b0, b1) = (x / unit, y / unit);
    if b1 - b0 > MAX_PIECES as u128 {
        return false;
    }
    for b in b0..=b1 {
        let lo = if b == b0 { p.lo } else { ((b * unit) as i128 - a) as u64 };
        let hi = if b == b1 { p.hi } else { (((b + 1) * unit - 1) as i128 - a) as u64 };
        f(lo, hi, b);
    }
    true
}

impl<'a> Ev<'a> {
    fn ev(&mut self, e: E) -> Option<Rc<Vec<Piece>>> {
        if let Some(r) = self.memo.get(&e) {
            return r.clone();
        }
        let r = self.ev1(e).map(Rc::new);
        self.memo.insert(e, r.clone());
        r
    }

    fn map1(&mut self, a: E, f: &mut dyn FnMut(&Piece, &mut Vec<Piece>) -> bool) -> Option<Vec<Piece>> {
        let x = self.ev(a)?;
        let mut out = Vec::with_capacity(x.len());
        for p in x.iter() {
            if !f(p, &mut out) || out.len() > MAX_PIECES {
                return None;
            }
        }
        Some(out)
    }

    fn map2(&mut self, a: E, b: E, f: &mut dyn FnMut(u64, u64, K, K, &mut Vec<Piece>) -> bool) -> Option<Vec<Piece>> {
        let (x, y) = (self.ev(a)?, self.ev(b)?);
        let mut out = Vec::with_capacity(x.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() && j < y.len() {
            let (p, q) = (x[i], y[j]);
            let (lo, hi) = (p.lo.max(q.lo), p.hi.min(q.hi));
            if lo <= hi && (!f(lo, hi, p.k, q.k, &mut out) || out.len() > MAX_PIECES) {
                return None;
            }
            if p.hi < q.hi {
                i += 1
            } else if q.hi < p.hi {
                j += 1
            } else {
                i += 1;
                j += 1
            }
        }
        Some(out)
    }

    /// `v + a` taken modulo 2^w
    fn wrap(lo: u64, hi: u64, a: i128, w: u32, out: &mut Vec<Piece>) -> bool {
        let unit = 1i128 << w;
        // move into the non-negative range first
        let low = lo as i128 + a;
        let shift = if low < 0 { (-low + unit - 1) / unit * unit } else { 0 };
        let a = a + shift;
        let p = Piece { lo, hi, k: K::A(a) };
        blocks(&p, a, unit as u128, &mut |l, h, b| push(out, l, h, K::A(a - b as i128 * unit)))
    }

    fn singles(lo: u64, hi: u64, out: &mut Vec<Piece>, f: &dyn Fn(u64) -> u128) -> bool {
        if hi - lo > 2048 {
            return false;
        }
        for v in lo..=hi {
            push(out, v, v, K::C(f(v)));
        }
        true
    }

    fn ev1(&mut self, e: E) -> Option<Vec<Piece>> {
        let (n, w) = self.p.nodes[e as usize];
        if w > 64 {
            return None;
        }
        let full = |k: K, s: &[(u64, u64)]| s.iter().map(|(lo, hi)| Piece { lo: *lo, hi: *hi, k }).collect();
        match n {
            N::Const(c) => Some(full(K::C(c), self.s)),
            N::Var(v) if v == self.var => Some(full(K::A(0), self.s)),
            N::Var(v) => Some(full(K::C(self.model.get(v)), self.s)),
            N::Not(a) => self.map1(a, &mut |p, o| match p.k {
                K::C(c) => {
                    push(o, p.lo, p.hi, K::C(c ^ 1));
                    true
                }
                _ => false,
            }),
            N::ZExt(a) => self.ev(a).map(|r| (*r).clone()),
            N::SExt(a) => {
                let aw = self.p.width(a);
                let half = 1u128 << (aw - 1);
                let up = (1i128 << w) - (1i128 << aw);
                self.map1(a, &mut |p, o| match p.k {
                    K::C(c) => {
                        push(o, p.lo, p.hi, K::C(m(sx(c, aw) as u128, w)));
                        true
                    }
                    K::A(k) => blocks(p, k, half, &mut |l, h, b| push(o, l, h, K::A(if b == 0 { k } else { k + up }))),
                })
            }
            N::Extract(a, lo) => self.map1(a, &mut |p, o| match p.k {
                K::C(c) => {
                    push(o, p.lo, p.hi, K::C(m(c >> lo, w)));
                    true
                }
                K::A(k) if lo == 0 => Self::wrap(p.lo, p.hi, k, w, o),
                K::A(k) => blocks(p, k, 1u128 << lo, &mut |l, h, b| push(o, l, h, K::C(m(b, w)))),
            }),
            N::Concat(a, b) => {
                let bw = self.p.width(b);
                self.map2(a, b, &mut |lo, hi, x, y, o| match (x, y) {
                    (K::C(x), K::C(y)) => {
                        push(o, lo, hi, K::C((x << bw) | y));
                        true
                    }
                    (K::C(x), K::A(k)) => {
                        push(o, lo, hi, K::A(k + ((x << bw) as i128)));
                        true
                    }
                    (K::A(k), K::C(y)) => Self::singles(lo, hi, o, &|v| (((v as i128 + k) as u128) << bw) | y),
                    (K::A(k), K::A(j)) => {
                        Self::singles(lo, hi, o, &|v| (((v as i128 + k) as u128) << bw) | ((v as i128 + j) as u128))
                    }
                })
            }
            N::Ite(c, a, b) => {
                let cs = self.ev(c)?;
                let (x, y) = (self.ev(a)?, self.ev(b)?);
                let mut out = vec![];
                let (mut i, mut j) = (0, 0);
                for p in cs.iter() {
                    let K::C(c) = p.k else { return None };
                    let (src, k) = if c == 1 { (&x, &mut i) } else { (&y, &mut j) };
                    while *k < src.len() && src[*k].hi < p.lo {
                        *k += 1;
                    }
                    let mut q = *k;
                    while q < src.len() && src[q].lo <= p.hi {
                        push(&mut out, src[q].lo.max(p.lo), src[q].hi.min(p.hi), src[q].k);
                        q += 1;
                    }
                    if out.len() > MAX_PIECES {
                        return None;
                    }
                }
                Some(out)
            }
            N::Cmp(op, a, b) => {
                let aw = self.p.width(a);
                let half = 1i128 << (aw - 1);
                // signed comparisons: both sides moved by half the range
                let signed = op >= 3;
                let ord = match op {
                    0 => 0u8,
                    1 | 3 => 1,
                    _ => 2,
                };
                let cmp = move |x: i128, y: i128| match ord {
                    0 => x == y,
                    1 => x < y,
                    _ => x <= y,
                };
                self.map2(a, b, &mut |lo, hi, x, y, o| {
                    // pieces on which each side does not cross the sign boundary
                    let mut cuts = vec![(lo, hi)];
                    if signed {
                        for k in [x, y] {
                            if let K::A(k) = k {
                                // first v with v + k >= half
                                let c = half - k;
                                if c > lo as i128 && c <= hi as i128 {
                                    let c = c as u64;
                                    let mut n = vec![];
                                    for (l, h) in cuts {
                                        if l < c && c <= h {
                                            n.push((l, c - 1));
                                            n.push((c, h));
                                        } else {
                                            n.push((l, h));
                                        }
                                    }
                                    cuts = n;
                                }
                            }
                        }
                    }
                    for (l, h) in cuts {
                        let sg = |k: K| -> K {
                            if !signed {
                                return k;
                            }
                            match k {
                                K::C(c) => K::C(((c as i128 + half) % (2 * half)) as u128),
                                K::A(a) => K::A(if l as i128 + a >= half { a - half } else { a + half }),
                            }
                        };
                        match (sg(x), sg(y)) {
                            (K::C(x), K::C(y)) => push(o, l, h, K::C(cmp(x as i128, y as i128) as u128)),
                            (K::A(x), K::A(y)) => push(o, l, h, K::C(cmp(x, y) as u128)),
                            (K::A(k), K::C(c)) => {
                                // the value of v at which v + k equals c
                                let t = c as i128 - k;
                                split(o, l, h, t, &|d| cmp(d, 0));
                            }
                            (K::C(c), K::A(k)) => {
                                let t = c as i128 - k;
                                split(o, l, h, t, &|d| cmp(0, d));
                            }
                        }
                    }
                    true
                })
            }
            N::Bin(op, a, b) => {
                let op = BINS[op as usize];
                self.map2(a, b, &mut |lo, hi, x, y, o| {
                    let unit = 1i128 << w;
                    match (op, x, y) {
                        (_, K::C(x), K::C(y)) => {
                            push(o, lo, hi, K::C(ev_bin(op, x, y, w)));
                            true
                        }
                        (Bin::Add, K::A(k), K::C(c)) | (Bin::Add, K::C(c), K::A(k)) => Self::wrap(lo, hi, k + c as i128, w, o),
                        (Bin::Sub, K::A(k), K::C(c)) => Self::wrap(lo, hi, k - c as i128, w, o),
                        (Bin::Sub, K::A(k), K::A(j)) => {
                            push(o, lo, hi, K::C(m(((k - j) % unit) as u128, w)));
                            true
                        }
                        (Bin::And, K::A(k), K::C(c)) | (Bin::And, K::C(c), K::A(k)) if c & (c + 1) == 0 => {
                            if c == 0 {
                                push(o, lo, hi, K::C(0));
                                return true;
                            }
                            Self::wrap(lo, hi, k, c.count_ones(), o)
                        }
                        (Bin::LShr, K::A(k), K::C(c)) if c < w as u128 => {
                            blocks(&Piece { lo, hi, k: x }, k, 1u128 << c, &mut |l, h, b| push(o, l, h, K::C(b)))
                        }
                        (Bin::UDiv, K::A(k), K::C(c)) if c > 0 => {
                            blocks(&Piece { lo, hi, k: x }, k, c, &mut |l, h, b| push(o, l, h, K::C(b)))
                        }
                        _ => {
                            let val = |k: K, v: u64| match k {
                                K::C(c) => c,
                                K::A(a) => (v as i128 + a) as u128,
                            };
                            Self::singles(lo, hi, o, &|v| ev_bin(op, val(x, v), val(y, v), w))
                        }
                    }
                })
            }
        }
    }
}

/// truth of a comparison of v with t (as the sign of v - t) over [l, h]
fn split(o: &mut Vec<Piece>, l: u64, h: u64, t: i128, f: &dyn Fn(i128) -> bool) {
    let (li, hi) = (l as i128, h as i128);
    if li < t {
        push(o, l, (t - 1).min(hi) as u64, K::C(f(-1) as u128));
    }
    if li <= t && t <= hi {
        push(o, t as u64, t as u64, K::C(f(0) as u128));
    }
    if hi > t {
        push(o, (t + 1).max(li) as u64, h, K::C(f(1) as u128));
    }
}

/// the members of `s` that satisfy `e`, or None if the term is outside the fragment
fn restrict(p: &Pool, s: &[(u64, u64)], var: u32, model: &Model, e: E) -> Option<Vec<(u64, u64)>> {
    let mut ev = Ev { p, s, var, model, memo: HashMap::new() };
    let r = ev.ev(e)?;
    let mut out: Vec<(u64, u64)> = vec![];
    for q in r.iter() {
        match q.k {
            K::C(1) => match out.last_mut() {
                Some(l) if l.1.checked_add(1) == Some(q.lo) => l.1 = q.hi,
                _ => out.push((q.lo, q.hi)),
            },
            K::C(_) => {}
            K::A(_) => return None,
        }
    }
    Some(out)
}

#[derive(Default)]
pub struct Ranges {
    sets: Vec<Set>,
    step: HashMap<(u32, E, u32), Option<u32>>, // set, constraint, pinned values -> set
    full: HashMap<(u32, u32), u32>,            // variable, width -> set
    envs: HashMap<Vec<(u32, u128)>, u32>,
    size: usize,
}

pub enum Answer {
    Empty,
    Some(Set),
    /// these constraints are outside the fragment; the set satisfies the others
    Unknown,
}

impl Ranges {
    /// The values of `var` that satisfy `cs`, in which every other variable is pinned by `model`.
    pub fn solve(&mut self, p: &Pool, var: u32, model: &Model, cs: &[E]) -> Answer {
        let w = p.var_names[var as usize].1;
        if w > 64 {
            return Answer::Unknown;
        }
        if self.size > 4_000_000 {
            *self = Ranges::default();
        }
        let mut id = match self.full.get(&(var, w)) {
            Some(i) => *i,
            None => {
                self.sets.push(Rc::new(vec![(0, if w == 64 { u64::MAX } else { (1 << w) - 1 })]));
                let i = self.sets.len() as u32 - 1;
                self.full.insert((var, w), i);
                i
            }
        };
        let mut later: Vec<E> = vec![];
        let mut todo: Vec<E> = cs.to_vec();
        loop {
            let mut progress = false;
            for c in todo.drain(..) {
                let vs = &p.vars_of[c as usize];
                let env = if vs.count() == 1 {
                    0
                } else {
                    let k: Vec<(u32, u128)> = vs.iter().filter(|v| *v != var).map(|v| (v, model.get(v))).collect();
                    let n = self.envs.len() as u32 + 1;
                    *self.envs.entry(k).or_insert(n)
                };
                let next = match self.step.get(&(id, c, env)) {
                    Some(n) => *n,
                    None => {
                        let s = self.sets[id as usize].clone();
                        let n = restrict(p, &s, var, model, c).map(|r| {
                            if r == **s {
                                return id;
                            }
                            self.size += r.len() + 8;
                            self.sets.push(Rc::new(r));
                            self.sets.len() as u32 - 1
                        });
                        self.size += 8;
                        self.step.insert((id, c, env), n);
                        n
                    }
                };
                match next {
                    Some(n) => {
                        id = n;
                        progress = true;
                        if self.sets[id as usize].is_empty() {
                            return Answer::Empty;
                        }
                    }
                    None => later.push(c),
                }
            }
            if later.is_empty() {
                return Answer::Some(self.sets[id as usize].clone());
            }
            if !progress {
                return Answer::Unknown;
            }
            std::mem::swap(&mut todo, &mut later);
        }
    }
}
