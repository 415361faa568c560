//! z3 back end (C API): constraint slicing by shared variables, query cache, recent-model reuse.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, s: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, n: u64, s: P) -> P;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    ast: Vec<P>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u128)>>>,
    bytes: HashMap<E, [u64; 4]>,
    pub byte_decided: u64,
    pub range_decided: u64,
    pub no_bytes: bool,
    /// every answer of the one-variable procedures is compared with Z3's
    pub check_ranges: bool,
    ranges: crate::ranges::Ranges,
    pub queries: u64,
    pub cache_hits: u64,
    pub unknowns: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump: Option<(String, u64, u64)>, // directory, max files, seen so far
}

pub fn z3_version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let use_simple = std::env::var("SYMX_SIMPLE").is_ok();
            let s = if use_simple {
                Z3_mk_simple_solver(ctx)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()))
            };
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver {
                ctx,
                s,
                ast: vec![],
                cache: HashMap::new(),
                bytes: HashMap::new(),
                byte_decided: 0,
                no_bytes: std::env::var("SYMX_NO_BYTES").is_ok(),
                queries: 0,
                cache_hits: 0,
                unknowns: 0,
                time: 0.0,
                max_time: 0.0,
                dump: None,
                range_decided: 0,
                check_ranges: false,
                ranges: Default::default(),
            }
        }
    }

    fn tr(&mut self, p: &Pool, e: E) -> P {
        if self.ast.len() < p.nodes.len() {
            self.ast.resize(p.nodes.len(), std::ptr::null_mut());
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if !self.ast[x as usize].is_null() {
                st.pop();
                continue;
            }
            let (n, w) = p.nodes[x as usize];
            let mut kids: [Option<E>; 3] = [None; 3];
            match n {
                N::Const(_) | N::Var(_) => {}
                N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => {
                    kids[0] = Some(a);
                    kids[1] = Some(b)
                }
                N::Not(a) | N::ZExt(a) | N::SExt(a) | N::Extract(a, _) => kids[0] = Some(a),
                N::Ite(a, b, c) => kids = [Some(a), Some(b), Some(c)],
            }
            let mut ready = true;
            for k in kids.iter().flatten() {
                if self.ast[*k as usize].is_null() {
                    st.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let c = self.ctx;
            let g = |i: usize| self.ast[kids[i].unwrap() as usize];
            let kw = |i: usize| p.width(kids[i].unwrap());
            let r = unsafe {
                // Booleans used as 1-bit vectors
                let bv = |i: usize| {
                    if kw(i) == 1 {
                        let s1 = Z3_mk_bv_sort(c, 1);
                        Z3_mk_ite(c, g(i), Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1))
                    } else {
                        g(i)
                    }
                };
                let out_bool = |a: P| {
                    if w == 1 {
                        let s1 = Z3_mk_bv_sort(c, 1);
                        Z3_mk_eq(c, a, Z3_mk_unsigned_int64(c, 1, s1))
                    } else {
                        a
                    }
                };
                match n {
                    N::Const(k) => {
                        if w == 1 {
                            if k == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        } else if w <= 64 {
                            Z3_mk_unsigned_int64(c, k as u64, Z3_mk_bv_sort(c, w))
                        } else {
                            let s = CString::new(k.to_string()).unwrap();
                            Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w))
                        }
                    }
                    N::Var(i) => {
                        let s = CString::new(p.var_names[i as usize].0.as_str()).unwrap();
                        let sort = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) };
                        Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), sort)
                    }
                    N::Bin(op, ..) => {
                        let (a, b) = (g(0), g(1));
                        if w == 1 {
                            match op {
                                7 => Z3_mk_and(c, 2, [a, b].as_ptr()),
                                8 => Z3_mk_or(c, 2, [a, b].as_ptr()),
                                9 => Z3_mk_xor(c, a, b),
                                _ => panic!("1-bit op {}", op),
                            }
                        } else {
                            match op {
                                0 => Z3_mk_bvadd(c, a, b),
                                1 => Z3_mk_bvsub(c, a, b),
                                2 => Z3_mk_bvmul(c, a, b),
                                3 => Z3_mk_bvudiv(c, a, b),
                                4 => Z3_mk_bvsdiv(c, a, b),
                                5 => Z3_mk_bvurem(c, a, b),
                                6 => Z3_mk_bvsrem(c, a, b),
                                7 => Z3_mk_bvand(c, a, b),
                                8 => Z3_mk_bvor(c, a, b),
                                9 => Z3_mk_bvxor(c, a, b),
                                10 => Z3_mk_bvshl(c, a, b),
                                11 => Z3_mk_bvlshr(c, a, b),
                                _ => Z3_mk_bvashr(c, a, b),
                            }
                        }
                    }
                    N::Cmp(op, ..) => {
                        if op == 0 {
                            Z3_mk_eq(c, g(0), g(1))
                        } else {
                            let (a, b) = (bv(0), bv(1));
                            match op {
                                1 => Z3_mk_bvult(c, a, b),
                                2 => Z3_mk_bvule(c, a, b),
                                3 => Z3_mk_bvslt(c, a, b),
                                _ => Z3_mk_bvsle(c, a, b),
                            }
                        }
                    }
                    N::Not(_) => Z3_mk_not(c, g(0)),
                    N::Ite(..) => Z3_mk_ite(c, g(0), g(1), g(2)),
                    N::ZExt(_) => Z3_mk_zero_ext(c, w - kw(0), bv(0)),
                    N::SExt(_) => Z3_mk_sign_ext(c, w - kw(0), bv(0)),
                    N::Extract(_, lo) => out_bool(Z3_mk_extract(c, lo + w - 1, lo, bv(0))),
                    N::Concat(..) => Z3_mk_concat(c, bv(0), bv(1)),
                }
            };
            if r.is_null() {
                panic!("z3 translation failed for {:?} width {} error {}", n, w, unsafe { Z3_get_error_code(self.ctx) });
            }
            self.ast[x as usize] = r;
            st.pop();
        }
        self.ast[e as usize]
    }

    /// Complete decision for constraints over one variable of at most 8 bits: the exact set of
    /// satisfying values (truth table of every constraint, intersected).
    fn byte_check(&mut self, p: &mut Pool, var: u32, cs: &[E]) -> Option<u128> {
        let w = p.var_names[var as usize].1;
        let n = 1u32 << w;
        let mut acc = [u64::MAX; 4];
        if n < 256 {
            for i in 0..4u32 {
                acc[i as usize] = if n >= (i + 1) * 64 {
                    u64::MAX
                } else if n <= i * 64 {
                    0
                } else {
                    (1u64 << (n - i * 64)) - 1
                };
            }
        }
        for c in cs {
            if !self.bytes.contains_key(c) {
                let mut t = [0u64; 4];
                let mut md = Model::default();
                for k in 0..n {
                    md.set(var, k as u128);
                    if p.eval(*c, &md) == 1 {
                        t[(k / 64) as usize] |= 1 << (k % 64);
                    }
                }
                self.bytes.insert(*c, t);
            }
            let t = &self.bytes[c];
            for i in 0..4 {
                acc[i] &= t[i];
            }
        }
        for i in 0..4 {
            if acc[i] != 0 {
                return Some(i as u128 * 64 + acc[i].trailing_zeros() as u128);
            }
        }
        None
    }

    /// The constraints of pc that (transitively) share variables outside `fixed` with `vs`.
    fn slice(p: &Pool, pc: &[E], fixed: &VarSet, mut vs: VarSet) -> (Vec<E>, VarSet) {
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if !used[i] && p.vars_of[*c as usize].minus(fixed).inter(&vs) {
                    used[i] = true;
                    vs.union(&p.vars_of[*c as usize].minus(fixed));
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut key: Vec<E> = pc.iter().zip(&used).filter(|(_, u)| **u).map(|(c, _)| *c).collect();
        key.sort_unstable();
        key.dedup();
        (key, vs)
    }

    /// If the path condition leaves `v` one value, given the variables in `fixed`: true.
    pub fn pinned(&mut self, p: &Pool, pc: &[E], fixed: &VarSet, model: &Model, v: u32) -> bool {
        let mut f = *fixed;
        f.insert(v);
        let cs: Vec<E> = pc
            .iter()
            .copied()
            .filter(|c| p.vars_of[*c as usize].has(v) && p.vars_of[*c as usize].minus(&f).is_empty())
            .collect();
        match self.ranges.solve(p, v, model, &cs) {
            crate::ranges::Answer::Some(s) => s.len() == 1 && s[0].0 == s[0].1,
            _ => false,
        }
    }

    /// Is pc /\ extra satisfiable? Only constraints that (transitively) share variables with
    /// `extra` are considered; pc itself is known to be satisfiable (invariant of the caller), and
    /// to leave the variables in `fixed` the one value that `model` gives them.
    pub fn check(&mut self, p: &mut Pool, pc: &[E], extra: E, fixed: &VarSet, model: &Model) -> Res {
        let free = p.vars_of[extra as usize].minus(fixed);
        if free.is_empty() {
            self.range_decided += 1;
            return if p.eval(extra, model) == 1 { Res::Sat(vec![]) } else { Res::Unsat };
        }
        let (mut key, vs) = Self::slice(p, pc, fixed, free);
        key.push(extra);
        if vs.count() == 1 && !self.no_bytes {
            let v = vs.iter().next().unwrap();
            let alone = key.iter().all(|c| p.vars_of[*c as usize].count() == 1);
            let quick = if alone && p.var_names[v as usize].1 <= 8 {
                self.byte_decided += 1;
                Some(self.byte_check(p, v, &key))
            } else {
                let r = match self.ranges.solve(p, v, model, &key) {
                    crate::ranges::Answer::Empty => Some(None),
                    crate::ranges::Answer::Some(s) => Some(Some(s[0].0 as u128)),
                    crate::ranges::Answer::Unknown => None,
                };
                if r.is_some() {
                    self.range_decided += 1;
                }
                r
            };
            if let Some(r) = quick {
                if let Some(k) = r {
                    // the point is a solution: evaluated, not trusted
                    let mut md = model.clone();
                    md.set(v, k);
                    for c in &key {
                        assert_eq!(p.eval(*c, &md), 1, "one-variable procedure");
                    }
                }
                if self.check_ranges {
                    let (mut key, vs) = Self::slice(p, pc, &VarSet::none(), p.vars_of[extra as usize]);
                    key.push(extra);
                    let z = self.z3(p, &key, &vs);
                    assert!(matches!(z, Res::Unknown) || matches!(z, Res::Sat(_)) == r.is_some(), "one-variable procedure disagrees with z3");
                }
                return match r {
                    Some(k) => Res::Sat(vec![(v, k)]),
                    None => Res::Unsat,
                };
            }
        }
        let (mut key, vs) = Self::slice(p, pc, &VarSet::none(), p.vars_of[extra as usize]);
        key.push(extra);
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let r = self.z3(p, &key, &vs);
        match &r {
            Res::Sat(m) => {
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.cache.insert(key, None);
            }
            Res::Unknown => self.unknowns += 1,
        }
        r
    }

    fn z3(&mut self, p: &Pool, key: &[E], vs: &VarSet) -> Res {
        let t0 = Instant::now();
        let asts: Vec<P> = key.iter().map(|k| self.tr(p, *k)).collect();
        let c = self.ctx;
        let r = unsafe {
            Z3_solver_push(c, self.s);
            for a in asts {
                Z3_solver_assert(c, self.s, a);
            }
            let k = Z3_solver_check(c, self.s);
            if let Some((d, maxn, seen)) = &mut self.dump {
                if k != 0 {
                    *seen += 1;
                    // the slow ones, or an exponentially thinning sample
                    if t0.elapsed().as_secs_f64() > 1.0 || (*maxn > 0 && (*seen <= *maxn || (*seen).is_power_of_two())) {
                        let s = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().to_string();
                        let f = format!("{}/q-{}-{}-{}.smt2", d, std::process::id(), seen, if k == 1 { "sat" } else { "unsat" });
                        let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                    }
                }
            }
            let r = match k {
                1 => {
                    let md = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, md);
                    let mut out = vec![];
                    for v in vs.iter() {
                        let (name, w) = &p.var_names[v as usize];
                        let s = CString::new(name.as_str()).unwrap();
                        let sort = if *w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, *w) };
                        let a = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), sort);
                        let mut o: P = std::ptr::null_mut();
                        if !Z3_model_eval(c, md, a, true, &mut o) {
                            panic!("model eval");
                        }
                        let val = if *w == 1 {
                            (Z3_get_bool_value(c, o) == 1) as u128
                        } else {
                            CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap().parse::<u128>().unwrap()
                        };
                        out.push((v, val));
                    }
                    Z3_model_dec_ref(c, md);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, self.s, 1);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.queries += 1;
        r
    }
}
