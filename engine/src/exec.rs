//! Path-forking interpreter.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub struct Frame {
    pub f: Rc<Func>,
    pub pc: u32,
    pub regs: Vec<V>,
    pub stack_mark: usize,
}

impl Clone for Frame {
    fn clone(&self) -> Frame {
        Frame { f: self.f.clone(), pc: self.pc, regs: self.regs.clone(), stack_mark: self.stack_mark }
    }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    /// variables to which the path condition leaves one value, that of the model
    pub fixed: VarSet,
    pub model: Rc<Model>,
    pub syms: Vec<E>,
    pub obs: Vec<V>,
    pub steps: u64,
    pub panic_id: Rc<str>,
    pub rnd: u64,
    pub nforks: u32,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Infeasible,
    Panic(String),
    Mem(String),
    Unsupported(String),
    Hang,
    Depth,
    SolverUnknown,
    Violated,
    /// not an end of path: the instruction pushed a new frame etc. (internal)
    Exploded(String),
}

type R<T> = Result<T, Stop>;

/// a term over variables that have one value left is that constant
fn fold(p: &mut Pool, fixed: &VarSet, model: &Model, v: V) -> V {
    match v {
        V::S(e) if p.vars_of[e as usize].minus(fixed).is_empty() => V::C(p.eval(e, model)),
        v => v,
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub id: String,
    pub kind: String,
    pub detail: String,
    pub values: Vec<(String, u32, u128)>,
    pub stack: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub values: Vec<(String, u32, u128)>,
    pub obs: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq)]
enum Hook {
    No,
    Panic,
    Hash,
    DetectFeatures,
    Backtrace,
}

#[derive(Default)]
pub struct Stats {
    pub done: u64,
    pub infeasible: u64,
    pub panics: u64,
    pub steps: u64,
    pub forks: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub reached: BTreeMap<String, u64>,
    pub asserts: BTreeMap<String, u64>,
    pub asserts_sym: u64,
    pub concretized: u64,
}

pub struct Config {
    pub max_steps: u64,
    pub max_depth: usize,
    pub hash_stub: Vec<String>,
    pub trace: bool,
    pub max_viol: usize,
    pub max_concr: u32,
    /// assertion ids that are checked: those starting with this, or with "any."
    pub only: String,
    /// assertion ids that do not count towards the limit on violations
    pub known: Vec<String>,
}

pub struct Engine {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub viols: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub cfg: Config,
    funcs: Vec<Option<Rc<Func>>>,
    hooks: Vec<Hook>,
    pub executed: HashSet<u32>,
    pub deadline: Instant,
    pub explode: HashMap<String, u64>,
    pub forkprof: Option<HashMap<String, u64>>,
    pub errno_addr: u64,
}

fn c64(v: u128) -> u64 {
    v as u64
}

impl Engine {
    pub fn new(m: Module, cfg: Config, solver_ms: u32, deadline: Instant) -> Engine {
        let mut hooks = vec![];
        for f in &m.fns {
            let n = &f.name;
            let h = if n.contains("17rust_begin_unwind")
                || n.contains("4core9panicking9panic_fmt")
                || n.contains("9panicking18panic_nounwind_fmt")
                || n.contains("10rust_panic")
                || n.contains("9panicking19panic_cannot_unwind")
                || n.contains("3std9panicking20rust_panic_with_hook")
            {
                Hook::Panic
            } else if n.contains("22detect_and_initialize") {
                Hook::DetectFeatures
            } else if n.contains("3std12backtrace") {
                Hook::Backtrace
            } else if cfg.hash_stub.iter().any(|h| !h.is_empty() && f.demangled.contains(h.as_str())) {
                Hook::Hash
            } else {
                Hook::No
            };
            hooks.push(h);
        }
        let nf = m.fns.len();
        Engine {
            m,
            p: Pool::new(),
            s: Solver::new(solver_ms),
            work: vec![],
            st: Stats::default(),
            viols: vec![],
            samples: vec![],
            cfg,
            funcs: (0..nf).map(|_| None).collect(),
            hooks,
            executed: HashSet::new(),
            deadline,
            explode: HashMap::new(),
            forkprof: None,
            errno_addr: 0,
        }
    }

    fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize] {
            return f.clone();
        }
        let f = Rc::new(self.m.compile(id));
        self.funcs[id as usize] = Some(f.clone());
        f
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        for i in 0..self.m.globals.len() {
            let sz = self.m.globals[i].size;
            self.m.globals[i].addr = mem.alloc(GLOB, Obj::new(sz));
        }
        let text = self.m.text;
        for i in 0..self.m.globals.len() {
            let g = &self.m.globals[i];
            let addr = g.addr;
            if let Some((a, b)) = g.init {
                let mut c = Cur::new(&text[a..b]);
                let t = self.m.ty(&mut c);
                let vals = self.m.constant(&t, &mut c);
                let lv = t.leaves();
                assert_eq!(lv.len(), vals.len(), "init of {}", g.name);
                let ro = g.constant;
                if g.size > 0 {
                    let (o, _) = mem.obj_mut(addr, g.size).unwrap();
                    for ((off, w), v) in lv.iter().zip(vals) {
                        let nb = ((*w + 7) / 8) as usize;
                        let by = v.to_le_bytes();
                        o.data[*off as usize..*off as usize + nb].copy_from_slice(&by[..nb]);
                    }
                    o.ro = ro;
                }
            }
        }
        self.errno_addr = mem.alloc(GLOB, Obj::new(8));
        let id = *self.m.fn_by_name.get(entry).unwrap_or_else(|| {
            eprintln!("no entry {}", entry);
            std::process::exit(2)
        });
        let f = self.func(id);
        let regs = vec![V::C(0); f.nslots as usize];
        State {
            frames: vec![Frame { f, pc: 0, regs, stack_mark: 0 }],
            mem,
            pc: vec![],
            fixed: VarSet::none(),
            model: Rc::new(Model::default()),
            syms: vec![],
            obs: vec![],
            steps: 0,
            panic_id: "panic".into(),
            rnd: 0x9e37_79b9_7f4a_7c15,
            nforks: 0,
        }
    }

    // ---- constraints -------------------------------------------------------------------------

    fn known(&mut self, st: &State, c: E) -> Option<bool> {
        let n = match self.p.not(V::S(c)) {
            V::S(n) => n,
            _ => NONE,
        };
        for k in st.pc.iter().rev() {
            if *k == c {
                return Some(true);
            }
            if *k == n {
                return Some(false);
            }
        }
        None
    }

    pub fn add(&mut self, st: &mut State, c: V) {
        if let V::S(e) = c {
            // split conjunctions for better slicing
            if let (N::Bin(7, a, b), 1) = self.p.nodes[e as usize] {
                self.add(st, V::S(a));
                self.add(st, V::S(b));
                return;
            }
            if !st.pc.contains(&e) {
                st.pc.push(e);
                loop {
                    let rest = self.p.vars_of[e as usize].minus(&st.fixed);
                    if rest.count() != 1 {
                        break;
                    }
                    let v = rest.iter().next().unwrap();
                    if !self.s.pinned(&self.p, &st.pc, &st.fixed, &st.model, v) {
                        break;
                    }
                    st.fixed.insert(v);
                }
            }
        }
    }

    fn with_model(&self, st: &State, m: &[(u32, u128)]) -> Rc<Model> {
        let mut md = (*st.model).clone();
        for (v, k) in m {
            md.set(*v, *k);
        }
        Rc::new(md)
    }

    /// (can be true, can be false) with models
    fn decide(&mut self, st: &State, c: E) -> R<(Option<Rc<Model>>, Option<Rc<Model>>)> {
        if self.p.vars_of[c as usize].minus(&st.fixed).is_empty() {
            let md = Some(st.model.clone());
            return Ok(if self.p.eval(c, &st.model) == 1 { (md, None) } else { (None, md) });
        }
        if let Some(b) = self.known(st, c) {
            return Ok(if b { (Some(st.model.clone()), None) } else { (None, Some(st.model.clone())) });
        }
        let cur = self.p.eval(c, &st.model) == 1;
        let other = if cur {
            match self.p.not(V::S(c)) {
                V::S(e) => e,
                V::C(_) => unreachable!(),
            }
        } else {
            c
        };
        let om = match self.s.check(&mut self.p, &st.pc, other, &st.fixed, &st.model) {
            Res::Sat(m) => {
                let md = self.with_model(st, &m);
                debug_assert!(self.p.eval(other, &md) == 1);
                Some(md)
            }
            Res::Unsat => None,
            Res::Unknown => {
                *self.st.incomplete.entry("solver-unknown".into()).or_default() += 1;
                None
            }
        };
        let me = Some(st.model.clone());
        Ok(if cur { (me, om) } else { (om, me) })
    }

    fn where_am_i(&self, st: &State) -> String {
        let f = st.frames.last().unwrap();
        let d = &self.m.fns[f.f.id as usize];
        if d.demangled.is_empty() {
            d.name.clone()
        } else {
            d.demangled.clone()
        }
    }

    fn push_fork(&mut self, mut st: State) {
        if self.forkprof.is_some() {
            let mut w = self.where_am_i(&st);
            for f in st.frames.iter().rev() {
                let d = &self.m.fns[f.f.id as usize].demangled;
                if d.contains("xml_dom") || d.contains("harness") {
                    w = format!("{} <- {}", w, d);
                    break;
                }
            }
            *self.forkprof.as_mut().unwrap().entry(w).or_default() += 1;
        }
        st.nforks += 1;
        self.st.forks += 1;
        self.work.push(st);
    }

    /// Pick a feasible concrete value; the remaining values are explored by a forked state that
    /// re-executes the current instruction.
    fn concretize(&mut self, st: &mut State, v: V, w: u32) -> R<u128> {
        let e = match v {
            V::C(k) => return Ok(k),
            V::S(e) => e,
        };
        let k = self.p.eval(e, &st.model);
        if self.p.vars_of[e as usize].minus(&st.fixed).is_empty() {
            return Ok(k);
        }
        let eq = self.p.cmp(Pred::Eq, V::S(e), V::C(k), w);
        if let V::S(c) = eq {
            let ne = self.p.not(eq);
            let V::S(nc) = ne else { unreachable!() };
            self.st.concretized += 1;
            match self.known(st, c) {
                Some(true) => return Ok(k),
                _ => {}
            }
            match self.s.check(&mut self.p, &st.pc, nc, &st.fixed, &st.model) {
                Res::Sat(m) => {
                    let md = self.with_model(st, &m);
                    let mut o = st.clone();
                    o.model = md;
                    self.add(&mut o, ne);
                    let key = format!("{}", self.where_am_i(st));
                    let cnt = self.explode.entry(key.clone()).or_default();
                    *cnt += 1;
                    self.push_fork(o);
                }
                Res::Unsat => {}
                Res::Unknown => *self.st.incomplete.entry("solver-unknown".into()).or_default() += 1,
            }
            self.add(st, eq);
        }
        Ok(k)
    }

    // ---- memory ------------------------------------------------------------------------------

    fn load_leaf(&mut self, o: &Obj, off: u64, w: u32) -> V {
        let nb = ((w + 7) / 8) as usize;
        let off = off as usize;
        let conc = match &o.sym {
            None => true,
            Some(s) => s[off..off + nb].iter().all(|e| *e == NONE),
        };
        if conc {
            let mut v: u128 = 0;
            for i in (0..nb).rev() {
                v = v << 8 | o.data[off + i] as u128;
            }
            return V::C(m(v, w));
        }
        let mut acc = o.byte(off + nb - 1);
        for i in (0..nb - 1).rev() {
            let hw = ((nb - 1 - i) * 8) as u32;
            acc = self.p.concat(acc, o.byte(off + i), hw, 8);
        }
        self.p.extract(acc, 0, w, (nb * 8) as u32)
    }

    fn tz(&self, e: E) -> u32 {
        let (n, w) = self.p.nodes[e as usize];
        match n {
            N::Const(k) => {
                if k == 0 {
                    w
                } else {
                    k.trailing_zeros().min(w)
                }
            }
            N::Bin(0 | 1, a, b) => self.tz(a).min(self.tz(b)),
            N::Bin(2, a, b) => (self.tz(a) + self.tz(b)).min(w),
            N::Concat(_, l) => {
                let lw = self.p.width(l);
                let t = self.tz(l);
                if t < lw {
                    t
                } else {
                    lw
                }
            }
            N::ZExt(a) => self.tz(a),
            N::Ite(_, a, b) => self.tz(a).min(self.tz(b)),
            _ => 0,
        }
    }

    fn load(&mut self, st: &mut State, p: V, leaves: &[(u64, u32)], size: u64, dst: u32) -> R<()> {
        let addr = match p {
            V::C(a) => c64(a),
            V::S(e) => {
                if let Some(r) = self.load_symbolic(st, e, leaves, size)? {
                    let f = st.frames.last_mut().unwrap();
                    for (i, v) in r.into_iter().enumerate() {
                        f.regs[dst as usize + i] = fold(&mut self.p, &st.fixed, &st.model, v);
                    }
                    return Ok(());
                }
                c64(self.concretize(st, p, 64)?)
            }
        };
        if leaves.is_empty() {
            return Ok(());
        }
        // SAFETY: the object is not modified while its bytes are read below
        let (o, off): (&Obj, u64) = {
            let (o, off) = st.mem.obj(addr, size).map_err(Stop::Mem)?;
            (unsafe { &*(o as *const Obj) }, off)
        };
        for (i, (lo, w)) in leaves.iter().enumerate() {
            let v = self.load_leaf(o, off + lo, *w);
            let v = fold(&mut self.p, &st.fixed, &st.model, v);
            st.frames.last_mut().unwrap().regs[dst as usize + i] = v;
        }
        Ok(())
    }

    /// Table-style read at a symbolic offset within one object: an if-then-else over offsets.
    fn load_symbolic(&mut self, st: &mut State, e: E, leaves: &[(u64, u32)], size: u64) -> R<Option<Vec<V>>> {
        let a0 = c64(self.p.eval(e, &st.model));
        let Some((r, i, off0)) = st.mem.locate(a0) else { return Ok(None) };
        let base = a0 - off0;
        let o = match st.mem.regs[r].get(i) {
            Slot::Obj(o) => o.clone(),
            _ => return Ok(None),
        };
        if o.size < size {
            return Ok(None);
        }
        // address is a decision tree over constants: read through it
        let mut budget = 4000;
        if let Some(t) = self.p.leaves(e, &mut HashMap::new(), &mut budget) {
            if let Some(ks) = self.p.tree_consts(t, 512) {
                let ok = ks.iter().all(|k| {
                    let k = *k as u64;
                    k >= base && k - base <= o.size - size
                });
                if ok {
                    let mut out = vec![];
                    for (lo, w) in leaves {
                        let mut vals: HashMap<u128, V> = HashMap::new();
                        for k in &ks {
                            let v = self.load_leaf(&o, *k as u64 - base + lo, *w);
                            vals.insert(*k, v);
                        }
                        let r = self.p.map_tree(t, *w, &mut HashMap::new(), &mut |_, k| vals.get(&k).copied());
                        match r {
                            Some(v) => out.push(v),
                            None => return Ok(None),
                        }
                    }
                    return Ok(Some(out));
                }
            }
        }
        if o.size > 8192 {
            return Ok(None);
        }
        // always inside?
        let off = self.p.bin(Bin::Sub, V::S(e), V::C(base as u128), 64);
        let inb = self.p.cmp(Pred::Ule, off, V::C((o.size - size) as u128), 64);
        match inb {
            V::C(0) => return Ok(None),
            V::C(_) => {}
            V::S(c) => {
                let (t, f) = self.decide(st, c)?;
                if t.is_none() {
                    return Ok(None);
                }
                if let Some(fm) = f {
                    let mut other = st.clone();
                    other.model = fm;
                    let n = self.p.not(inb);
                    self.add(&mut other, n);
                    self.push_fork(other);
                    st.model = t.unwrap();
                    self.add(st, inb);
                }
            }
        }
        let stride = match off {
            V::S(x) => 1u64 << self.tz(x).min(12),
            V::C(_) => return Ok(None),
        };
        let nb = 64 - (o.size.leading_zeros());
        let small = self.p.extract(off, 0, nb.max(1), 64);
        let sw = nb.max(1);
        let mut out = vec![];
        for (lo, w) in leaves {
            let mut runs: Vec<(u64, V)> = vec![];
            let mut x = 0u64;
            while x + size <= o.size {
                let v = self.load_leaf(&o, x + lo, *w);
                if runs.last().map(|r| r.1 != v).unwrap_or(true) {
                    runs.push((x, v));
                }
                x += stride;
            }
            if runs.len() > 300 {
                return Ok(None);
            }
            let mut acc = runs.last().unwrap().1;
            for k in (0..runs.len() - 1).rev() {
                let c = self.p.cmp(Pred::Ult, small, V::C(runs[k + 1].0 as u128), sw);
                acc = self.p.ite(c, runs[k].1, acc, *w);
            }
            out.push(acc);
        }
        Ok(Some(out))
    }

    fn store_leaf(&mut self, o: &mut Obj, off: u64, w: u32, v: V) {
        let nb = ((w + 7) / 8) as usize;
        let off = off as usize;
        match v {
            V::C(k) => {
                let by = k.to_le_bytes();
                o.data[off..off + nb].copy_from_slice(&by[..nb]);
                if let Some(s) = &mut o.sym {
                    for e in &mut s[off..off + nb] {
                        *e = NONE;
                    }
                }
            }
            V::S(_) => {
                let tw = (nb * 8) as u32;
                let z = self.p.zext(v, w, tw);
                for i in 0..nb {
                    let b = self.p.extract(z, (i * 8) as u32, 8, tw);
                    o.set_byte(off + i, b);
                }
            }
        }
    }

    pub fn read_bytes(&self, st: &State, a: u64, n: u64) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = st.mem.obj(a, n).map_err(Stop::Mem)?;
        Ok((0..n).map(|i| o.byte((off + i) as usize)).collect())
    }

    fn read_conc(&self, st: &State, a: u64, n: u64) -> R<Vec<u8>> {
        let b = self.read_bytes(st, a, n)?;
        Ok(b.iter()
            .map(|v| match v {
                V::C(k) => *k as u8,
                _ => b'?',
            })
            .collect())
    }

    fn write_bytes(&self, st: &mut State, a: u64, b: &[V]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (o, off) = st.mem.obj_mut(a, b.len() as u64).map_err(Stop::Mem)?;
        for (i, v) in b.iter().enumerate() {
            o.set_byte(off as usize + i, *v);
        }
        Ok(())
    }

    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (o, off) = st.mem.obj(s, n).map_err(Stop::Mem)?;
        let off = off as usize;
        let n = n as usize;
        let data = o.data[off..off + n].to_vec();
        let sym = match &o.sym {
            Some(x) if x[off..off + n].iter().any(|e| *e != NONE) => Some(x[off..off + n].to_vec()),
            _ => None,
        };
        let (o, off) = st.mem.obj_mut(d, n as u64).map_err(Stop::Mem)?;
        let off = off as usize;
        o.data[off..off + n].copy_from_slice(&data);
        match sym {
            Some(x) => {
                if o.sym.is_none() {
                    o.sym = Some(vec![NONE; o.size as usize].into());
                }
                o.sym.as_mut().unwrap()[off..off + n].copy_from_slice(&x);
            }
            None => {
                if let Some(y) = &mut o.sym {
                    for e in &mut y[off..off + n] {
                        *e = NONE;
                    }
                }
            }
        }
        Ok(())
    }

    // ---- operands ----------------------------------------------------------------------------

    #[inline]
    fn op(f: &Frame, o: Op) -> V {
        match o {
            Op::R(s) => f.regs[s as usize],
            Op::K(k) => V::C(k),
            Op::KV(i) => V::C(f.f.consts[i as usize][0]),
        }
    }

    #[inline]
    fn opn(f: &Frame, o: Op, i: u32) -> V {
        match o {
            Op::R(s) => f.regs[(s + i) as usize],
            Op::K(k) => V::C(k),
            Op::KV(c) => V::C(f.f.consts[c as usize][i as usize]),
        }
    }

    fn take(f: &mut Frame, e: &Edge) {
        if !e.moves.is_empty() {
            if e.moves.len() == 1 && e.moves[0].2 == 1 {
                let v = Self::op(f, e.moves[0].1);
                f.regs[e.moves[0].0 as usize] = v;
            } else {
                let mut tmp = Vec::with_capacity(e.moves.len());
                for (_, s, n) in &e.moves {
                    for i in 0..*n {
                        tmp.push(Self::opn(f, *s, i));
                    }
                }
                let mut k = 0;
                for (d, _, n) in &e.moves {
                    for i in 0..*n {
                        f.regs[(*d + i) as usize] = tmp[k];
                        k += 1;
                    }
                }
            }
        }
        f.pc = f.f.block_start[e.target as usize];
    }

    // ---- main loop ---------------------------------------------------------------------------

    pub fn new_viols(&self) -> usize {
        self.viols.iter().filter(|v| !self.cfg.known.contains(&v.id)).count()
    }

    pub fn finish_path(&mut self, st: &State, s: Stop) {
        self.st.steps += st.steps;
        match s {
            Stop::Done => {
                self.st.done += 1;
                let n = self.st.done;
                if n <= 4 || n.is_power_of_two() || n % 997 == 0 {
                    if self.samples.len() < 64 {
                        let obs = st
                            .obs
                            .iter()
                            .map(|v| match v {
                                V::C(k) => *k as u64,
                                V::S(e) => self.p.eval(*e, &st.model) as u64,
                            })
                            .collect();
                        let values = self.values(st, &st.model);
                        self.samples.push(Sample { values, obs });
                    }
                }
            }
            Stop::Infeasible | Stop::Violated => self.st.infeasible += 1,
            Stop::Panic(_) if st.panic_id.starts_with('+') => {
                // a documented refusal
                self.st.done += 1;
                *self.st.reached.entry(st.panic_id[1..].to_string()).or_default() += 1;
            }
            Stop::Panic(d) => {
                self.st.panics += 1;
                let id = st.panic_id.to_string();
                self.violation(st, &id, "panic", d, &st.model.clone());
            }
            Stop::Hang => {
                let id = st.panic_id.to_string();
                self.violation(st, &id, "hang", format!("more than {} instructions", self.cfg.max_steps), &st.model.clone());
            }
            Stop::Depth => {
                let id = st.panic_id.to_string();
                self.violation(st, &id, "stack-overflow", format!("call depth over {}", self.cfg.max_depth), &st.model.clone());
            }
            Stop::Mem(d) => {
                let id = st.panic_id.to_string();
                self.violation(st, &id, "memory", d, &st.model.clone());
            }
            Stop::Unsupported(d) => {
                let w = self.where_am_i(st);
                *self.st.incomplete.entry(format!("unsupported: {} in {}", d.trim(), w)).or_default() += 1;
            }
            Stop::SolverUnknown => *self.st.incomplete.entry("solver-unknown".into()).or_default() += 1,
            Stop::Exploded(d) => *self.st.incomplete.entry(format!("concretisation limit: {}", d)).or_default() += 1,
        }
    }

    fn values(&self, st: &State, md: &Model) -> Vec<(String, u32, u128)> {
        st.syms
            .iter()
            .map(|e| match self.p.nodes[*e as usize] {
                (N::Var(i), w) => (self.p.var_names[i as usize].0.clone(), w, md.get(i)),
                _ => unreachable!(),
            })
            .collect()
    }

    fn violation(&mut self, st: &State, id: &str, kind: &str, detail: String, md: &Model) {
        let same = self.viols.iter().filter(|v| v.id == id && v.kind == kind).count();
        if same >= self.cfg.max_viol {
            return;
        }
        let stack = st
            .frames
            .iter()
            .rev()
            .map(|f| {
                let d = &self.m.fns[f.f.id as usize];
                if d.demangled.is_empty() {
                    d.name.clone()
                } else {
                    d.demangled.clone()
                }
            })
            .take(25)
            .collect();
        let values = self.values(st, md);
        self.viols.push(Violation { id: id.into(), kind: kind.into(), detail, values, stack });
    }

    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            // run up to a slice of instructions before looking at the clock
            for _ in 0..20000 {
                match self.step(st) {
                    Ok(()) => {}
                    Err(s) => return s,
                }
            }
            if st.steps > self.cfg.max_steps {
                return Stop::Hang;
            }
            if Instant::now() > self.deadline {
                return Stop::Unsupported("deadline".into());
            }
        }
    }

    #[inline]
    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        let f = st.frames.last_mut().unwrap();
        // SAFETY: the Func is kept alive by the cache in self.funcs
        let code: &I = unsafe { &*(&f.f.code[f.pc as usize] as *const I) };
        match code {
            I::Nop => f.pc += 1,
            I::Bin { op, w, dst, a, b, n } => {
                for i in 0..*n {
                    let x = Self::opn(f, *a, i);
                    let y = Self::opn(f, *b, i);
                    let r = match (x, y) {
                        (V::C(x), V::C(y)) => V::C(ev_bin(*op, x, y, *w)),
                        _ => {
                            let r = self.p.bin(*op, x, y, *w);
                            fold(&mut self.p, &st.fixed, &st.model, r)
                        },
                    };
                    f.regs[(*dst + i) as usize] = r;
                }
                f.pc += 1;
            }
            I::ICmp { p, w, dst, a, b, n } => {
                for i in 0..*n {
                    let x = Self::opn(f, *a, i);
                    let y = Self::opn(f, *b, i);
                    let r = match (x, y) {
                        (V::C(x), V::C(y)) => V::C(ev_cmp(*p, x, y, *w) as u128),
                        _ => {
                            let r = self.p.cmp(*p, x, y, *w);
                            fold(&mut self.p, &st.fixed, &st.model, r)
                        }
                    };
                    f.regs[(*dst + i) as usize] = r;
                }
                f.pc += 1;
            }
            I::Cast { c, fw, tw, dst, a, n } => {
                for i in 0..*n {
                    let x = Self::opn(f, *a, i);
                    let r = match (c, x) {
                        (Cast::Trunc, V::C(k)) => V::C(m(k, *tw)),
                        (Cast::ZExt, V::C(k)) => V::C(k),
                        (Cast::SExt, V::C(k)) => V::C(m(sx(k, *fw) as u128, *tw)),
                        (Cast::Trunc, x) => self.p.extract(x, 0, *tw, *fw),
                        (Cast::ZExt, x) => self.p.zext(x, *fw, *tw),
                        (Cast::SExt, x) => self.p.sext(x, *fw, *tw),
                    };
                    f.regs[(*dst + i) as usize] = r;
                }
                f.pc += 1;
            }
            I::BitVec { fw, fln, tw, tln, dst, a } => {
                let tot = fw * fln;
                if tot <= 128 {
                    let mut acc = Self::opn(f, *a, fln - 1);
                    for i in (0..fln - 1).rev() {
                        acc = self.p.concat(acc, Self::opn(f, *a, i), fw * (fln - 1 - i), *fw);
                    }
                    for i in 0..*tln {
                        let v = self.p.extract(acc, i * tw, *tw, tot);
                        f.regs[(*dst + i) as usize] = v;
                    }
                } else {
                    // wide vectors: go through bytes
                    let mut bits: Vec<V> = vec![];
                    let unit = (*fw).min(*tw);
                    for i in 0..*fln {
                        let v = Self::opn(f, *a, i);
                        for k in 0..fw / unit {
                            bits.push(self.p.extract(v, k * unit, unit, *fw));
                        }
                    }
                    let per = tw / unit;
                    for i in 0..*tln {
                        let mut acc = bits[(i * per + per - 1) as usize];
                        for k in (0..per - 1).rev() {
                            acc = self.p.concat(acc, bits[(i * per + k) as usize], unit * (per - 1 - k), unit);
                        }
                        f.regs[(*dst + i) as usize] = acc;
                    }
                }
                f.pc += 1;
            }
            I::Select { dst, c, cn, a, b, ws } => {
                for (i, w) in ws.iter().enumerate() {
                    let cv = Self::opn(f, *c, if *cn > 1 { i as u32 } else { 0 });
                    let x = Self::opn(f, *a, i as u32);
                    let y = Self::opn(f, *b, i as u32);
                    let r = match cv {
                        V::C(1) => x,
                        V::C(_) => y,
                        cv => self.p.ite(cv, x, y, *w),
                    };
                    f.regs[*dst as usize + i] = r;
                }
                f.pc += 1;
            }
            I::Load { dst, p, leaves, size } => {
                let p = Self::op(f, *p);
                // fast path
                if let V::C(a) = p {
                    if leaves.len() == 1 {
                        if let Ok((o, off)) = st.mem.obj(a as u64, *size) {
                            if o.sym.is_none() {
                                let w = leaves[0].1;
                                let nb = ((w + 7) / 8) as usize;
                                let off = off as usize;
                                let v = if nb <= 8 {
                                    let mut b = [0u8; 8];
                                    b[..nb].copy_from_slice(&o.data[off..off + nb]);
                                    let x = u64::from_le_bytes(b) as u128;
                                    if w % 8 != 0 {
                                        m(x, w)
                                    } else {
                                        x
                                    }
                                } else {
                                    let mut b = [0u8; 16];
                                    b[..nb].copy_from_slice(&o.data[off..off + nb]);
                                    u128::from_le_bytes(b)
                                };
                                let f = st.frames.last_mut().unwrap();
                                f.regs[*dst as usize] = V::C(v);
                                f.pc += 1;
                                return Ok(());
                            }
                        }
                    }
                }
                self.load(st, p, leaves, *size, *dst)?;
                st.frames.last_mut().unwrap().pc += 1;
            }
            I::Store { v, p, leaves, size } => {
                let p = Self::op(f, *p);
                let a = match p {
                    V::C(a) => c64(a),
                    p => c64(self.concretize(st, p, 64)?),
                };
                let f = unsafe { &mut *(st.frames.last_mut().unwrap() as *mut Frame) };
                if !leaves.is_empty() {
                    let (o, off) = st.mem.obj_mut(a, *size).map_err(Stop::Mem)?;
                    for (i, (lo, w)) in leaves.iter().enumerate() {
                        let x = Self::opn(f, *v, i as u32);
                        self.store_leaf(o, off + lo, *w, x);
                    }
                }
                f.pc += 1;
            }
            I::Gep { dst, base, k, idx } => {
                let mut r = Self::op(f, *base);
                if *k != 0 {
                    r = match r {
                        V::C(x) => V::C(c64(x).wrapping_add(*k) as u128),
                        r => self.p.bin(Bin::Add, r, V::C(*k as u128), 64),
                    };
                }
                for (o, scale, w) in idx {
                    let i = Self::op(f, *o);
                    r = match (r, i) {
                        (V::C(x), V::C(i)) => {
                            V::C(c64(x).wrapping_add((sext64(i, *w) as u64).wrapping_mul(*scale)) as u128)
                        }
                        (r, i) => {
                            let i = self.p.sext(i, *w, 64);
                            let i = self.p.bin(Bin::Mul, i, V::C(*scale as u128), 64);
                            self.p.bin(Bin::Add, r, i, 64)
                        }
                    };
                }
                f.regs[*dst as usize] = r;
                f.pc += 1;
            }
            I::Alloca { dst, size, count } => {
                let n = Self::op(f, *count);
                let n = c64(self.concretize(st, n, 64)?);
                let a = st.mem.alloc(STACK, Obj::new(size * n));
                let f = st.frames.last_mut().unwrap();
                f.regs[*dst as usize] = V::C(a as u128);
                f.pc += 1;
            }
            I::Call(c) => return self.call(st, c),
            I::Br(e) => Self::take(f, e),
            I::CondBr(c, a, b) => match Self::op(f, *c) {
                V::C(1) => Self::take(f, a),
                V::C(_) => Self::take(f, b),
                V::S(e) => {
                    let (t, fm) = self.decide(st, e)?;
                    match (t, fm) {
                        (Some(tm), Some(fm)) => {
                            let mut o = st.clone();
                            let cur_true = Rc::ptr_eq(&tm, &st.model);
                            let nv = self.p.not(V::S(e));
                            if cur_true {
                                o.model = fm;
                                self.add(&mut o, nv);
                                Self::take(o.frames.last_mut().unwrap(), b);
                                self.push_fork(o);
                                self.add(st, V::S(e));
                                Self::take(st.frames.last_mut().unwrap(), a);
                            } else {
                                o.model = tm;
                                self.add(&mut o, V::S(e));
                                Self::take(o.frames.last_mut().unwrap(), a);
                                self.push_fork(o);
                                self.add(st, nv);
                                Self::take(st.frames.last_mut().unwrap(), b);
                            }
                        }
                        (Some(_), None) => Self::take(st.frames.last_mut().unwrap(), a),
                        (None, Some(_)) => Self::take(st.frames.last_mut().unwrap(), b),
                        (None, None) => return Err(Stop::SolverUnknown),
                    }
                }
            },
            I::Switch { v, w, cases, edges, dflt } => match Self::op(f, *v) {
                V::C(k) => {
                    let e = cases.iter().find(|c| c.0 == k).map(|c| &edges[c.1 as usize]).unwrap_or(dflt);
                    Self::take(f, e)
                }
                V::S(x) => {
                    let k = self.p.eval(x, &st.model);
                    let cur = cases.iter().find(|c| c.0 == k).map(|c| c.1 as usize);
                    // conditions
                    let mut conds: Vec<V> = vec![V::C(0); edges.len()];
                    let mut none = V::C(1);
                    for (kc, ei) in cases {
                        let q = self.p.cmp(Pred::Eq, V::S(x), V::C(*kc), *w);
                        let j = *ei as usize;
                        conds[j] = self.p.bin(Bin::Or, conds[j], q, 1);
                        let nq = self.p.not(q);
                        none = self.p.bin(Bin::And, none, nq, 1);
                    }
                    let mut all: Vec<(V, &Edge)> = conds.into_iter().zip(edges.iter()).collect();
                    all.push((none, dflt));
                    let ci = cur.unwrap_or(edges.len());
                    for (j, (c, e)) in all.iter().enumerate() {
                        if j == ci {
                            continue;
                        }
                        if let V::S(ce) = c {
                            match self.s.check(&mut self.p, &st.pc, *ce, &st.fixed, &st.model) {
                                Res::Sat(md) => {
                                    let mut o = st.clone();
                                    o.model = self.with_model(st, &md);
                                    self.add(&mut o, *c);
                                    Self::take(o.frames.last_mut().unwrap(), e);
                                    self.push_fork(o);
                                }
                                Res::Unsat => {}
                                Res::Unknown => {
                                    *self.st.incomplete.entry("solver-unknown".into()).or_default() += 1;
                                }
                            }
                        }
                    }
                    let (c, e) = all[ci];
                    self.add(st, c);
                    Self::take(st.frames.last_mut().unwrap(), e);
                }
            },
            I::Ret(v, n) => {
                let mut tmp = [V::C(0); 8];
                let mut big = vec![];
                if *n <= 8 {
                    for i in 0..*n {
                        tmp[i as usize] = Self::opn(f, *v, i);
                    }
                } else {
                    for i in 0..*n {
                        big.push(Self::opn(f, *v, i));
                    }
                }
                let mark = f.stack_mark;
                st.mem.regs[STACK as usize].truncate(mark);
                st.frames.pop();
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let s: &[V] = if *n <= 8 { &tmp[..*n as usize] } else { &big };
                self.ret_to(st, s)?;
            }
            I::Unreachable => return Err(Stop::Mem("reached 'unreachable'".into())),
            I::Move { dst, a, n } => {
                for i in 0..*n {
                    let v = Self::opn(f, *a, i);
                    f.regs[(*dst + i) as usize] = v;
                }
                f.pc += 1;
            }
            I::Moves(ms) => {
                for (d, s, n) in ms {
                    for i in 0..*n {
                        let v = Self::opn(f, *s, i);
                        f.regs[(*d + i) as usize] = v;
                    }
                }
                f.pc += 1;
            }
            I::ExtractEl { dst, v, idx, n } => {
                let i = Self::op(f, *idx);
                let i = self.concretize(st, i, 64)? as u32;
                let f = st.frames.last_mut().unwrap();
                let x = Self::opn(f, *v, i.min(n - 1));
                f.regs[*dst as usize] = x;
                f.pc += 1;
            }
            I::InsertEl { dst, v, x, idx, n, .. } => {
                let i = Self::op(f, *idx);
                let i = self.concretize(st, i, 64)? as u32;
                let f = st.frames.last_mut().unwrap();
                for k in 0..*n {
                    let y = if k == i { Self::op(f, *x) } else { Self::opn(f, *v, k) };
                    f.regs[(*dst + k) as usize] = y;
                }
                f.pc += 1;
            }
            I::Rmw { op, dst, p, v, w } => {
                let p = Self::op(f, *p);
                let v = Self::op(f, *v);
                let a = c64(self.concretize(st, p, 64)?);
                let nb = ((*w + 7) / 8) as u64;
                self.load(st, V::C(a as u128), &[(0, *w)], nb, *dst)?;
                let old = st.frames.last().unwrap().regs[*dst as usize];
                let new = match &**op {
                    "xchg" => v,
                    "add" => self.p.bin(Bin::Add, old, v, *w),
                    "sub" => self.p.bin(Bin::Sub, old, v, *w),
                    "and" => self.p.bin(Bin::And, old, v, *w),
                    "or" => self.p.bin(Bin::Or, old, v, *w),
                    "xor" => self.p.bin(Bin::Xor, old, v, *w),
                    "umax" | "umin" | "max" | "min" => {
                        let pr = match &**op {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "max" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.p.cmp(pr, old, v, *w);
                        self.p.ite(c, old, v, *w)
                    }
                    x => return Err(Stop::Unsupported(format!("atomicrmw {}", x))),
                };
                let (o, off) = st.mem.obj_mut(a, nb).map_err(Stop::Mem)?;
                self.store_leaf(o, off, *w, new);
                st.frames.last_mut().unwrap().pc += 1;
            }
            I::CmpXchg { dst, p, cmp, new, w } => {
                let p = Self::op(f, *p);
                let cmp = Self::op(f, *cmp);
                let new = Self::op(f, *new);
                let a = c64(self.concretize(st, p, 64)?);
                let nb = ((*w + 7) / 8) as u64;
                self.load(st, V::C(a as u128), &[(0, *w)], nb, *dst)?;
                let old = st.frames.last().unwrap().regs[*dst as usize];
                let c = self.p.cmp(Pred::Eq, old, cmp, *w);
                let r = self.p.ite(c, new, old, *w);
                let (o, off) = st.mem.obj_mut(a, nb).map_err(Stop::Mem)?;
                self.store_leaf(o, off, *w, r);
                let f = st.frames.last_mut().unwrap();
                f.regs[*dst as usize + 1] = c;
                f.pc += 1;
            }
            I::Unsupported(s) => return Err(Stop::Unsupported(s.to_string())),
        }
        Ok(())
    }

    fn ret_to(&mut self, st: &mut State, vals: &[V]) -> R<()> {
        let f = st.frames.last_mut().unwrap();
        let code: &I = unsafe { &*(&f.f.code[f.pc as usize] as *const I) };
        let I::Call(c) = code else { unreachable!() };
        for (i, v) in vals.iter().enumerate().take(c.ret_n as usize) {
            f.regs[c.dst as usize + i] = *v;
        }
        match &c.normal {
            Some(e) => Self::take(f, e),
            None => f.pc += 1,
        }
        Ok(())
    }

    fn call(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let f = st.frames.last().unwrap();
        let id = match &c.callee {
            Callee::Direct(id) => *id,
            Callee::Indirect(o) => {
                let v = Self::op(f, *o);
                let a = c64(self.concretize(st, v, 64)?);
                match self.m.fn_at(a) {
                    Some(id) => id,
                    None => return Err(Stop::Mem(format!("call through bad pointer {:#x}", a))),
                }
            }
            Callee::Intrinsic(n) => {
                let r = self.intrinsic(st, n, c)?;
                return self.ret_to(st, &r);
            }
            Callee::External(n) => {
                let mut args = vec![];
                for (o, k, _) in &c.args {
                    for i in 0..*k {
                        args.push(Self::opn(f, *o, i));
                    }
                }
                let r = self.external(st, n, &args)?;
                return self.ret_to(st, &[r][..c.ret_n.min(1) as usize]);
            }
            Callee::Asm(a) => {
                if a.is_empty() {
                    return self.ret_to(st, &vec![V::C(0); c.ret_n as usize]);
                }
                if a.contains("cpuid") {
                    return self.ret_to(st, &vec![V::C(0); c.ret_n as usize]);
                }
                return Err(Stop::Unsupported(format!("asm {}", a)));
            }
        };
        if self.m.fns[id as usize].external {
            let n: String = self.m.fns[id as usize].name.clone();
            let f = st.frames.last().unwrap();
            let mut args = vec![];
            for (o, k, _) in &c.args {
                for i in 0..*k {
                    args.push(Self::opn(f, *o, i));
                }
            }
            if n.starts_with("llvm.") {
                return Err(Stop::Unsupported(n));
            }
            let r = self.external(st, &n, &args)?;
            return self.ret_to(st, &[r][..c.ret_n.min(1) as usize]);
        }
        match self.hooks[id as usize] {
            Hook::No => {}
            Hook::Panic => {
                let d = self.panic_text(st, c);
                return Err(Stop::Panic(d));
            }
            Hook::Hash => return self.ret_to(st, &[V::C(0x5bd1_e995_0000_0001)]),
            Hook::DetectFeatures => return self.ret_to(st, &vec![V::C(0); c.ret_n as usize]),
            Hook::Backtrace => return Err(Stop::Unsupported("backtrace".into())),
        }
        if st.frames.len() >= self.cfg.max_depth {
            return Err(Stop::Depth);
        }
        self.executed.insert(id);
        let fun = self.func(id);
        let f = st.frames.last().unwrap();
        let mut regs = Vec::with_capacity(fun.nslots as usize);
        for (o, k, _) in &c.args {
            for i in 0..*k {
                regs.push(Self::opn(f, *o, i));
            }
        }
        regs.resize(fun.nslots as usize, V::C(0));
        let stack_mark = st.mem.regs[STACK as usize].len;
        st.frames.push(Frame { f: fun, pc: 0, regs, stack_mark });
        Ok(())
    }

    fn panic_text(&mut self, st: &State, c: &CallI) -> String {
        // a &Location argument is { ptr file, len, line u32, col u32 } in constant memory
        let f = st.frames.last().unwrap();
        let mut loc = String::new();
        for (o, k, _) in c.args.iter().rev() {
            if *k != 1 {
                continue;
            }
            if let V::C(a) = Self::op(f, *o) {
                if let Ok(b) = self.read_conc(st, a as u64, 24) {
                    let p = u64::from_le_bytes(b[0..8].try_into().unwrap());
                    let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
                    let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                    let col = u32::from_le_bytes(b[20..24].try_into().unwrap());
                    if n < 400 {
                        if let Ok(s) = self.read_conc(st, p, n) {
                            if s.ends_with(b".rs") {
                                loc = format!("{}:{}:{}", String::from_utf8_lossy(&s), line, col);
                                break;
                            }
                        }
                    }
                }
            }
        }
        format!("panic at {}", loc)
    }

    fn lanewise2(&mut self, st: &State, c: &CallI, mut g: impl FnMut(&mut Self, V, V, u32) -> V) -> Vec<V> {
        let f = st.frames.last().unwrap();
        let (a, n, w) = c.args[0];
        let b = c.args[1].0;
        let xs: Vec<(V, V)> = (0..n).map(|i| (Self::opn(f, a, i), Self::opn(f, b, i))).collect();
        xs.into_iter().map(|(x, y)| g(self, x, y, w)).collect()
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, c: &CallI) -> R<Vec<V>> {
        let n = &name[5..];
        let a = |i: usize| Self::op(st.frames.last().unwrap(), c.args[i].0);
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let (d, s, l) = (a(0), a(1), a(2));
            let l = c64(self.concretize(st, l, 64)?);
            if l == 0 {
                return Ok(vec![]);
            }
            let d = c64(self.concretize(st, d, 64)?);
            let s = c64(self.concretize(st, s, 64)?);
            self.memcpy(st, d, s, l)?;
            return Ok(vec![]);
        }
        if n.starts_with("memset") {
            let (d, v, l) = (a(0), a(1), a(2));
            let l = c64(self.concretize(st, l, 64)?);
            if l == 0 {
                return Ok(vec![]);
            }
            let d = c64(self.concretize(st, d, 64)?);
            self.write_bytes(st, d, &vec![v; l as usize])?;
            return Ok(vec![]);
        }
        if n.starts_with("threadlocal.address") {
            return Ok(vec![a(0)]);
        }
        if n.starts_with("expect") || n.starts_with("launder") || n.starts_with("strip.invariant") {
            return Ok(vec![a(0)]);
        }
        if n.starts_with("is.constant") {
            return Ok(vec![V::C(0)]);
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") {
            return Err(Stop::Panic("trap/abort".into()));
        }
        for (k, p) in [("umax", Pred::Ugt), ("umin", Pred::Ult), ("smax", Pred::Sgt), ("smin", Pred::Slt)] {
            if n.starts_with(k) && n.as_bytes()[4] == b'.' {
                return Ok(self.lanewise2(st, c, |s, x, y, w| {
                    let q = s.p.cmp(p, x, y, w);
                    s.p.ite(q, x, y, w)
                }));
            }
        }
        if n.starts_with("usub.sat") {
            return Ok(self.lanewise2(st, c, |s, x, y, w| {
                let q = s.p.cmp(Pred::Ult, x, y, w);
                let d = s.p.bin(Bin::Sub, x, y, w);
                s.p.ite(q, V::C(0), d, w)
            }));
        }
        if n.starts_with("uadd.sat") {
            return Ok(self.lanewise2(st, c, |s, x, y, w| {
                let d = s.p.bin(Bin::Add, x, y, w);
                let q = s.p.cmp(Pred::Ult, d, x, w);
                s.p.ite(q, V::C(m(u128::MAX, w)), d, w)
            }));
        }
        if n.starts_with("scmp") || n.starts_with("ucmp") {
            let (pl, pg) = if n.starts_with('s') { (Pred::Slt, Pred::Sgt) } else { (Pred::Ult, Pred::Ugt) };
            let rw = c.ret_w;
            return Ok(self.lanewise2(st, c, |s, x, y, w| {
                let l = s.p.cmp(pl, x, y, w);
                let g = s.p.cmp(pg, x, y, w);
                let t = s.p.ite(g, V::C(1), V::C(0), rw);
                s.p.ite(l, V::C(m(u128::MAX, rw)), t, rw)
            }));
        }
        if n.contains(".with.overflow") {
            let w = c.args[0].2;
            let (x, y) = (a(0), a(1));
            let signed = n.starts_with('s');
            let op = match &n[1..4] {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                _ => Bin::Mul,
            };
            let r = self.p.bin(op, x, y, w);
            let o = if let (V::C(x), V::C(y)) = (x, y) {
                let ov = if signed {
                    let (x, y) = (sx(x, w), sx(y, w));
                    let t = match op {
                        Bin::Add => x.checked_add(y),
                        Bin::Sub => x.checked_sub(y),
                        _ => x.checked_mul(y),
                    };
                    match (t, r) {
                        (Some(t), V::C(r)) => t != sx(r, w),
                        _ => true,
                    }
                } else {
                    match op {
                        Bin::Add => x.checked_add(y).map(|t| t != m(t, w)).unwrap_or(true),
                        Bin::Sub => x < y,
                        _ => x.checked_mul(y).map(|t| t != m(t, w)).unwrap_or(true),
                    }
                };
                V::C(ov as u128)
            } else {
                match (signed, op) {
                    (false, Bin::Add) => self.p.cmp(Pred::Ult, r, x, w),
                    (false, Bin::Sub) => self.p.cmp(Pred::Ult, x, y, w),
                    _ => {
                        // compute at double width
                        let dw = 2 * w;
                        if dw > 128 {
                            return Err(Stop::Unsupported(name.into()));
                        }
                        let (x2, y2) = if signed {
                            (self.p.sext(x, w, dw), self.p.sext(y, w, dw))
                        } else {
                            (self.p.zext(x, w, dw), self.p.zext(y, w, dw))
                        };
                        let r2 = self.p.bin(op, x2, y2, dw);
                        let r3 = if signed { self.p.sext(r, w, dw) } else { self.p.zext(r, w, dw) };
                        self.p.cmp(Pred::Ne, r2, r3, dw)
                    }
                }
            };
            return Ok(vec![r, o]);
        }
        if n.starts_with("ctpop") || n.starts_with("cttz") || n.starts_with("ctlz") || n.starts_with("bswap")
            || n.starts_with("bitreverse") || n.starts_with("abs")
        {
            let w = c.args[0].2;
            let lanes = c.args[0].1;
            let xs: Vec<V> = (0..lanes).map(|i| Self::opn(st.frames.last().unwrap(), c.args[0].0, i)).collect();
            let mut out = vec![];
            for x in xs {
                out.push(self.bitop(n, x, w));
            }
            return Ok(out);
        }
        if n.starts_with("fshl") || n.starts_with("fshr") {
            let w = c.args[0].2;
            let (x, y, s) = (a(0), a(1), a(2));
            let s = self.concretize(st, s, w)? as u32 % w;
            let left = n.starts_with("fshl");
            if w * 2 > 128 {
                if let (V::C(x), V::C(y)) = (x, y) {
                    let r = if s == 0 {
                        if left {
                            x
                        } else {
                            y
                        }
                    } else if left {
                        (x << s) | (y >> (w - s))
                    } else {
                        (x << (w - s)) | (y >> s)
                    };
                    return Ok(vec![V::C(r)]);
                }
                return Err(Stop::Unsupported(name.into()));
            }
            let cat = self.p.concat(x, y, w, w);
            let lo = if left { w - s } else { s };
            return Ok(vec![self.p.extract(cat, lo, w, 2 * w)]);
        }
        if n.starts_with("vector.reduce.") {
            let w = c.args[0].2;
            let k = c.args[0].1;
            let xs: Vec<V> = (0..k).map(|i| Self::opn(st.frames.last().unwrap(), c.args[0].0, i)).collect();
            let op = if n.contains(".or") {
                Bin::Or
            } else if n.contains(".and") {
                Bin::And
            } else if n.contains(".add") {
                Bin::Add
            } else if n.contains(".xor") {
                Bin::Xor
            } else {
                return Err(Stop::Unsupported(name.into()));
            };
            let mut r = xs[0];
            for x in &xs[1..] {
                r = self.p.bin(op, r, *x, w);
            }
            return Ok(vec![r]);
        }
        if n.starts_with("x86.sse2.pmovmskb") {
            let xs: Vec<V> = (0..16).map(|i| Self::opn(st.frames.last().unwrap(), c.args[0].0, i)).collect();
            let mut r = V::C(0);
            for (i, x) in xs.iter().enumerate() {
                let b = self.p.extract(*x, 7, 1, 8);
                r = if i == 0 { b } else { self.p.concat(b, r, 1, i as u32) };
            }
            return Ok(vec![self.p.zext(r, 16, 32)]);
        }
        Err(Stop::Unsupported(name.into()))
    }

    fn bitop(&mut self, n: &str, x: V, w: u32) -> V {
        if let V::C(k) = x {
            let r = if n.starts_with("ctpop") {
                k.count_ones() as u128
            } else if n.starts_with("cttz") {
                if k == 0 {
                    w as u128
                } else {
                    k.trailing_zeros() as u128
                }
            } else if n.starts_with("ctlz") {
                (k.leading_zeros() - (128 - w)) as u128
            } else if n.starts_with("bswap") {
                k.swap_bytes() >> (128 - w)
            } else if n.starts_with("abs") {
                m(sx(k, w).unsigned_abs(), w)
            } else {
                k.reverse_bits() >> (128 - w)
            };
            return V::C(r);
        }
        if n.starts_with("ctpop") {
            let mut r = V::C(0);
            for i in 0..w {
                let b = self.p.extract(x, i, 1, w);
                let b = self.p.zext(b, 1, w);
                r = self.p.bin(Bin::Add, r, b, w);
            }
            r
        } else if n.starts_with("cttz") {
            let mut r = V::C(w as u128);
            for i in (0..w).rev() {
                let b = self.p.extract(x, i, 1, w);
                r = self.p.ite(b, V::C(i as u128), r, w);
            }
            r
        } else if n.starts_with("ctlz") {
            let mut r = V::C(w as u128);
            for i in 0..w {
                let b = self.p.extract(x, i, 1, w);
                r = self.p.ite(b, V::C((w - 1 - i) as u128), r, w);
            }
            r
        } else if n.starts_with("bswap") {
            let mut r = self.p.extract(x, 0, 8, w);
            for i in 1..w / 8 {
                let b = self.p.extract(x, i * 8, 8, w);
                r = self.p.concat(r, b, i * 8, 8);
            }
            r
        } else if n.starts_with("abs") {
            let neg = self.p.cmp(Pred::Slt, x, V::C(0), w);
            let mx = self.p.bin(Bin::Sub, V::C(0), x, w);
            self.p.ite(neg, mx, x, w)
        } else {
            let mut r = self.p.extract(x, 0, 1, w);
            for i in 1..w {
                let b = self.p.extract(x, i, 1, w);
                r = self.p.concat(r, b, i, 1);
            }
            r
        }
    }

    fn heap_alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > 1 << 26 {
            return Err(Stop::Unsupported(format!("allocation of {} bytes", n)));
        }
        Ok(st.mem.alloc(HEAP, Obj::new(n)))
    }

    fn str_arg(&self, st: &State, p: V, n: V) -> R<String> {
        match (p, n) {
            (V::C(a), V::C(n)) => Ok(String::from_utf8_lossy(&self.read_conc(st, a as u64, n as u64)?).to_string()),
            _ => Err(Stop::Unsupported("symbolic label".into())),
        }
    }

    fn external(&mut self, st: &mut State, name: &str, args: &[V]) -> R<V> {
        match name {
            "__sym_new" => {
                let V::C(bits) = args[0] else { return Err(Stop::Unsupported("symbolic width".into())) };
                let nm = self.str_arg(st, args[1], args[2])?;
                let v = self.p.var(st.syms.len() as u32, bits as u32, &nm);
                st.syms.push(v);
                Ok(self.p.zext(V::S(v), bits as u32, 64))
            }
            "__sym_assume" => {
                match args[0] {
                    V::C(1) => {}
                    V::C(_) => return Err(Stop::Infeasible),
                    V::S(e) => {
                        let (t, f) = self.decide(st, e)?;
                        match t {
                            Some(md) => {
                                if f.is_some() {
                                    st.model = md;
                                    self.add(st, V::S(e));
                                }
                            }
                            None => return Err(Stop::Infeasible),
                        }
                    }
                }
                Ok(V::C(0))
            }
            "__sym_assert" => {
                let id = self.str_arg(st, args[1], args[2])?;
                if !self.cfg.only.is_empty() && !id.starts_with(&self.cfg.only) && !id.starts_with("any.") {
                    return Ok(V::C(0));
                }
                *self.st.asserts.entry(id.clone()).or_default() += 1;
                match args[0] {
                    V::C(1) => {}
                    V::C(_) => {
                        self.violation(st, &id, "assert", String::new(), &st.model.clone());
                        return Err(Stop::Violated);
                    }
                    V::S(e) => {
                        self.st.asserts_sym += 1;
                        let (t, f) = self.decide(st, e)?;
                        if let Some(md) = f {
                            self.violation(st, &id, "assert", String::new(), &md);
                            match t {
                                Some(md) => {
                                    st.model = md;
                                    self.add(st, V::S(e));
                                }
                                None => return Err(Stop::Violated),
                            }
                        }
                    }
                }
                Ok(V::C(0))
            }
            "__sym_reach" => {
                let id = self.str_arg(st, args[0], args[1])?;
                *self.st.reached.entry(id).or_default() += 1;
                Ok(V::C(0))
            }
            "__sym_panic_id" => {
                let id = self.str_arg(st, args[0], args[1])?;
                st.panic_id = id.as_str().into();
                Ok(V::C(0))
            }
            "__sym_observe" => {
                st.obs.push(args[0]);
                Ok(V::C(0))
            }
            "__sym_concretize" => Ok(V::C(self.concretize(st, args[0], 64)?)),
            "__sym_end" => Err(Stop::Done),
            "malloc" => {
                let n = c64(self.concretize(st, args[0], 64)?);
                Ok(V::C(self.heap_alloc(st, n)? as u128))
            }
            "calloc" => {
                let a = c64(self.concretize(st, args[0], 64)?);
                let b = c64(self.concretize(st, args[1], 64)?);
                Ok(V::C(self.heap_alloc(st, a * b)? as u128))
            }
            "realloc" => {
                let n = c64(self.concretize(st, args[1], 64)?);
                let a = c64(self.concretize(st, args[0], 64)?);
                if a == 0 {
                    return Ok(V::C(self.heap_alloc(st, n)? as u128));
                }
                let (o, off) = st.mem.obj(a, 0).map_err(Stop::Mem)?;
                if off != 0 {
                    return Err(Stop::Mem("realloc of interior pointer".into()));
                }
                let k = o.size.min(n);
                let na = self.heap_alloc(st, n)?;
                self.memcpy(st, na, a, k)?;
                st.mem.free(a).map_err(Stop::Mem)?;
                Ok(V::C(na as u128))
            }
            "posix_memalign" => {
                let n = c64(self.concretize(st, args[2], 64)?);
                let a = self.heap_alloc(st, n)?;
                let d = c64(self.concretize(st, args[0], 64)?);
                let (o, off) = st.mem.obj_mut(d, 8).map_err(Stop::Mem)?;
                self.store_leaf(o, off, 64, V::C(a as u128));
                Ok(V::C(0))
            }
            "free" => {
                let a = c64(self.concretize(st, args[0], 64)?);
                if a != 0 {
                    st.mem.free(a).map_err(Stop::Mem)?;
                }
                Ok(V::C(0))
            }
            "bcmp" | "memcmp" => {
                let n = c64(self.concretize(st, args[2], 64)?);
                if n == 0 {
                    return Ok(V::C(0));
                }
                let a = c64(self.concretize(st, args[0], 64)?);
                let b = c64(self.concretize(st, args[1], 64)?);
                let x = self.read_bytes(st, a, n)?;
                let y = self.read_bytes(st, b, n)?;
                let mut r = V::C(0);
                for i in (0..n as usize).rev() {
                    let eq = self.p.cmp(Pred::Eq, x[i], y[i], 8);
                    let ne = if name == "bcmp" {
                        V::C(1)
                    } else {
                        let l = self.p.cmp(Pred::Ult, x[i], y[i], 8);
                        self.p.ite(l, V::C(0xffff_ffff), V::C(1), 32)
                    };
                    r = self.p.ite(eq, r, ne, 32);
                }
                Ok(r)
            }
            "strlen" => {
                let a = c64(self.concretize(st, args[0], 64)?);
                let mut n = 0u64;
                loop {
                    let b = self.read_bytes(st, a + n, 1)?[0];
                    match b {
                        V::C(0) => return Ok(V::C(n as u128)),
                        V::C(_) => n += 1,
                        _ => return Err(Stop::Unsupported("strlen of symbolic".into())),
                    }
                }
            }
            "memchr" => {
                // only the std fallback uses libc memchr; result is a pointer or null
                let n = c64(self.concretize(st, args[2], 64)?);
                if n == 0 {
                    return Ok(V::C(0));
                }
                let a = c64(self.concretize(st, args[0], 64)?);
                let x = self.read_bytes(st, a, n)?;
                let k = self.p.extract(args[1], 0, 8, 32);
                let mut r = V::C(0);
                for i in (0..n as usize).rev() {
                    let q = self.p.cmp(Pred::Eq, x[i], k, 8);
                    r = self.p.ite(q, V::C(a as u128 + i as u128), r, 64);
                }
                Ok(r)
            }
            "getrandom" => {
                let n = c64(self.concretize(st, args[1], 64)?);
                let a = c64(self.concretize(st, args[0], 64)?);
                let mut b = vec![];
                for _ in 0..n {
                    st.rnd = st.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    b.push(V::C((st.rnd >> 56) as u128));
                }
                self.write_bytes(st, a, &b)?;
                Ok(V::C(n as u128))
            }
            "getenv" => Ok(V::C(0)),
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => Ok(V::C(0)),
            "pthread_self" | "gettid" => Ok(V::C(1)),
            "sysconf" => Ok(V::C(4096)),
            "sched_getaffinity" => Ok(V::C(0xffff_ffff)),
            "__errno_location" => Ok(V::C(self.errno_addr as u128)),
            "open64" | "read" | "close" | "fcntl" | "stat64" | "statx" | "readlink" | "poll" => {
                // no file system: fails with ENOENT
                let ea = self.errno_addr;
                let (o, off) = st.mem.obj_mut(ea, 4).map_err(Stop::Mem)?;
                self.store_leaf(o, off, 32, V::C(2));
                Ok(V::C(if name == "read" { u64::MAX as u128 } else { 0xffff_ffff }))
            }
            "abort" => Err(Stop::Panic("abort".into())),
            _ => Err(Stop::Unsupported(format!("external {}", name))),
        }
    }
}
