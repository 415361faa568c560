mod exec;
mod expr;
mod ir;
mod mem;
mod ranges;
mod solver;

use exec::*;
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn mmap(a: *mut c_void, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, b: *mut c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn signal(s: i32, h: usize) -> usize;
}

struct Shared {
    active: AtomicU64,
    started: AtomicU64,
    finished: AtomicU64,
    viols: AtomicU64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn values(v: &[(String, u32, u128)]) -> String {
    let s: Vec<String> = v.iter().map(|(n, w, x)| format!("[{},{},\"{}\"]", js(n), w, x)).collect();
    format!("[{}]", s.join(","))
}

fn report(e: &Engine, dropped: usize, wall: f64) -> String {
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        let s: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        format!("{{{}}}", s.join(","))
    };
    let viols: Vec<String> = e
        .viols
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|s| js(s)).collect();
            format!(
                "{{\"id\":{},\"kind\":{},\"detail\":{},\"values\":{},\"stack\":[{}]}}",
                js(&v.id),
                js(&v.kind),
                js(&v.detail),
                values(&v.values),
                st.join(",")
            )
        })
        .collect();
    let samples: Vec<String> = e
        .samples
        .iter()
        .map(|s| {
            let o: Vec<String> = s.obs.iter().map(|x| format!("\"{}\"", x)).collect();
            format!("{{\"values\":{},\"obs\":[{}]}}", values(&s.values), o.join(","))
        })
        .collect();
    let ex: Vec<String> = {
        let mut v: Vec<String> = e
            .executed
            .iter()
            .map(|i| e.m.fns[*i as usize].demangled.clone())
            .filter(|d| d.contains("xml_dom"))
            .map(|d| js(&d))
            .collect();
        v.sort();
        v
    };
    format!(
        "{{\"done\":{},\"infeasible\":{},\"panics\":{},\"steps\":{},\"forks\":{},\"concretized\":{},\"asserts_sym\":{},\"dropped\":{},\"queries\":{},\"cache_hits\":{},\"byte_decided\":{},\"range_decided\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"unknowns\":{},\"exprs\":{},\"wall\":{:.2},\"incomplete\":{},\"reached\":{},\"asserts\":{},\"nfuncs\":{},\"functions\":[{}],\"violations\":[{}],\"samples\":[{}]}}\n",
        e.st.done,
        e.st.infeasible,
        e.st.panics,
        e.st.steps,
        e.st.forks,
        e.st.concretized,
        e.st.asserts_sym,
        dropped,
        e.s.queries,
        e.s.cache_hits,
        e.s.byte_decided,
        e.s.range_decided,
        e.s.time,
        e.s.max_time,
        e.s.unknowns,
        e.p.nodes.len(),
        wall,
        map(&e.st.incomplete),
        map(&e.st.reached),
        map(&e.st.asserts),
        e.executed.len(),
        ex.join(","),
        viols.join(","),
        samples.join(",")
    )
}

fn selftest() {
    // random terms: the simplifying constructors must agree with direct evaluation
    use expr::*;
    use ir::{Bin, Pred};
    let mut seed: u64 = 0x1234_5678_9abc_def1;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let mut p = Pool::new();
    let ws = [1u32, 8, 16, 32, 64];
    let mut checked = 0u64;
    for _round in 0..400 {
        let md = Model((0..6).map(|_| if rnd() % 3 == 0 { (rnd() % 4) as u128 } else { rnd() as u128 }).collect());
        // pairs (term, value) per width
        let mut t: Vec<(V, u128, u32)> = vec![];
        for i in 0..6u32 {
            let w = ws[(i as usize) % 5];
            let v = p.var(i, w, "t");
            let val = p.eval(v, &Model(md.0.iter().enumerate().map(|(k, x)| m(*x, p.var_names.get(k).map(|n| n.1).unwrap_or(64))).collect()));
            t.push((V::S(v), val, w));
        }
        let md = Model(md.0.iter().enumerate().map(|(k, x)| m(*x, p.var_names.get(k).map(|n| n.1).unwrap_or(64))).collect());
        for w in ws {
            for _ in 0..2 {
                let k = match rnd() % 4 {
                    0 => 0,
                    1 => (1u128 << (rnd() % w as u64)) - 1,
                    2 => 1u128 << (rnd() % w as u64),
                    _ => m(rnd() as u128, w),
                };
                t.push((V::C(k), k, w));
            }
        }
        for _ in 0..120 {
            let i = (rnd() % t.len() as u64) as usize;
            let (a, av, w) = t[i];
            let same: Vec<usize> = (0..t.len()).filter(|k| t[*k].2 == w).collect();
            let (b, bv, _) = t[same[(rnd() % same.len() as u64) as usize]];
            let bools: Vec<usize> = (0..t.len()).filter(|k| t[*k].2 == 1).collect();
            let (c, cv, _) = t[bools[(rnd() % bools.len() as u64) as usize]];
            let r = match rnd() % 8 {
                0 | 1 => {
                    let op = BINS[(rnd() % 13) as usize];
                    if w == 1 && !matches!(op, Bin::And | Bin::Or | Bin::Xor | Bin::Add | Bin::Sub | Bin::Mul) {
                        continue;
                    }
                    (p.bin(op, a, b, w), ev_bin(op, av, bv, w), w)
                }
                2 => {
                    let preds = [Pred::Eq, Pred::Ne, Pred::Ult, Pred::Ule, Pred::Ugt, Pred::Uge, Pred::Slt, Pred::Sle, Pred::Sgt, Pred::Sge];
                    let pr = preds[(rnd() % 10) as usize];
                    (p.cmp(pr, a, b, w), ev_cmp(pr, av, bv, w) as u128, 1)
                }
                3 => (p.ite(c, a, b, w), if cv == 1 { av } else { bv }, w),
                4 => {
                    let tw = *ws.iter().filter(|x| **x >= w).nth((rnd() % ws.iter().filter(|x| **x >= w).count() as u64) as usize).unwrap();
                    if rnd() % 2 == 0 {
                        (p.zext(a, w, tw), av, tw)
                    } else {
                        (p.sext(a, w, tw), m(sx(av, w) as u128, tw), tw)
                    }
                }
                5 => {
                    let tw = *ws.iter().filter(|x| **x <= w).last().unwrap();
                    let tw = if rnd() % 2 == 0 { tw } else { *ws.iter().find(|x| **x <= w).unwrap() };
                    let lo = (rnd() % (w - tw + 1) as u64) as u32;
                    (p.extract(a, lo, tw, w), m(av >> lo, tw), tw)
                }
                6 if w < 64 && w > 1 => (p.concat(a, b, w, w), (av << w) | bv, 2 * w),
                _ if w == 1 => (p.not(a), av ^ 1, 1),
                _ => continue,
            };
            let got = match r.0 {
                V::C(k) => k,
                V::S(e) => {
                    assert_eq!(p.width(e), r.2, "width");
                    p.eval(e, &md)
                }
            };
            assert_eq!(got, r.1, "simplifier disagrees: {:?} width {}", r.0, r.2);
            checked += 1;
            t.push(r);
        }
    }
    println!("selftest ok: {} terms", checked);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "--selftest").unwrap_or(false) {
        selftest();
        return;
    }
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i + 1 < args.len() {
        o.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let g = |k: &str, d: &str| o.get(k).cloned().unwrap_or_else(|| d.to_string());
    let n = |k: &str, d: u64| o.get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    let out = g("out", "/tmp/symx-out");
    std::fs::create_dir_all(&out).unwrap();
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(n("time", 600));
    let jobs = n("jobs", 1);
    let m = ir::Module::load(&g("ll", ""));
    let cfg = Config {
        max_steps: n("max-steps", 300_000_000),
        max_depth: n("max-depth", 4000) as usize,
        hash_stub: g("hash-stub", "").split('|').map(|s| s.to_string()).collect(),
        trace: false,
        max_viol: n("max-viol", 3) as usize,
        max_concr: 300,
        only: g("only", ""),
        known: g("known", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    };
    let max_viols_total = n("stop-after", 40);
    let max_paths = n("max-paths", u64::MAX);
    let mut e = Engine::new(m, cfg, n("solver-ms", 30000) as u32, deadline);
    if let Some(d) = o.get("dump") {
        std::fs::create_dir_all(d).unwrap();
        e.s.dump = Some((d.clone(), n("dump-n", 8), 0));
    }
    e.s.check_ranges = o.contains_key("check-ranges");
    if o.contains_key("prof") {
        e.forkprof = Some(HashMap::new());
    }
    let st = e.initial(&g("entry", ""));
    e.work.push(st);

    let sh: &Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    sh.active.store(1, Ordering::SeqCst);
    sh.started.store(1, Ordering::SeqCst);
    let mut fds = [0i32; 2];
    unsafe {
        pipe(fds.as_mut_ptr());
        signal(17, 1); // SIGCHLD ignored: children are reaped by the kernel
    }
    let mut root = true;
    let mut last_split = Instant::now();
    let mut part = 0u64;
    let wstart = Instant::now();
    let mut wstart = wstart;
    let mut slow: Option<Instant> = None;
    let _ = &mut slow;
    while let Some(mut st) = e.work.pop() {
        if Instant::now() > deadline || sh.viols.load(Ordering::Relaxed) >= max_viols_total || e.st.done >= max_paths {
            e.work.push(st);
            break;
        }
        let v0 = e.new_viols();
        let r = e.run(&mut st);
        e.finish_path(&st, r);
        drop(st);
        if e.new_viols() > v0 {
            sh.viols.fetch_add((e.new_viols() - v0) as u64, Ordering::Relaxed);
        }
        if jobs > 1 && e.work.len() >= 2 && last_split.elapsed() > Duration::from_millis(10) {
            let a = sh.active.load(Ordering::SeqCst);
            if a < jobs && sh.active.compare_exchange(a, a + 1, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                last_split = Instant::now();
                let id = sh.started.fetch_add(1, Ordering::SeqCst);
                let pid = unsafe { fork() };
                if pid == 0 {
                    unsafe {
                        if root {
                            close(fds[0]);
                        }
                    }
                    root = false;
                    part = id;
                    let keep = e.work.len() / 2;
                    // oldest states are closest to the root: largest subtrees
                    e.work.truncate(keep.max(1));
                    e.st = Stats::default();
                    e.viols.clear();
                    e.samples.clear();
                    e.s.queries = 0;
                    e.s.cache_hits = 0;
                    e.s.byte_decided = 0;
                    e.s.range_decided = 0;
                    e.s.time = 0.0;
                    e.s.unknowns = 0;
                    if let Some(fp) = &mut e.forkprof {
                        fp.clear();
                    }
                    wstart = Instant::now();
                } else if pid > 0 {
                    let keep = (e.work.len() / 2).max(1);
                    e.work.drain(..keep);
                } else {
                    sh.active.fetch_sub(1, Ordering::SeqCst);
                    sh.started.fetch_sub(1, Ordering::SeqCst);
                }
            }
        }
    }
    let dropped = e.work.len();
    let r = report(&e, dropped, wstart.elapsed().as_secs_f64());
    std::fs::write(format!("{}/part-{}.json", out, part), r).unwrap();
    if let Some(fp) = &e.forkprof {
        let mut v: Vec<_> = fp.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, c) in v.iter().take(25) {
            eprintln!("FORK[{}] {:8} {}", part, c, k);
        }
        let mut v: Vec<_> = e.explode.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, c) in v.iter().take(10) {
            eprintln!("CONC[{}] {:8} {}", part, c, k);
        }
    }
    sh.finished.fetch_add(1, Ordering::SeqCst);
    sh.active.fetch_sub(1, Ordering::SeqCst);
    if !root {
        unsafe { wait_children(sh, fds, false) };
        unsafe { _exit(0) }
    }
    unsafe { wait_children(sh, fds, true) };
    let (s, f) = (sh.started.load(Ordering::SeqCst), sh.finished.load(Ordering::SeqCst));
    if s != f {
        eprintln!("symx: {} workers started but {} finished", s, f);
        std::process::exit(3);
    }
    println!("symx {}: workers {} wall {:.1}s z3 {}", g("entry", ""), s, t0.elapsed().as_secs_f64(), solver::z3_version());
}

/// the pipe reaches end-of-file once every descendant has exited
unsafe fn wait_children(_sh: &Shared, fds: [i32; 2], root: bool) {
    if root {
        close(fds[1]);
        let mut b = [0u8; 1];
        read(fds[0], b.as_mut_ptr() as *mut c_void, 1);
    }
}
