//! Symbolic primitives. In the engine build they are externals that the symbolic executor
//! implements; with feature `replay` they read concrete values from a recorded model.

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn __sym_new(bits: u32, p: *const u8, n: usize) -> u64;
        fn __sym_assume(b: bool);
        fn __sym_assert(b: bool, p: *const u8, n: usize);
        fn __sym_reach(p: *const u8, n: usize);
        fn __sym_panic_id(p: *const u8, n: usize);
        fn __sym_observe(x: u64);
        fn __sym_concretize(x: u64) -> u64;
    }
    pub fn new(bits: u32, n: &str) -> u64 {
        unsafe { __sym_new(bits, n.as_ptr(), n.len()) }
    }
    pub fn assume(b: bool) {
        unsafe { __sym_assume(b) }
    }
    pub fn assert(b: bool, id: &str) {
        unsafe { __sym_assert(b, id.as_ptr(), id.len()) }
    }
    pub fn reach(id: &str) {
        unsafe { __sym_reach(id.as_ptr(), id.len()) }
    }
    pub fn panic_id(id: &str) {
        unsafe { __sym_panic_id(id.as_ptr(), id.len()) }
    }
    pub fn observe(x: u64) {
        unsafe { __sym_observe(x) }
    }
    pub fn concretize(x: u64) -> u64 {
        unsafe { __sym_concretize(x) }
    }
}

#[cfg(feature = "replay")]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Tape {
        pub vals: Vec<(String, u32, u64)>,
        pub pos: usize,
        pub obs: Vec<u64>,
        pub reached: Vec<String>,
        pub panic_id: String,
    }
    thread_local!(pub static T: RefCell<Tape> = RefCell::new(Tape::default()));
    pub struct Stop(pub String);
    fn stop(s: String) -> ! {
        std::panic::resume_unwind(Box::new(Stop(s)))
    }
    pub fn new(bits: u32, n: &str) -> u64 {
        let r = T.with(|t| {
            let mut t = t.borrow_mut();
            let p = t.pos;
            t.pos += 1;
            match t.vals.get(p) {
                // the engine suffixes names with a counter ("name!3")
                Some((name, w, v)) if *w == bits && name.split('!').next() == Some(n) => Some(*v),
                Some(_) => None,
                // past the end of the recorded path
                None => None,
            }
        });
        match r {
            Some(v) => v,
            None => stop(format!("desync {}", n)),
        }
    }
    pub fn assume(b: bool) {
        if !b {
            stop("assume".to_string())
        }
    }
    pub fn assert(b: bool, id: &str) {
        let only = std::env::var("HARNESS_ONLY").unwrap_or_default();
        if !b && (id.starts_with(&only) || id.starts_with("any.")) {
            stop(format!("assert {}", id))
        }
    }
    pub fn reach(id: &str) {
        T.with(|t| t.borrow_mut().reached.push(id.to_string()))
    }
    pub fn panic_id(id: &str) {
        T.with(|t| t.borrow_mut().panic_id = id.to_string())
    }
    pub fn observe(x: u64) {
        T.with(|t| t.borrow_mut().obs.push(x))
    }
    pub fn concretize(x: u64) -> u64 {
        x
    }
}

pub use imp::{assert, assume, concretize, observe, panic_id, reach};

pub fn u8(n: &str) -> u8 {
    imp::new(8, n) as u8
}
pub fn u16(n: &str) -> u16 {
    imp::new(16, n) as u16
}
pub fn u32(n: &str) -> u32 {
    imp::new(32, n) as u32
}
pub fn usize(n: &str) -> usize {
    imp::new(64, n) as usize
}
pub fn bool(n: &str) -> bool {
    imp::new(8, n) as u8 & 1 == 1
}
/// 0 <= r < k, forked into its values
pub fn pick(n: &str, k: usize) -> usize {
    let v = imp::new(8, n);
    assume(v < k as u64);
    concretize(v) as usize
}
/// any Unicode scalar value
pub fn chr(n: &str) -> char {
    let v = imp::new(32, n) as u32;
    assume(v < 0xD800 || (v > 0xDFFF && v <= 0x10FFFF));
    unsafe { char::from_u32_unchecked(v) }
}
/// any ASCII character, NUL included
pub fn ascii(n: &str) -> char {
    let v = imp::new(8, n) as u8;
    assume(v < 0x80);
    v as char
}
/// between `min` and `max` arbitrary Unicode scalar values
pub fn chars(n: &str, min: usize, max: usize) -> Vec<char> {
    let l = min + pick(n, max - min + 1);
    (0..l).map(|_| chr("chr")).collect()
}
/// as a string
pub fn string(n: &str, min: usize, max: usize) -> String {
    let l = min + pick(n, max - min + 1);
    let mut s = String::new();
    for _ in 0..l {
        s.push(chr("chr"));
    }
    s
}
/// between `min` and `max` arbitrary ASCII characters
pub fn astring(n: &str, min: usize, max: usize) -> String {
    let l = min + pick(n, max - min + 1);
    let mut s = String::new();
    for _ in 0..l {
        s.push(ascii("asc"));
    }
    s
}
/// one of the given strings
pub fn one_of<'a>(n: &str, pool: &[&'a str]) -> &'a str {
    pool[pick(n, pool.len())]
}
pub fn observe_str(s: &str) {
    observe(s.len() as u64);
    for c in s.as_bytes().chunks(8) {
        let mut x = 0u64;
        for b in c {
            x = (x << 8) | *b as u64;
        }
        observe(x);
    }
}
pub fn observe_opt(s: &Option<String>) {
    match s {
        None => observe(u64::MAX),
        Some(s) => observe_str(s),
    }
}
/// same bytes? (compares without an early exit, so it does not fork)
pub fn same(a: &str, b: &str) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a.as_bytes()[i] ^ b.as_bytes()[i];
    }
    d == 0
}
pub fn same_opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    }
}
/// bound selected by the tier: the engine passes the thorough flag as a symbol-free constant
pub fn thorough() -> bool {
    option_env!("HARNESS_TIER") == Some("thorough")
}
