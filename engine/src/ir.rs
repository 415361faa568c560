//! Textual LLVM IR: module index, types, global initialisers, and lazy compilation of function
//! bodies into a register-slot form that the executor can run.

use std::collections::HashMap;
use std::rc::Rc;

pub const FN_BASE: u64 = 0x1000_0000;
pub const FN_STRIDE: u64 = 16;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Vec<Rc<Ty>>, bool),
    Meta,
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size (stride)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs {
                    if !*packed {
                        o = up(o, f.align());
                    }
                    o += f.size();
                }
                if !*packed {
                    o = up(o, self.align());
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        o = up(o, f.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vector(_, t) => i as u64 * t.size(),
            _ => panic!("field_off of scalar"),
        }
    }
    /// scalar leaves: (byte offset, width in bits). i1 vectors use the lane index as offset.
    pub fn leaves(&self) -> Vec<(u64, u32)> {
        let mut v = vec![];
        self.leaves_at(0, &mut v);
        v
    }
    fn leaves_at(&self, off: u64, v: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Int(w) => v.push((off, *w)),
            Ty::Ptr => v.push((off, 64)),
            Ty::Float(w) => v.push((off, *w)),
            Ty::Arr(n, t) | Ty::Vector(n, t) => {
                for i in 0..*n {
                    t.leaves_at(off + i * t.size(), v);
                }
            }
            Ty::Struct(fs, _) => {
                for (i, f) in fs.iter().enumerate() {
                    f.leaves_at(off + self.field_off(i), v);
                }
            }
            _ => {}
        }
    }
    pub fn nleaves(&self) -> u32 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => 1,
            Ty::Arr(n, t) | Ty::Vector(n, t) => *n as u32 * t.nleaves(),
            Ty::Struct(fs, _) => fs.iter().map(|f| f.nleaves()).sum(),
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vector(_, t) => t.width(),
            _ => 0,
        }
    }
    pub fn lanes(&self) -> u32 {
        match self {
            Ty::Vector(n, _) => *n as u32,
            _ => 1,
        }
    }
    fn elem(&self, i: usize) -> Rc<Ty> {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vector(_, t) => t.clone(),
            _ => panic!("elem of scalar"),
        }
    }
}

#[derive(Debug, Clone, Copy)]
pub enum Op {
    R(u32),
    K(u128),
    /// run of constants in the function's pool
    KV(u32),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub target: u32,
    pub moves: Vec<(u32, Op, u32)>, // dst, src, n leaves
}

#[derive(Debug, Clone)]
pub enum Callee {
    Direct(u32),
    Intrinsic(Rc<str>),
    External(Rc<str>),
    Indirect(Op),
    Asm(Rc<str>),
}

#[derive(Debug, Clone)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(Op, u32, u32)>, // operand, leaves, scalar width
    pub dst: u32,
    pub ret_n: u32,
    pub ret_w: u32,
    pub normal: Option<Edge>,
}

#[derive(Debug, Clone)]
pub enum I {
    Bin { op: Bin, w: u32, dst: u32, a: Op, b: Op, n: u32 },
    ICmp { p: Pred, w: u32, dst: u32, a: Op, b: Op, n: u32 },
    Cast { c: Cast, fw: u32, tw: u32, dst: u32, a: Op, n: u32 },
    BitVec { fw: u32, fln: u32, tw: u32, tln: u32, dst: u32, a: Op },
    Select { dst: u32, c: Op, cn: u32, a: Op, b: Op, ws: Rc<[u32]> },
    Load { dst: u32, p: Op, leaves: Rc<[(u64, u32)]>, size: u64 },
    Store { v: Op, p: Op, leaves: Rc<[(u64, u32)]>, size: u64 },
    Gep { dst: u32, base: Op, k: u64, idx: Vec<(Op, u64, u32)> },
    Alloca { dst: u32, size: u64, count: Op },
    Call(Box<CallI>),
    Br(Edge),
    CondBr(Op, Edge, Edge),
    Switch { v: Op, w: u32, cases: Vec<(u128, u32)>, edges: Vec<Edge>, dflt: Edge },
    Ret(Op, u32),
    Unreachable,
    Move { dst: u32, a: Op, n: u32 },
    Moves(Vec<(u32, Op, u32)>),
    ExtractEl { dst: u32, v: Op, idx: Op, n: u32 },
    InsertEl { dst: u32, v: Op, x: Op, idx: Op, n: u32, w: u32 },
    Rmw { op: Rc<str>, dst: u32, p: Op, v: Op, w: u32 },
    CmpXchg { dst: u32, p: Op, cmp: Op, new: Op, w: u32 },
    Nop,
    Unsupported(Rc<str>),
}

pub struct Func {
    pub id: u32,
    pub nslots: u32,
    pub nargs: u32,
    pub code: Vec<I>,
    pub block_start: Vec<u32>,
    pub consts: Vec<Vec<u128>>,
}

pub struct FnDecl {
    pub name: String,
    pub demangled: String,
    pub body: (usize, usize), // byte range, including define line
    pub external: bool,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub addr: u64,
    pub constant: bool,
    pub init: Option<(usize, usize)>, // byte range starting at type
}

pub struct Module {
    pub text: &'static [u8],
    pub types: HashMap<String, Rc<Ty>>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub glob_by_name: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

pub struct Cur<'a> {
    pub s: &'a [u8],
    pub p: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Cur<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        Cur { s, p: 0 }
    }
    pub fn ws(&mut self) {
        while self.p < self.s.len() && matches!(self.s[self.p], b' ' | b'\t' | b'\n' | b'\r') {
            self.p += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn need(&mut self, c: u8) {
        if !self.eat(c) {
            panic!(
                "IR parse: expected '{}' at: {}",
                c as char,
                String::from_utf8_lossy(&self.s[self.p..(self.p + 80).min(self.s.len())])
            );
        }
    }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) {
            self.p += 1;
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str {
        let p = {
            self.ws();
            self.p
        };
        let w = self.word();
        self.p = p;
        w
    }
    pub fn kw(&mut self, k: &str) -> bool {
        let w = self.peek_word();
        if w == k {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    /// name after % or @ (sigil already consumed)
    pub fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).to_string();
            self.p += 1;
            r
        } else {
            self.word().to_string()
        }
    }
    pub fn skip_parens(&mut self) {
        if self.peek() != b'(' {
            return;
        }
        let mut d = 0;
        loop {
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                b'"' => {
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                }
                _ => {}
            }
        }
    }
    pub fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p..(self.p + 120).min(self.s.len())]).to_string()
    }
    pub fn cstring(&mut self) -> Vec<u8> {
        // at c"
        self.need(b'"');
        let mut v = vec![];
        loop {
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    if self.s[self.p] == b'\\' {
                        v.push(b'\\');
                        self.p += 1;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.p..self.p + 2]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.p += 2;
                    }
                }
                c => v.push(c),
            }
        }
        v
    }
}

fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let data = std::fs::read(path).expect("read ll");
        let text: &'static [u8] = Box::leak(data.into_boxed_slice());
        let mut m = Module {
            text,
            types: HashMap::new(),
            fns: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            glob_by_name: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut pos = 0;
        let n = text.len();
        let mut last_comment: (usize, usize) = (0, 0);
        let mut glob_lines: Vec<(usize, usize)> = vec![];
        while pos < n {
            let e = memchr(b'\n', &text[pos..]).map(|i| pos + i).unwrap_or(n);
            let line = &text[pos..e];
            if line.starts_with(b"define ") {
                let end = find_body_end(text, e);
                let name = fn_name(line);
                let dm = String::from_utf8_lossy(&text[last_comment.0..last_comment.1]).to_string();
                m.fn_by_name.insert(name.clone(), m.fns.len() as u32);
                m.fns.push(FnDecl { name, demangled: dm, body: (pos, end), external: false });
                pos = end;
                last_comment = (0, 0);
                continue;
            } else if line.starts_with(b"declare ") {
                let name = fn_name(line);
                m.fn_by_name.insert(name.clone(), m.fns.len() as u32);
                m.fns.push(FnDecl { demangled: name.clone(), name, body: (0, 0), external: true });
            } else if line.starts_with(b"; ") {
                if !line.starts_with(b"; Function Attrs") {
                    last_comment = (pos + 2, e);
                }
            } else if line.starts_with(b"@") {
                glob_lines.push((pos, e));
            } else if line.starts_with(b"%") {
                let mut c = Cur::new(line);
                c.p = 1;
                let nm = c.name();
                c.need(b'=');
                assert!(c.kw("type"));
                if c.kw("opaque") {
                    m.types.insert(nm, Rc::new(Ty::Struct(vec![], false)));
                } else {
                    let t = m.ty(&mut c);
                    m.types.insert(nm, t);
                }
            }
            pos = e + 1;
        }
        for (a, b) in glob_lines {
            let line = &text[a..b];
            let mut c = Cur::new(line);
            c.p = 1;
            let nm = c.name();
            c.need(b'=');
            let mut ext = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                let w = c.word();
                match w {
                    "global" => break,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "alias" => {
                        alias = true;
                        break;
                    }
                    "external" | "extern_weak" => ext = true,
                    "" => {
                        if c.peek() == b'(' {
                            c.skip_parens()
                        } else {
                            panic!("global: {}", String::from_utf8_lossy(line))
                        }
                    }
                    _ => {}
                }
            }
            if alias {
                let _t = m.ty(&mut c);
                c.need(b',');
                let _ = m.ty(&mut c);
                c.need(b'@');
                let tgt = c.name();
                m.aliases.insert(nm, tgt);
                continue;
            }
            let tpos = a + c.p;
            let t = m.ty(&mut c);
            m.glob_by_name.insert(nm.clone(), m.globals.len() as u32);
            m.globals.push(Global {
                name: nm,
                size: t.size(),
                addr: 0,
                constant,
                init: if ext { None } else { Some((tpos, b)) },
            });
        }
        m
    }

    pub fn ty(&self, c: &mut Cur) -> Rc<Ty> {
        let t = match c.peek() {
            b'[' => {
                c.p += 1;
                let n: u64 = c.word().parse().unwrap();
                assert!(c.kw("x"));
                let e = self.ty(c);
                c.need(b']');
                Ty::Arr(n, e)
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    c.p += 1;
                    let mut fs = vec![];
                    while c.peek() != b'}' {
                        fs.push(self.ty(c));
                        c.eat(b',');
                    }
                    c.need(b'}');
                    c.need(b'>');
                    Ty::Struct(fs, true)
                } else {
                    let n: u64 = c.word().parse().unwrap();
                    assert!(c.kw("x"));
                    let e = self.ty(c);
                    c.need(b'>');
                    Ty::Vector(n, e)
                }
            }
            b'{' => {
                c.p += 1;
                let mut fs = vec![];
                while c.peek() != b'}' {
                    fs.push(self.ty(c));
                    c.eat(b',');
                }
                c.need(b'}');
                Ty::Struct(fs, false)
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                return self.types.get(&n).unwrap_or_else(|| panic!("type {}", n)).clone();
            }
            _ => {
                let w = c.word();
                if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) {
                    Ty::Int(w[1..].parse().unwrap())
                } else {
                    match w {
                        "ptr" => Ty::Ptr,
                        "void" => Ty::Void,
                        "float" => Ty::Float(32),
                        "double" => Ty::Float(64),
                        "half" => Ty::Float(16),
                        "fp128" => Ty::Float(128),
                        "metadata" => Ty::Meta,
                        "label" => Ty::Void,
                        _ => panic!("type word '{}' at {}", w, c.rest()),
                    }
                }
            }
        };
        Rc::new(t)
    }

    pub fn resolve_symbol(&self, n: &str) -> u64 {
        let mut n = n;
        while let Some(t) = self.aliases.get(n) {
            n = t;
        }
        if let Some(g) = self.glob_by_name.get(n) {
            return self.globals[*g as usize].addr;
        }
        if let Some(f) = self.fn_by_name.get(n) {
            return FN_BASE + *f as u64 * FN_STRIDE;
        }
        panic!("unknown symbol @{}", n)
    }

    pub fn fn_at(&self, a: u64) -> Option<u32> {
        if a < FN_BASE {
            return None;
        }
        let i = (a - FN_BASE) / FN_STRIDE;
        if i < self.fns.len() as u64 && (a - FN_BASE) % FN_STRIDE == 0 {
            Some(i as u32)
        } else {
            None
        }
    }

    /// constant of type t -> list of leaf values
    pub fn constant(&self, t: &Ty, c: &mut Cur) -> Vec<u128> {
        let mut out = Vec::new();
        self.const_into(t, c, &mut out);
        out
    }

    fn const_into(&self, t: &Ty, c: &mut Cur, out: &mut Vec<u128>) {
        let ch = c.peek();
        match ch {
            b'@' => {
                c.p += 1;
                let n = c.name();
                out.push(self.resolve_symbol(&n) as u128);
            }
            b'-' | b'0'..=b'9' => {
                let w = c.word();
                if let Ty::Float(fw) = t {
                    let v: u128 = if let Some(h) = w.strip_prefix("0x") {
                        let bits = u64::from_str_radix(h, 16).unwrap_or(0);
                        if *fw == 32 {
                            (f64::from_bits(bits) as f32).to_bits() as u128
                        } else {
                            bits as u128
                        }
                    } else {
                        // 1.000000e+00 : '+' is not an id char
                        let mut s = w.to_string();
                        if c.p < c.s.len() && c.s[c.p] == b'+' {
                            c.p += 1;
                            s.push('+');
                            s.push_str(c.word());
                        }
                        let f: f64 = s.parse().unwrap_or(0.0);
                        if *fw == 32 {
                            (f as f32).to_bits() as u128
                        } else {
                            f.to_bits() as u128
                        }
                    };
                    out.push(v);
                    return;
                }
                let v: u128 = if let Some(r) = w.strip_prefix('-') {
                    (0u128).wrapping_sub(r.parse::<u128>().unwrap())
                } else {
                    w.parse::<u128>().unwrap_or_else(|_| panic!("int const {}", w))
                };
                out.push(mask(v, t.width()));
            }
            b'[' => {
                c.p += 1;
                let mut i = 0;
                while c.peek() != b']' {
                    let et = self.ty(c);
                    self.const_into(&et, c, out);
                    c.eat(b',');
                    i += 1;
                }
                let _ = i;
                c.need(b']');
            }
            b'{' => {
                c.p += 1;
                while c.peek() != b'}' {
                    let et = self.ty(c);
                    self.const_into(&et, c, out);
                    c.eat(b',');
                }
                c.need(b'}');
            }
            b'<' => {
                c.p += 1;
                let st = c.peek() == b'{';
                if st {
                    c.p += 1;
                }
                while c.peek() != b'>' && c.peek() != b'}' {
                    let et = self.ty(c);
                    self.const_into(&et, c, out);
                    c.eat(b',');
                }
                if st {
                    c.need(b'}');
                }
                c.need(b'>');
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => out.push(1),
                    "false" => out.push(0),
                    "null" | "none" => out.push(0),
                    "undef" | "poison" | "zeroinitializer" => {
                        for _ in 0..t.nleaves() {
                            out.push(0)
                        }
                    }
                    "c" => {
                        for b in c.cstring() {
                            out.push(b as u128)
                        }
                    }
                    "splat" => {
                        c.need(b'(');
                        let et = self.ty(c);
                        let v = self.constant(&et, c);
                        c.need(b')');
                        for _ in 0..t.lanes() {
                            out.push(v[0])
                        }
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                        c.need(b'(');
                        let ft = self.ty(c);
                        let v = self.constant(&ft, c);
                        assert!(c.kw("to"));
                        let tt = self.ty(c);
                        c.need(b')');
                        out.push(mask(v[0], tt.width()));
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        loop {
                            let k = c.peek_word();
                            if k == "nuw" || k == "nsw" {
                                c.word();
                            } else {
                                break;
                            }
                        }
                        c.need(b'(');
                        let t1 = self.ty(c);
                        let a = self.constant(&t1, c)[0];
                        c.need(b',');
                        let t2 = self.ty(c);
                        let b = self.constant(&t2, c)[0];
                        c.need(b')');
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        out.push(mask(r, t1.width()));
                    }
                    "getelementptr" => {
                        loop {
                            let k = c.peek_word();
                            match k {
                                "inbounds" | "nuw" | "nusw" => {
                                    c.word();
                                }
                                "inrange" => {
                                    c.word();
                                    c.skip_parens();
                                }
                                _ => break,
                            }
                        }
                        c.need(b'(');
                        let et = self.ty(c);
                        c.need(b',');
                        let pt = self.ty(c);
                        let base = self.constant(&pt, c)[0];
                        let mut off: u64 = base as u64;
                        let mut cur = et;
                        let mut first = true;
                        while c.eat(b',') {
                            if c.kw("inrange") {}
                            let it = self.ty(c);
                            let v = self.constant(&it, c)[0];
                            let sv = sext64(v, it.width());
                            if first {
                                off = off.wrapping_add((sv as u64).wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                off = off.wrapping_add(if let Ty::Struct(..) = *cur {
                                    cur.field_off(sv as usize)
                                } else {
                                    (sv as u64).wrapping_mul(cur.elem(0).size())
                                });
                                cur = cur.elem(sv as usize);
                            }
                        }
                        c.need(b')');
                        out.push(off as u128);
                    }
                    _ => panic!("const '{}' at {}", w, c.rest()),
                }
            }
        }
    }

    pub fn compile(&self, id: u32) -> Func {
        Compiler::new(self, id).run()
    }
}

pub fn sext64(v: u128, w: u32) -> i64 {
    if w >= 64 {
        v as u64 as i64
    } else {
        let s = 64 - w;
        (((v as u64) << s) as i64) >> s
    }
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|&b| b == c)
}

fn find_body_end(t: &[u8], mut p: usize) -> usize {
    // p at end of define line; the body ends at a line that is exactly "}"
    loop {
        let e = memchr(b'\n', &t[p + 1..]).map(|i| p + 1 + i).unwrap_or(t.len());
        if &t[p + 1..e] == b"}" {
            return e;
        }
        p = e;
    }
}

fn fn_name(line: &[u8]) -> String {
    let at = memchr(b'@', line).unwrap();
    let mut c = Cur::new(line);
    c.p = at + 1;
    c.name()
}

struct Compiler<'m> {
    m: &'m Module,
    id: u32,
    slots: HashMap<String, u32>,
    widths: HashMap<String, u32>, // leaves per name
    nslots: u32,
    consts: Vec<Vec<u128>>,
    blocks: HashMap<String, u32>,
    allocated: u32,
}

enum Phi {
    P(u32, u32, Vec<(String, Op)>),
}

impl<'m> Compiler<'m> {
    fn new(m: &'m Module, id: u32) -> Self {
        Compiler {
            m,
            id,
            slots: HashMap::new(),
            widths: HashMap::new(),
            nslots: 0,
            consts: vec![],
            blocks: HashMap::new(),
            allocated: 0,
        }
    }

    fn def(&mut self, name: &str, n: u32) -> u32 {
        if let Some(s) = self.slots.get(name) {
            return *s;
        }
        let s = self.nslots;
        self.nslots += n.max(1);
        self.slots.insert(name.to_string(), s);
        s
    }

    fn fresh_slot(&mut self) -> u32 {
        let s = self.nslots;
        self.nslots += 1;
        s
    }

    fn value(&mut self, t: &Ty, c: &mut Cur) -> Op {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            let s = self.def(&n, t.nleaves());
            return Op::R(s);
        }
        if let Ty::Meta = t {
            panic!("metadata operand")
        }
        let v = self.m.constant(t, c);
        if v.len() == 1 {
            Op::K(v[0])
        } else {
            self.consts.push(v);
            Op::KV(self.consts.len() as u32 - 1)
        }
    }

    fn tv(&mut self, c: &mut Cur) -> (Rc<Ty>, Op) {
        let t = self.m.ty(c);
        self.skip_attrs(c);
        let v = self.value(&t, c);
        (t, v)
    }

    fn skip_attrs(&mut self, c: &mut Cur) {
        loop {
            let ch = c.peek();
            if ch == b'"' {
                c.p += 1;
                while c.s[c.p] != b'"' {
                    c.p += 1;
                }
                c.p += 1;
                if c.peek() == b'=' {
                    c.p += 1;
                    c.need(b'"');
                    while c.s[c.p] != b'"' {
                        c.p += 1;
                    }
                    c.p += 1;
                }
                continue;
            }
            if !ch.is_ascii_lowercase() {
                return;
            }
            let w = c.peek_word();
            match w {
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "writeonly" | "readnone" | "zeroext"
                | "signext" | "immarg" | "returned" | "nocapture" | "allocptr" | "allocalign" | "writable"
                | "dead_on_unwind" | "inreg" | "nest" | "swiftself" | "noext" | "fastcc" | "ccc" | "tailcc"
                | "coldcc" | "dead_on_return" | "preserve_mostcc" | "nofpclass" => {
                    c.word();
                    if w == "dead_on_return" || w == "nofpclass" {
                        if c.p < c.s.len() && c.s[c.p] == b'(' {
                            c.skip_parens();
                        }
                    }
                }
                "align" => {
                    c.word();
                    if c.peek() == b'(' {
                        c.skip_parens();
                    } else {
                        c.word();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "captures" | "range" | "initializes"
                | "elementtype" | "byref" | "preallocated" | "memory" => {
                    c.word();
                    c.skip_parens();
                }
                _ => return,
            }
        }
    }

    fn label(&mut self, c: &mut Cur) -> String {
        assert!(c.kw("label"), "label at {}", c.rest());
        c.need(b'%');
        c.name()
    }

    fn run(mut self) -> Func {
        let d = &self.m.fns[self.id as usize];
        let text = &self.m.text[d.body.0..d.body.1];
        // header line
        let e = memchr(b'\n', text).unwrap();
        let header = &text[..e];
        let at = memchr(b'@', header).unwrap();
        let mut c = Cur::new(header);
        c.p = at + 1;
        c.name();
        c.need(b'(');
        let mut nargs = 0;
        let mut unnamed = 0;
        while c.peek() != b')' {
            if c.peek() == b'.' {
                c.p += 3;
                break;
            }
            let t = self.m.ty(&mut c);
            self.skip_attrs(&mut c);
            let n = if c.peek() == b'%' {
                c.p += 1;
                c.name()
            } else {
                let s = unnamed.to_string();
                s
            };
            if n.bytes().all(|b| b.is_ascii_digit()) {
                unnamed += 1;
            }
            let nl = t.nleaves();
            self.def(&n, nl);
            nargs += nl;
            c.eat(b',');
        }
        // logical lines
        let mut lines: Vec<&[u8]> = vec![];
        let mut p = e + 1;
        while p < text.len() {
            let mut q = memchr(b'\n', &text[p..]).map(|i| p + i).unwrap_or(text.len());
            let l = &text[p..q];
            if l.is_empty() || l.starts_with(b";") || l == b"}" || l.starts_with(b"    #dbg") || l.starts_with(b"  #dbg") {
                p = q + 1;
                continue;
            }
            if l.ends_with(b"[") {
                // switch: join up to the line containing "  ]"
                loop {
                    let q2 = memchr(b'\n', &text[q + 1..]).map(|i| q + 1 + i).unwrap();
                    let l2 = &text[q + 1..q2];
                    q = q2;
                    if l2.starts_with(b"  ]") {
                        break;
                    }
                }
            } else {
                // continuation lines start with 10 spaces
                while q + 1 < text.len() && text[q + 1..].starts_with(b"          ") {
                    q = memchr(b'\n', &text[q + 1..]).map(|i| q + 1 + i).unwrap_or(text.len());
                }
            }
            lines.push(&text[p..q]);
            p = q + 1;
        }
        // first pass: block labels
        let mut raw: Vec<(String, Vec<&[u8]>)> = vec![];
        for l in lines {
            if l[0] != b' ' {
                let mut c = Cur::new(l);
                let n = c.name();
                raw.push((n, vec![]));
            } else {
                if raw.is_empty() {
                    // implicit entry label: number of unnamed args
                    raw.push((unnamed.to_string(), vec![]));
                }
                raw.last_mut().unwrap().1.push(l);
            }
        }
        for (i, (n, _)) in raw.iter().enumerate() {
            self.blocks.insert(n.clone(), i as u32);
        }
        // pass A: define all result registers with their sizes requires types; do it in order, with
        // forward references resolved by type at use (value() knows the type), so slots are
        // consistent either way.
        let mut code: Vec<I> = vec![];
        let mut block_start = vec![];
        let mut phis: Vec<Vec<Phi>> = vec![];
        let mut pend: Vec<(usize, String)> = vec![]; // code idx of terminator, block name
        for (bn, ls) in &raw {
            block_start.push(code.len() as u32);
            let mut bp = vec![];
            for l in ls {
                self.inst(l, &mut code, &mut bp);
            }
            phis.push(bp);
            pend.push((code.len() - 1, bn.clone()));
        }
        // phi moves on edges
        let fix = |e: &mut Edge, from: &str, phis: &Vec<Vec<Phi>>| {
            for ph in &phis[e.target as usize] {
                let Phi::P(dst, n, ins) = ph;
                let src = ins.iter().find(|(b, _)| b == from).map(|(_, o)| *o).expect("phi edge");
                e.moves.push((*dst, src, *n));
            }
        };
        for (ix, bn) in &pend {
            match &mut code[*ix] {
                I::Br(e) => fix(e, bn, &phis),
                I::CondBr(_, a, b) => {
                    fix(a, bn, &phis);
                    fix(b, bn, &phis);
                }
                I::Switch { edges, dflt, .. } => {
                    for e in edges {
                        fix(e, bn, &phis);
                    }
                    fix(dflt, bn, &phis);
                }
                I::Call(c) => {
                    if let Some(e) = &mut c.normal {
                        fix(e, bn, &phis)
                    }
                }
                _ => {}
            }
        }
        Func { id: self.id, nslots: self.nslots, nargs, code, block_start, consts: self.consts }
    }

    fn edge(&self, l: &str) -> Edge {
        Edge { target: *self.blocks.get(l).unwrap_or_else(|| panic!("block {}", l)), moves: vec![] }
    }

    fn inst(&mut self, line: &[u8], code: &mut Vec<I>, bp: &mut Vec<Phi>) {
        let mut c = Cur::new(line);
        let mut dname: Option<String> = None;
        if c.peek() == b'%' {
            c.p += 1;
            dname = Some(c.name());
            c.need(b'=');
        }
        let mut w = c.word();
        while matches!(w, "tail" | "musttail" | "notail") {
            w = c.word();
        }
        let dst = |s: &mut Self, n: u32| -> u32 {
            match &dname {
                Some(d) => {
                    let d = d.clone();
                    s.def(&d, n)
                }
                None => 0,
            }
        };
        let i = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                    c.word();
                }
                let t = self.m.ty(&mut c);
                let a = self.value(&t, &mut c);
                c.need(b',');
                let b = self.value(&t, &mut c);
                let op = match w {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    _ => Bin::AShr,
                };
                let d = dst(self, t.nleaves());
                I::Bin { op, w: t.width(), dst: d, a, b, n: t.lanes() }
            }
            "icmp" => {
                while matches!(c.peek_word(), "samesign") {
                    c.word();
                }
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("pred {}", x),
                };
                let t = self.m.ty(&mut c);
                let a = self.value(&t, &mut c);
                c.need(b',');
                let b = self.value(&t, &mut c);
                let d = dst(self, t.nleaves());
                I::ICmp { p, w: t.width(), dst: d, a, b, n: t.lanes() }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(c.peek_word(), "nuw" | "nsw" | "nneg") {
                    c.word();
                }
                let (t, a) = self.tv(&mut c);
                assert!(c.kw("to"));
                let tt = self.m.ty(&mut c);
                let d = dst(self, tt.nleaves());
                if w == "bitcast" && (t.lanes() != tt.lanes()) {
                    I::BitVec { fw: t.width(), fln: t.lanes(), tw: tt.width(), tln: tt.lanes(), dst: d, a }
                } else {
                    let cc = match w {
                        "sext" => Cast::SExt,
                        "trunc" => Cast::Trunc,
                        _ => {
                            if tt.width() < t.width() {
                                Cast::Trunc
                            } else {
                                Cast::ZExt
                            }
                        }
                    };
                    I::Cast { c: cc, fw: t.width(), tw: tt.width(), dst: d, a, n: t.lanes() }
                }
            }
            "select" => {
                let (ct, cv) = self.tv(&mut c);
                c.need(b',');
                let (t, a) = self.tv(&mut c);
                c.need(b',');
                let (_, b) = self.tv(&mut c);
                let ws: Vec<u32> = t.leaves().iter().map(|x| x.1).collect();
                let d = dst(self, t.nleaves());
                I::Select { dst: d, c: cv, cn: ct.lanes(), a, b, ws: ws.into() }
            }
            "load" => {
                while matches!(c.peek_word(), "volatile" | "atomic") {
                    c.word();
                }
                let t = self.m.ty(&mut c);
                c.need(b',');
                let (_, p) = self.tv(&mut c);
                let d = dst(self, t.nleaves());
                if let Some((ew, ln)) = packed(&t) {
                    // the lanes of <n x i1> share bytes in memory
                    let tmp = self.fresh_slot();
                    let tot = ew * ln;
                    code.push(I::Load { dst: tmp, p, size: (tot as u64 + 7) / 8, leaves: vec![(0, tot)].into() });
                    I::BitVec { fw: tot, fln: 1, tw: ew, tln: ln, dst: d, a: Op::R(tmp) }
                } else {
                    let l = t.leaves();
                    I::Load { dst: d, p, size: store_size(&l), leaves: l.into() }
                }
            }
            "store" => {
                while matches!(c.peek_word(), "volatile" | "atomic") {
                    c.word();
                }
                let (t, v) = self.tv(&mut c);
                c.need(b',');
                let (_, p) = self.tv(&mut c);
                if let Some((ew, ln)) = packed(&t) {
                    let tmp = self.fresh_slot();
                    let tot = ew * ln;
                    code.push(I::BitVec { fw: ew, fln: ln, tw: tot, tln: 1, dst: tmp, a: v });
                    I::Store { v: Op::R(tmp), p, size: (tot as u64 + 7) / 8, leaves: vec![(0, tot)].into() }
                } else {
                    let l = t.leaves();
                    I::Store { v, p, size: store_size(&l), leaves: l.into() }
                }
            }
            "getelementptr" => {
                while matches!(c.peek_word(), "inbounds" | "nuw" | "nusw") {
                    c.word();
                }
                let et = self.m.ty(&mut c);
                c.need(b',');
                let (pt, base) = self.tv(&mut c);
                if pt.lanes() != 1 {
                    panic!("vector gep");
                }
                let mut k = 0u64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while c.peek() == b',' {
                    c.p += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    let (it, v) = self.tv(&mut c);
                    let scale = if first {
                        cur.size()
                    } else if let Ty::Struct(..) = *cur {
                        let Op::K(i) = v else { panic!("struct gep") };
                        k = k.wrapping_add(cur.field_off(i as usize));
                        cur = cur.elem(i as usize);
                        continue;
                    } else {
                        let e = cur.elem(0);
                        let s = e.size();
                        cur = e;
                        s
                    };
                    first = false;
                    match v {
                        Op::K(i) => k = k.wrapping_add((sext64(i, it.width()) as u64).wrapping_mul(scale)),
                        v => idx.push((v, scale, it.width())),
                    }
                }
                let d = dst(self, 1);
                I::Gep { dst: d, base, k, idx }
            }
            "alloca" => {
                while matches!(c.peek_word(), "inalloca" | "swifterror") {
                    c.word();
                }
                let t = self.m.ty(&mut c);
                let mut count = Op::K(1);
                if c.eat(b',') {
                    let kw = c.peek_word();
                    if kw != "align" && kw != "addrspace" && c.peek() != b'!' {
                        count = self.tv(&mut c).1;
                    }
                }
                let d = dst(self, 1);
                self.allocated += 1;
                I::Alloca { dst: d, size: t.size(), count }
            }
            "call" | "invoke" => {
                self.skip_attrs(&mut c);
                // calling convention / fast-math words and return attributes were skipped
                let rt = self.m.ty(&mut c);
                // function type for varargs: ret (args...) @f
                if c.peek() == b'(' {
                    c.skip_parens();
                }
                let callee = match c.peek() {
                    b'@' => {
                        c.p += 1;
                        let mut n = c.name();
                        while let Some(t) = self.m.aliases.get(&n) {
                            n = t.clone();
                        }
                        if n.starts_with("llvm.") {
                            Callee::Intrinsic(n.as_str().into())
                        } else {
                            let id = *self.m.fn_by_name.get(&n).unwrap_or_else(|| panic!("fn {}", n));
                            if self.m.fns[id as usize].external {
                                Callee::External(n.as_str().into())
                            } else {
                                Callee::Direct(id)
                            }
                        }
                    }
                    b'%' => {
                        let v = self.value(&Ty::Ptr, &mut c);
                        Callee::Indirect(v)
                    }
                    _ => {
                        if c.kw("asm") {
                            loop {
                                let k = c.peek_word();
                                if k == "sideeffect" || k == "inteldialect" || k == "alignstack" || k == "unwind" {
                                    c.word();
                                } else {
                                    break;
                                }
                            }
                            c.need(b'"');
                            let st = c.p;
                            while c.s[c.p] != b'"' {
                                c.p += 1;
                            }
                            let a = String::from_utf8_lossy(&c.s[st..c.p]).to_string();
                            c.p += 1;
                            c.need(b',');
                            c.need(b'"');
                            while c.s[c.p] != b'"' {
                                c.p += 1;
                            }
                            c.p += 1;
                            Callee::Asm(a.as_str().into())
                        } else {
                            let v = self.value(&Ty::Ptr, &mut c);
                            match v {
                                Op::K(a) => match self.m.fn_at(a as u64) {
                                    Some(f) => Callee::Direct(f),
                                    None => Callee::Indirect(v),
                                },
                                v => Callee::Indirect(v),
                            }
                        }
                    }
                };
                // ignorable intrinsics
                if let Callee::Intrinsic(n) = &callee {
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.donothing")
                        || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.invariant")
                        || n.starts_with("llvm.x86.sse2.pause")
                    {
                        code.push(I::Nop);
                        return;
                    }
                }
                c.need(b'(');
                let mut args = vec![];
                while c.peek() != b')' {
                    let t = self.m.ty(&mut c);
                    if let Ty::Meta = *t {
                        panic!("metadata arg");
                    }
                    self.skip_attrs(&mut c);
                    let v = self.value(&t, &mut c);
                    args.push((v, t.nleaves(), t.width()));
                    c.eat(b',');
                }
                c.need(b')');
                let d = dst(self, rt.nleaves());
                let mut normal = None;
                if w == "invoke" {
                    // "... #12 to label %x unwind label %y": find " to label"
                    let rest = &c.s[c.p..];
                    let k = find(rest, b" to label %").expect("invoke to");
                    c.p += k;
                    assert!(c.kw("to"));
                    let l = self.label(&mut c);
                    normal = Some(self.edge(&l));
                }
                I::Call(Box::new(CallI { callee, args, dst: d, ret_n: rt.nleaves(), ret_w: rt.width(), normal }))
            }
            "br" => {
                if c.peek_word() == "label" {
                    let l = self.label(&mut c);
                    I::Br(self.edge(&l))
                } else {
                    let (_, v) = self.tv(&mut c);
                    c.need(b',');
                    let a = self.label(&mut c);
                    c.need(b',');
                    let b = self.label(&mut c);
                    I::CondBr(v, self.edge(&a), self.edge(&b))
                }
            }
            "switch" => {
                let (t, v) = self.tv(&mut c);
                c.need(b',');
                let d = self.label(&mut c);
                c.need(b'[');
                let mut cases = vec![];
                let mut edges: Vec<Edge> = vec![];
                while c.peek() != b']' {
                    let ct = self.m.ty(&mut c);
                    let k = self.m.constant(&ct, &mut c)[0];
                    c.need(b',');
                    let l = self.label(&mut c);
                    let e = self.edge(&l);
                    let ei = match edges.iter().position(|x| x.target == e.target) {
                        Some(i) => i,
                        None => {
                            edges.push(e);
                            edges.len() - 1
                        }
                    };
                    cases.push((k, ei as u32));
                }
                I::Switch { v, w: t.width(), cases, edges, dflt: self.edge(&d) }
            }
            "ret" => {
                let t = self.m.ty(&mut c);
                if let Ty::Void = *t {
                    I::Ret(Op::K(0), 0)
                } else {
                    let v = self.value(&t, &mut c);
                    I::Ret(v, t.nleaves())
                }
            }
            "unreachable" => I::Unreachable,
            "phi" => {
                let t = self.m.ty(&mut c);
                let d = dst(self, t.nleaves());
                let mut ins = vec![];
                loop {
                    c.need(b'[');
                    let v = self.value(&t, &mut c);
                    c.need(b',');
                    c.need(b'%');
                    let b = c.name();
                    c.need(b']');
                    ins.push((b, v));
                    if c.peek() == b',' {
                        c.p += 1;
                        if c.peek() == b'!' {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                bp.push(Phi::P(d, t.nleaves(), ins));
                return;
            }
            "extractvalue" => {
                let (t, a) = self.tv(&mut c);
                let (first, ft) = self.indices(&t, &mut c);
                let n = ft.nleaves();
                let d = dst(self, n);
                let a = self.shift(a, first, n);
                I::Move { dst: d, a, n }
            }
            "insertvalue" => {
                let (t, a) = self.tv(&mut c);
                c.need(b',');
                let (_, x) = self.tv(&mut c);
                let (first, ft) = self.indices(&t, &mut c);
                let n = t.nleaves();
                let d = dst(self, n);
                I::Moves(vec![(d, a, n), (d + first, x, ft.nleaves())])
            }
            "extractelement" => {
                let (t, a) = self.tv(&mut c);
                c.need(b',');
                let (_, ix) = self.tv(&mut c);
                let d = dst(self, 1);
                I::ExtractEl { dst: d, v: a, idx: ix, n: t.lanes() }
            }
            "insertelement" => {
                let (t, a) = self.tv(&mut c);
                c.need(b',');
                let (_, x) = self.tv(&mut c);
                c.need(b',');
                let (_, ix) = self.tv(&mut c);
                let d = dst(self, t.nleaves());
                I::InsertEl { dst: d, v: a, x, idx: ix, n: t.lanes(), w: t.width() }
            }
            "shufflevector" => {
                let (t, a) = self.tv(&mut c);
                c.need(b',');
                let (_, b) = self.tv(&mut c);
                c.need(b',');
                let (mt, mv) = {
                    let mt = self.m.ty(&mut c);
                    let v = self.m.constant(&mt, &mut c);
                    (mt, v)
                };
                let d = dst(self, mt.lanes());
                let n = t.lanes();
                let mut mv2 = vec![];
                for (i, k) in mv.iter().enumerate() {
                    let k = *k as u32;
                    let src = if k < n { self.shift(a, k, 1) } else { self.shift(b, k - n, 1) };
                    mv2.push((d + i as u32, src, 1));
                }
                I::Moves(mv2)
            }
            "atomicrmw" => {
                while c.peek_word() == "volatile" {
                    c.word();
                }
                let op: Rc<str> = c.word().into();
                let (_, p) = self.tv(&mut c);
                c.need(b',');
                let (t, v) = self.tv(&mut c);
                let d = dst(self, 1);
                I::Rmw { op, dst: d, p, v, w: t.width() }
            }
            "cmpxchg" => {
                while matches!(c.peek_word(), "weak" | "volatile") {
                    c.word();
                }
                let (_, p) = self.tv(&mut c);
                c.need(b',');
                let (t, cmp) = self.tv(&mut c);
                c.need(b',');
                let (_, new) = self.tv(&mut c);
                let d = dst(self, 2);
                I::CmpXchg { dst: d, p, cmp, new, w: t.width() }
            }
            "fence" => I::Nop,
            "freeze" => {
                let (t, a) = self.tv(&mut c);
                let n = t.nleaves();
                let d = dst(self, n);
                I::Move { dst: d, a, n }
            }
            "landingpad" | "resume" | "cleanupret" => {
                if w == "landingpad" {
                    dst(self, 2);
                }
                I::Unsupported(w.into())
            }
            _ => {
                // floating point and other rarely used instructions: fail only if executed
                if let Some(d) = &dname {
                    let d = d.clone();
                    self.def(&d, 4);
                }
                I::Unsupported(String::from_utf8_lossy(line).to_string().as_str().into())
            }
        };
        let _ = &self.widths;
        // values are held in 128 bits
        let wide = line.windows(5).any(|b| {
            b[0] == b' ' && b[1] == b'i' && b[2..].iter().all(|d| d.is_ascii_digit()) && &b[2..] > &b"128"[..]
        });
        let i = if wide {
            I::Unsupported(String::from_utf8_lossy(line).to_string().as_str().into())
        } else {
            i
        };
        code.push(i);
    }

    fn shift(&mut self, o: Op, k: u32, n: u32) -> Op {
        match o {
            Op::R(s) => Op::R(s + k),
            Op::K(v) => Op::K(v),
            Op::KV(i) => {
                let v = self.consts[i as usize][k as usize..(k + n) as usize].to_vec();
                if n == 1 {
                    Op::K(v[0])
                } else {
                    self.consts.push(v);
                    Op::KV(self.consts.len() as u32 - 1)
                }
            }
        }
    }

    fn indices(&mut self, t: &Rc<Ty>, c: &mut Cur) -> (u32, Rc<Ty>) {
        let mut cur = t.clone();
        let mut first = 0;
        while c.peek() == b',' {
            c.p += 1;
            if c.peek() == b'!' {
                break;
            }
            let i: usize = c.word().parse().unwrap();
            for k in 0..i {
                first += cur.elem(k).nleaves();
            }
            cur = cur.elem(i);
        }
        (first, cur)
    }
}

/// vectors whose elements are not whole bytes (`<16 x i1>`): element width and lanes
fn packed(t: &Ty) -> Option<(u32, u32)> {
    match t {
        Ty::Vector(n, e) => match **e {
            Ty::Int(w) if w % 8 != 0 => Some((w, *n as u32)),
            _ => None,
        },
        _ => None,
    }
}

fn store_size(l: &[(u64, u32)]) -> u64 {
    l.iter().map(|(o, w)| o + (*w as u64 + 7) / 8).max().unwrap_or(0)
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    // newline counts as a blank in the haystack
    h.windows(n.len()).position(|w| w.iter().zip(n).all(|(a, b)| a == b || (*a == b'\n' && *b == b' ')))
}
