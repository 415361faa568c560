//! Byte-granular memory of disjoint objects at concrete addresses; copy-on-write between states.

use crate::expr::{E, V};
use std::rc::Rc;

pub const SLOT: u64 = 1 << 16;
pub const REG_SHIFT: u32 = 44;
pub const GLOB: u64 = 1;
pub const STACK: u64 = 2;
pub const HEAP: u64 = 3;
pub const NONE: E = u32::MAX;
const CH: usize = 64;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Option<Box<[E]>>,
    pub ro: bool,
}

impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { size, data: vec![0; size as usize], sym: None, ro: false }
    }
    #[inline]
    pub fn byte(&self, i: usize) -> V {
        match &self.sym {
            Some(s) if s[i] != NONE => V::S(s[i]),
            _ => V::C(self.data[i] as u128),
        }
    }
    pub fn set_byte(&mut self, i: usize, v: V) {
        match v {
            V::C(k) => {
                self.data[i] = k as u8;
                if let Some(s) = &mut self.sym {
                    s[i] = NONE;
                }
            }
            V::S(e) => {
                if self.sym.is_none() {
                    self.sym = Some(vec![NONE; self.size as usize].into());
                }
                self.sym.as_mut().unwrap()[i] = e;
            }
        }
    }
}

#[derive(Clone)]
pub enum Slot {
    Empty,
    Freed,
    Cont(u32),
    Obj(Rc<Obj>),
}

#[derive(Clone)]
pub struct PVec {
    chunks: Vec<Rc<Vec<Slot>>>,
    pub len: usize,
}

impl PVec {
    pub fn new() -> Self {
        PVec { chunks: vec![], len: 0 }
    }
    #[inline]
    pub fn get(&self, i: usize) -> &Slot {
        static EMPTY: Slot = Slot::Empty;
        if i >= self.len {
            // SAFETY: Slot::Empty holds no Rc
            return unsafe { &*(&raw const EMPTY) };
        }
        &self.chunks[i / CH][i % CH]
    }
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> &mut Slot {
        &mut Rc::make_mut(&mut self.chunks[i / CH])[i % CH]
    }
    pub fn push(&mut self, s: Slot) {
        if self.len % CH == 0 && self.len / CH == self.chunks.len() {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        let c = Rc::make_mut(&mut self.chunks[self.len / CH]);
        if c.capacity() < CH {
            c.reserve_exact(CH - c.len());
        }
        c.push(s);
        self.len += 1;
    }
    pub fn truncate(&mut self, n: usize) {
        while self.len > n {
            let k = self.len - 1;
            let c = Rc::make_mut(&mut self.chunks[k / CH]);
            let keep = if k / CH == n / CH { n % CH } else { 0 };
            self.len -= c.len() - keep;
            c.truncate(keep);
            if keep == 0 && self.chunks.len() - 1 == k / CH {
                self.chunks.pop();
            }
        }
    }
}

// SAFETY: single-threaded program; the static is Slot::Empty only.
unsafe impl Sync for Slot {}

#[derive(Clone)]
pub struct Mem {
    pub regs: [PVec; 4],
}

impl Mem {
    pub fn new() -> Mem {
        Mem { regs: [PVec::new(), PVec::new(), PVec::new(), PVec::new()] }
    }
    pub fn alloc(&mut self, region: u64, o: Obj) -> u64 {
        let r = &mut self.regs[region as usize];
        let idx = r.len as u64;
        let n = o.size / SLOT + 1;
        r.push(Slot::Obj(Rc::new(o)));
        for k in 1..n {
            r.push(Slot::Cont(k as u32));
        }
        (region << REG_SHIFT) + idx * SLOT
    }
    /// (region, slot index of the object start, offset)
    #[inline]
    pub fn locate(&self, a: u64) -> Option<(usize, usize, u64)> {
        let r = a >> REG_SHIFT;
        if !(1..=3).contains(&r) {
            return None;
        }
        let o = a & ((1 << REG_SHIFT) - 1);
        let mut i = (o / SLOT) as usize;
        let mut off = o % SLOT;
        if let Slot::Cont(k) = self.regs[r as usize].get(i) {
            i -= *k as usize;
            off += *k as u64 * SLOT;
        }
        Some((r as usize, i, off))
    }
    #[inline]
    pub fn obj(&self, a: u64, n: u64) -> Result<(&Obj, u64), String> {
        match self.locate(a) {
            None => Err(format!("access to invalid address {:#x} ({} bytes)", a, n)),
            Some((r, i, off)) => match self.regs[r].get(i) {
                Slot::Obj(o) => {
                    if off + n > o.size {
                        Err(format!("out-of-bounds access at {:#x}: offset {} + {} > size {}", a, off, n, o.size))
                    } else {
                        Ok((o, off))
                    }
                }
                Slot::Freed => Err(format!("use after free at {:#x}", a)),
                _ => Err(format!("access to unallocated address {:#x}", a)),
            },
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, a: u64, n: u64) -> Result<(&mut Obj, u64), String> {
        let Some((r, i, off)) = self.locate(a) else {
            return Err(format!("write to invalid address {:#x} ({} bytes)", a, n));
        };
        if i >= self.regs[r].len {
            return Err(format!("write to unallocated address {:#x}", a));
        }
        match self.regs[r].get_mut(i) {
            Slot::Obj(o) => {
                if off + n > o.size {
                    return Err(format!("out-of-bounds write at {:#x}: offset {} + {} > size {}", a, off, n, o.size));
                }
                if o.ro {
                    return Err(format!("write to constant at {:#x}", a));
                }
                Ok((Rc::make_mut(o), off))
            }
            Slot::Freed => Err(format!("use after free (write) at {:#x}", a)),
            _ => Err(format!("write to unallocated address {:#x}", a)),
        }
    }
    pub fn free(&mut self, a: u64) -> Result<u64, String> {
        let Some((r, i, off)) = self.locate(a) else { return Err(format!("free of {:#x}", a)) };
        if off != 0 || r as u64 != HEAP || i >= self.regs[r].len {
            return Err(format!("invalid free of {:#x}", a));
        }
        let s = self.regs[r].get_mut(i);
        match s {
            Slot::Obj(o) => {
                let z = o.size;
                *s = Slot::Freed;
                Ok(z)
            }
            _ => Err(format!("double free of {:#x}", a)),
        }
    }
}
