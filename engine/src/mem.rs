//! Memory: objects with concrete bytes and, for some bytes, a symbolic value. An address is
//! (object id << 32 | offset); heap ids are never reused, so that accesses through stale pointers
//! are seen.

use crate::expr::*;
use std::rc::Rc;

pub const FUNC_BASE: u32 = 0x2000_0000;
pub const STACK_BASE: u32 = 0x4000_0000;
const CH: usize = 64;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// 0: the byte is the concrete one
    pub sym: Option<Vec<E>>,
    pub ro: bool,
    pub heap: bool,
}

impl Obj {
    pub fn new(size: usize) -> Obj {
        Obj { data: vec![0; size], sym: None, ro: false, heap: false }
    }
    pub fn is_conc(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|e| *e == 0),
        }
    }
    pub fn le(&self, off: usize, n: usize) -> u64 {
        let d = &self.data[off..off + n];
        match n {
            8 => u64::from_le_bytes(d.try_into().unwrap()),
            4 => u32::from_le_bytes(d.try_into().unwrap()) as u64,
            1 => d[0] as u64,
            2 => u16::from_le_bytes(d.try_into().unwrap()) as u64,
            _ => {
                let mut v = 0u64;
                for (i, b) in d.iter().enumerate() {
                    v |= (*b as u64) << (8 * i);
                }
                v
            }
        }
    }
    pub fn put(&mut self, off: usize, n: usize, v: u64) {
        let b = v.to_le_bytes();
        self.data[off..off + n].copy_from_slice(&b[..n]);
        if let Some(s) = &mut self.sym {
            for e in &mut s[off..off + n] {
                *e = 0;
            }
        }
    }
    pub fn put_byte(&mut self, x: &Exprs, off: usize, e: E) {
        if let Some(k) = x.is_const(e) {
            self.data[off] = k as u8;
            if let Some(s) = &mut self.sym {
                s[off] = 0;
            }
        } else {
            let n = self.data.len();
            let s = self.sym.get_or_insert_with(|| vec![0; n]);
            s[off] = e;
        }
    }
}

type Chunk = Rc<Vec<Option<Rc<Obj>>>>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Chunk>,
    pub next: u32,
    pub stack: Vec<Rc<Obj>>,
}

impl Mem {
    pub fn new() -> Mem {
        let mut m = Mem { chunks: Vec::new(), next: 0, stack: Vec::new() };
        m.add(Obj::new(0)); // id 0: null
        m.free(0);
        m
    }
    pub fn add(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        let c = id as usize / CH;
        if c >= self.chunks.len() {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(o));
        id
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        if id >= STACK_BASE {
            return self.stack.get((id - STACK_BASE) as usize);
        }
        match self.chunks.get(id as usize / CH) {
            Some(c) => c[id as usize % CH].as_ref(),
            None => None,
        }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id >= STACK_BASE {
            return self.stack.get_mut((id - STACK_BASE) as usize).map(Rc::make_mut);
        }
        match self.chunks.get_mut(id as usize / CH) {
            Some(c) => match &mut Rc::make_mut(c)[id as usize % CH] {
                Some(o) => Some(Rc::make_mut(o)),
                None => None,
            },
            None => None,
        }
    }
    pub fn free(&mut self, id: u32) -> bool {
        match self.chunks.get_mut(id as usize / CH) {
            Some(c) => {
                let slot = &mut Rc::make_mut(c)[id as usize % CH];
                slot.take().is_some()
            }
            None => false,
        }
    }
    pub fn push_stack(&mut self, o: Obj) -> u32 {
        self.stack.push(Rc::new(o));
        STACK_BASE + self.stack.len() as u32 - 1
    }
}
