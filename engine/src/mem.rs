//! Byte-precise memory: every object has its own 4 GiB address window, so an address identifies
//! the object it was derived from, addresses are never reused and stale pointers stay detectable.
use crate::expr::E;
use std::rc::Rc;

pub const GLOBAL_BASE: u64 = 0x4000_0000;
pub const FN_BASE: u64 = 0x6000_0000;
pub const WIN: u64 = 0x10000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Byte {
    U,
    C(u8),
    S(E, u8),
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub ro: bool,
    pub data: Vec<u8>,
    /// 0 uninit, 1 concrete, 2 symbolic
    pub tag: Vec<u8>,
    pub sym: Vec<(E, u8)>,
}

impl Obj {
    pub fn new(size: u64, align: u64, kind: Kind, init: bool) -> Obj {
        Obj { size, align, kind, ro: false, data: vec![0; size as usize], tag: vec![init as u8; size as usize], sym: vec![] }
    }
    pub fn byte(&self, o: usize) -> Byte {
        match self.tag[o] {
            0 => Byte::U,
            1 => Byte::C(self.data[o]),
            _ => {
                let (e, k) = self.sym[o];
                Byte::S(e, k)
            }
        }
    }
    pub fn set_byte(&mut self, o: usize, b: Byte) {
        match b {
            Byte::U => self.tag[o] = 0,
            Byte::C(v) => {
                self.tag[o] = 1;
                self.data[o] = v;
            }
            Byte::S(e, k) => {
                if self.sym.is_empty() {
                    self.sym = vec![(0, 0); self.size as usize];
                }
                self.tag[o] = 2;
                self.sym[o] = (e, k);
            }
        }
    }
}

#[derive(Clone)]
pub enum Slot {
    None,
    Live(Rc<Obj>),
    Freed,
}

const CH: usize = 64;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Slot>>>,
    pub next: u32,
    pub globals: Rc<Vec<Option<Rc<Obj>>>>,
}

impl Mem {
    pub fn new(nglobals: usize) -> Mem {
        Mem { chunks: vec![], next: 1, globals: Rc::new(vec![None; nglobals]) }
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind, init: bool) -> u64 {
        let i = self.next;
        self.next += 1;
        let c = i as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![Slot::None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[i as usize % CH] = Slot::Live(Rc::new(Obj::new(size, align, kind, init)));
        ((i as u64) << 32) | (WIN + align)
    }
    pub fn slot(&self, i: u64) -> &Slot {
        static NONE: Slot = Slot::None;
        let c = i as usize / CH;
        match self.chunks.get(c) {
            Some(ch) => &ch[i as usize % CH],
            None => &NONE,
        }
    }
    pub fn slot_mut(&mut self, i: u64) -> Option<&mut Slot> {
        let c = i as usize / CH;
        self.chunks.get_mut(c).map(|ch| &mut Rc::make_mut(ch)[i as usize % CH])
    }
    pub fn free(&mut self, i: u64) {
        if let Some(s) = self.slot_mut(i) {
            *s = Slot::Freed;
        }
    }
}

// Slot contains Rc, the static above is a plain variant; make it shareable.
unsafe impl Sync for Slot {}
