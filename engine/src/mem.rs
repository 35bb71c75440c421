//! Byte-addressed object memory with an optional symbolic overlay per byte.

use crate::expr::E;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    /// expression (width 8) per byte, 0 = the concrete byte
    pub sym: Option<Vec<E>>,
    pub constant: bool,
    pub heap: bool,
}

impl Obj {
    pub fn zeroed(size: u64, heap: bool) -> Obj {
        Obj { size, data: vec![0; size as usize], sym: None, constant: false, heap }
    }
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|e| *e != 0),
        }
    }
    pub fn set(&mut self, off: usize, byte: u8, e: E) {
        if e != 0 {
            if self.sym.is_none() {
                self.sym = Some(vec![0; self.data.len()]);
            }
            self.sym.as_mut().unwrap()[off] = e;
        } else {
            self.data[off] = byte;
            if let Some(s) = &mut self.sym {
                s[off] = 0;
            }
        }
    }
    pub fn get(&self, off: usize) -> (u8, E) {
        (self.data[off], self.sym.as_ref().map(|s| s[off]).unwrap_or(0))
    }
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub next: u32,
    pub live_heap: u64,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], next: 0, live_heap: 0 }
    }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        let c = id as usize / CH;
        if c == self.chunks.len() {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        if o.heap {
            self.live_heap += o.size;
        }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(o));
        id
    }
    pub fn get(&self, id: u32) -> Option<&Obj> {
        self.chunks.get(id as usize / CH)?[id as usize % CH].as_deref()
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.chunks.get_mut(id as usize / CH)?);
        c[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, id: u32) -> bool {
        let Some(c) = self.chunks.get_mut(id as usize / CH) else { return false };
        let c = Rc::make_mut(c);
        match c[id as usize % CH].take() {
            Some(o) => {
                if o.heap {
                    self.live_heap -= o.size;
                }
                true
            }
            None => false,
        }
    }
}
