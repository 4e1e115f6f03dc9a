//! Byte-granular object memory with bounds; cheap to clone (copy on write).
use crate::term::T;
use std::rc::Rc;

pub const SLOT_BITS: u32 = 24;
pub const SLOT: u64 = 1 << SLOT_BITS;
pub const STACK_BASE: u64 = 0x4000_0000_0000_0000;
pub const FUNC_BASE: u64 = 0x7000_0000_0000_0000;
pub const EXT_BASE: u64 = 0x7800_0000_0000_0000;
pub const MAX_OBJ: u64 = SLOT - 65536;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    /// Per byte: (term, byte index) or (0, _) when concrete. Empty when all concrete.
    pub sym: Vec<(T, u8)>,
    pub ro: bool,
}

impl Obj {
    pub fn new(n: u64, fill: u8) -> Obj {
        Obj { data: vec![fill; n as usize], sym: vec![], ro: false }
    }
    pub fn size(&self) -> u64 {
        self.data.len() as u64
    }
    pub fn ensure_sym(&mut self) {
        if self.sym.is_empty() && !self.data.is_empty() {
            self.sym = vec![(0, 0); self.data.len()];
        }
    }
    pub fn byte_sym(&self, i: usize) -> (T, u8) {
        if self.sym.is_empty() {
            (0, 0)
        } else {
            self.sym[i]
        }
    }
}

const CH: usize = 64;

#[derive(Clone, Default)]
pub struct Mem {
    pub chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub n: usize,
    pub stack: Vec<Rc<Obj>>,
    pub live: usize,
}

impl Mem {
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let slot = self.n;
        self.n += 1;
        self.live += 1;
        if slot / CH >= self.chunks.len() {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(&mut self.chunks[slot / CH]).push(Some(Rc::new(o)));
        (slot as u64 + 1) << SLOT_BITS
    }
    pub fn alloca(&mut self, o: Obj) -> u64 {
        self.stack.push(Rc::new(o));
        STACK_BASE + ((self.stack.len() as u64) << SLOT_BITS)
    }
    /// Drop the slots from `n` on, if nothing in them is alive.
    pub fn forget(&mut self, n: usize) -> bool {
        for s in n..self.n {
            if self.chunks[s / CH][s % CH].is_some() {
                return false;
            }
        }
        let keep = (n + CH - 1) / CH;
        self.chunks.truncate(keep);
        if n % CH != 0 && self.chunks[n / CH].len() > n % CH {
            Rc::make_mut(&mut self.chunks[n / CH]).truncate(n % CH);
        }
        self.n = n;
        true
    }
    pub fn free(&mut self, addr: u64) -> Result<u64, &'static str> {
        if addr & (SLOT - 1) != 0 || addr >= STACK_BASE || addr < SLOT {
            return Err("free of a non-heap address");
        }
        let slot = (addr >> SLOT_BITS) as usize - 1;
        if slot >= self.n {
            return Err("free of an invalid address");
        }
        let c = Rc::make_mut(&mut self.chunks[slot / CH]);
        match c[slot % CH].take() {
            Some(o) => {
                self.live -= 1;
                Ok(o.size())
            }
            None => Err("double free"),
        }
    }
    pub fn get(&self, addr: u64) -> Option<(&Rc<Obj>, u64)> {
        let off = addr & (SLOT - 1);
        if addr >= STACK_BASE {
            let i = ((addr - STACK_BASE) >> SLOT_BITS) as usize;
            if i == 0 || i > self.stack.len() {
                return None;
            }
            return Some((&self.stack[i - 1], off));
        }
        let slot = (addr >> SLOT_BITS) as usize;
        if slot == 0 || slot > self.n {
            return None;
        }
        let slot = slot - 1;
        self.chunks[slot / CH][slot % CH].as_ref().map(|o| (o, off))
    }
    pub fn get_mut(&mut self, addr: u64) -> Option<(&mut Obj, u64)> {
        let off = addr & (SLOT - 1);
        if addr >= STACK_BASE {
            let i = ((addr - STACK_BASE) >> SLOT_BITS) as usize;
            if i == 0 || i > self.stack.len() {
                return None;
            }
            return Some((Rc::make_mut(&mut self.stack[i - 1]), off));
        }
        let slot = (addr >> SLOT_BITS) as usize;
        if slot == 0 || slot > self.n {
            return None;
        }
        let slot = slot - 1;
        match Rc::make_mut(&mut self.chunks[slot / CH])[slot % CH].as_mut() {
            Some(o) => Some((Rc::make_mut(o), off)),
            None => None,
        }
    }
    pub fn chunk_slots(&self, ci: usize) -> &Vec<Option<Rc<Obj>>> {
        &self.chunks[ci]
    }
    pub fn set_slot(&mut self, ci: usize, i: usize, o: Rc<Obj>) {
        Rc::make_mut(&mut self.chunks[ci])[i] = Some(o);
    }
}
