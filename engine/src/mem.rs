//! Object-based memory: address = object id << 32 | BIAS + offset; copy-on-write.
use crate::expr::E;
use crate::ir::{addr_of, BIAS};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
}
#[derive(Clone)]
pub struct Obj {
    pub b: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0 = concrete
    pub kind: Kind,
}
const CH: usize = 256;
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    next: u32,
    free: Vec<u32>,
}
#[derive(Debug)]
pub enum MemErr {
    Null(u64),
    Bad(u64),
    Oob(u64, u64, u64), // offset, len, size
    ReadOnly(u64),
    BadFree(u64),
}

impl Mem {
    pub fn new(first: u32) -> Mem {
        Mem { chunks: vec![], next: first, free: vec![] }
    }
    fn slot(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        let c = id as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        &mut Rc::make_mut(&mut self.chunks[c])[id as usize % CH]
    }
    pub fn set(&mut self, id: u32, o: Obj) {
        *self.slot(id) = Some(Rc::new(o));
    }
    pub fn alloc(&mut self, size: u64, kind: Kind) -> u64 {
        let id = if kind == Kind::Stack && !self.free.is_empty() {
            self.free.pop().unwrap()
        } else {
            let i = self.next;
            self.next += 1;
            i
        };
        self.set(id, Obj { b: vec![0; size as usize], sym: None, kind });
        addr_of(id)
    }
    pub fn drop_stack(&mut self, addr: u64) {
        let id = (addr >> 32) as u32;
        *self.slot(id) = None;
        self.free.push(id);
    }
    pub fn free(&mut self, addr: u64) -> Result<(), MemErr> {
        let id = (addr >> 32) as u32;
        if addr_of(id) != addr {
            return Err(MemErr::BadFree(addr));
        }
        match self.get(id) {
            Some(o) if o.kind == Kind::Heap => {}
            _ => return Err(MemErr::BadFree(addr)),
        }
        *self.slot(id) = None;
        Ok(())
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_ref())
    }
    #[inline]
    pub fn split(addr: u64) -> (u32, u64) {
        ((addr >> 32) as u32, (addr & 0xffff_ffff).wrapping_sub(BIAS))
    }
    #[inline]
    pub fn read(&self, addr: u64, n: u64) -> Result<(&Obj, usize), MemErr> {
        let (id, off) = Self::split(addr);
        match self.get(id) {
            Some(o) => {
                if off > o.b.len() as u64 || n > o.b.len() as u64 - off {
                    return Err(MemErr::Oob(off, n, o.b.len() as u64));
                }
                Ok((o, off as usize))
            }
            None => {
                if addr < 1 << 32 {
                    Err(MemErr::Null(addr))
                } else {
                    Err(MemErr::Bad(addr))
                }
            }
        }
    }
    #[inline]
    pub fn write(&mut self, addr: u64, n: u64) -> Result<(&mut Obj, usize), MemErr> {
        let (id, off) = Self::split(addr);
        {
            let (o, _) = self.read(addr, n)?;
            if o.kind == Kind::Const {
                return Err(MemErr::ReadOnly(addr));
            }
        }
        let o = Rc::make_mut(self.slot(id).as_mut().unwrap());
        Ok((o, off as usize))
    }
}
