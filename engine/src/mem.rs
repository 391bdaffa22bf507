//! Copy-on-write symbolic memory: every object has a concrete base address (index << SHIFT).
use crate::expr::*;
use crate::ir::SHIFT;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Vec<u8>, pub sym: Vec<E>, pub heap: bool }
impl Obj {
    pub fn new(size: u64, heap: bool) -> Obj { Obj { size, data: vec![0; size as usize], sym: vec![], heap } }
    pub fn has_sym(&self) -> bool { !self.sym.is_empty() }
    pub fn byte(&self, i: usize) -> Val { if !self.sym.is_empty() && self.sym[i] != 0 { from_e(self.sym[i]) } else { c(8, self.data[i] as u128) } }
    pub fn set_byte(&mut self, i: usize, v: Val) {
        if v.is_c() { self.data[i] = v.v as u8; if !self.sym.is_empty() { self.sym[i] = 0 } }
        else { if self.sym.is_empty() { self.sym = vec![0; self.size as usize] } self.sym[i] = v.e }
    }
    pub fn read(&self, off: usize, n: usize) -> Val {
        let w = (n * 8) as u16;
        if self.sym.is_empty() || self.sym[off..off + n].iter().all(|e| *e == 0) {
            let mut v = 0u128; for i in (0..n).rev() { v = v << 8 | self.data[off + i] as u128 }
            return c(w, v)
        }
        let mut r = self.byte(off + n - 1);
        for i in (0..n - 1).rev() { r = concat(r, self.byte(off + i)) }
        r
    }
    pub fn write(&mut self, off: usize, v: Val, n: usize) {
        if v.is_c() {
            for i in 0..n { self.data[off + i] = (v.v >> (8 * i)) as u8 }
            if !self.sym.is_empty() { for i in 0..n { self.sym[off + i] = 0 } }
        } else {
            let vv = if (v.w as usize) < n * 8 { zext(v, (n * 8) as u16) } else { v };
            for i in 0..n { let b = extract(vv, (i * 8 + 7) as u16, (i * 8) as u16); self.set_byte(off + i, b) }
        }
    }
}

const CH: usize = 64;
#[derive(Clone, Default)]
pub struct Mem { chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>, pub base: u64, pub next: u64, pub globals: Vec<Rc<Vec<Option<Rc<Obj>>>>> }
impl Mem {
    pub fn new(first_free: u64) -> Mem { Mem { chunks: vec![], base: first_free, next: first_free, globals: vec![Rc::new(vec![None; CH]); (first_free as usize + CH - 1) / CH] } }
    pub fn alloc(&mut self, size: u64, heap: bool) -> u64 { self.put_new(Obj::new(size, heap)) }
    pub fn put_new(&mut self, o: Obj) -> u64 {
        let idx = self.next; self.next += 1;
        let k = (idx - self.base) as usize;
        if k / CH >= self.chunks.len() { self.chunks.push(Rc::new(vec![None; CH])) }
        Rc::make_mut(&mut self.chunks[k / CH])[k % CH] = Some(Rc::new(o));
        idx << SHIFT
    }
    pub fn get(&self, idx: u64) -> Option<&Rc<Obj>> {
        if idx < self.base { return self.globals[idx as usize / CH][idx as usize % CH].as_ref() }
        let k = (idx - self.base) as usize;
        self.chunks.get(k / CH).and_then(|x| x[k % CH].as_ref())
    }
    pub fn get_mut(&mut self, idx: u64) -> Option<&mut Obj> {
        if idx < self.base { return Rc::make_mut(&mut self.globals[idx as usize / CH])[idx as usize % CH].as_mut().map(Rc::make_mut) }
        let k = (idx - self.base) as usize;
        let base = self.chunks.get_mut(k / CH)?;
        Rc::make_mut(base)[k % CH].as_mut().map(Rc::make_mut)
    }
    pub fn set_global(&mut self, idx: u64, o: Rc<Obj>) { Rc::make_mut(&mut self.globals[idx as usize / CH])[idx as usize % CH] = Some(o) }
    pub fn free(&mut self, idx: u64) -> bool {
        if idx < self.base { return false }
        let k = (idx - self.base) as usize;
        if k / CH >= self.chunks.len() { return false }
        Rc::make_mut(&mut self.chunks[k / CH])[k % CH].take().is_some()
    }
    pub fn live_heap(&self) -> usize { self.chunks.iter().map(|c| c.iter().filter(|o| o.as_ref().map(|o| o.heap).unwrap_or(false)).count()).sum() }
}
