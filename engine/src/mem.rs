//! Object-based memory with copy-on-write sharing between paths.
use crate::term::{self, T};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    W(u128),
    T(T),
    F(u32),
    V(Rc<Vec<Val>>),
    U,
}
impl Val {
    pub fn term(&self, w: u32) -> T {
        match self {
            Val::C(v) => term::k(*v as u128, w),
            Val::W(v) => term::k(*v, w),
            Val::T(t) => *t,
            Val::F(f) => match crate::fl::as_const(*f) { Some(c) => term::k(c.to_bits() as u128, 64), None => term::fbits(*f) },
            Val::U => term::k(0, w),
            Val::V(v) => {
                let n = v.len() as u32;
                let ew = w / n;
                let mut r = v[0].term(ew);
                for x in &v[1..] { r = term::concat(x.term(ew), r); }
                r
            }
        }
    }
    pub fn of(t: T) -> Val {
        match term::node(t) {
            term::N::K(v) => if term::width(t) > 64 { Val::W(*v) } else { Val::C(*v as u64) },
            _ => Val::T(t),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Global, Heap, Stack }

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<(u32, u32, Val)>, pub kind: Kind, pub ro: bool, pub mark: u32 }

impl Obj {
    fn range(&self, off: u32, n: u32) -> (usize, usize) {
        let b = self.sym.partition_point(|c| c.0 + c.1 <= off);
        let e = self.sym.partition_point(|c| c.0 < off + n);
        (b, e.max(b))
    }
    pub fn is_conc(&self, off: u32, n: u32) -> bool { if self.sym.is_empty() { return true; } let (b, e) = self.range(off, n); b == e }
    fn byte(&self, i: u32) -> T {
        let (b, e) = self.range(i, 1);
        if b == e { return term::k(self.data[i as usize] as u128, 8); }
        let c = &self.sym[b];
        term::extract(c.2.term(c.1 * 8), (i - c.0) * 8, 8)
    }
    pub fn load(&self, off: u32, n: u32) -> Val {
        if self.is_conc(off, n) {
            let d = &self.data[off as usize..(off + n) as usize];
            if n <= 8 { let mut b = [0u8; 8]; b[..n as usize].copy_from_slice(d); return Val::C(u64::from_le_bytes(b)); }
            if n <= 16 { let mut b = [0u8; 16]; b[..n as usize].copy_from_slice(d); return Val::W(u128::from_le_bytes(b)); }
        }
        let (b, e) = self.range(off, n);
        if e == b + 1 && self.sym[b].0 == off && self.sym[b].1 == n { return self.sym[b].2.clone(); }
        let mut r = self.byte(off);
        for i in 1..n { r = term::concat(self.byte(off + i), r); }
        Val::of(r)
    }
    /// remove symbolic cells in the range, splitting those that straddle its ends
    fn clear(&mut self, off: u32, n: u32) {
        if self.sym.is_empty() { return; }
        let (b, e) = self.range(off, n);
        if b == e { return; }
        let mut repl = vec![];
        for c in &self.sym[b..e] {
            let t = if c.0 < off || c.0 + c.1 > off + n { Some(c.2.term(c.1 * 8)) } else { None };
            if let Some(t) = t {
                for i in c.0..c.0 + c.1 { if i < off || i >= off + n { repl.push((i, 1, Val::of(term::extract(t, (i - c.0) * 8, 8)))); } }
            }
        }
        let mut conc = vec![];
        repl.retain(|c| if let Val::C(v) = c.2 { conc.push((c.0, v as u8)); false } else { true });
        self.sym.splice(b..e, repl);
        for (o, v) in conc { self.data[o as usize] = v; }
    }
    pub fn store_bytes(&mut self, off: u32, d: &[u8]) {
        self.clear(off, d.len() as u32);
        self.data[off as usize..off as usize + d.len()].copy_from_slice(d);
    }
    pub fn store(&mut self, off: u32, n: u32, v: &Val) {
        match v {
            Val::C(x) => { self.store_bytes(off, &x.to_le_bytes()[..(n as usize).min(8)]); }
            Val::W(x) => self.store_bytes(off, &x.to_le_bytes()[..n as usize]),
            Val::U => { self.clear(off, n); }
            Val::V(_) => { let t = v.term(n * 8); self.store(off, n, &Val::of(t)); }
            Val::T(_) | Val::F(_) => {
                if let Val::T(t) = v { if let Some(k) = term::as_k(*t) { return if n > 8 { self.store(off, n, &Val::W(k)) } else { self.store(off, n, &Val::C(k as u64)) }; } }
                if let Val::F(f) = v { if let Some(c) = crate::fl::as_const(*f) { return self.store(off, n, &Val::C(c.to_bits())); } }
                let v2 = if let Val::T(t) = v { let w = term::width(*t); if w < n * 8 { Val::T(term::zext(*t, n * 8)) } else { v.clone() } } else { v.clone() };
                self.clear(off, n);
                let p = self.sym.partition_point(|c| c.0 < off);
                self.sym.insert(p, (off, n, v2));
            }
        }
    }
    fn cells(&self, off: u32, n: u32) -> Vec<(u32, u32, Val)> {
        let (b, e) = self.range(off, n);
        let mut out = vec![];
        for c in &self.sym[b..e] {
            if c.0 >= off && c.0 + c.1 <= off + n { out.push((c.0 - off, c.1, c.2.clone())); }
            else { for i in c.0.max(off)..(c.0 + c.1).min(off + n) { out.push((i - off, 1, Val::of(self.byte(i)))); } }
        }
        out
    }
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone, Default)]
pub struct Mem {
    heap: Vec<Rc<Chunk>>,
    nheap: usize,
    stack: Vec<Option<Rc<Obj>>>,
    pub live: i64,
}
pub const STACK: u64 = 1 << 56;
pub const FUNC: u64 = 1 << 60;

pub type MR<X> = Result<X, String>;

impl Mem {
    fn add(&mut self, o: Obj) -> u64 {
        if self.nheap % CH == 0 { self.heap.push(Rc::new(Vec::with_capacity(CH))); }
        let c = self.heap.last_mut().unwrap();
        Rc::make_mut(c).push(Some(Rc::new(o)));
        self.nheap += 1;
        (self.nheap as u64 + 15) << 32
    }
    pub fn alloc(&mut self, n: u64, kind: Kind, fill: u8, mark: u32) -> u64 {
        if kind == Kind::Heap { self.live += 1; }
        self.add(Obj { data: vec![fill; n as usize], sym: vec![], kind, ro: false, mark })
    }
    pub fn alloc_stack(&mut self, n: u64) -> u64 {
        self.stack.push(Some(Rc::new(Obj { data: vec![0xAA; n as usize], sym: vec![], kind: Kind::Stack, ro: false, mark: 0 })));
        STACK | ((self.stack.len() as u64) << 32)
    }
    pub fn stack_len(&self) -> usize { self.stack.len() }
    pub fn stack_cut(&mut self, n: usize) { self.stack.truncate(n); }
    pub fn set_ro(&mut self, a: u64) { if let Ok((o, _)) = self.obj_mut(a) { o.ro = true; } }
    fn slot(&self, a: u64) -> Option<&Rc<Obj>> {
        if a >= STACK && a < FUNC { let i = ((a & (STACK - 1)) >> 32) as usize; return self.stack.get(i.wrapping_sub(1))?.as_ref(); }
        let i = (a >> 32).wrapping_sub(16) as usize;
        self.heap.get(i / CH)?.get(i % CH)?.as_ref()
    }
    pub fn obj(&self, a: u64) -> MR<(&Obj, u32)> {
        match self.slot(a) { Some(o) => Ok((o, a as u32)), None => Err(self.why(a)) }
    }
    fn why(&self, a: u64) -> String {
        let i = (a >> 32).wrapping_sub(16) as usize;
        if a < STACK && i < self.nheap { "use of freed memory".into() } else { format!("access through an invalid pointer {:#x}", a) }
    }
    pub fn obj_mut(&mut self, a: u64) -> MR<(&mut Obj, u32)> {
        if self.slot(a).is_none() { return Err(self.why(a)); }
        if a >= STACK { let i = ((a & (STACK - 1)) >> 32) as usize - 1; return Ok((Rc::make_mut(self.stack[i].as_mut().unwrap()), a as u32)); }
        let i = (a >> 32) as usize - 16;
        let c = Rc::make_mut(&mut self.heap[i / CH]);
        Ok((Rc::make_mut(c[i % CH].as_mut().unwrap()), a as u32))
    }
    pub fn free(&mut self, a: u64) -> MR<Obj> {
        match self.slot(a) {
            None => return Err(if a < STACK && ((a >> 32).wrapping_sub(16) as usize) < self.nheap { "double free".into() } else { format!("free of an invalid pointer {:#x}", a) }),
            Some(o) => { if o.kind != Kind::Heap || a as u32 != 0 { return Err("free of a pointer that is not the start of a heap block".into()); } }
        }
        let i = (a >> 32) as usize - 16;
        let c = Rc::make_mut(&mut self.heap[i / CH]);
        let o = c[i % CH].take().unwrap();
        self.live -= 1;
        Ok(Rc::try_unwrap(o).unwrap_or_else(|o| (*o).clone()))
    }
    pub fn load(&self, a: u64, n: u32) -> MR<Val> {
        let (o, off) = self.obj(a)?;
        if off as u64 + n as u64 > o.data.len() as u64 { return Err(format!("read of {} bytes at offset {} of a block of {}", n, off, o.data.len())); }
        Ok(o.load(off, n))
    }
    pub fn store(&mut self, a: u64, n: u32, v: &Val) -> MR<()> {
        let (o, off) = self.obj_mut(a)?;
        if off as u64 + n as u64 > o.data.len() as u64 { return Err(format!("write of {} bytes at offset {} of a block of {}", n, off, o.data.len())); }
        if o.ro { return Err("write to constant memory".into()); }
        o.store(off, n, v);
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> MR<()> {
        if n == 0 { return Ok(()); }
        let (bytes, cells) = {
            let (o, off) = self.obj(s)?;
            if off as u64 + n > o.data.len() as u64 { return Err(format!("copy of {} bytes from offset {} of a block of {}", n, off, o.data.len())); }
            (o.data[off as usize..off as usize + n as usize].to_vec(), if o.sym.is_empty() { vec![] } else { o.cells(off, n as u32) })
        };
        let (o, off) = self.obj_mut(d)?;
        if off as u64 + n > o.data.len() as u64 { return Err(format!("copy of {} bytes to offset {} of a block of {}", n, off, o.data.len())); }
        if o.ro { return Err("write to constant memory".into()); }
        o.store_bytes(off, &bytes);
        for (co, cn, v) in cells { o.store(off + co, cn, &v); }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, b: &Val, n: u64) -> MR<()> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.obj_mut(d)?;
        if off as u64 + n > o.data.len() as u64 { return Err(format!("fill of {} bytes at offset {} of a block of {}", n, off, o.data.len())); }
        if let Val::C(x) = b { o.store_bytes(off, &vec![*x as u8; n as usize]); } else { for i in 0..n as u32 { o.store(off + i, 1, b); } }
        Ok(())
    }
    pub fn bytes(&self, a: u64, n: u64) -> MR<Vec<u8>> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.obj(a)?;
        if off as u64 + n > o.data.len() as u64 { return Err(format!("read of {} bytes at offset {} of a block of {}", n, off, o.data.len())); }
        if !o.is_conc(off, n as u32) { return Err("SYMBOLIC".into()); }
        Ok(o.data[off as usize..(off as u64 + n) as usize].to_vec())
    }
    /// heap blocks allocated since the given mark and still live
    pub fn live_marked(&self, mark: u32) -> Vec<u64> {
        let mut v = vec![];
        for (ci, c) in self.heap.iter().enumerate() { for (k, o) in c.iter().enumerate() { if let Some(o) = o { if o.kind == Kind::Heap && o.mark >= mark { v.push(((ci * CH + k) as u64 + 16) << 32); } } } }
        v
    }
}
