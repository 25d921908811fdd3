//! Byte-granular memory with concrete object addresses and copy-on-write pages
//! that may hold symbolic bytes.
use crate::expr::*;
use crate::ir::{Program, GBASE};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PG: u64 = 256;
pub const HEAP: u64 = 0x10_0000_0000;
pub const STACK: u64 = 0x7000_0000_0000;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Page {
    b: Box<[u8]>,
    s: Option<Box<[E]>>,
}
#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pages: Vec<Option<Rc<Page>>>,
}
impl Obj {
    pub fn new(size: u64) -> Obj {
        // pages beyond the last one touched are not there yet, and read as zero
        Obj { size, pages: vec![] }
    }
    fn from(b: &[u8]) -> Obj {
        let mut o = Obj::new(b.len() as u64);
        o.write_raw(0, b, None);
        o
    }
    fn plen(&self, p: u64) -> usize {
        (self.size - p * PG).min(PG) as usize
    }
    fn page_mut(&mut self, p: u64) -> &mut Page {
        let n = self.plen(p);
        if self.pages.len() <= p as usize {
            self.pages.resize(p as usize + 1, None);
        }
        let e = &mut self.pages[p as usize];
        if e.is_none() {
            *e = Some(Rc::new(Page { b: vec![0; n].into_boxed_slice(), s: None }));
        }
        Rc::make_mut(e.as_mut().unwrap())
    }
    #[inline]
    fn page(&self, p: u64) -> Option<&Rc<Page>> {
        match self.pages.get(p as usize) {
            Some(Some(x)) => Some(x),
            _ => None,
        }
    }
    /// are all these bytes the given concrete one?
    pub fn uniform(&self, off: u64, n: u64, b: u8) -> bool {
        let mut k = 0;
        while k < n {
            let o = off + k;
            if o / PG >= self.pages.len() as u64 {
                return b == 0;
            }
            let i = (o % PG) as usize;
            let m = ((PG - o % PG).min(n - k)) as usize;
            match self.page(o / PG) {
                None => {
                    if b != 0 {
                        return false;
                    }
                }
                Some(p) => {
                    if p.b[i..i + m].iter().any(|x| *x != b) || p.s.as_ref().map_or(false, |s| s[i..i + m].iter().any(|x| *x != 0)) {
                        return false;
                    }
                }
            }
            k += m as u64;
        }
        true
    }
    #[inline]
    pub fn byte(&self, off: u64) -> (u8, E) {
        match self.page(off / PG) {
            None => (0, 0),
            Some(p) => {
                let i = (off % PG) as usize;
                (p.b[i], p.s.as_ref().map_or(0, |s| s[i]))
            }
        }
    }
    /// concrete little-endian value if all bytes are concrete
    #[inline]
    fn conc(&self, off: u64, n: u64) -> Option<u64> {
        let i = (off % PG) as usize;
        if i as u64 + n <= PG {
            match self.page(off / PG) {
                None => return Some(0),
                Some(p) => {
                    if let Some(s) = &p.s {
                        if s[i..i + n as usize].iter().any(|x| *x != 0) {
                            return None;
                        }
                    }
                    let mut v = [0u8; 8];
                    v[..n as usize].copy_from_slice(&p.b[i..i + n as usize]);
                    return Some(u64::from_le_bytes(v));
                }
            }
        }
        let mut v = 0u64;
        for k in 0..n {
            let (b, s) = self.byte(off + k);
            if s != 0 {
                return None;
            }
            v |= (b as u64) << (8 * k);
        }
        Some(v)
    }
    pub fn read(&self, ar: &mut Arena, off: u64, n: u64) -> Val {
        if n <= 8 {
            if let Some(v) = self.conc(off, n) {
                return Val::C(v);
            }
        }
        let mut acc: Option<E> = None;
        for k in 0..n {
            let (b, s) = self.byte(off + k);
            let e = if s != 0 { s } else { ar.konst(b as u128, 8) };
            acc = Some(match acc {
                None => e,
                Some(l) => ar.concat(e, l),
            });
        }
        norm(ar, acc.unwrap())
    }
    pub fn set_byte(&mut self, off: u64, b: u8, s: E) {
        let p = self.page_mut(off / PG);
        let i = (off % PG) as usize;
        p.b[i] = b;
        if s != 0 && p.s.is_none() {
            p.s = Some(vec![0; p.b.len()].into_boxed_slice());
        }
        if let Some(x) = &mut p.s {
            x[i] = s
        }
    }
    pub fn write(&mut self, ar: &mut Arena, off: u64, n: u64, v: &Val) {
        match v {
            Val::C(c) => {
                let i = (off % PG) as usize;
                if i as u64 + n <= PG && n <= 8 {
                    let p = self.page_mut(off / PG);
                    p.b[i..i + n as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
                    if let Some(s) = &mut p.s {
                        s[i..i + n as usize].fill(0);
                    }
                } else {
                    for k in 0..n {
                        self.set_byte(off + k, if k < 8 { (c >> (8 * k)) as u8 } else { 0 }, 0);
                    }
                }
            }
            Val::S(e) => {
                let w = ar.w(*e);
                let full = n as u32 * 8;
                let e = if w < full { ar.zext(*e, full) } else { *e };
                for k in 0..n {
                    let x = ar.extract(e, 8 * k as u32, 8);
                    match ar.as_const(x) {
                        Some(c) => self.set_byte(off + k, c as u8, 0),
                        None => self.set_byte(off + k, 0, x),
                    }
                }
            }
            Val::A(_) => unreachable!(),
        }
    }
    pub fn read_raw(&self, off: u64, n: u64) -> (Vec<u8>, Option<Vec<E>>) {
        let mut b = vec![0u8; n as usize];
        let mut s: Option<Vec<E>> = None;
        let mut k = 0;
        while k < n {
            let o = off + k;
            let i = (o % PG) as usize;
            let m = ((PG - o % PG).min(n - k)) as usize;
            if let Some(p) = self.page(o / PG) {
                b[k as usize..k as usize + m].copy_from_slice(&p.b[i..i + m]);
                if let Some(ps) = &p.s {
                    if ps[i..i + m].iter().any(|x| *x != 0) {
                        let s = s.get_or_insert_with(|| vec![0; n as usize]);
                        s[k as usize..k as usize + m].copy_from_slice(&ps[i..i + m]);
                    }
                }
            }
            k += m as u64;
        }
        (b, s)
    }
    pub fn write_raw(&mut self, off: u64, b: &[u8], s: Option<&[E]>) {
        let n = b.len() as u64;
        let mut k = 0;
        while k < n {
            let o = off + k;
            let i = (o % PG) as usize;
            let m = ((PG - o % PG).min(n - k)) as usize;
            let ks = k as usize;
            let p = self.page_mut(o / PG);
            p.b[i..i + m].copy_from_slice(&b[ks..ks + m]);
            match s {
                Some(s) if s[ks..ks + m].iter().any(|x| *x != 0) => {
                    if p.s.is_none() {
                        p.s = Some(vec![0; p.b.len()].into_boxed_slice());
                    }
                    p.s.as_mut().unwrap()[i..i + m].copy_from_slice(&s[ks..ks + m]);
                }
                _ => {
                    if let Some(ps) = &mut p.s {
                        ps[i..i + m].fill(0);
                    }
                }
            }
            k += m as u64;
        }
    }
}

pub fn norm(ar: &Arena, e: E) -> Val {
    match ar.node(e) {
        Node::Const(c) if ar.w(e) <= 64 => Val::C(c as u64),
        _ => Val::S(e),
    }
}

#[derive(Clone)]
pub struct Mem {
    pub glob: BTreeMap<u32, Rc<Obj>>,
    pub heap: Vec<(u64, Rc<Obj>)>,
    pub stack: Vec<(u64, Rc<Obj>)>,
    pub brk: u64,
    pub sp: u64,
}

fn find_in(v: &[(u64, Rc<Obj>)], a: u64, n: u64) -> Option<usize> {
    let i = v.partition_point(|x| x.0 <= a);
    if i == 0 {
        return None;
    }
    let (b, o) = &v[i - 1];
    if a + n <= b + o.size {
        Some(i - 1)
    } else {
        None
    }
}
pub fn find_glob(p: &Program, a: u64, n: u64) -> Option<usize> {
    let i = p.globals.partition_point(|x| x.addr <= a);
    if i == 0 {
        return None;
    }
    let g = &p.globals[i - 1];
    if a + n <= g.addr + g.size {
        Some(i - 1)
    } else {
        None
    }
}

impl Mem {
    pub fn new() -> Mem {
        Mem { glob: BTreeMap::new(), heap: vec![], stack: vec![], brk: HEAP, sp: STACK }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let a = (self.brk + align.max(16) - 1) / align.max(16) * align.max(16);
        self.brk = a + size.max(1) + 32;
        self.heap.push((a, Rc::new(Obj::new(size))));
        a
    }
    pub fn free(&mut self, a: u64) -> Result<(), String> {
        let i = self.heap.partition_point(|x| x.0 < a);
        if i < self.heap.len() && self.heap[i].0 == a {
            self.heap.remove(i);
            Ok(())
        } else {
            Err(format!("free of {:#x}", a))
        }
    }
    pub fn size_of(&self, a: u64) -> Option<u64> {
        let i = self.heap.partition_point(|x| x.0 < a);
        if i < self.heap.len() && self.heap[i].0 == a {
            Some(self.heap[i].1.size)
        } else {
            None
        }
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> u64 {
        let a = (self.sp + align.max(8) - 1) / align.max(8) * align.max(8);
        self.sp = a + size.max(1) + 8;
        self.stack.push((a, Rc::new(Obj::new(size))));
        a
    }
    /// object containing [a, a+n): its base and extent
    pub fn extent(&self, p: &Program, a: u64) -> Option<(u64, u64)> {
        if a >= STACK {
            find_in(&self.stack, a, 0).map(|i| (self.stack[i].0, self.stack[i].1.size))
        } else if a >= HEAP {
            find_in(&self.heap, a, 0).map(|i| (self.heap[i].0, self.heap[i].1.size))
        } else if a >= GBASE {
            find_glob(p, a, 0).map(|i| (p.globals[i].addr, p.globals[i].size))
        } else {
            None
        }
    }
    pub fn with<T>(&self, p: &Program, a: u64, n: u64, f: impl FnOnce(&Obj, u64) -> T) -> Result<T, String> {
        if a >= STACK {
            if let Some(i) = find_in(&self.stack, a, n) {
                return Ok(f(&self.stack[i].1, a - self.stack[i].0));
            }
        } else if a >= HEAP {
            if let Some(i) = find_in(&self.heap, a, n) {
                return Ok(f(&self.heap[i].1, a - self.heap[i].0));
            }
        } else if a >= GBASE {
            if let Some(i) = find_glob(p, a, n) {
                if let Some(o) = self.glob.get(&(i as u32)) {
                    return Ok(f(o, a - p.globals[i].addr));
                }
                let o = Obj::from(&p.globals[i].init);
                return Ok(f(&o, a - p.globals[i].addr));
            }
        }
        Err(format!("invalid read of {} bytes at {:#x}", n, a))
    }
    pub fn with_mut<T>(&mut self, p: &Program, a: u64, n: u64, f: impl FnOnce(&mut Obj, u64) -> T) -> Result<T, String> {
        if a >= STACK {
            if let Some(i) = find_in(&self.stack, a, n) {
                let b = self.stack[i].0;
                return Ok(f(Rc::make_mut(&mut self.stack[i].1), a - b));
            }
        } else if a >= HEAP {
            if let Some(i) = find_in(&self.heap, a, n) {
                let b = self.heap[i].0;
                return Ok(f(Rc::make_mut(&mut self.heap[i].1), a - b));
            }
        } else if a >= GBASE {
            if let Some(i) = find_glob(p, a, n) {
                let o = self
                    .glob
                    .entry(i as u32)
                    .or_insert_with(|| Rc::new(Obj::from(&p.globals[i].init)));
                return Ok(f(Rc::make_mut(o), a - p.globals[i].addr));
            }
        }
        Err(format!("invalid write of {} bytes at {:#x}", n, a))
    }
    #[inline]
    pub fn read(&self, p: &Program, ar: &mut Arena, a: u64, n: u64) -> Result<Val, String> {
        if a >= GBASE && a < HEAP && n <= 8 {
            // fast path: constant global
            if let Some(i) = find_glob(p, a, n) {
                if !self.glob.contains_key(&(i as u32)) {
                    let o = (a - p.globals[i].addr) as usize;
                    let mut v = [0u8; 8];
                    v[..n as usize].copy_from_slice(&p.globals[i].init[o..o + n as usize]);
                    return Ok(Val::C(u64::from_le_bytes(v)));
                }
            }
        }
        self.with(p, a, n, |o, off| o.read(ar, off, n))
    }
    pub fn write(&mut self, p: &Program, ar: &mut Arena, a: u64, n: u64, v: &Val) -> Result<(), String> {
        self.with_mut(p, a, n, |o, off| o.write(ar, off, n, v))
    }
    pub fn copy(&mut self, p: &Program, dst: u64, src: u64, n: u64) -> Result<(), String> {
        if n == 0 {
            return Ok(());
        }
        let (b, s) = self.with(p, src, n, |o, off| o.read_raw(off, n))?;
        self.with_mut(p, dst, n, |o, off| o.write_raw(off, &b, s.as_deref()))
    }
}
