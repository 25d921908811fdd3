//! Hash-consed bit-vector expressions with local simplification, concrete
//! evaluation and exact truth tables for one-byte expressions.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}
impl Op {
    pub fn is_cmp(self) -> bool {
        matches!(self, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
    }
    fn commutes(self) -> bool {
        matches!(self, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Nil,
    Const(u128),
    Var(u32),
    Not(E),
    Bin(Op, E, E),
    Ite(E, E, E),
    Extract(u16, E),
    Concat(E, E),
    Zext(E),
    Sext(E),
}

#[derive(Clone, Copy)]
pub struct Ex {
    pub node: Node,
    pub w: u16,
    pub mask: u128,
    /// unsigned bounds that hold for every assignment
    pub lo: u128,
    pub hi: u128,
}

pub type Dom = [u64; 4];
pub const FULL: Dom = [!0; 4];
pub fn dom_and(a: Dom, b: Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn dom_not(a: Dom) -> Dom {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn dom_empty(a: &Dom) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn dom_first(a: &Dom) -> Option<u8> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some((i * 64) as u8 + a[i].trailing_zeros() as u8);
        }
    }
    None
}
pub fn dom_has(a: &Dom, v: u8) -> bool {
    a[(v >> 6) as usize] >> (v & 63) & 1 == 1
}

pub fn wmask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = wmask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y)) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y)) as u128 & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128 & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
    }
}

pub struct Arena {
    pub n: Vec<Ex>,
    map: FxMap<(Node, u16), E>,
    pub vars: Vec<(E, u32, u32)>, // expr, width, sequence number
    varmap: FxMap<(u32, u32), u32>,
    tt: FxMap<E, Dom>,
    bitc: FxMap<E, Rc<[u64]>>,
    canonc: FxMap<E, E>,
    ec: Vec<(u32, u128)>,
    gen: u32,
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: vec![],
            map: Default::default(),
            vars: vec![],
            varmap: Default::default(),
            tt: Default::default(),
            bitc: Default::default(),
            canonc: Default::default(),
            ec: vec![],
            gen: 0,
        };
        a.n.push(Ex { node: Node::Nil, w: 0, mask: 0, lo: 0, hi: 0 });
        a
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn node(&self, e: E) -> Node {
        self.n[e as usize].node
    }
    pub fn mask(&self, e: E) -> u128 {
        self.n[e as usize].mask
    }
    fn mk(&mut self, node: Node, w: u32) -> E {
        if let Some(e) = self.map.get(&(node, w as u16)) {
            return *e;
        }
        let m = |s: &Arena, e: E| s.n[e as usize].mask;
        let mask = match node {
            Node::Nil | Node::Const(_) => 0,
            Node::Var(i) => 1u128 << i.min(127),
            Node::Not(a) | Node::Extract(_, a) | Node::Zext(a) | Node::Sext(a) => m(self, a),
            Node::Bin(_, a, b) | Node::Concat(a, b) => m(self, a) | m(self, b),
            Node::Ite(a, b, c) => m(self, a) | m(self, b) | m(self, c),
        };
        let e = self.n.len() as E;
        let (lo, hi) = self.range(node, w);
        self.n.push(Ex { node, w: w as u16, mask, lo, hi });
        self.map.insert((node, w as u16), e);
        e
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.mk(Node::Const(v & wmask(w)), w)
    }
    pub fn var(&mut self, seq: u32, w: u32) -> (u32, E) {
        if let Some(i) = self.varmap.get(&(seq, w)) {
            return (*i, self.vars[*i as usize].0);
        }
        let i = self.vars.len() as u32;
        let e = self.mk(Node::Var(i), w);
        self.vars.push((e, w, seq));
        self.varmap.insert((seq, w), i);
        (i, e)
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.n[e as usize].node {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    fn range(&self, node: Node, w: u32) -> (u128, u128) {
        let all = wmask(w);
        let r = |e: E| (self.n[e as usize].lo, self.n[e as usize].hi);
        let up = |x: u128| wmask(128 - x.leading_zeros());
        let (lo, hi) = match node {
            Node::Const(c) => (c, c),
            Node::Zext(a) => r(a),
            Node::Not(a) => (all - r(a).1, all - r(a).0),
            Node::Sext(a) if r(a).1 <= wmask(self.w(a) - 1) => r(a),
            Node::Ite(_, a, b) => (r(a).0.min(r(b).0), r(a).1.max(r(b).1)),
            Node::Extract(0, a) if r(a).1 <= all => r(a),
            Node::Extract(k, a) => (0, (r(a).1 >> k).min(all)),
            Node::Concat(a, b) => {
                let s = self.w(b);
                (r(a).0 << s | r(b).0, r(a).1 << s | r(b).1)
            }
            Node::Bin(op, a, b) => {
                let ((al, ah), (bl, bh)) = (r(a), r(b));
                match op {
                    Op::Add => match (al.checked_add(bl), ah.checked_add(bh)) {
                        (Some(l), Some(h)) if h <= all => (l, h),
                        (Some(l), Some(h)) if w < 128 && l > all && h - l <= all => (l & all, h & all),
                        _ => (0, all),
                    },
                    Op::Sub if al >= bh => (al - bh, ah - bl),
                    Op::Sub if w < 128 && ah < bl => (al + all + 1 - bh, ah + all + 1 - bl),
                    Op::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= all => (al * bl, h),
                        _ => (0, all),
                    },
                    Op::UDiv if bl > 0 => (al / bh, ah / bl),
                    Op::URem if bl > 0 => (0, ah.min(bh - 1)),
                    Op::And => (0, ah.min(bh)),
                    Op::Or => (al.max(bl), up(ah | bh)),
                    Op::Xor => (0, up(ah | bh)),
                    Op::Shl => match self.as_const(b) {
                        Some(k) if k < w as u128 && ah <= all >> k => (al << k, ah << k),
                        _ => (0, all),
                    },
                    Op::LShr => match self.as_const(b) {
                        Some(k) if k < 128 => (al >> k, ah >> k),
                        _ => (0, ah),
                    },
                    _ => (0, all),
                }
            }
            _ => (0, all),
        };
        if lo > hi || hi > all {
            return (0, all);
        }
        (lo, hi)
    }
    pub fn max(&self, e: E) -> u128 {
        self.n[e as usize].hi
    }
    /// Upper bound on the number of low bits that can be nonzero.
    pub fn active_bits(&self, e: E) -> u32 {
        128 - self.n[e as usize].hi.leading_zeros()
    }
    /// x and c with e = x * c, if that product does not wrap
    fn scaled(&self, e: E) -> Option<(E, u128)> {
        let (x, c) = match self.node(e) {
            Node::Bin(Op::Mul, x, k) => (x, self.as_const(k)?),
            Node::Bin(Op::Shl, x, k) => {
                let k = self.as_const(k)?;
                if k >= self.w(e) as u128 || k > 100 {
                    return None;
                }
                (x, 1u128 << k)
            }
            _ => return None,
        };
        if c > 1 && self.active_bits(x) + (128 - c.leading_zeros()) <= self.w(e) {
            Some((x, c))
        } else {
            None
        }
    }
    /// `e` with `t` replaced by a constant
    pub fn subst(&mut self, e: E, t: E, v: E, memo: &mut FxMap<E, E>) -> E {
        if e == t {
            return v;
        }
        // operands are older than what is built from them
        if e < t || self.n[e as usize].mask & self.n[t as usize].mask == 0 {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let w = self.w(e);
        let r = match self.node(e) {
            Node::Nil | Node::Const(_) | Node::Var(_) => e,
            Node::Not(a) => {
                let x = self.subst(a, t, v, memo);
                if x == a {
                    e
                } else {
                    self.not(x)
                }
            }
            Node::Bin(op, a, b) => {
                let (x, y) = (self.subst(a, t, v, memo), self.subst(b, t, v, memo));
                if x == a && y == b {
                    e
                } else {
                    self.bin(op, x, y)
                }
            }
            Node::Ite(c, a, b) => {
                let z = self.subst(c, t, v, memo);
                let (x, y) = (self.subst(a, t, v, memo), self.subst(b, t, v, memo));
                if x == a && y == b && z == c {
                    e
                } else {
                    self.ite(z, x, y)
                }
            }
            Node::Extract(k, a) => {
                let x = self.subst(a, t, v, memo);
                if x == a {
                    e
                } else {
                    self.extract(x, k as u32, w)
                }
            }
            Node::Concat(a, b) => {
                let (x, y) = (self.subst(a, t, v, memo), self.subst(b, t, v, memo));
                if x == a && y == b {
                    e
                } else {
                    self.concat(x, y)
                }
            }
            Node::Zext(a) => {
                let x = self.subst(a, t, v, memo);
                if x == a {
                    e
                } else {
                    self.zext(x, w)
                }
            }
            Node::Sext(a) => {
                let x = self.subst(a, t, v, memo);
                if x == a {
                    e
                } else {
                    self.sext(x, w)
                }
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.node(a) {
            Node::Const(c) => self.konst(!c, w),
            Node::Not(x) => x,
            Node::Bin(Op::Ult, x, y) if w == 1 => self.bin(Op::Ule, y, x),
            Node::Bin(Op::Ule, x, y) if w == 1 => self.bin(Op::Ult, y, x),
            Node::Bin(Op::Slt, x, y) if w == 1 => self.bin(Op::Sle, y, x),
            Node::Bin(Op::Sle, x, y) if w == 1 => self.bin(Op::Slt, y, x),
            _ => self.mk(Node::Not(a), w),
        }
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if op.is_cmp() { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(fold(op, w, x, y), rw);
        }
        if op.commutes() && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let all = wmask(w);
        if a == b {
            match op {
                Op::And | Op::Or => return a,
                Op::Xor | Op::Sub => return self.konst(0, w),
                Op::Eq | Op::Ule | Op::Sle => return self.konst(1, 1),
                Op::Ult | Op::Slt => return self.konst(0, 1),
                _ => {}
            }
        }
        let ((al, ah), (bl, bh)) = (
            (self.n[a as usize].lo, self.n[a as usize].hi),
            (self.n[b as usize].lo, self.n[b as usize].hi),
        );
        let half = wmask(w) >> 1;
        match op {
            Op::Eq if ah < bl || bh < al => return self.konst(0, 1),
            Op::Ult if ah < bl => return self.konst(1, 1),
            Op::Ult if al >= bh => return self.konst(0, 1),
            Op::Ule if ah <= bl => return self.konst(1, 1),
            Op::Ule if al > bh => return self.konst(0, 1),
            Op::Slt if ah <= half && bh <= half => return self.bin(Op::Ult, a, b),
            Op::Sle if ah <= half && bh <= half => return self.bin(Op::Ule, a, b),
            _ => {}
        }
        // compare the factor instead of the product
        if matches!(op, Op::Eq | Op::Ult | Op::Ule) {
            if let (Some(k), Some((x, c))) = (cb, self.scaled(a)) {
                let (fl, ce) = (k / c, k / c + (k % c != 0) as u128);
                match op {
                    Op::Eq if k % c != 0 => return self.konst(0, 1),
                    _ => {}
                }
                let k = self.konst(if op == Op::Ult { ce } else { fl }, w);
                return self.bin(op, x, k);
            }
            if let (Some(k), Some((x, c))) = (ca, self.scaled(b)) {
                let (fl, ce) = (k / c, k / c + (k % c != 0) as u128);
                let k = self.konst(if op == Op::Ule { ce } else { fl }, w);
                return self.bin(op, k, x);
            }
        }
        if let Some(c) = cb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if c == 0 => {
                    return a
                }
                Op::Mul | Op::UDiv if c == 1 => return a,
                Op::And | Op::Mul if c == 0 => return b,
                Op::And if c == all => return a,
                Op::Or if c == all => return b,
                Op::Xor if c == all => return self.not(a),
                Op::Ult if c == 0 => return self.konst(0, 1),
                Op::Ule if c == all => return self.konst(1, 1),
                Op::Mul if c.is_power_of_two() => {
                    let s = self.konst(c.trailing_zeros() as u128, w);
                    return self.bin(Op::Shl, a, s);
                }
                Op::UDiv if c.is_power_of_two() => {
                    let s = self.konst(c.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, a, s);
                }
                Op::URem if c.is_power_of_two() => {
                    let s = self.konst(c - 1, w);
                    return self.bin(Op::And, a, s);
                }
                Op::Shl | Op::LShr if c >= w as u128 => return self.konst(0, w),
                Op::Sub => {
                    let k = self.konst(0u128.wrapping_sub(c), w);
                    return self.bin(Op::Add, a, k);
                }
                _ => {}
            }
            // chained constants
            if let Node::Bin(o2, x, k) = self.node(a) {
                if o2 == op {
                    if let Some(kc) = self.as_const(k) {
                        match op {
                            Op::Add | Op::And | Op::Or | Op::Xor => {
                                let nk = fold(op, w, kc, c);
                                let nk = self.konst(nk, w);
                                return self.bin(op, x, nk);
                            }
                            Op::Shl | Op::LShr => {
                                let nk = self.konst(kc + c, w);
                                if kc + c >= w as u128 {
                                    return self.konst(0, w);
                                }
                                return self.bin(op, x, nk);
                            }
                            _ => {}
                        }
                    }
                }
                if op == Op::Eq {
                    if let Some(kc) = self.as_const(k) {
                        match o2 {
                            Op::Add => {
                                let nk = self.konst(c.wrapping_sub(kc), w);
                                return self.bin(Op::Eq, x, nk);
                            }
                            Op::Xor => {
                                let nk = self.konst(c ^ kc, w);
                                return self.bin(Op::Eq, x, nk);
                            }
                            Op::And if c & !kc != 0 => return self.konst(0, 1),
                            Op::Or if kc & !c != 0 => return self.konst(0, 1),
                            _ => {}
                        }
                    }
                }
            }
            if op == Op::And && c == all >> 0 {
                return a;
            }
            let ab = self.active_bits(a);
            if ab < w {
                let am = wmask(ab);
                match op {
                    Op::And if c & am == am => return a,
                    Op::And if c & am == 0 => return self.konst(0, w),
                    Op::LShr if c >= ab as u128 => return self.konst(0, w),
                    Op::Eq if c > am => return self.konst(0, 1),
                    Op::Ult if c > am => return self.konst(1, 1),
                    Op::Ule if c >= am => return self.konst(1, 1),
                    _ => {}
                }
            }
            // narrow comparisons of extensions
            if let Node::Zext(x) = self.node(a) {
                let xw = self.w(x);
                if c <= wmask(xw) {
                    match op {
                        Op::Eq | Op::Ult | Op::Ule => {
                            let k = self.konst(c, xw);
                            return self.bin(op, x, k);
                        }
                        Op::Slt if c >> (w - 1) == 0 => {
                            let k = self.konst(c, xw);
                            return self.bin(Op::Ult, x, k);
                        }
                        Op::Sle if c >> (w - 1) == 0 => {
                            let k = self.konst(c, xw);
                            return self.bin(Op::Ule, x, k);
                        }
                        Op::And | Op::Or | Op::Xor => {
                            let k = self.konst(c, xw);
                            let r = self.bin(op, x, k);
                            return self.zext(r, w);
                        }
                        Op::LShr => {
                            let k = self.konst(c, xw);
                            let r = self.bin(op, x, k);
                            return self.zext(r, w);
                        }
                        _ => {}
                    }
                } else if op == Op::And {
                    let k = self.konst(c, xw);
                    let r = self.bin(op, x, k);
                    return self.zext(r, w);
                } else if (op == Op::Slt || op == Op::Sle) && c >> (w - 1) == 1 {
                    return self.konst(0, 1);
                }
            }
            if let Node::Sext(x) = self.node(a) {
                let xw = self.w(x);
                if op == Op::Eq {
                    let k = self.konst(c, xw);
                    let back = self.sext(k, w);
                    if self.as_const(back) != Some(c) {
                        return self.konst(0, 1);
                    }
                    return self.bin(Op::Eq, x, k);
                }
            }
            if let Node::Ite(g, t, f) = self.node(a) {
                if let (Some(_), Some(_)) = (self.as_const(t), self.as_const(f)) {
                    let tt = self.bin(op, t, b);
                    let ff = self.bin(op, f, b);
                    return self.ite(g, tt, ff);
                }
                // table lookups: ite chains over constants
                if self.const_chain(a, 70) {
                    let tt = self.bin(op, t, b);
                    let ff = self.bin(op, f, b);
                    return self.ite(g, tt, ff);
                }
            }
            if op == Op::Eq && w == 1 {
                return if c == 1 { a } else { self.not(a) };
            }
        }
        if let Some(c) = ca {
            match op {
                Op::Ule if c == 0 => return self.konst(1, 1),
                Op::Ult if c == all => return self.konst(0, 1),
                Op::Shl | Op::LShr | Op::UDiv | Op::URem if c == 0 => return a,
                _ => {}
            }
            let bb = self.active_bits(b);
            if bb < w {
                let bm = wmask(bb);
                match op {
                    Op::Ult if c >= bm => return self.konst(0, 1),
                    Op::Ule if c > bm => return self.konst(0, 1),
                    _ => {}
                }
            }
            if let Node::Ite(g, t, f) = self.node(b) {
                if self.const_chain(b, 70) {
                    let tt = self.bin(op, a, t);
                    let ff = self.bin(op, a, f);
                    return self.ite(g, tt, ff);
                }
            }
            // high part only
            if let (Op::Ule, Node::Concat(h, l)) = (op, self.node(b)) {
                let lw = self.w(l);
                if c & wmask(lw) == 0 {
                    let k = self.konst(c >> lw, w - lw);
                    return self.bin(op, k, h);
                }
            }
            if let Node::Zext(x) = self.node(b) {
                let xw = self.w(x);
                if c <= wmask(xw) && matches!(op, Op::Ult | Op::Ule) {
                    let k = self.konst(c, xw);
                    return self.bin(op, k, x);
                }
                if matches!(op, Op::Slt | Op::Sle) {
                    if c >> (w - 1) == 1 {
                        return self.konst(1, 1);
                    }
                    if c <= wmask(xw) {
                        let k = self.konst(c, xw);
                        let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                        return self.bin(o, k, x);
                    }
                    return self.konst(0, 1);
                }
            }
        }
        if let (Node::Zext(x), Node::Zext(y)) = (self.node(a), self.node(b)) {
            if self.w(x) == self.w(y) {
                match op {
                    Op::Eq | Op::Ult | Op::Ule => return self.bin(op, x, y),
                    Op::Slt => return self.bin(Op::Ult, x, y),
                    Op::Sle => return self.bin(Op::Ule, x, y),
                    Op::And | Op::Or | Op::Xor => {
                        let r = self.bin(op, x, y);
                        return self.zext(r, w);
                    }
                    _ => {}
                }
            }
        }
        if let (Some(c), Op::Ult, Node::Concat(h, l)) = (cb, op, self.node(a)) {
            let lw = self.w(l);
            if c & wmask(lw) == 0 {
                let k = self.konst(c >> lw, w - lw);
                return self.bin(op, h, k);
            }
        }
        // two bounds of the same kind
        if w == 1 && matches!(op, Op::And | Op::Or) {
            if let (Node::Bin(o1 @ (Op::Ult | Op::Ule), p, q), Node::Bin(o2, r, s)) = (self.node(a), self.node(b)) {
                if o1 == o2 && p == r {
                    if let (Some(x), Some(y)) = (self.as_const(q), self.as_const(s)) {
                        return if (x < y) == (op == Op::And) { a } else { b };
                    }
                }
                if o1 == o2 && q == s {
                    if let (Some(x), Some(y)) = (self.as_const(p), self.as_const(r)) {
                        return if (x < y) == (op == Op::And) { b } else { a };
                    }
                }
            }
        }
        if w == 1 {
            match op {
                Op::Ult => {
                    let na = self.not(a);
                    return self.bin(Op::And, na, b);
                }
                _ => {}
            }
        }
        // x & !x etc. for booleans
        if let Node::Not(x) = self.node(a) {
            if x == b {
                match op {
                    Op::And => return self.konst(0, w),
                    Op::Or | Op::Xor => return self.konst(all, w),
                    Op::Eq => return self.konst(0, 1),
                    _ => {}
                }
            }
        }
        if let Node::Not(x) = self.node(b) {
            if x == a {
                match op {
                    Op::And => return self.konst(0, w),
                    Op::Or | Op::Xor => return self.konst(all, w),
                    Op::Eq => return self.konst(0, 1),
                    _ => {}
                }
            }
        }
        let e = self.mk(Node::Bin(op, a, b), rw);
        if matches!(op, Op::And | Op::Or | Op::Shl | Op::LShr) {
            return self.canon(e);
        }
        e
    }
    /// where each bit of `e` comes from: 0, 1, or atom << 8 | bit
    fn bits(&mut self, e: E) -> Rc<[u64]> {
        if let Some(r) = self.bitc.get(&e) {
            return r.clone();
        }
        let w = self.w(e) as usize;
        let own = |i: usize| (e as u64) << 8 | i as u64;
        let v: Vec<u64> = match self.node(e) {
            Node::Const(c) => (0..w).map(|i| (c >> i & 1) as u64).collect(),
            Node::Zext(a) => {
                let mut v = self.bits(a).to_vec();
                v.resize(w, 0);
                v
            }
            Node::Extract(k, a) => self.bits(a)[k as usize..k as usize + w].to_vec(),
            Node::Concat(a, b) => {
                let mut v = self.bits(b).to_vec();
                v.extend_from_slice(&self.bits(a));
                v
            }
            Node::Bin(Op::Shl, a, k) if self.as_const(k).map_or(false, |k| k < w as u128) => {
                let k = self.as_const(k).unwrap() as usize;
                let mut v = vec![0; k];
                v.extend_from_slice(&self.bits(a)[..w - k]);
                v
            }
            Node::Bin(Op::LShr, a, k) if self.as_const(k).map_or(false, |k| k < w as u128) => {
                let k = self.as_const(k).unwrap() as usize;
                let mut v = self.bits(a)[k..].to_vec();
                v.resize(w, 0);
                v
            }
            Node::Bin(Op::And, a, b) => {
                let (x, y) = (self.bits(a), self.bits(b));
                (0..w)
                    .map(|i| match (x[i], y[i]) {
                        (0, _) | (_, 0) => 0,
                        (1, q) => q,
                        (p, 1) => p,
                        (p, q) if p == q => p,
                        _ => own(i),
                    })
                    .collect()
            }
            Node::Bin(Op::Or, a, b) => {
                let (x, y) = (self.bits(a), self.bits(b));
                (0..w)
                    .map(|i| match (x[i], y[i]) {
                        (1, _) | (_, 1) => 1,
                        (0, q) => q,
                        (p, 0) => p,
                        (p, q) if p == q => p,
                        _ => own(i),
                    })
                    .collect()
            }
            _ => (0..w).map(own).collect(),
        };
        let r: Rc<[u64]> = v.into();
        self.bitc.insert(e, r.clone());
        r
    }
    /// rearrangements of bits in one form: constants and slices side by side
    fn canon(&mut self, e: E) -> E {
        if let Some(r) = self.canonc.get(&e) {
            return *r;
        }
        let b = self.bits(e);
        let mut segs: Vec<(u64, u32)> = vec![]; // first bit, width; 0 and 1: constants
        let mut ok = true;
        let mut i = 0;
        while i < b.len() {
            if b[i] >> 8 == e as u64 {
                ok = false;
                break;
            }
            let mut n = 1;
            if b[i] < 2 {
                while i + n < b.len() && b[i + n] < 2 {
                    n += 1;
                }
                segs.push((i as u64, n as u32));
            } else {
                while i + n < b.len() && b[i + n] == b[i] + n as u64 {
                    n += 1;
                }
                segs.push((b[i], n as u32));
            }
            i += n;
        }
        let max = if matches!(self.node(e), Node::Bin(Op::And, ..)) { 3 } else { 12 };
        if !ok || segs.len() > max {
            self.canonc.insert(e, e);
            return e;
        }
        self.canonc.insert(e, e);
        let mut r = 0;
        let mut pos = 0u32;
        for (f, n) in &segs {
            let last = pos + n == b.len() as u32;
            let p = if *f < 256 {
                let mut c = 0u128;
                for j in 0..*n {
                    c |= (b[(pos + j) as usize] as u128) << j;
                }
                self.konst(c, *n)
            } else {
                self.extract((*f >> 8) as E, (*f & 255) as u32, *n)
            };
            r = if r == 0 {
                p
            } else if last && self.as_const(p) == Some(0) {
                if let Node::Zext(x) = self.node(r) {
                    r = x;
                }
                self.mk(Node::Zext(r), b.len() as u32)
            } else {
                let w = pos + n;
                if let (Some(x), Some(y)) = (self.as_const(p), self.as_const(r)) {
                    self.konst(x << pos | y, w)
                } else {
                    self.mk(Node::Concat(p, r), w)
                }
            };
            pos += n;
        }
        self.canonc.insert(e, r);
        self.canonc.insert(r, r);
        r
    }
    fn const_chain(&self, mut e: E, max: usize) -> bool {
        for _ in 0..max {
            match self.node(e) {
                Node::Const(_) => return true,
                Node::Ite(_, t, f) => {
                    if self.as_const(t).is_some() {
                        e = f
                    } else if self.as_const(f).is_some() {
                        e = t
                    } else {
                        return false;
                    }
                }
                _ => return false,
            }
        }
        false
    }
    /// a choice between three to `max` constants by the size of one term
    pub fn steps(&self, mut e: E, max: usize) -> bool {
        let mut of = 0;
        let mut n = 0;
        while let Node::Ite(c, t, f) = self.node(e) {
            let x = match self.node(c) {
                Node::Bin(Op::Ule, k, x) if self.as_const(k).is_some() => x,
                Node::Bin(Op::Ult, x, k) if self.as_const(k).is_some() => x,
                _ => return false,
            };
            if of == 0 {
                of = x;
            }
            n += 1;
            e = match (self.as_const(t), self.as_const(f)) {
                (Some(_), _) => f,
                (_, Some(_)) => t,
                _ => return false,
            };
            if of != x || n >= max {
                return false;
            }
        }
        n >= 2 && self.as_const(e).is_some()
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => self.konst(c, w),
            Node::Zext(x) => self.zext(x, w),
            Node::Ite(g, t, f) if self.as_const(t).is_some() && self.as_const(f).is_some() => {
                let t = self.zext(t, w);
                let f = self.zext(f, w);
                self.ite(g, t, f)
            }
            Node::Ite(..) if self.const_chain(a, 70) => {
                if let Node::Ite(g, t, f) = self.node(a) {
                    let t = self.zext(t, w);
                    let f = self.zext(f, w);
                    self.ite(g, t, f)
                } else {
                    unreachable!()
                }
            }
            _ => {
                let e = self.mk(Node::Zext(a), w);
                self.canon(e)
            }
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => self.konst(sx(c, aw) as u128, w),
            Node::Sext(x) => self.sext(x, w),
            Node::Zext(x) => self.zext(x, w),
            _ => self.mk(Node::Sext(a), w),
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => self.konst(c >> lo, w),
            Node::Extract(l2, x) => self.extract(x, lo + l2 as u32, w),
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    self.extract(l, lo, w)
                } else if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else {
                    let hh = self.extract(h, 0, lo + w - lw);
                    let ll = self.extract(l, lo, lw - lo);
                    self.concat(hh, ll)
                }
            }
            Node::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.konst(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let r = self.extract(x, lo, xw - lo);
                    self.zext(r, w)
                }
            }
            Node::Sext(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    self.extract(x, lo, w)
                } else if lo < xw {
                    let r = self.extract(x, lo, xw - lo);
                    self.sext(r, w)
                } else {
                    let r = self.extract(x, xw - 1, 1);
                    self.sext(r, w)
                }
            }
            Node::Ite(g, t, f) if self.as_const(t).is_some() || self.as_const(f).is_some() => {
                let t = self.extract(t, lo, w);
                let f = self.extract(f, lo, w);
                self.ite(g, t, f)
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.bin(op, x, y)
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                self.bin(op, x, y)
            }
            Node::Bin(Op::LShr, x, k) => {
                if let Some(c) = self.as_const(k) {
                    if lo as u128 + w as u128 + c <= aw as u128 {
                        return self.extract(x, lo + c as u32, w);
                    }
                }
                self.mk(Node::Extract(lo as u16, a), w)
            }
            Node::Bin(Op::Shl, x, k) => {
                if let Some(c) = self.as_const(k) {
                    if c as u32 >= lo + w {
                        return self.konst(0, w);
                    }
                    if c as u32 <= lo {
                        return self.extract(x, lo - c as u32, w);
                    }
                }
                self.mk(Node::Extract(lo as u16, a), w)
            }
            Node::Not(x) => {
                let x = self.extract(x, lo, w);
                self.not(x)
            }
            _ => {
                let e = self.mk(Node::Extract(lo as u16, a), w);
                self.canon(e)
            }
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        match (self.node(h), self.node(l)) {
            (Node::Const(a), Node::Const(b)) => return self.konst(a << lw | b, w),
            (Node::Const(0), _) => return self.zext(l, w),
            (Node::Extract(lo1, x), Node::Extract(lo2, y)) if x == y && lo1 as u32 == lo2 as u32 + lw => {
                return self.extract(x, lo2 as u32, w)
            }
            (Node::Extract(lo1, x), _) if x == l && lo1 as u32 == lw => {
                // high part of x over x itself cannot happen (widths), kept for safety
            }
            (Node::Ite(g1, t1, f1), Node::Ite(g2, t2, f2)) if g1 == g2 => {
                let t = self.concat(t1, t2);
                let f = self.concat(f1, f2);
                return self.ite(g1, t, f);
            }
            (Node::Concat(a, b), _) => {
                // right-associate so that neighbours meet
                let r = self.concat(b, l);
                if !matches!(self.node(r), Node::Concat(..)) {
                    return self.concat(a, r);
                }
            }
            (Node::Extract(lo1, x), Node::Concat(a, b)) => {
                if let Node::Extract(lo2, y) = self.node(a) {
                    let aw = self.w(a);
                    if x == y && lo1 as u32 == lo2 as u32 + aw {
                        let hh = self.extract(x, lo2 as u32, hw + aw);
                        return self.concat(hh, b);
                    }
                }
            }
            _ => {}
        }
        // Extract(0)=truncation of x stored next to its own upper part
        if let Node::Extract(lo1, x) = self.node(h) {
            if lo1 as u32 == lw {
                let low = self.extract(x, 0, lw);
                if low == l {
                    return self.extract(x, 0, w);
                }
            }
            if lo1 as u32 >= lw && lo1 > 0 {
                let low = self.extract(x, lo1 as u32 - lw, lw);
                if low == l {
                    return self.extract(x, lo1 as u32 - lw, w);
                }
            }
        }
        let e = self.mk(Node::Concat(h, l), w);
        self.canon(e)
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if t == f {
            return t;
        }
        match self.node(c) {
            Node::Const(k) => return if k == 1 { t } else { f },
            Node::Not(x) => return self.ite(x, f, t),
            _ => {}
        }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(f));
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        if let Node::Ite(c2, t2, _) = self.node(f) {
            if c2 == c {
                let f3 = if let Node::Ite(_, _, f3) = self.node(f) { f3 } else { 0 };
                return self.ite(c, t, f3);
            }
            if t2 == t {
                if let Node::Ite(_, _, f3) = self.node(f) {
                    let g = self.bin(Op::Or, c, c2);
                    return self.ite(g, t, f3);
                }
            }
        }
        if let Node::Ite(c2, t2, _) = self.node(t) {
            if c2 == c {
                return self.ite(c, t2, f);
            }
        }
        self.mk(Node::Ite(c, t, f), w)
    }

    // ---- evaluation ----
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            self.ec.clear();
            self.gen = 1;
        }
        if self.ec.len() < self.n.len() {
            self.ec.resize(self.n.len() + 1024, (0, 0));
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &[u128]) -> u128 {
        let x = self.n[e as usize];
        match x.node {
            Node::Const(c) => return c,
            Node::Var(i) => return m.get(i as usize).copied().unwrap_or(0) & wmask(x.w as u32),
            _ => {}
        }
        let (g, v) = self.ec[e as usize];
        if g == self.gen {
            return v;
        }
        let w = x.w as u32;
        let r = match x.node {
            Node::Not(a) => !self.ev(a, m) & wmask(w),
            Node::Bin(op, a, b) => {
                let aw = self.w(a);
                let p = self.ev(a, m);
                let q = self.ev(b, m);
                fold(op, aw, p, q)
            }
            Node::Ite(c, t, f) => {
                if self.ev(c, m) == 1 {
                    self.ev(t, m)
                } else {
                    self.ev(f, m)
                }
            }
            Node::Extract(lo, a) => self.ev(a, m) >> lo & wmask(w),
            Node::Concat(h, l) => {
                let lw = self.w(l);
                self.ev(h, m) << lw | self.ev(l, m)
            }
            Node::Zext(a) => self.ev(a, m),
            Node::Sext(a) => {
                let aw = self.w(a);
                sx(self.ev(a, m), aw) as u128 & wmask(w)
            }
            _ => 0,
        };
        self.ec[e as usize] = (self.gen, r);
        r
    }
    /// The 8-bit variable this boolean expression is a function of, if it is the only one.
    pub fn unary8(&self, e: E) -> Option<u32> {
        let m = self.mask(e);
        if m != 0 && m & (m - 1) == 0 && m >> 127 == 0 {
            let v = m.trailing_zeros();
            if self.vars[v as usize].1 == 8 {
                return Some(v);
            }
        }
        None
    }
    /// Truth table of a boolean expression over one 8-bit variable.
    pub fn table(&mut self, e: E, v: u32) -> Dom {
        if let Some(d) = self.tt.get(&e) {
            return *d;
        }
        let mut m = vec![0u128; v as usize + 1];
        let mut d = [0u64; 4];
        for i in 0..256usize {
            m[v as usize] = i as u128;
            if self.eval(e, &m) == 1 {
                d[i / 64] |= 1 << (i % 64);
            }
        }
        self.tt.insert(e, d);
        d
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match self.node(e) {
            Node::Nil => "nil".into(),
            Node::Const(c) => format!("{:#x}", c),
            Node::Var(i) => format!("v{}", self.vars[i as usize].2),
            Node::Not(a) => format!("!{}", self.show(a, d)),
            Node::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(a, d), self.show(b, d)),
            Node::Ite(a, b, c) => {
                format!("(ite {} {} {})", self.show(a, d), self.show(b, d), self.show(c, d))
            }
            Node::Extract(l, a) => format!("{}[{}+:{}]", self.show(a, d), l, self.w(e)),
            Node::Concat(a, b) => format!("{}::{}", self.show(a, d), self.show(b, d)),
            Node::Zext(a) => format!("z{}", self.show(a, d)),
            Node::Sext(a) => format!("s{}", self.show(a, d)),
        }
    }
}
