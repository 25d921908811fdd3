//! Floating point on bit patterns: comparisons, signs, NaN, the conversions between
//! the two formats, and arithmetic that does no more than turn -0 and NaN around.
//! Other arithmetic on unknown numbers is refused.
use crate::expr::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fop {
    Neg,
    Abs,
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    /// bits: unordered, less, greater, equal
    Cmp(u8),
    Ext,
    Trunc,
    FromU,
    FromS,
    ToU,
    ToS,
    CopySign,
    Class,
}
pub fn pred(s: &str) -> Option<u8> {
    Some(match s {
        "false" => 0,
        "oeq" => 1,
        "ogt" => 2,
        "oge" => 3,
        "olt" => 4,
        "ole" => 5,
        "one" => 6,
        "ord" => 7,
        "uno" => 8,
        "ueq" => 9,
        "ugt" => 10,
        "uge" => 11,
        "ult" => 12,
        "ule" => 13,
        "une" => 14,
        "true" => 15,
        _ => return None,
    })
}
fn mant(w: u32) -> u32 {
    if w == 64 {
        52
    } else {
        23
    }
}
fn inf(w: u32) -> u128 {
    if w == 64 {
        0x7ff0 << 48
    } else {
        0x7f80 << 16
    }
}
fn quiet(w: u32) -> u128 {
    1 << (mant(w) - 1)
}
fn float(x: u128, w: u32) -> f64 {
    if w == 64 {
        f64::from_bits(x as u64)
    } else {
        f32::from_bits(x as u32) as f64
    }
}
impl Arena {
    fn k(&mut self, v: u128, w: u32) -> E {
        self.konst(v, w)
    }
    fn fabs(&mut self, x: E, w: u32) -> E {
        let m = self.k(wmask(w) >> 1, w);
        self.bin(Op::And, x, m)
    }
    fn fnan(&mut self, x: E, w: u32) -> E {
        let a = self.fabs(x, w);
        let i = self.k(inf(w), w);
        self.bin(Op::Ult, i, a)
    }
    /// NaN made quiet
    fn fquiet(&mut self, x: E, w: u32) -> E {
        let n = self.fnan(x, w);
        let q = self.k(quiet(w), w);
        let y = self.bin(Op::Or, x, q);
        self.ite(n, y, x)
    }
    /// order as signed numbers, for anything but NaN
    fn fkey(&mut self, x: E, w: u32) -> E {
        let s = self.extract(x, w - 1, 1);
        let a = self.fabs(x, w);
        let z = self.k(0, w);
        let n = self.bin(Op::Sub, z, a);
        self.ite(s, n, a)
    }
    fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    fn ftrunc(&mut self, x: E) -> E {
        let a = self.fabs(x, 64);
        let top = self.extract(x, 63, 1);
        let s = self.zext(top, 32);
        let c31 = self.k(31, 32);
        let s = self.bin(Op::Shl, s, c31);
        // NaN
        let nan = self.fnan(x, 64);
        let c29 = self.k(29, 64);
        let hi = self.bin(Op::LShr, a, c29);
        let pay = self.extract(hi, 0, 22);
        let pay = self.zext(pay, 32);
        let q = self.k(0x7fc0_0000, 32);
        let vnan = self.or(q, pay);
        // rounded to even
        let one = self.k(1, 64);
        let low = self.and(hi, one);
        let bias = self.k(896 << 52, 64);
        let h = self.k(0x0fff_ffff, 64);
        let r = self.bin(Op::Sub, a, bias);
        let r = self.bin(Op::Add, r, h);
        let r = self.bin(Op::Add, r, low);
        let r = self.bin(Op::LShr, r, c29);
        let i32_ = self.k(inf(32), 64);
        let big = self.bin(Op::Ult, i32_, r);
        let r = self.ite(big, i32_, r);
        // subnormal
        let c52 = self.k(52, 64);
        let e = self.bin(Op::LShr, a, c52);
        let mm = self.k((1 << 52) - 1, 64);
        let m = self.and(a, mm);
        let hid = self.k(1 << 52, 64);
        let m = self.or(m, hid);
        let c926 = self.k(926, 64);
        let sh = self.bin(Op::Sub, c926, e);
        let sh1 = self.bin(Op::Sub, sh, one);
        let c62 = self.k(62, 64);
        let zero = self.k(0, 64);
        let far = self.bin(Op::Ult, c62, sh);
        let half = self.bin(Op::Shl, one, sh1);
        let half = self.bin(Op::Sub, half, one);
        let l = self.bin(Op::LShr, m, sh);
        let l = self.and(l, one);
        let t = self.bin(Op::Add, m, half);
        let t = self.bin(Op::Add, t, l);
        let t = self.bin(Op::LShr, t, sh);
        let t = self.ite(far, zero, t);
        let lim = self.k(897, 64);
        let sub = self.bin(Op::Ult, e, lim);
        let v = self.ite(sub, t, r);
        let v = self.extract(v, 0, 32);
        let v = self.ite(nan, vnan, v);
        self.or(v, s)
    }
    fn fext(&mut self, x: E) -> E {
        let a32 = self.fabs(x, 32);
        let a = self.zext(a32, 64);
        let top = self.extract(x, 31, 1);
        let s = self.zext(top, 64);
        let c63 = self.k(63, 64);
        let s = self.bin(Op::Shl, s, c63);
        let c29 = self.k(29, 64);
        let up = self.bin(Op::Shl, a, c29);
        let bias = self.k(896 << 52, 64);
        let mut v = self.bin(Op::Add, up, bias);
        // infinite and NaN
        let fin = self.k(inf(32), 64);
        let nf = self.bin(Op::Ule, fin, a);
        let i = self.k(inf(64), 64);
        let mut w = self.or(up, i);
        let nan = self.bin(Op::Ult, fin, a);
        let q = self.k(quiet(64), 64);
        let wq = self.or(w, q);
        w = self.ite(nan, wq, w);
        v = self.ite(nf, w, v);
        // subnormal
        let mut t = self.k(0, 64);
        for k in 0..23u32 {
            let lo = self.k(1 << k, 64);
            let c = self.bin(Op::Ule, lo, a);
            let sh = self.k((52 - k) as u128, 64);
            let m = self.bin(Op::Shl, a, sh);
            let mm = self.k((1 << 52) - 1, 64);
            let m = self.and(m, mm);
            let e = self.k(((k as u128 + 1023 - 149) & 0x7ff) << 52, 64);
            let u = self.or(m, e);
            t = self.ite(c, u, t);
        }
        let small = self.k(1 << 23, 64);
        let sub = self.bin(Op::Ult, a, small);
        let v = self.ite(sub, t, v);
        self.or(v, s)
    }
    /// from width, to width
    pub fn fp(&mut self, op: Fop, w: u32, to: u32, x: E, y: Option<E>) -> Result<E, String> {
        if !matches!(w, 32 | 64) && !matches!(op, Fop::FromU | Fop::FromS) || !matches!(to, 1 | 32 | 64) && !matches!(op, Fop::ToU | Fop::ToS) {
            return Err(format!("floating point of {} to {} bits", w, to));
        }
        let cx = self.as_const(x);
        let cy = y.and_then(|y| self.as_const(y));
        let y = y.unwrap_or(x);
        let sign = 1u128 << (w - 1);
        Ok(match op {
            Fop::Neg => {
                let s = self.k(sign, w);
                self.bin(Op::Xor, x, s)
            }
            Fop::Abs => self.fabs(x, w),
            Fop::CopySign => {
                let a = self.fabs(x, w);
                let s = self.k(sign, w);
                let t = self.and(y, s);
                self.or(a, t)
            }
            Fop::Cmp(p) => {
                let (nx, ny) = (self.fnan(x, w), self.fnan(y, w));
                let uno = self.or(nx, ny);
                let (kx, ky) = (self.fkey(x, w), self.fkey(y, w));
                let mut r = self.k(0, 1);
                if p & 1 > 0 {
                    let e = self.bin(Op::Eq, kx, ky);
                    r = self.or(r, e);
                }
                if p & 2 > 0 {
                    let g = self.bin(Op::Slt, ky, kx);
                    r = self.or(r, g);
                }
                if p & 4 > 0 {
                    let l = self.bin(Op::Slt, kx, ky);
                    r = self.or(r, l);
                }
                let u = self.k((p >> 3) as u128, 1);
                self.ite(uno, u, r)
            }
            Fop::Trunc => self.ftrunc(x),
            Fop::Ext => self.fext(x),
            Fop::Class => {
                let mask = cy.ok_or("class")?;
                let a = self.fabs(x, w);
                let neg = self.extract(x, w - 1, 1);
                let pos = self.not(neg);
                let i = self.k(inf(w), w);
                let z = self.k(0, w);
                let least = self.k(1 << mant(w), w);
                let qn = self.k(inf(w) | quiet(w), w);
                let isq = self.bin(Op::Ule, qn, a);
                let nan = self.bin(Op::Ult, i, a);
                let notq = self.not(isq);
                let sig = self.and(nan, notq);
                let isinf = self.bin(Op::Eq, a, i);
                let iszero = self.bin(Op::Eq, a, z);
                let below = self.bin(Op::Ult, a, least);
                let nz = self.not(iszero);
                let sub = self.and(below, nz);
                let fin = self.bin(Op::Ult, a, i);
                let nb = self.not(below);
                let norm = self.and(fin, nb);
                let t = self.k(1, 1);
                let all = [
                    (sig, t),
                    (isq, t),
                    (isinf, neg),
                    (norm, neg),
                    (sub, neg),
                    (iszero, neg),
                    (iszero, pos),
                    (sub, pos),
                    (norm, pos),
                    (isinf, pos),
                ];
                let mut r = self.k(0, 1);
                for (i, (c, s)) in all.iter().enumerate() {
                    if mask >> i & 1 > 0 {
                        let b = self.and(*c, *s);
                        r = self.or(r, b);
                    }
                }
                r
            }
            Fop::Add | Fop::Sub | Fop::Mul | Fop::Div | Fop::Rem => {
                if let (Some(p), Some(q)) = (cx, cy) {
                    let v = if w == 64 {
                        let (p, q) = (float(p, 64), float(q, 64));
                        let r = match op {
                            Fop::Add => p + q,
                            Fop::Sub => p - q,
                            Fop::Mul => p * q,
                            Fop::Div => p / q,
                            _ => p % q,
                        };
                        r.to_bits() as u128
                    } else {
                        let (p, q) = (f32::from_bits(p as u32), f32::from_bits(q as u32));
                        let r = match op {
                            Fop::Add => p + q,
                            Fop::Sub => p - q,
                            Fop::Mul => p * q,
                            Fop::Div => p / q,
                            _ => p % q,
                        };
                        r.to_bits() as u128
                    };
                    return Ok(self.k(v, w));
                }
                let one = if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 };
                let (v, c) = match (op, cx, cy) {
                    (_, _, Some(c)) => (x, c),
                    (Fop::Add | Fop::Mul, Some(c), _) => (y, c),
                    _ => return Err("arithmetic on unknown floating point numbers".into()),
                };
                let q = self.fquiet(v, w);
                match op {
                    Fop::Add if c == sign => q,
                    Fop::Sub if c == 0 => q,
                    // -0 becomes +0
                    Fop::Add | Fop::Sub if c & !sign == 0 => {
                        let s = self.k(sign, w);
                        let z = self.k(0, w);
                        let m0 = self.bin(Op::Eq, v, s);
                        self.ite(m0, z, q)
                    }
                    Fop::Mul | Fop::Div if c == one => q,
                    Fop::Mul | Fop::Div if c == one | sign => {
                        let s = self.k(sign, w);
                        self.bin(Op::Xor, q, s)
                    }
                    _ => return Err("arithmetic on unknown floating point numbers".into()),
                }
            }
            Fop::FromU | Fop::FromS | Fop::ToU | Fop::ToS => {
                let c = cx.ok_or("conversion of an unknown number to or from floating point")?;
                let ext = |c: u128| ((c << (128 - w)) as i128) >> (128 - w);
                let v = match (op, to, w) {
                    (Fop::FromU, 64, _) => (c as f64).to_bits() as u128,
                    (Fop::FromU, _, _) => (c as f32).to_bits() as u128,
                    (Fop::FromS, 64, _) => (ext(c) as f64).to_bits() as u128,
                    (Fop::FromS, _, _) => (ext(c) as f32).to_bits() as u128,
                    (Fop::ToU, ..) => (float(c, w) as u128).min(wmask(to)),
                    _ => {
                        let m = (wmask(to) >> 1) as i128;
                        (float(c, w) as i128).clamp(-m - 1, m) as u128 & wmask(to)
                    }
                };
                self.k(v, to)
            }
        })
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn conversions() {
        let mut a = Arena::new();
        let mut seed = 88172645463325252u64;
        for n in 0..400_000u64 {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            let mut x = seed;
            // exponents around the limits of the smaller format
            if n % 4 > 0 {
                let e = [1023 - 152 + n % 30, 1023 + 120 + n % 12, 1023 - 127 + n % 4][(n % 3) as usize];
                x = x & !(0x7ff << 52) | e << 52;
            }
            if n % 7 == 0 {
                x &= !((1 << 28) - 1);
            }
            if n % 14 == 0 {
                x |= 1 << 28;
            }
            let (ea, f) = (a.konst(x as u128, 64), f64::from_bits(x));
            let r = a.fp(Fop::Trunc, 64, 32, ea, None).unwrap();
            assert_eq!(a.as_const(r), Some((f as f32).to_bits() as u128), "trunc {:x}", x);
            let y = (seed >> 7) as u32 & if n % 3 == 0 { 0x807f_ffff } else { !0 };
            let eb = a.konst(y as u128, 32);
            let r = a.fp(Fop::Ext, 32, 64, eb, None).unwrap();
            assert_eq!(a.as_const(r), Some((f32::from_bits(y) as f64).to_bits() as u128), "ext {:x}", y);
            let g = f64::from_bits(seed.rotate_left(n as u32));
            let eg = a.konst(g.to_bits() as u128, 64);
            for (p, v) in [(1, f == g), (2, f > g), (3, f >= g), (4, f < g), (5, f <= g), (14, f != g), (8, f.is_nan() || g.is_nan())] {
                let r = a.fp(Fop::Cmp(p), 64, 1, ea, Some(eg)).unwrap();
                assert_eq!(a.as_const(r), Some(v as u128));
            }
            if n % 5000 == 0 {
                a = Arena::new();
            }
        }
    }
}
