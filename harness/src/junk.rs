//! Values of any wire type, by the specification of the compact protocol.
use crate::ops::WIRE;
use crate::rt::*;
use crate::schema::Enc;

fn small() -> u64 {
    let b = int(8);
    assume(b < 128);
    b
}
/// The encoding of a value of wire type `t` as an element or field content
/// (booleans: as an element). `wide`: numbers and lengths unconstrained.
pub fn scalar(o: &mut Vec<u8>, t: usize, wide: bool) {
    match t {
        0 => o.push(if wide { 1 + flip() as u8 } else { 1 + (o.len() & 1) as u8 }),
        1 => o.push(u8_()),
        2 | 3 | 4 => {
            if wide {
                let v = int([16, 32, 64][t - 2]);
                Enc::uv(o, v);
            } else {
                o.push(small() as u8);
            }
        }
        5 => {
            for _ in 0..8 {
                o.push(u8_());
            }
        }
        _ => {
            let n = if wide { [0usize, 1, 2, 127, 128][pick(5) as usize] } else { 1 };
            Enc::uv(o, n as u64);
            for i in 0..n {
                o.push(if i < 2 { u8_() } else { 0xfe });
            }
        }
    }
}
/// list or set of `n` elements of type `el`
pub fn list(o: &mut Vec<u8>, el: usize, n: usize, depth: u32) {
    if n < 15 {
        o.push((n as u8) << 4 | WIRE[el].1);
    } else {
        o.push(0xf0 | WIRE[el].1);
        Enc::uv(o, n as u64);
    }
    for i in 0..n {
        any(o, el, (i + depth as usize) % 3, depth + 1);
    }
}
pub fn map(o: &mut Vec<u8>, k: usize, v: usize, n: usize, depth: u32) {
    Enc::uv(o, n as u64);
    if n > 0 {
        o.push(WIRE[k].1 << 4 | WIRE[v].1);
    }
    for i in 0..n {
        any(o, k, i % 3, depth + 1);
        any(o, v, (i + 1) % 3, depth + 1);
    }
}
/// fields of every type, with short and long headers
pub fn strukt(o: &mut Vec<u8>, variant: usize, depth: u32) {
    if variant > 0 {
        let mut id = 0;
        for t in 0..11 {
            let deep = t > 6;
            if deep && (depth > 1 || variant == 2) {
                continue;
            }
            let nib = if t == 0 { 1 + (variant == 2) as u8 } else { WIRE[t].1 };
            if t % 3 == variant % 3 {
                id += 300;
                o.push(nib);
                Enc::uv(o, Enc::zz(id));
            } else {
                id += 1 + (t % 2) as i64;
                o.push((1 + (t % 2) as u8) << 4 | nib);
            }
            if t > 0 {
                any(o, t, variant % 2, depth + 1);
            }
        }
    }
    o.push(0);
}
/// a value of wire type `t`, one of three variants
pub fn any(o: &mut Vec<u8>, t: usize, variant: usize, depth: u32) {
    match t {
        0..=6 => scalar(o, t, false),
        7 | 8 => match variant {
            0 => list(o, 6, 0, depth),
            1 => list(o, 3, 2, depth),
            _ => list(o, if depth > 1 { 0 } else { 6 }, 3, depth),
        },
        9 => match variant {
            0 => map(o, 0, 0, 0, depth),
            1 => map(o, 6, 3, 1, depth),
            _ => map(o, 3, if depth > 1 { 1 } else { 7 }, 2, depth),
        },
        _ => strukt(o, variant, depth),
    }
}
/// shapes of a value of wire type `t`
pub const SHAPES: [u64; 11] = [1, 1, 1, 1, 1, 1, 1, 35, 35, 26, 3];
/// further shapes from `LONG` on: a long value for byte arrays and containers
pub const LONG: u64 = 64;
pub fn longs(t: usize) -> u64 {
    match t {
        0..=5 => 0,
        6 => 5,
        7 | 8 => 8,
        9 => 5,
        _ => 5,
    }
}
fn long(o: &mut Vec<u8>, t: usize, s: usize) {
    match t {
        6 => {
            let n = [300usize, 1025, 4097, 8193, 65537][s];
            Enc::uv(o, n as u64);
            for i in 0..n {
                o.push(if i == 0 || i + 1 == n { u8_() } else { (i * 29 + 0x80) as u8 });
            }
        }
        7 | 8 => {
            let (el, n) = [(0, 300usize), (1, 4097), (1, 8193), (2, 200), (4, 130), (5, 129), (6, 257), (10, 150)][s];
            list(o, el, n, 3);
            if el < 2 {
                let k = o.len() - 1;
                o[k] = if el == 1 { u8_() } else { 1 + flip() as u8 };
            }
        }
        9 => {
            let (k, v, n) = [(1, 1, 2049usize), (3, 6, 200), (6, 0, 129), (4, 10, 128), (0, 5, 300)][s];
            map(o, k, v, n, 3);
        }
        _ => {
            let n = [15usize, 63, 129, 257, 1000][s];
            for i in 0..n {
                let t = i % 7;
                let nib = if t == 0 { 1 + (i % 2) as u8 } else { WIRE[t].1 };
                if i % 5 == 4 {
                    o.push(nib);
                    Enc::uv(o, Enc::zz(i as i64 * 3 - 50));
                } else {
                    o.push((1 + (i % 14) as u8) << 4 | nib);
                }
                if t > 0 {
                    scalar(o, t, false);
                }
            }
            o.push(0);
        }
    }
}
/// number of shapes: scalars one; lists and sets of each element type with 0, 1
/// or 2 elements, and long ones; maps with each key and each value type; structs
pub fn shape(o: &mut Vec<u8>, t: usize, s: usize) {
    if s >= LONG as usize {
        long(o, t, s - LONG as usize);
        return;
    }
    match t {
        0..=6 => scalar(o, t, true),
        7 | 8 => {
            if s < 33 {
                list(o, s % 11, s / 11, 0)
            } else {
                list(o, if s == 33 { 1 } else { 6 }, 15, 2)
            }
        }
        9 => match s {
            0..=10 => map(o, s, 3, 1, 0),
            11..=21 => map(o, 6, s - 11, 2, 0),
            22 => map(o, 1, 2, 0, 0),
            23 => map(o, 1, 0, 130, 2),
            24 => map(o, 0, 0, 2, 2),
            _ => map(o, 10, 10, 2, 1),
        },
        _ => strukt(o, s, 0),
    }
}
/// a value of `levels` levels: its wire type and encoding
pub fn nest(levels: u64, how: u64) -> (usize, Vec<u8>) {
    let pat: &[usize] = [&[7usize][..], &[8], &[9], &[10], &[7, 10], &[9, 8, 10], &[10, 10, 9, 7, 8], &[8, 9]][how as usize];
    // the innermost level is up to the solver
    let mut t = pick(11) as usize;
    let mut b = vec![];
    match t {
        7 | 8 => b.push(3),
        9 | 10 => b.push(0),
        _ => scalar(&mut b, t, false),
    }
    // a sibling on one of the levels
    let wide = pick(3);
    for i in 1..levels {
        let c = pat[i as usize % pat.len()];
        let mut o = vec![];
        let n = 1 + (wide > 0 && i == (levels + 1) / 2 * wide / 2) as usize;
        match c {
            7 | 8 => {
                o.push((n as u8) << 4 | WIRE[t].1);
                for _ in 0..n {
                    o.extend_from_slice(&b);
                }
            }
            9 => {
                o.push(n as u8);
                if i % 2 == 0 {
                    o.push(WIRE[t].1 << 4 | 3);
                } else {
                    o.push(0x30 | WIRE[t].1);
                }
                for _ in 0..n {
                    if i % 2 == 0 {
                        o.extend_from_slice(&b);
                        o.push(77);
                    } else {
                        o.push(77);
                        o.extend_from_slice(&b);
                    }
                }
            }
            _ => {
                for _ in 0..n {
                    o.push(0x10 | WIRE[t].1);
                    if t > 0 {
                        o.extend_from_slice(&b);
                    }
                }
                o.push(0);
            }
        }
        b = o;
        t = c;
    }
    (t, b)
}
