use crate::io::*;
use crate::junk;
use crate::ops::*;
use crate::rd::*;
use crate::rt::*;
use crate::schema::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result;

/// What skipping must do, by the specification of the compact protocol.
enum Want {
    Past(usize),
    Bad,
    /// the specification does not say
    Any,
}
use Want::*;
fn varint(b: &[u8], at: usize, max: usize) -> Option<(u64, usize)> {
    let (mut v, mut i) = (0u64, 0);
    while i < max && at + i < b.len() {
        let x = b[at + i];
        v |= ((x & 127) as u64) << (7 * i as u32);
        i += 1;
        if x < 128 {
            return Some((v, at + i));
        }
    }
    None
}
fn wire(nib: u8) -> Option<usize> {
    let mut t = 0;
    for (_, n) in WIRE {
        if n == nib || t == 0 && nib == 2 {
            return Some(t);
        }
        t += 1;
    }
    None
}
fn want(b: &[u8], at: usize, t: usize) -> Want {
    match t {
        0 => {
            if at < b.len() && b[at] <= 2 {
                Past(at + 1)
            } else {
                Bad
            }
        }
        1 => {
            if at < b.len() {
                Past(at + 1)
            } else {
                Bad
            }
        }
        2 | 3 | 4 => match varint(b, at, [3, 5, 10][t - 2]) {
            Some((_, e)) => Past(e),
            None => Bad,
        },
        5 => {
            if at + 8 <= b.len() {
                Past(at + 8)
            } else {
                Bad
            }
        }
        6 => match varint(b, at, 5) {
            Some((n, e)) => {
                let n = n as u32 as usize;
                if n <= b.len() - e {
                    Past(e + fix(n as u64) as usize)
                } else {
                    Bad
                }
            }
            None => Bad,
        },
        7 | 8 => {
            if at >= b.len() {
                return Bad;
            }
            let h = b[at];
            let (n, mut at) = if h >> 4 == 15 {
                match varint(b, at + 1, 5) {
                    Some((n, e)) => (n as u32, e),
                    None => return Bad,
                }
            } else {
                ((h >> 4) as u32, at + 1)
            };
            let el = match wire(h & 15) {
                Some(el) => el,
                // an empty list need not have an element type
                None => return if n == 0 && h & 15 == 0 { Any } else { Bad },
            };
            // every element has a byte
            if n as usize > b.len() - at {
                return Bad;
            }
            for _ in 0..fix(n as u64) {
                match want(b, at, el) {
                    Past(e) => at = e,
                    x => return x,
                }
            }
            Past(at)
        }
        9 => {
            let (n, mut at) = match varint(b, at, 5) {
                Some((n, e)) => (n as u32, e),
                None => return Bad,
            };
            if n == 0 {
                return Past(at);
            }
            if at >= b.len() {
                return Bad;
            }
            let (k, v) = match (wire(b[at] >> 4), wire(b[at] & 15)) {
                (Some(k), Some(v)) => (k, v),
                _ => return Bad,
            };
            at += 1;
            if n as usize > b.len() - at {
                return Bad;
            }
            for _ in 0..fix(n as u64) {
                for el in [k, v] {
                    match want(b, at, el) {
                        Past(e) => at = e,
                        x => return x,
                    }
                }
            }
            Past(at)
        }
        _ => {
            let (mut at, mut id) = (at, 0i64);
            loop {
                if at >= b.len() {
                    return Bad;
                }
                let h = b[at];
                at += 1;
                if h & 15 == 0 {
                    // a stop has no id
                    return if h == 0 { Past(at) } else { Any };
                }
                let el = match wire(h & 15) {
                    Some(el) => el,
                    None => return Bad,
                };
                if h >> 4 != 0 {
                    id += (h >> 4) as i64;
                    if id > i16::MAX as i64 {
                        return Any;
                    }
                } else {
                    match varint(b, at, 3) {
                        Some((n, e)) => {
                            id = sext((n >> 1 ^ (n & 1).wrapping_neg()) & 0xffff, 16);
                            at = e;
                        }
                        None => return Bad,
                    }
                }
                if el == 0 {
                    continue;
                }
                match want(b, at, el) {
                    Past(e) => at = e,
                    x => return x,
                }
            }
        }
    }
}
/// wire type | asynchronous << 8 | bytes << 16
fn raw_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for t in (0..11u64).rev() {
        for s in 0..2 {
            for n in 0..if t > 6 { 4 + (tier > 0) as u64 } else { 12 } {
                v.push(t | s << 8 | n << 16);
            }
        }
    }
    v
}
fn skip_on(asy: bool, s: &mut Src, t: TType, depth: Option<i8>) -> Result<()> {
    if asy {
        let mut p = TCompactInputStreamProtocol::new(s, usize::MAX);
        match depth {
            None => block_on(p.skip(t)),
            Some(d) => block_on(p.skip_till_depth(t, d)),
        }
    } else {
        let mut p = TCompactInputProtocol::new(s, usize::MAX);
        match depth {
            None => p.skip(t),
            Some(d) => p.skip_till_depth(t, d),
        }
    }
}
fn raw(c: u64) {
    let t = (c & 0xff) as usize;
    let b = any_bytes((c >> 16) as usize);
    reach(1);
    let mut s = Src::new(&b, Plan::whole());
    let r = skip_on(c >> 8 & 1 == 1, &mut s, WIRE[t].0, None);
    observe(1, outcome(&r) as u64);
    observe(2, s.pos as u64);
    match want(&b, 0, t) {
        Past(e) => {
            reach(2);
            check!(r.is_ok(), "skipping a well-formed value fails");
            check!(s.pos == e, "skipping does not end behind the value");
        }
        Bad => check!(r.is_err(), "skipping a malformed or truncated value succeeds"),
        Any => {}
    }
}

/// wire type | shape << 8 | asynchronous << 16 | cut off << 17
fn field_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for t in (0..11u64).rev() {
        for sh in 0..junk::longs(t as usize) {
            for s in 0..2 {
                v.push(t | (junk::LONG + sh) << 8 | s << 16);
            }
        }
        for sh in 0..junk::SHAPES[t as usize] {
            for s in 0..2 {
                v.push(t | sh << 8 | s << 16);
                if tier > 0 || sh < 4 || sh % 4 == 1 {
                    v.push(t | sh << 8 | s << 16 | 1 << 17);
                }
            }
        }
    }
    v
}
/// a field to be skipped, and the field after it
fn field(c: u64) {
    let t = (c & 0xff) as usize;
    let cut_off = c >> 17 & 1 == 1;
    let mut b = vec![];
    junk::shape(&mut b, t, (c >> 8 & 0xff) as usize);
    reach(1);
    if cut_off {
        let n = int(16) as usize;
        assume(n < b.len());
        let n = fix(n as u64) as usize;
        let mut s = Src::new(&b[..n], Plan::whole());
        let r = skip_on(c >> 16 & 1 == 1, &mut s, WIRE[t].0, None);
        check!(r.is_err(), "skipping a value that is cut off succeeds");
        return;
    }
    let id = int(16) as i16;
    assume(id < i16::MAX);
    let yes = t == 0 && flip();
    let x = u8_();
    let mut e = vec![if t == 0 && !yes { 2 } else { WIRE[t].1 }];
    Enc::uv(&mut e, Enc::zz(id as i64));
    if t > 0 {
        e.extend_from_slice(&b);
    }
    // the next field, relative to the one that was skipped
    e.push(0x13);
    e.push(x);
    e.push(0);
    let mut s = Src::new(&e, Plan::whole());
    let f = if c >> 16 & 1 == 1 {
        block_on(async {
            let mut p = TCompactInputStreamProtocol::new(&mut s, usize::MAX);
            p.read_struct_begin().await?;
            let f = p.read_field_begin().await?;
            p.skip(f.field_type).await?;
            p.read_field_end().await?;
            let g = p.read_field_begin().await?;
            let y = p.read_i8().await?;
            Ok((f, g, y))
        })
    } else {
        (|| {
            let mut p = TCompactInputProtocol::new(&mut s, usize::MAX);
            p.read_struct_begin()?;
            let f = p.read_field_begin()?;
            p.skip(f.field_type)?;
            p.read_field_end()?;
            let g = p.read_field_begin()?;
            let y = p.read_i8()?;
            Ok((f, g, y))
        })()
    };
    let f: Result<(TFieldIdentifier, TFieldIdentifier, i8)> = f;
    observe(1, outcome(&f) as u64);
    match f {
        Ok((f, g, y)) => {
            check!(f.id == Some(id) && f.field_type == WIRE[t].0, "another field is announced");
            check!(g.id == Some(id + 1) && g.field_type == TType::I08, "after skipping a field another field follows");
            check!(y == x as i8, "after skipping a field another value follows");
        }
        Err(_) => check!(false, "skipping a field and reading the next one fails"),
    }
    check!(s.pos == e.len() - 1, "skipping a field does not end behind it");
}

/// levels | how they are nested << 8 | asynchronous << 16 | through `skip_till_depth` << 17
fn depth_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for s in 0..2 {
        for how in 0..8 {
            for levels in 1..68 {
                if tier > 0 || levels > 61 || levels < 3 {
                    v.push(levels | how << 8 | s << 16);
                }
                if levels < 7 {
                    v.push(levels | how << 8 | s << 16 | 1 << 17);
                }
            }
        }
    }
    v
}
fn depth(c: u64) {
    let levels = c & 0xff;
    let (t, b) = junk::nest(levels, c >> 8 & 0xff);
    reach(1);
    let mut s = Src::new(&b, Plan::whole());
    let d = if c >> 17 & 1 == 1 {
        let d = int(8) as i8;
        assume(d >= 0);
        Some(d)
    } else {
        None
    };
    let r = skip_on(c >> 16 & 1 == 1, &mut s, WIRE[t].0, d);
    observe(1, outcome(&r) as u64);
    let most = d.unwrap_or(64) as u64;
    if levels <= most {
        check!(r.is_ok(), "nesting within the limit is refused");
        check!(s.pos == b.len(), "skipping nested data does not end behind it");
    } else {
        check!(outcome(&r) == P_DEPTH, "nesting beyond the limit is not refused as such");
    }
}
harnesses! {
    "c16_raw" h_c16_raw n_c16_raw : raw_cases => raw;
    "c16_field" h_c16_field n_c16_field : field_cases => field;
    "c16_depth" h_c16_depth n_c16_depth : depth_cases => depth;
}
