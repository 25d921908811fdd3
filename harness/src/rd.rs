//! Running readers, and inputs that need not be well-formed.
use crate::io::*;
use crate::ops::*;
use crate::rt::*;
use crate::schema::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result;

/// Which of the two implementations.
#[derive(Clone, Copy, PartialEq)]
pub enum Side {
    Sync,
    Async,
}
pub use Side::*;
pub const SIDES: [Side; 2] = [Sync, Async];

pub struct Got<T> {
    pub r: Result<T>,
    /// bytes consumed
    pub used: usize,
    pub plan: Plan,
}
/// `polls`: how often a future is polled before giving up
pub fn rd_with<T: Meta>(s: Side, data: &[u8], plan: Plan, budget: usize, polls: u32) -> Got<T> {
    let mut src = Src::new(data, plan);
    let r = match s {
        Sync => T::rd(&mut TCompactInputProtocol::new(&mut src, budget)),
        Async => {
            let mut p = TCompactInputStreamProtocol::new(&mut src, budget);
            let r = block_on_max(T::ard(&mut p), polls);
            match r {
                Some(r) => r,
                None => {
                    check!(false, "an asynchronous read never completes");
                    cut()
                }
            }
        }
    };
    Got { r, used: src.pos, plan: src.plan }
}
pub fn rd<T: Meta>(s: Side, data: &[u8]) -> Got<T> {
    rd_with(s, data, Plan::whole(), usize::MAX, 1)
}
/// writes with the crate's writer
pub fn wr_with<T: Meta>(s: Side, v: &T, plan: Plan, polls: u32) -> (Result<usize>, Sink) {
    let mut sink = Sink::new(plan);
    let r = match s {
        Sync => v.wr(&mut TCompactOutputProtocol::new(&mut sink)),
        Async => {
            let mut p = TCompactOutputStreamProtocol::new(&mut sink);
            let r = block_on_max(v.awr(&mut p), polls);
            match r {
                Some(r) => r,
                None => {
                    check!(false, "an asynchronous write never completes");
                    cut()
                }
            }
        }
    };
    (r, sink)
}
/// the reference encoding
pub fn enc<T: Meta>(v: &T) -> Vec<u8> {
    let mut o = vec![];
    v.body(&mut Enc::new(), &mut o, false);
    o
}
pub fn plain<T: Meta>(p: Pat) -> T {
    T::make(&mut G::plain(p))
}
/// one path per byte pattern that matters is up to the code; the values are the solver's
pub fn any_bytes(n: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(u8_());
    }
    v
}

// ------------------------------------------------------------ primitives
pub const N_PRIM: u64 = 34;
fn tt(t: TType) -> u64 {
    let mut i = 0;
    for (w, _) in WIRE {
        if w == t {
            return i;
        }
        i += 1;
    }
    if t == TType::Stop {
        99
    } else {
        100
    }
}
fn ott(t: &Option<TType>) -> u64 {
    match t {
        Some(t) => tt(*t),
        None => 50,
    }
}
fn flat(b: &[u8]) -> Vec<u64> {
    let mut v = vec![b.len() as u64];
    for x in b {
        v.push(*x as u64);
    }
    v
}
fn msg(m: &TMessageIdentifier) -> Vec<u64> {
    let mut v = flat(m.name.as_bytes());
    v.push(u8::from(m.message_type) as u64);
    v.push(m.sequence_number as u64);
    v
}
fn field(f: &TFieldIdentifier) -> Vec<u64> {
    vec![tt(f.field_type), f.id.map_or(1 << 40, |i| i as u64), f.name.is_some() as u64]
}
/// One read call and what it returned, as numbers. 0..16 scalars and headers,
/// 16..27 skip of a wire type, then reads through `ReadThrift`, lists, skips
/// to a depth.
pub fn prim<P: TInputProtocol>(p: &mut P, k: u64) -> Result<Vec<u64>> {
    Ok(match k {
        0 => msg(&p.read_message_begin()?),
        1 => vec![p.read_struct_begin()?.is_some() as u64],
        2 => field(&p.read_field_begin()?),
        3 => {
            let mut v = field(&p.read_field_begin()?);
            v.push(p.read_bool()? as u64);
            v
        }
        4 => vec![p.read_bool()? as u64],
        5 => flat(&p.read_bytes()?),
        6 => vec![p.read_i8()? as u64],
        7 => vec![p.read_i16()? as u64],
        8 => vec![p.read_i32()? as u64],
        9 => vec![p.read_i64()? as u64],
        10 => vec![p.read_double()?.to_bits()],
        11 => flat(p.read_string()?.as_bytes()),
        12 => {
            let l = p.read_list_begin()?;
            vec![tt(l.element_type), l.size as u64]
        }
        13 => {
            let l = p.read_set_begin()?;
            vec![tt(l.element_type), l.size as u64]
        }
        14 => {
            let m = p.read_map_begin()?;
            vec![ott(&m.key_type), ott(&m.value_type), m.size as u64]
        }
        15 => vec![p.read_byte()? as u64],
        16..=26 => p.skip(WIRE[k as usize - 16].0).map(|_| vec![])?,
        27 => flat(String::read_from_in_protocol(p)?.as_bytes()),
        28 => {
            let mut v = vec![];
            for b in p.read_list::<Vec<u8>>()? {
                v.extend(flat(&b));
            }
            v
        }
        29 => p.read_list::<i64>()?.iter().map(|x| *x as u64).collect(),
        30 => p.read_list::<bool>()?.iter().map(|x| *x as u64).collect(),
        31 => flat(&p.read_list::<u8>()?),
        32 => p.skip_till_depth(TType::Struct, 2).map(|_| vec![])?,
        33 => vec![p.read_list::<parquet_format_safe::PageLocation>()?.len() as u64],
        34 => p.read_list::<String>()?.iter().flat_map(|x| flat(x.as_bytes())).collect(),
        35 => vec![p.read_list::<parquet_format_safe::KeyValue>()?.len() as u64],
        _ => {
            p.skip(TType::Stop)?;
            vec![]
        }
    })
}
pub async fn aprim<P: TInputStreamProtocol>(p: &mut P, k: u64) -> Result<Vec<u64>> {
    Ok(match k {
        0 => msg(&p.read_message_begin().await?),
        1 => vec![p.read_struct_begin().await?.is_some() as u64],
        2 => field(&p.read_field_begin().await?),
        3 => {
            let mut v = field(&p.read_field_begin().await?);
            v.push(p.read_bool().await? as u64);
            v
        }
        4 => vec![p.read_bool().await? as u64],
        5 => flat(&p.read_bytes().await?),
        6 => vec![p.read_i8().await? as u64],
        7 => vec![p.read_i16().await? as u64],
        8 => vec![p.read_i32().await? as u64],
        9 => vec![p.read_i64().await? as u64],
        10 => vec![p.read_double().await?.to_bits()],
        11 => flat(p.read_string().await?.as_bytes()),
        12 => {
            let l = p.read_list_begin().await?;
            vec![tt(l.element_type), l.size as u64]
        }
        13 => {
            let l = p.read_set_begin().await?;
            vec![tt(l.element_type), l.size as u64]
        }
        14 => {
            let m = p.read_map_begin().await?;
            vec![ott(&m.key_type), ott(&m.value_type), m.size as u64]
        }
        15 => vec![p.read_byte().await? as u64],
        16..=26 => p.skip(WIRE[k as usize - 16].0).await.map(|_| vec![])?,
        27 => flat(String::stream_from_in_protocol(p).await?.as_bytes()),
        28 => {
            let mut v = vec![];
            for b in p.read_list::<Vec<u8>>().await? {
                v.extend(flat(&b));
            }
            v
        }
        29 => p.read_list::<i64>().await?.iter().map(|x| *x as u64).collect(),
        30 => p.read_list::<bool>().await?.iter().map(|x| *x as u64).collect(),
        31 => flat(&p.read_list::<u8>().await?),
        32 => p.skip_till_depth(TType::Struct, 2).await.map(|_| vec![])?,
        33 => vec![p.read_list::<parquet_format_safe::PageLocation>().await?.len() as u64],
        34 => p.read_list::<String>().await?.iter().flat_map(|x| flat(x.as_bytes())).collect(),
        35 => vec![p.read_list::<parquet_format_safe::KeyValue>().await?.len() as u64],
        _ => {
            p.skip(TType::Stop).await?;
            vec![]
        }
    })
}

// ------------------------------------------------------------ inputs
/// type | kind << 8 | position << 12 | window << 28
///
/// kinds: 0 arbitrary bytes (`window` of them); 1 the encoding of a value
/// with every optional field and 2 with every other one, `window` bytes of it
/// arbitrary; 3, 4 these encodings with an arbitrary budget; 5 any count in
/// the list at the position, 6 any length of the byte array at the position,
/// with an arbitrary budget; 7 deeply nested unknown data
pub fn input<T: Meta>(c: u64) -> (Vec<u8>, usize) {
    let (kind, pos, n) = (c >> 8 & 15, (c >> 12 & 0xffff) as usize, (c >> 28 & 15) as usize);
    if kind == 0 {
        return (any_bytes(n), usize::MAX);
    }
    if kind == 7 {
        // unknown structs in structs, lists in lists, maps in maps
        let mut v = vec![];
        v.push([12u8, 9, 11][n]);
        v.push(200);
        v.push(1);
        // far more than any stack holds
        for _ in 0..100_000 {
            match n {
                0 => v.push(0x1c),
                1 => v.push(0x19),
                _ => {
                    v.push(1);
                    v.push(0xbb);
                }
            }
        }
        return (v, usize::MAX);
    }
    let v: T = plain(if kind == 2 || kind == 4 { Pat::Alt } else { Pat::All });
    if kind == 5 || kind == 6 {
        let mut b = vec![];
        v.body(&mut Enc::twisted(if kind == 5 { Twist::HugeList } else { Twist::HugeBlob }, pos as u32, 0), &mut b, false);
        shorten(&v, &mut b, if n == 0 { 12 } else { 40 });
        return (b, int(64) as usize);
    }
    let mut b = enc(&v);
    if kind > 2 {
        return (b, int(64) as usize);
    }
    for i in 0..n {
        b[pos + i] = u8_();
    }
    (b, usize::MAX)
}
/// only `n` bytes after the place where `b` departs from the encoding of `v`
pub fn shorten<T: Meta>(v: &T, b: &mut Vec<u8>, n: usize) {
    let e = enc(v);
    let mut i = 0;
    while i < e.len() && i < b.len() && e[i] == b[i] {
        i += 1;
    }
    b.truncate(i + 6 + n);
}
pub fn kind(c: u64) -> u64 {
    c >> 8 & 15
}
/// sizes of a type's encoding
pub struct Sizes {
    pub pat: Pat,
    pub len: usize,
    pub e: Enc,
}
impl Visit for Sizes {
    fn visit<T: Meta>(&mut self) {
        let v: T = plain(self.pat);
        let mut o = vec![];
        v.body(&mut self.e, &mut o, false);
        self.len = o.len();
    }
}
pub fn sizes(ty: u64, pat: Pat) -> Sizes {
    let mut s = Sizes { pat, len: 0, e: Enc::new() };
    on_type(ty, &mut s);
    s
}
/// `n`: arbitrary bytes; `small`: window of two bytes in encodings up to this size
pub fn inputs(n: u64, small: usize, alt: bool) -> Vec<u64> {
    let mut v = vec![];
    // how much follows a declared size
    let far = alt as u64;
    for ty in (0..N_TYPES).rev() {
        v.push(ty | n << 28);
        for k in 1..3 {
            if k == 2 && !alt {
                continue;
            }
            let s = sizes(ty, if k == 1 { Pat::All } else { Pat::Alt });
            let w = if s.len <= small { 2 } else { 1 };
            for pos in 0..s.len + 1 - w {
                v.push(ty | k << 8 | (pos as u64) << 12 | (w as u64) << 28);
            }
        }
        v.push(ty | 3 << 8);
        v.push(ty | 4 << 8);
        let s = sizes(ty, Pat::All);
        for i in 0..s.e.lists as u64 {
            v.push(ty | 5 << 8 | i << 12 | far << 28);
        }
        for i in 0..s.e.blobs as u64 {
            v.push(ty | 6 << 8 | i << 12 | far << 28);
        }
        for i in 0..3 {
            v.push(ty | 7 << 8 | i << 28);
        }
    }
    v
}
