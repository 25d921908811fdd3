//! Values with long byte arrays and lists; the first and the last element are
//! unconstrained, those between them distinguishable.
use crate::rd::*;
use crate::rt::*;
use crate::schema::*;
use parquet_format_safe::*;

const BLOB: [u64; 36] = [
    301, 383, 384, 385, 499, 500, 501, 511, 512, 513, 639, 640, 767, 768, 769, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383,
    16384, 16385,
];
const HUGE: [u64; 6] = [32767, 32768, 32769, 65535, 65536, 65537];
const LIST: [u64; 15] = [192, 200, 254, 255, 256, 257, 300, 500, 511, 512, 1000, 1023, 1024, 1025, 4096];
/// kind | size << 8
pub fn cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..3 {
        // every small length
        for n in (3..301).chain(BLOB).chain(HUGE) {
            v.push(k | n << 8);
        }
        if tier > 0 {
            for n in [131072u64, 131073, 1 << 20, (1 << 20) + 1, (1 << 21) - 1, 1 << 21] {
                v.push(k | n << 8);
            }
        }
    }
    // nothing but unconstrained bytes
    for k in 8..10 {
        for n in 1..if tier > 0 { 65 } else { 25 } {
            v.push(k | n << 8);
        }
    }
    for k in 3..8 {
        for n in (0..131).chain(LIST) {
            v.push(k | n << 8);
        }
        for n in [8192, 8193, 16383, 16384, 16385, 32768] {
            if k == 3 && n < 16386 || tier > 0 {
                v.push(k | n << 8);
            }
        }
    }
    v
}
fn blob(n: usize, text: bool) -> Vec<u8> {
    let mut v = vec![0u8; n];
    for i in 0..n {
        v[i] = if text { (32 + i % 89) as u8 } else { (i * 31 + (i >> 8) * 7) as u8 };
    }
    for i in [0, n - 1] {
        v[i] = int(8) as u8;
        if text {
            assume(v[i] < 128);
        }
    }
    v
}
pub fn text(n: usize) -> String {
    match String::from_utf8(blob(n, true)) {
        Ok(s) => s,
        Err(_) => cut(),
    }
}
fn list<T>(n: usize, f: impl Fn(usize) -> T) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(f(i));
    }
    v
}
fn trip<T: Meta>(s: Side, v: T) {
    reach(1);
    let (w, sink) = wr_with(s, &v, crate::io::Plan::whole(), 1);
    match w {
        Ok(n) => check!(n == sink.out.len(), "writing a long value returns another count than it delivered"),
        Err(_) => check!(false, "writing a long value failed"),
    }
    let g = rd::<T>(s, &sink.out);
    observe(1, sink.out.len() as u64);
    check!(g.used == sink.out.len(), "reading a long value does not consume it");
    match g.r {
        Ok(r) => check!(r == v, "a long value read back differs from the one written"),
        Err(_) => check!(false, "a long value cannot be read back"),
    }
}
/// both writers against the independent encoder
fn canonical<T: Meta>(v: T) {
    reach(1);
    let e = enc(&v);
    for s in SIDES {
        let (w, sink) = wr_with(s, &v, crate::io::Plan::whole(), 1);
        check!(w.is_ok(), "a long value cannot be written");
        check!(sink.out == e, "a long value is written as something else than its canonical encoding");
    }
    observe(1, e.len() as u64);
}
/// the count returned
fn counted<T: Meta>(v: T) {
    reach(1);
    for s in SIDES {
        let (w, sink) = wr_with(s, &v, crate::io::Plan::whole(), 1);
        observe(1, sink.out.len() as u64);
        check!(matches!(w, Ok(n) if n == sink.out.len()), "writing a long value returns another count than it delivered");
    }
}
pub fn run_counted(c: u64) {
    values(Use::Counted, c);
}
/// with arbitrary bytes behind
fn followed<T: Meta>(s: Side, v: T) {
    reach(1);
    let mut b = enc(&v);
    let n = b.len();
    b.extend(any_bytes(2));
    let g = rd::<T>(s, &b);
    observe(1, n as u64);
    check!(g.used == n, "reading a long value does not end behind it");
    check!(matches!(g.r, Ok(r) if r == v), "a long value read before other bytes differs from the one written");
}
/// with an arbitrary byte near the start, the end or the middle, or right as it is
fn spoilt<T: Meta>(s: Option<Side>, v: T) {
    let mut b = enc(&v);
    let n = b.len();
    let k = int(6) as usize;
    assume(k <= 26);
    let k = fix(k as u64) as usize;
    let at = match k {
        0..=11 => k,
        12..=19 => n.wrapping_sub(k - 11),
        20..=25 => n / 2 + k - 23,
        _ => n,
    };
    assume(at <= n);
    if at < n {
        b[at] = int(8) as u8;
    }
    reach(1);
    let p = crate::io::Plan::whole();
    let read = |s| rd_with::<T>(s, &b, p, usize::MAX, 1);
    match s {
        Some(s) => {
            let g = read(s);
            let o = crate::io::outcome(&g.r);
            observe(1, o as u64);
            check!(at < n || o == 0, "a long value is not read");
            check!(g.used <= n, "more is consumed than there is");
        }
        None => {
            let (x, y) = (read(Side::Sync), read(Side::Async));
            let (o, q) = (crate::io::outcome(&x.r), crate::io::outcome(&y.r));
            observe(1, o as u64);
            check!(o == q, "the readers treat a spoilt long value differently");
            if let (Ok(g), Ok(h)) = (&x.r, &y.r) {
                check!(g == h, "the readers read a spoilt long value differently");
                check!(x.used == y.used, "the readers consume a spoilt long value differently");
            }
        }
    }
}
pub fn spoilt_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..8 {
        for n in [14, 15, 16, 130, 257, 1025, 4097] {
            if n < 200 || tier > 0 || k < 4 && n < 500 {
                v.push(k | n << 8);
            }
        }
    }
    v
}
pub fn spoilt_both_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..8 {
        for n in [14, 16, 33, 130, 257] {
            if n < 30 || n < 100 && k > 2 || k < 2 && n < 200 || k < 3 && tier > 0 {
                v.push(k | n << 8);
            }
        }
    }
    v
}
pub fn run_spoilt(s: Option<Side>, c: u64) {
    values(if let Some(s) = s { Use::Spoilt(s) } else { Use::SpoiltBoth }, c);
}
/// what a long value is used for
#[derive(Clone, Copy)]
enum Use {
    Trip(Side),
    Canonical,
    Counted,
    Followed(Side),
    Spoilt(Side),
    SpoiltBoth,
}
fn on<T: Meta>(u: Use, v: T) {
    match u {
        Use::Trip(s) => trip(s, v),
        Use::Canonical => canonical(v),
        Use::Counted => counted(v),
        Use::Followed(s) => followed(s, v),
        Use::Spoilt(s) => spoilt(Some(s), v),
        Use::SpoiltBoth => spoilt(None, v),
    }
}
pub fn run(s: Side, c: u64) {
    values(Use::Trip(s), c);
}
pub fn run_canonical(c: u64) {
    values(Use::Canonical, c);
}
pub fn followed_cases(tier: u64) -> Vec<u64> {
    let mut v = cases(tier);
    for i in 0..v.len() {
        v.push(v[i] | 1 << 60);
    }
    v
}
pub fn run_followed(c: u64) {
    values(Use::Followed(SIDES[(c >> 60) as usize]), c & !(1 << 60));
}
fn values(u: Use, c: u64) {
    let n = (c >> 8) as usize;
    let num = |i: usize| (i as i64).wrapping_mul(0x9E37_79B9_7F4A_7C15u64 as i64) >> (i % 60);
    let spoilt = matches!(u, Use::Spoilt(_) | Use::SpoiltBoth);
    let edge = |i: usize| if i + 1 == n && !spoilt { sext(int(6), 6) } else { num(i) };
    match c & 0xff {
        0 => on(u, KeyValue { key: "k".to_string(), value: Some(text(n)) }),
        1 => on(u, Statistics { max: Some(blob(n, false)), min: None, null_count: Some(1), distinct_count: None, max_value: None, min_value: Some(vec![1, 2]) }),
        2 => on(u, EncryptionWithColumnKey { path_in_schema: vec!["a".to_string(), text(n), "b".to_string()], key_metadata: Some(blob(3, false)) }),
        3 => on(
            u,
            ColumnIndex {
                null_pages: list(n, |i| i % 3 == 1),
                min_values: vec![],
                max_values: vec![vec![]],
                boundary_order: BoundaryOrder::ASCENDING,
                null_counts: None,
            },
        ),
        4 => on(
            u,
            ColumnIndex {
                null_pages: vec![true],
                min_values: list(n, |i| vec![i as u8; i % 3]),
                max_values: vec![vec![7]],
                boundary_order: BoundaryOrder::ASCENDING,
                null_counts: None,
            },
        ),
        5 => on(
            u,
            ColumnIndex {
                null_pages: vec![],
                min_values: vec![],
                max_values: vec![],
                boundary_order: BoundaryOrder::ASCENDING,
                null_counts: Some(list(n, edge)),
            },
        ),
        6 => on(u, OffsetIndex { page_locations: list(n, |i| PageLocation { offset: edge(i), compressed_page_size: i as i32, first_row_index: num(i) }) }),
        7 => on(u, EncryptionWithColumnKey { path_in_schema: list(n, |i| "xyz"[..i % 3].to_string()), key_metadata: None }),
        8 => on(u, KeyValue { key: free_text(n), value: Some(free_text(n)) }),
        _ => on(u, Statistics { max: Some(any_bytes(n)), min: None, null_count: None, distinct_count: None, max_value: None, min_value: Some(any_bytes(n)) }),
    }
}
/// any ASCII text
fn free_text(n: usize) -> String {
    let b = any_bytes(n);
    for x in &b {
        assume(*x < 128);
    }
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => cut(),
    }
}
/// a few long values, for checks of transports and cut inputs
fn sample(k: u64, n: usize) -> Statistics {
    let b = blob(n, false);
    match k {
        0 => Statistics { max: Some(b), min: None, null_count: Some(1), distinct_count: None, max_value: None, min_value: Some(vec![1, 2]) },
        _ => Statistics { max: None, min: None, null_count: None, distinct_count: Some(-7), max_value: Some(vec![3; 70]), min_value: Some(b) },
    }
}
fn longs(k: u64, n: usize) -> EncryptionWithColumnKey {
    if k == 2 {
        EncryptionWithColumnKey { path_in_schema: vec!["a".to_string(), text(n), "b".to_string()], key_metadata: Some(blob(3, false)) }
    } else {
        EncryptionWithColumnKey { path_in_schema: list(n, |i| "xyz"[..i % 3].to_string()), key_metadata: Some(vec![9]) }
    }
}
const AT: [u64; 9] = [40, 130, 300, 1025, 4096, 4097, 8193, 16385, 65537];
/// value | mode << 8 | asynchronous << 12 | write << 13 | size << 16
pub fn io_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for n in AT {
        if tier == 0 && n > 20000 {
            continue;
        }
        for k in 0..3 {
            for m in 0..5 {
                for s in 0..4 {
                    v.push(k | m << 8 | s << 12 | n << 16);
                }
            }
        }
    }
    v
}
fn io<T: Meta>(c: u64, v: T) {
    use crate::io::*;
    let side = SIDES[(c >> 12 & 1) as usize];
    let mut p = Plan::new([Mode::One, Mode::Part, Mode::Retry, Mode::Slow, Mode::PartRetry][(c >> 8 & 15) as usize]);
    if !matches!(c >> 8 & 15, 0 | 3) {
        p.at = int(16);
    }
    let polls = 500_000;
    reach(1);
    let (x, a) = wr_with(side, &v, Plan::whole(), 1);
    check!(x.is_ok(), "a long value cannot be written");
    if c >> 13 & 1 == 1 {
        let (y, b) = wr_with(side, &v, p, polls);
        observe(1, b.out.len() as u64);
        check!(y.is_ok(), "writing a long value fails because of how the sink accepts");
        check!(a.out == b.out, "the bytes of a long value depend on how the sink accepts");
        return;
    }
    let g = rd_with::<T>(side, &a.out, p, usize::MAX, polls);
    observe(1, crate::io::outcome(&g.r) as u64);
    check!(g.used == a.out.len(), "what is consumed of a long value depends on how the source delivers");
    match g.r {
        Ok(r) => check!(r == v, "a long value read depends on how the source delivers"),
        Err(_) => check!(false, "reading a long value fails because of how the source delivers"),
    }
}
pub fn run_io(c: u64) {
    let n = (c >> 16) as usize;
    match c & 0xff {
        k @ 0..=1 => io(c, sample(k, n)),
        k => io(c, longs(k, n)),
    }
}
/// value | asynchronous << 8 | size << 16
pub fn cut_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for n in AT.into_iter().chain([5, 17, 63, 64, 65, 255, 513, 1000, 3000]) {
        if tier == 0 && n > 20000 {
            continue;
        }
        for k in 0..4 {
            if k == 3 && n > 5000 {
                continue;
            }
            for s in 0..2 {
                v.push(k | s << 8 | n << 16);
            }
        }
    }
    v
}
/// a place of the solver's choice: any of short input, near the ends, the middle and
/// multiples of 1024 and 1000 of long input
pub fn cut_at(len: usize) -> usize {
    let at = if len < 1200 {
        let n = int(16);
        assume(n < len as u64);
        fix(n) as usize
    } else {
        let base = int(8);
        assume(base < 140);
        let off = int(4);
        assume(off < 12);
        let (base, off) = (fix(base) as usize, fix(off) as usize);
        match base {
            0..=65 => (base * 1024 + off).wrapping_sub(2),
            66 => len.wrapping_sub(1 + off),
            67 => len / 2 + off,
            _ => ((base - 68) * 1000 + off).wrapping_sub(2),
        }
    };
    assume(at < len);
    at
}
/// cut off at any place within a few bytes of the ends and of each multiple of 1024
fn cut_off<T: Meta>(c: u64, v: T) {
    let side = SIDES[(c >> 8 & 1) as usize];
    let b = enc(&v);
    reach(1);
    let n = cut_at(b.len());
    let g = rd_with::<T>(side, &b[..n], crate::io::Plan::whole(), usize::MAX, 1);
    observe(1, crate::io::outcome(&g.r) as u64);
    check!(g.r.is_err(), "a long value is read from a part of its encoding");
}
pub fn run_cut(c: u64) {
    let n = (c >> 16) as usize;
    match c & 0xff {
        k @ 0..=1 => cut_off(c, sample(k, n)),
        k => cut_off(c, longs(k, n)),
    }
}

/// size | asynchronous << 32 | which field << 33
pub fn text_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for n in AT {
        if tier == 0 && n != 300 && n != 4097 || n > 9000 {
            continue;
        }
        for s in 0..4 {
            v.push(n | s << 32);
        }
    }
    v
}
/// a long text with two arbitrary bytes next to each other at the ends, around
/// multiples of 1024, or in the middle
pub fn run_text(c: u64) {
    let side = SIDES[(c >> 32 & 1) as usize];
    let n = (c & 0xffff_ffff) as usize;
    let base = int(8);
    assume(base < 66 && (base == 65 || base * 1024 < n as u64 + 2));
    let off = int(2);
    let (base, off) = (fix(base) as usize, fix(off) as usize);
    let at = if base == 65 { n / 2 + off } else { (base * 1024 + off).wrapping_sub(2) };
    assume(at < n - 1);
    let mut b = vec![0u8; n];
    for i in 0..n {
        b[i] = (32 + i % 89) as u8;
    }
    b[at] = int(8) as u8;
    b[at + 1] = int(8) as u8;
    reach(1);
    let mut e = vec![];
    if c >> 33 == 0 {
        e.push(0x18);
    } else {
        e.extend([0x18, 1, b'k', 0x18]);
    }
    let mut x = n as u64;
    while x > 127 {
        e.push(x as u8 | 128);
        x >>= 7;
    }
    e.push(x as u8);
    e.extend_from_slice(&b);
    e.push(0);
    let (p, q) = (b[at], b[at + 1]);
    let valid = p < 128 && q < 128 || (0xc2..0xe0).contains(&p) && (0x80..0xc0).contains(&q);
    let g = rd::<KeyValue>(side, &e);
    observe(1, crate::io::outcome(&g.r) as u64);
    match g.r {
        Ok(v) => {
            check!(valid, "a long text that is not UTF-8 is accepted");
            let t = if c >> 33 == 0 { Some(v.key) } else { v.value };
            check!(matches!(t, Some(t) if t.as_bytes() == &b[..]), "a long text is changed");
        }
        Err(_) => check!(!valid, "a long UTF-8 text is refused"),
    }
}
/// a transport that fails at any call
pub fn fail_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for n in AT {
        if tier == 0 && n > 9000 {
            continue;
        }
        for k in 0..3 {
            for s in 0..4 {
                v.push(k | s << 8 | n << 16);
            }
        }
    }
    v
}
fn failing<T: Meta>(c: u64, v: T) {
    use crate::io::*;
    let side = SIDES[(c >> 8 & 1) as usize];
    let mut p = Plan::at(Mode::Fail, int(16));
    p.kind = std::io::ErrorKind::TimedOut;
    reach(1);
    let e = enc(&v);
    let (class, plan) = if c >> 9 & 1 == 1 {
        let (y, b) = wr_with(side, &v, p, 1);
        check!(b.out.len() <= e.len() && b.out[..] == e[..b.out.len()], "bytes of a long value are lost before an error");
        (outcome(&y), b.plan)
    } else {
        let g = rd_with::<T>(side, &e, p, usize::MAX, 1);
        let o = outcome(&g.r);
        (o, g.plan)
    };
    observe(1, class as u64);
    if plan.hit {
        reach(2);
        check!(class == 103, "a failure of the transport within a long value is not reported as it is");
        check!(plan.after == 0, "the transport is used again after it failed");
    } else {
        check!(class == 0, "an error is reported although the transport did not fail");
    }
}
pub fn run_fail(c: u64) {
    let n = (c >> 16) as usize;
    match c & 0xff {
        k @ 0..=1 => failing(c, sample(k, n)),
        k => failing(c, longs(k, n)),
    }
}

/// Long sequences of calls. pattern | size << 8
pub fn op_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for n in [256u64, 1025, 4097, 8193, 16384, 65537] {
        v.push(n << 8);
    }
    for n in [3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 500] {
        v.push(1 | n << 8);
    }
    for k in 2..9 {
        for n in [16, 127, 128, 129, 255, 256, 257, 1025, 4097] {
            if n < 1000 || tier > 0 {
                v.push(k | n << 8);
            }
        }
    }
    v
}
pub fn ops(c: u64) -> Vec<crate::ops::Op> {
    use crate::ops::{Op::*, *};
    let n = (c >> 8) as usize;
    let field = || plain_field(Args::Wide);
    let mut v = vec![StructBegin];
    match c & 0xff {
        0 => v.extend([Field(6, 3), Bytes(self::blob(n, false)), Field(6, 4), Str(self::text(n)), field(), I32(-7)]),
        1 => {
            // structs in structs, with a field before and behind in each
            for i in 0..n {
                v.push(Field(10, (i * 37 % 300) as i16));
                v.push(StructBegin);
            }
            v.extend([field(), I32(1)]);
            for i in 0..n {
                v.extend([FieldStop, StructEnd]);
                if i + 3 > n {
                    v.extend([field(), I32(5)]);
                } else {
                    v.extend([Field(3, (i * 37 % 300 + 9) as i16), I32(i as i32)]);
                }
            }
        }
        2 => {
            v.extend([Field(7, 1), ListBegin(4, n as u32)]);
            for i in 0..n {
                v.push(I64(if i + 1 == n { int(64) as i64 } else { (i as i64).wrapping_mul(0x9E37_79B9_7F4A_7C15u64 as i64) >> (i % 60) }));
            }
            v.extend([ListEnd, field(), I32(1)]);
        }
        3 => {
            v.extend([Field(8, 1), SetBegin(0, n as u32)]);
            for i in 0..n {
                v.push(Bool(if i + 1 == n { flip() } else { i % 3 == 0 }));
            }
            v.extend([SetEnd, field(), I32(1)]);
        }
        4 => {
            v.extend([Field(9, 1), MapBegin(2, 6, n as u32)]);
            for i in 0..n {
                v.extend([I16(i as i16), Str("abc"[..i % 4].to_string())]);
            }
            v.extend([MapEnd, field(), I32(1)]);
        }
        5 => {
            // many fields, ids up and down
            for i in 0..n {
                let id = (i * 7919 % 600) as i16 - 100;
                v.extend(if i % 3 == 0 { vec![BoolField(id, i % 2 == 0)] } else { vec![Field(3, id), I32(i as i32)] });
            }
            v.extend([field(), I32(1)]);
        }
        6 => {
            // a list of structs
            v.extend([Field(7, 1), ListBegin(10, n as u32)]);
            for i in 0..n {
                v.extend([StructBegin, BoolField(1, i % 2 == 0), Field(3, 2), I32(i as i32), FieldStop, StructEnd]);
            }
            v.extend([ListEnd, field(), I32(1)]);
        }
        7 => {
            // lists in a list
            v.extend([Field(7, 1), ListBegin(7, n as u32)]);
            for i in 0..n {
                v.push(ListBegin(6, (i % 17) as u32));
                for j in 0..i % 17 {
                    v.push(Bytes(vec![j as u8; j]));
                }
                v.push(ListEnd);
            }
            v.extend([ListEnd, field(), I32(1)]);
        }
        _ => {
            // messages
            v.clear();
            for i in 0..n {
                v.extend([MessageBegin("abc"[..i % 4].to_string(), (i % 4) as u8, i as u32 * 1000), StructBegin, Field(5, 2 + (i % 9) as i16), Double(i as u64), FieldStop, StructEnd, MessageEnd]);
            }
            v.extend([StructBegin, field(), I32(1)]);
        }
    }
    v.extend([FieldStop, StructEnd]);
    v
}
/// any budget on long values: both readers do the same. value | size << 16
pub fn budget_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for n in AT {
        if tier == 0 && n > 20000 {
            continue;
        }
        for k in 0..4 {
            if k < 3 || n < 1000 {
                v.push(k | n << 16);
            }
        }
    }
    v
}
fn both<T: Meta>(v: T) {
    let b = enc(&v);
    let budget = int(64) as usize;
    reach(1);
    let p = crate::io::Plan::whole();
    let (x, y) = (rd_with::<T>(Side::Sync, &b, p, budget, 1), rd_with::<T>(Side::Async, &b, p, budget, 1));
    let (o, q) = (crate::io::outcome(&x.r), crate::io::outcome(&y.r));
    observe(1, o as u64);
    check!(o == q, "the readers treat a long value differently under a budget");
    if let (Ok(g), Ok(h)) = (x.r, y.r) {
        reach(2);
        check!(g == h && g == v, "the readers read a long value differently under a budget");
        check!(x.used == y.used, "the readers consume a long value differently");
    }
}
pub fn run_budget(c: u64) {
    let n = (c >> 16) as usize;
    match c & 0xff {
        k @ 0..=1 => both(sample(k, n)),
        k => both(longs(k, n)),
    }
}
