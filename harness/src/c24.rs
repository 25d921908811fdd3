use crate::io::*;
use crate::rd::*;
use crate::rt::*;
use crate::schema::*;
use parquet_format_safe::thrift::protocol::*;

/// Whether `b` is UTF-8, after the grammar of RFC 3629.
pub fn utf8(b: &[u8]) -> bool {
    let n = b.len();
    let mut i = 0;
    while i < n {
        let x = b[i];
        if x < 0x80 {
            i += 1;
            continue;
        }
        let tail = |k: usize, lo: u8, hi: u8| i + k < n && b[i + k] >= lo && b[i + k] <= hi;
        if x >= 0xc2 && x <= 0xdf && tail(1, 0x80, 0xbf) {
            i += 2;
        } else if x == 0xe0 && tail(1, 0xa0, 0xbf) && tail(2, 0x80, 0xbf) {
            i += 3;
        } else if (x >= 0xe1 && x <= 0xec || x == 0xee || x == 0xef) && tail(1, 0x80, 0xbf) && tail(2, 0x80, 0xbf) {
            i += 3;
        } else if x == 0xed && tail(1, 0x80, 0x9f) && tail(2, 0x80, 0xbf) {
            i += 3;
        } else if x == 0xf0 && tail(1, 0x90, 0xbf) && tail(2, 0x80, 0xbf) && tail(3, 0x80, 0xbf) {
            i += 4;
        } else if x >= 0xf1 && x <= 0xf3 && tail(1, 0x80, 0xbf) && tail(2, 0x80, 0xbf) && tail(3, 0x80, 0xbf) {
            i += 4;
        } else if x == 0xf4 && tail(1, 0x80, 0x8f) && tail(2, 0x80, 0xbf) && tail(3, 0x80, 0xbf) {
            i += 4;
        } else {
            return false;
        }
    }
    true
}
/// length | asynchronous << 8 | what is read << 16: a string, a string through
/// `ReadThrift`, bytes, a string among many bytes
fn text_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..4 {
        for s in 0..2 {
            for n in 0..if tier == 0 { 6 } else { 7 } {
                if k == 3 && n > 4 {
                    continue;
                }
                v.push(n | s << 8 | k << 16);
            }
        }
    }
    v
}
fn text(c: u64) {
    let (n, asy, k) = ((c & 0xff) as usize, c >> 8 & 1 == 1u64, c >> 16);
    let mut x = any_bytes(n);
    if k == 3 {
        // as long as takes the validator's path for many bytes at once
        let mut y = vec![b'x'; 39];
        y.extend(x);
        y.extend([b'y'; 20]);
        x = y;
    }
    let mut b = vec![];
    Enc::uv(&mut b, x.len() as u64);
    b.extend_from_slice(&x);
    b.push(0x80);
    let p = [11, 27, 5, 11][k as usize];
    let mut s = Src::new(&b, Plan::whole());
    let r = if asy {
        block_on(aprim(&mut TCompactInputStreamProtocol::new(&mut s, usize::MAX), p))
    } else {
        prim(&mut TCompactInputProtocol::new(&mut s, usize::MAX), p)
    };
    let valid = k == 2 || utf8(&x);
    observe(1, outcome(&r) as u64);
    if valid {
        reach(1);
        match r {
            Ok(v) => {
                let mut same = v.len() == x.len() + 1;
                for i in 0..x.len() {
                    same &= v[i + 1] == x[i] as u64;
                }
                check!(same, "a string or byte array is read with other content");
            }
            Err(_) => check!(false, "a valid string or any byte array is refused"),
        }
        check!(s.pos + 1 == b.len(), "reading a string or byte array does not end behind it");
    } else {
        reach(2);
        check!(outcome(&r) == P_INVALID, "bytes that are not UTF-8 are not refused as invalid data in a string");
    }
}
/// type | byte array or string << 8 | length << 24 | asynchronous << 28
fn field_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        let n = sizes(ty, Pat::All).e.blobs as u64;
        for i in 0..n {
            for s in 0..2 {
                for l in if tier == 0 { 3..4 } else { 0..5 } {
                    v.push(ty | i << 8 | l << 24 | s << 28);
                }
            }
        }
    }
    v
}
struct Field {
    at: u32,
    n: u64,
    side: Side,
}
impl Visit for Field {
    fn visit<T: Meta>(&mut self) {
        let v: T = plain(Pat::All);
        let mut e = Enc::twisted(Twist::Blob, self.at, self.n);
        let mut b = vec![];
        v.body(&mut e, &mut b, false);
        check!(e.hits == 1, "harness: no byte array was replaced");
        let g = rd::<T>(self.side, &b);
        observe(1, outcome(&g.r) as u64);
        if !e.text || utf8(&e.bytes) {
            reach(1);
            match g.r {
                Ok(x) => {
                    check!(enc(&x) == b, "a text or binary field is read with other content");
                    let (w, k) = wr_with(self.side, &x, Plan::whole(), 1);
                    check!(w.is_ok() && k.out == b, "a text or binary field is written with other content");
                }
                Err(_) => check!(false, "a valid text field or any binary field is refused"),
            }
        } else {
            reach(2);
            check!(outcome(&g.r) == P_INVALID, "bytes that are not UTF-8 are not refused as invalid data in a text field");
        }
    }
}
fn field(c: u64) {
    let mut f = Field { at: (c >> 8 & 0xffff) as u32, n: c >> 24 & 15, side: SIDES[(c >> 28) as usize] };
    on_type(c & 0xff, &mut f);
}
harnesses! {
    "c24_text" h_c24_text n_c24_text : text_cases => text;
    "c24_long" h_c24_long n_c24_long : crate::long::text_cases => crate::long::run_text;
    "c24_fields" h_c24_fields n_c24_fields : field_cases => field;
}
