use crate::io::*;
use crate::rd::*;
use crate::rt::*;
use crate::schema::*;
use parquet_format_safe::thrift::protocol::*;

/// what an implementation needs for itself, such as an error message
const SMALL: usize = 4096;
fn measured<T>(f: impl FnOnce() -> T) -> (T, usize) {
    unsafe {
        MAX_REQ = 0;
        TRACK = true;
    }
    let r = f();
    unsafe {
        TRACK = false;
        (r, MAX_REQ)
    }
}
const DECL: [u64; 6] = [5, 11, 12, 13, 14, 1];
const N_DECL: u64 = 6;
/// Reads with a declared size: bytes, string, list, set, map; and a struct.
/// op | op << 4 | op << 8 | asynchronous << 12; 15 is none
fn calls(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for s in 0..2 {
        for a in 0..N_DECL {
            // of any element types
            v.push(a | 15 << 4 | 15 << 8 | s << 12);
            for b in 0..N_DECL {
                v.push(a | b << 4 | 15 << 8 | s << 12);
                for c in 0..N_DECL {
                    if tier > 0 || (c == 0 || c == 2 || c == 4) && a > 0 {
                        v.push(a | b << 4 | c << 8 | s << 12);
                    }
                }
            }
        }
    }
    v
}
struct Op1 {
    k: u64,
    n: usize,
}
/// an element type: any if there is a single read, otherwise one that depends on the case
fn element(c: u64, i: u64) -> u8 {
    if c >> 4 & 15 == 15 {
        let t = u8_();
        assume(t > 0 && t < 13);
        t
    } else {
        (1 + (c + (c >> 4) * 5 + (c >> 8) * 7 + i * 5) % 12) as u8
    }
}
/// the encoding of reads of arbitrary declared sizes, all but the last byte arrays backed by data
fn program(c: u64) -> (Vec<Op1>, Vec<u8>) {
    let (mut ops, mut b) = (vec![], vec![]);
    for i in 0..3 {
        let k = c >> (4 * i) & 15;
        if k == 15 {
            break;
        }
        let last = i == 2 || c >> (4 * i + 4) & 15 == 15;
        let n = match DECL[k as usize] {
            5 | 11 => {
                let n = if last { int(32) as u32 } else { pick(4) as u32 };
                padded(&mut b, n);
                for _ in 0..if last { 2 } else { n } {
                    b.push(b'a');
                }
                n
            }
            12 | 13 => {
                b.push(0xf0 | element(c, i));
                let n = int(32) as u32;
                padded(&mut b, n);
                n
            }
            14 => {
                let n = int(32) as u32;
                padded(&mut b, n);
                if fix((n == 0) as u64) == 0 {
                    b.push(element(c, i) << 4 | element(c, i + 1));
                }
                n
            }
            _ => 0,
        };
        ops.push(Op1 { k: DECL[k as usize], n: n as usize });
    }
    (ops, b)
}
fn sums(c: u64) {
    let (ops, b) = program(c);
    let budget = int(64) as usize;
    let asy = c >> 12 == 1;
    reach(1);
    let (mut s, mut t) = (Src::new(&b, Plan::whole()), Src::new(&b, Plan::whole()));
    let mut p = TCompactInputProtocol::new(&mut s, budget);
    let mut q = TCompactInputStreamProtocol::new(&mut t, budget);
    let (mut lo, mut hi) = (0usize, 0usize);
    for o in &ops {
        let (r, most) = measured(|| {
            let r = if asy { block_on(aprim(&mut q, o.k)).map(|_| ()) } else { prim(&mut p, o.k).map(|_| ()) };
            outcome(&r)
        });
        observe(1, r as u64);
        // the most and the least this may count for
        lo += o.n;
        hi += match o.k {
            5 | 11 => o.n,
            1 => 2,
            _ => 8 * o.n,
        };
        let blob = o.k == 5 || o.k == 11;
        if r == P_SIZE {
            reach(2);
            check!(hi > budget || blob && o.n > LIMIT, "input whose declared sizes fit the budget is refused");
            check!(most <= SMALL || blob && lo <= budget, "memory is allocated for a size that is refused");
            break;
        }
        check!(lo <= budget, "the accepted sizes add up to more than the budget");
        check!(most <= SMALL || blob && most <= 2 * o.n + 64, "more memory is allocated than was declared");
        if r != 0 {
            break;
        }
        reach(3);
    }
}

/// type | what << 8 | position << 12 | asynchronous << 28
/// what: 0, 1 an encoding (all, every other optional field), 2 with an unknown
/// field, 3 any count at a list, 4 any length at a byte array
fn type_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for s in 0..2u64 {
            for k in 0..3 {
                v.push(ty | k << 8 | s << 28);
            }
            let z = sizes(ty, Pat::All);
            for i in 0..z.e.lists as u64 {
                v.push(ty | 3 << 8 | i << 12 | s << 28);
            }
            for i in 0..z.e.blobs as u64 {
                if tier > 0 || i < 6 {
                    v.push(ty | 4 << 8 | i << 12 | s << 28);
                }
            }
        }
    }
    v
}
/// an unknown struct with everything that declares a size
fn stranger(e: &mut Enc) -> (i16, u8, Vec<u8>) {
    let b = vec![
        0x18, 3, b'x', b'y', b'z', // string
        0x19, 0x28, 1, 0xff, 0, // list of two byte arrays
        0x1a, 0x33, 1, 2, 3, // set of three bytes
        0x1b, 2, 0x35, 1, 2, 3, 4, // map of two
        0x1c, 0x18, 1, b'q', 0, // struct
        0,
    ];
    e.lo += 3 + 2 + 1 + 3 + 2 + 1;
    e.hi += 3 + 16 + 1 + 24 + 16 + 2 + 1 + 2;
    (200, 12, b)
}
struct Types(u64);
impl Visit for Types {
    fn visit<T: Meta>(&mut self) {
        let c = self.0;
        let what = c >> 8 & 15;
        let side = SIDES[(c >> 28) as usize];
        let v: T = plain(if what == 1 { Pat::Alt } else { Pat::All });
        let mut e = match what {
            2 => Enc::twisted(Twist::Unknown, 0, 0),
            3 => Enc::twisted(Twist::HugeList, (c >> 12 & 0xffff) as u32, 0),
            4 => Enc::twisted(Twist::HugeBlob, (c >> 12 & 0xffff) as u32, 0),
            _ => Enc::new(),
        };
        e.unknown = Some(stranger);
        let mut b = vec![];
        v.body(&mut e, &mut b, false);
        if what > 2 {
            // nothing follows the size, so that a refusal can only be about it
            shorten(&v, &mut b, 0);
            if what == 4 {
                b.pop();
            }
        }
        let budget = int(64) as usize;
        reach(1);
        let (g, most) = measured(|| rd_with::<T>(side, &b, Plan::whole(), budget, 1));
        let r = outcome(&g.r);
        observe(1, r as u64);
        if what < 3 {
            match &g.r {
                Ok(x) => {
                    reach(2);
                    check!(e.lo <= budget, "a value is read whose sizes exceed the budget");
                    check!(*x == v, "the budget changes the value read");
                }
                Err(_) => {
                    check!(r == P_SIZE, "exceeding the budget is reported as something else");
                    check!(e.hi > budget, "a value that fits the budget is refused");
                }
            }
        } else {
            let n = e.huge as usize;
            if n > budget {
                check!(r == P_SIZE, "a size that exceeds the budget is not refused as such");
                check!(most <= 65536, "memory is allocated for a size that is refused");
            }
            if r == P_SIZE {
                reach(2);
                check!(n > LIMIT / 1024 || e.hi + 8 * n > budget, "a size that fits the budget is refused");
            }
        }
    }
}
fn types(c: u64) {
    on_type(c & 0xff, &mut Types(c));
}
harnesses! {
    "c08_sums" h_c08_sums n_c08_sums : calls => sums;
    "c08_types" h_c08_types n_c08_types : type_cases => types;
}
