use crate::io::*;
use crate::ops::*;
use crate::rd::*;
use crate::rt::*;
use crate::schema::*;
use parquet_format_safe::thrift::protocol::*;
use std::io::ErrorKind::{self, *};

const KINDS: [(ErrorKind, u32); 19] = [
    (Other, 100),
    (ConnectionReset, 101),
    (UnexpectedEof, 104),
    (TimedOut, 103),
    (AlreadyExists, 102),
    (ConnectionRefused, 101),
    (NotConnected, 101),
    (NotFound, 100),
    (PermissionDenied, 100),
    (ConnectionAborted, 100),
    (AddrInUse, 100),
    (AddrNotAvailable, 100),
    (BrokenPipe, 100),
    (WouldBlock, 100),
    (InvalidInput, 100),
    (InvalidData, 100),
    (WriteZero, 100),
    (Unsupported, 100),
    (OutOfMemory, 100),
];
/// what | asynchronous << 8 | kind of error << 16 | one byte per call << 24
fn pack(x: u64, s: u64, k: u64, slow: u64) -> u64 {
    x | s << 8 | k << 16 | slow << 24
}
fn plan(c: u64) -> (Plan, u32) {
    let (k, class) = KINDS[(c >> 16 & 0xff) as usize];
    let mut p = Plan::at(if c >> 24 & 1 == 1 { Mode::FailSlow } else { Mode::Fail }, int(16));
    p.kind = k;
    (p, class)
}
/// what the call must have returned
fn judge(r: u32, p: &Plan, class: u32) {
    observe(1, r as u64);
    if p.hit {
        reach(2);
        check!(r != 0, "an error of the transport is not reported");
        check!(r / 100 == 1, "an error of the transport is reported in another category");
        check!(r == class, "an error of the transport is reported with another kind");
        check!(p.after == 0, "the transport is used again after it failed");
    } else {
        check!(r == 0, "an error is reported although the transport did not fail");
    }
}
fn read_calls(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for x in 0..N_OPS {
        for s in 0..2 {
            for k in 0..KINDS.len() as u64 {
                if k < 5 || tier > 0 || matches!(x, 4 | 9 | 13 | 14 | 22 | 23) {
                    v.push(pack(x, s, k, 0));
                    v.push(pack(x, s, k, 1));
                }
            }
        }
    }
    v
}
/// which read call reads an operation back
fn call_of(k: u64) -> Option<u64> {
    Some(match k {
        0 => 0,
        4 | 7 => 2,
        5 => 3,
        8 => 4,
        9 => 5,
        10..=14 => k - 4,
        15 => 11,
        16 => 12,
        18 => 13,
        20 => 14,
        22 => 15,
        _ => return None,
    })
}
fn read_call(c: u64) {
    let k = c & 0xff;
    let mut r = Ref::new();
    r.put(&make(k, Args::Wide));
    let b = r.out;
    let (p, class) = plan(c);
    reach(1);
    let what = match call_of(k) {
        Some(w) => w,
        None => return,
    };
    let mut s = Src::new(&b, p);
    let r = if c >> 8 & 1 == 1 {
        block_on(aprim(&mut TCompactInputStreamProtocol::new(&mut s, usize::MAX), what)).map(|_| ())
    } else {
        prim(&mut TCompactInputProtocol::new(&mut s, usize::MAX), what).map(|_| ())
    };
    judge(outcome(&r), &s.plan, class);
}
fn write_call(c: u64) {
    let o = make(c & 0xff, Args::Wide);
    let (p, class) = plan(c);
    reach(1);
    let mut s = Sink::new(p);
    if o == Op::StructEnd {
        return;
    }
    let r = if c >> 8 & 1 == 1 {
        block_on(awrite(&mut TCompactOutputStreamProtocol::new(&mut s), &o)).map(|_| ())
    } else {
        write(&mut TCompactOutputProtocol::new(&mut s), &o).map(|_| ())
    };
    judge(outcome(&r), &s.plan, class);
}
/// type | asynchronous << 8 | kind << 16 | slow << 24 | pattern << 28 | write << 32 | with unknown fields << 33
fn type_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for s in 0..2 {
            for w in 0..3 {
                for k in 0..2 {
                    let small = sizes(ty, Pat::All).len < 400;
                    let k = if k == 1 { 1 + ty % 4 } else { 0 };
                    if k > 0 && !small && tier == 0 && ty != N_TYPES - 2 {
                        continue;
                    }
                    v.push(pack(ty, s, k, 0) | w << 32);
                    if small || tier > 0 {
                        v.push(pack(ty, s, k, 1) | w << 32);
                        v.push(pack(ty, s, k, 0) | w << 32 | 1 << 28);
                    }
                }
            }
        }
    }
    v
}
/// an unknown struct with everything that can be skipped
fn stranger(_: &mut Enc) -> (i16, u8, Vec<u8>) {
    let b = vec![
        0x11, 0x13, 5, 0x14, 2, 0x15, 2, 0x16, 2, 0x17, 0, 0, 0, 0, 0, 0, 8, 64, // scalars
        0x18, 3, b'x', b'y', b'z', // string
        0x19, 0x28, 1, 0xff, 0, // list of two byte arrays
        0x1a, 0x33, 1, 2, 3, // set of three bytes
        0x1b, 2, 0x35, 1, 2, 3, 4, // map of two
        0x1c, 0x18, 1, b'q', 0, // struct
        0,
    ];
    (200, 12, b)
}
struct Types(u64);
impl Visit for Types {
    fn visit<T: Meta>(&mut self) {
        let c = self.0;
        let v: T = plain(if c >> 28 & 1 == 1 { Pat::Alt } else { Pat::All });
        let side = SIDES[(c >> 8 & 1) as usize];
        let (p, class) = plan(c);
        reach(1);
        if c >> 32 == 1 {
            let (r, s) = wr_with(side, &v, p, 1);
            judge(outcome(&r), &s.plan, class);
        } else {
            let mut e = if c >> 32 == 2 { Enc::twisted(Twist::Unknown, 0, 0) } else { Enc::new() };
            if T::UNION {
                e = Enc::new();
            }
            e.unknown = Some(stranger);
            let mut b = vec![];
            v.body(&mut e, &mut b, false);
            let g = rd_with::<T>(side, &b, p, usize::MAX, 1);
            judge(outcome(&g.r), &g.plan, class);
        }
    }
}
fn types(c: u64) {
    on_type(c & 0xff, &mut Types(c));
}
harnesses! {
    "c18_reads" h_c18_reads n_c18_reads : read_calls => read_call;
    "c18_writes" h_c18_writes n_c18_writes : read_calls => write_call;
    "c18_long" h_c18_long n_c18_long : crate::long::fail_cases => crate::long::run_fail;
    "c18_types" h_c18_types n_c18_types : type_cases => types;
}
