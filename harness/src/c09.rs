use crate::io::*;
use crate::ops::*;
use crate::rd::*;
use crate::rt::*;
use crate::schema::*;
use crate::vals::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::{KeyValue, PageLocation};

struct Types(VCase);
impl Visit for Types {
    fn visit<T: Meta>(&mut self) {
        let side = SIDES[(self.0.extra & 1) as usize];
        let v: T = value(self.0);
        let b = enc(&v);
        if self.0.wide == NOWIDE {
            // cut at every byte
            for cut in 0..b.len() {
                let g = rd_with::<T>(side, &b[..cut], Plan::whole(), usize::MAX, 1);
                check!(g.r.is_err(), "a value is read from a part of its encoding");
            }
            return;
        }
        // the end of the input is up to the solver
        let n = int(16) as usize;
        assume(n < b.len());
        let n = fix(n as u64) as usize;
        let g = rd_with::<T>(side, &b[..n], Plan::whole(), usize::MAX, 1);
        observe(1, outcome(&g.r) as u64);
        check!(g.r.is_err(), "a value is read from a part of its encoding");
    }
}
fn type_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    let most = if tier == 0 { 24 } else { 60 };
    for ty in (0..N_TYPES).rev() {
        for extra in 0..2 {
            for pat in PATS {
                v.push(pack(VCase { ty, pat, wide: NOWIDE, sym_opts: false, extra }));
            }
            if sizes(ty, Pat::All).len <= most {
                for wide in 0..leaves(ty, Pat::All) {
                    v.push(pack(VCase { ty, pat: Pat::All, wide, sym_opts: false, extra }));
                }
            }
        }
    }
    v
}
fn types(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Types(c));
}

/// operation | asynchronous << 8 | through `ReadThrift`, a list or a skip << 9
fn call_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for s in 0..2 {
        for k in 0..N_OPS {
            v.push(k | s << 8);
        }
        for k in 0..14 {
            v.push(k | s << 8 | 1 << 9);
        }
        for k in 0..4 {
            for n in [40, 255, 300, 1000, 2500, 5000, 8192, 16385] {
                if n < 6000 || tier > 0 || k == 0 {
                    v.push(k | s << 8 | n << 20);
                }
            }
        }
        // lists of more elements
        for k in 0..7 {
            for n in [3, 4, 5, 6, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 64, 65] {
                if n < 10 || tier > 0 || k % 2 == 0 {
                    v.push(k | s << 8 | n << 10);
                }
            }
        }
    }
    v
}
/// byte arrays, texts and lists of them with one of `n` bytes
fn long(k: u64, n: usize) -> (u64, Vec<u8>) {
    let mut b = vec![];
    if k == 3 {
        b.push(0x38);
        b.extend([1, 7]);
    }
    Enc::uv(&mut b, n as u64);
    for i in 0..n {
        b.push(1 + (i % 100) as u8);
    }
    if k == 3 {
        b.extend([2, 8, 9]);
    }
    ([5, 11, 27, 28][k as usize], b)
}
/// a list of `n` elements: what reads it, and its encoding
fn list(k: u64, n: u64) -> (u64, Vec<u8>) {
    let (p, el, op) = [(29, 4, 13), (28, 6, 9), (30, 0, 8), (31, 1, 22), (33, 10, 98), (34, 6, 15), (35, 10, 99)][k as usize];
    let mut r = Ref::new();
    r.put(&Op::ListBegin(el, n as u32));
    for i in 0..n {
        if op == 99 {
            r.out.extend(enc::<KeyValue>(&plain(Pat::Alt)));
        } else if op == 98 {
            r.out.extend(enc::<PageLocation>(&plain(Pat::Alt)));
        } else {
            // the last is unconstrained
            r.put(&make(op, if i == n - 1 { Args::Wide } else { Args::Fixed }));
        }
    }
    (p, r.out)
}
/// a read that goes through a list or a skip: what is read, and its encoding
fn deep(k: u64) -> (u64, Vec<u8>) {
    let mut r = Ref::new();
    let p = match k {
        0 => {
            r.put(&make(15, Args::Wide));
            27
        }
        1 => {
            r.put(&Op::ListBegin(6, 2));
            r.put(&make(9, Args::Wide));
            r.put(&make(9, Args::Narrow));
            28
        }
        2 => {
            r.put(&Op::ListBegin(4, 2));
            r.put(&make(13, Args::Narrow));
            r.put(&make(13, Args::Wide));
            29
        }
        3 => {
            r.put(&Op::ListBegin(0, 2));
            r.put(&make(8, Args::Wide));
            r.put(&make(8, Args::Wide));
            30
        }
        4 => {
            r.put(&Op::ListBegin(1, 2));
            r.put(&make(22, Args::Wide));
            r.put(&make(22, Args::Wide));
            31
        }
        5 => {
            r.put(&make(14, Args::Wide));
            21
        }
        6 => {
            r.put(&make(9, Args::Wide));
            22
        }
        7 => {
            r.put(&Op::ListBegin(6, 2));
            r.put(&make(9, Args::Narrow));
            r.put(&make(9, Args::Wide));
            23
        }
        8 => {
            r.put(&Op::SetBegin(3, 15));
            for _ in 0..14 {
                r.put(&Op::I32(3));
            }
            r.put(&make(12, Args::Wide));
            24
        }
        9 => {
            r.put(&Op::MapBegin(3, 6, 1));
            r.put(&make(12, Args::Wide));
            r.put(&make(9, Args::Wide));
            25
        }
        10 => {
            r.put(&Op::StructBegin);
            r.put(&make(5, Args::Wide));
            r.put(&Op::Field(6, 300));
            r.put(&make(9, Args::Wide));
            r.put(&Op::FieldStop);
            26
        }
        11 => {
            r.put(&Op::ListBegin(10, 2));
            for _ in 0..2 {
                r.put(&make(4, Args::Fixed));
                r.put(&Op::I32(5));
                r.put(&Op::FieldStop);
            }
            23
        }
        12 => {
            r.put(&Op::MapBegin(6, 0, 2));
            r.put(&make(9, Args::Narrow));
            r.put(&make(8, Args::Wide));
            r.put(&make(9, Args::Wide));
            r.put(&make(8, Args::Wide));
            25
        }
        _ => {
            r.put(&Op::Field(1, 4));
            r.put(&make(10, Args::Wide));
            r.put(&Op::FieldStop);
            32
        }
    };
    (p, r.out)
}
fn calls(c: u64) {
    let asy = c >> 8 & 1 == 1;
    let k = c & 0xff;
    let (what, b) = if c >> 20 > 0 {
        long(k, (c >> 20) as usize)
    } else if c >> 10 > 0 {
        list(k, c >> 10)
    } else if c >> 9 == 1 {
        deep(k)
    } else {
        let o = make(k, Args::Wide);
        let mut r = Ref::new();
        r.put(&o);
        let p = match k {
            0 => 0,
            4 | 5 | 7 => k.min(5) - 2,
            8 => 4,
            9 => 5,
            10..=14 => k - 4,
            15 => 11,
            16 => 12,
            18 => 13,
            20 => 14,
            22 => 15,
            // nothing is written
            _ => 99,
        };
        (if k == 7 { 2 } else { p }, r.out)
    };
    reach(1);
    if what == 99 {
        check!(b.is_empty(), "a call that writes nothing has bytes to read");
        return;
    }
    let n = crate::long::cut_at(b.len());
    let mut s = Src::new(&b[..n], Plan::whole());
    let r = if asy {
        block_on(aprim(&mut TCompactInputStreamProtocol::new(&mut s, usize::MAX), what)).map(|_| ())
    } else {
        prim(&mut TCompactInputProtocol::new(&mut s, usize::MAX), what).map(|_| ())
    };
    observe(1, outcome(&r) as u64);
    check!(r.is_err(), "a read call succeeds on a part of what it reads");
}
harnesses! {
    "c09_types" h_c09_types n_c09_types : type_cases => types;
    "c09_long" h_c09_long n_c09_long : crate::long::cut_cases => crate::long::run_cut;
    "c09_calls" h_c09_calls n_c09_calls : call_cases => calls;
}
