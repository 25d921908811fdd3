use crate::io::*;
use crate::ops::*;
use crate::rd::*;
use crate::rt::*;
use crate::schema::*;
use crate::vals::*;
use parquet_format_safe::thrift::protocol::*;

/// a value followed by arbitrary bytes, or by another value
struct Types(VCase);
impl Visit for Types {
    fn visit<T: Meta>(&mut self) {
        let c = self.0;
        let side = SIDES[(c.extra & 1) as usize];
        let v: T = value(c);
        let b = enc(&v);
        let mut all = b.clone();
        if c.extra >> 1 == 0 {
            let rest = any_bytes(3);
            all.extend_from_slice(&rest);
            obs_bytes(1, &all);
            let g = rd::<T>(side, &all);
            check!(g.used == b.len(), "reading a value does not end behind it");
            match g.r {
                Ok(x) => check!(x == v, "what follows a value changes it"),
                Err(_) => check!(false, "what follows a value makes reading it fail"),
            }
            return;
        }
        // one value after the other
        on_type((c.ty + (c.extra >> 2) * 7) % N_TYPES, &mut Second { first: v, side });
    }
}
struct Second<T> {
    first: T,
    side: Side,
}
impl<A: Meta> Visit for Second<A> {
    fn visit<B: Meta>(&mut self) {
        let w: B = plain(Pat::Alt);
        // written one after the other with the same protocol, three values
        let mut out = vec![];
        {
            let mut p = TCompactOutputProtocol::new(&mut out);
            check!(self.first.wr(&mut p).is_ok() && w.wr(&mut p).is_ok() && self.first.wr(&mut p).is_ok(), "writing values back to back fails");
        }
        obs_bytes(1, &out);
        let (a, b) = (enc(&self.first), enc(&w));
        let (na, nb) = (a.len(), b.len());
        check!(out.len() == 2 * na + nb && out[..na] == a[..] && out[na..na + nb] == b[..] && out[na + nb..] == a[..], "a value written after another is written differently");
        let mut s = Src::new(&out, Plan::whole());
        // the same reader
        let (x, y, z) = match self.side {
            Sync => {
                let mut p = TCompactInputProtocol::new(&mut s, usize::MAX);
                (A::rd(&mut p), B::rd(&mut p), A::rd(&mut p))
            }
            Async => {
                let mut p = TCompactInputStreamProtocol::new(&mut s, usize::MAX);
                (block_on(A::ard(&mut p)), block_on(B::ard(&mut p)), block_on(A::ard(&mut p)))
            }
        };
        check!(matches!(x, Ok(x) if x == self.first), "the first of several values is not read back");
        check!(matches!(y, Ok(y) if y == w), "a second value is not read back with the same reader");
        check!(matches!(z, Ok(z) if z == self.first), "a third value is not read back with the same reader");
        check!(s.pos == out.len(), "reading several values does not end behind them");
        // new readers over the rest
        let g = rd::<A>(self.side, &out);
        check!(g.used == na, "reading the first of several values does not end behind it");
        let h = rd::<B>(self.side, &out[g.used..]);
        check!(matches!(h.r, Ok(y) if y == w) && h.used == nb, "a second value is not read back with a new reader");
    }
}
fn type_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for s in 0..2 {
            for pat in PATS {
                for sym_opts in [false, true] {
                    if !sym_opts || pat == Pat::All {
                        v.push(pack(VCase { ty, pat, wide: NOWIDE, sym_opts, extra: s }));
                    }
                }
                for k in 0..if tier == 0 { 2 } else { 7 } {
                    v.push(pack(VCase { ty, pat, wide: NOWIDE, sym_opts: false, extra: s | 2 | k << 2 }));
                }
            }
            for wide in 0..leaves(ty, Pat::All) {
                if wide < 8 || tier > 0 {
                    v.push(pack(VCase { ty, pat: Pat::All, wide, sym_opts: false, extra: s }));
                }
            }
        }
    }
    v
}
fn types(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Types(c));
}
/// operation | asynchronous << 8
fn call_cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for x in [0, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 22] {
        for s in 0..2 {
            v.push(x | s << 8);
        }
    }
    v
}
fn call(c: u64) {
    let o = make(c & 0xff, Args::Wide);
    let mut r = Ref::new();
    r.put(&o);
    let n = r.out.len();
    let mut b = r.out;
    b.extend(any_bytes(4));
    obs_bytes(1, &b);
    reach(1);
    let mut s = Src::new(&b, Plan::whole());
    let r = if c >> 8 == 1 {
        block_on(aread(&mut TCompactInputStreamProtocol::new(&mut s, usize::MAX), &o))
    } else {
        read(&mut TCompactInputProtocol::new(&mut s, usize::MAX), &o)
    };
    check!(matches!(r, Ok(true)), "what follows changes what a read call returns");
    check!(s.pos == n, "a read call does not end behind what it reads");
}
harnesses! {
    "c20_types" h_c20_types n_c20_types : type_cases => types;
    "c20_long" h_c20_long n_c20_long : crate::long::followed_cases => crate::long::run_followed;
    "c20_calls" h_c20_calls n_c20_calls : call_cases => call;
}
