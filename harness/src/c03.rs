use crate::io::*;
use crate::rd::*;
use crate::rt::*;
use crate::schema::*;
use crate::vals::*;
use parquet_format_safe::thrift::protocol::*;

struct Types(u64);
impl Visit for Types {
    fn visit<T: Meta>(&mut self) {
        let (b, budget) = input::<T>(self.0);
        reach(1);
        let x = rd_with::<T>(Sync, &b, Plan::whole(), budget, 1);
        let y = rd_with::<T>(Async, &b, Plan::whole(), budget, 1);
        observe(1, outcome(&x.r) as u64);
        observe(2, x.used as u64);
        check!(outcome(&x.r) == outcome(&y.r), "the readers do not agree on success or on the kind of error");
        if let (Ok(x), Ok(y)) = (&x.r, &y.r) {
            reach(2);
            check!(x == y, "the asynchronous reader returns another value");
        }
        check!(x.used == y.used, "the asynchronous reader consumes another number of bytes");
    }
}
fn types(c: u64) {
    on_type(c & 0xff, &mut Types(c));
}
fn type_cases(tier: u64) -> Vec<u64> {
    if tier == 0 {
        inputs(2, 12, false)
    } else {
        inputs(3, 60, true)
    }
}
/// well-formed values
struct Values(VCase);
impl Visit for Values {
    fn visit<T: Meta>(&mut self) {
        let v: T = value(self.0);
        let mut b = vec![];
        v.body(&mut Enc::new(), &mut b, true);
        let budget = usize::MAX;
        let x = rd_with::<T>(Sync, &b, Plan::whole(), budget, 1);
        let y = rd_with::<T>(Async, &b, Plan::whole(), budget, 1);
        observe(2, x.used as u64);
        check!(outcome(&x.r) == outcome(&y.r), "the readers do not agree on a well-formed value");
        if let (Ok(x), Ok(y)) = (&x.r, &y.r) {
            reach(2);
            check!(x == y, "the asynchronous reader returns another value for a well-formed one");
        }
        check!(x.used == y.used, "the asynchronous reader consumes another part of a well-formed value");
    }
}
fn values(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Values(c));
}
/// calls on the same reader: first | second << 8 | bytes << 16 | first byte's top bits << 24
pub fn prim_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for a in 0..N_PRIM {
        // skips and lists branch most
        let wild = a >= 16 && a != 27;
        let nested = a >= 23 && a <= 26 || a == 32;
        if nested {
            v.push(a | 0xff << 8 | 3 << 16 | 8 << 24);
            if tier > 0 {
                for h in 0..8 {
                    v.push(a | 0xff << 8 | 4 << 16 | h << 24);
                }
            }
        } else {
            v.push(a | 0xff << 8 | if wild { 4 + tier } else { 7 } << 16 | 8 << 24);
        }
        for b in 0..N_PRIM {
            // what a call leaves behind: a pending boolean, a field id, less budget
            if tier == 0 && !matches!(b, 2 | 4 | 5 | 12) {
                continue;
            }
            v.push(a | b << 8 | (3 + if nested { 0 } else { tier }) << 16 | 8 << 24);
        }
    }
    // field ids that run out of range
    v.push(2 | 2 << 8 | 6 << 16 | 8 << 24);
    v.push(3 | 3 << 8 | 6 << 16 | 8 << 24);
    v
}
pub fn prim_data(c: u64) -> (Vec<u8>, usize) {
    let b = any_bytes((c >> 16 & 0xff) as usize);
    let h = c >> 24 & 15;
    if h < 8 {
        assume(b[0] >> 5 == h as u8);
    }
    (b, int(64) as usize)
}
fn prims(c: u64) {
    let (b, budget) = prim_data(c);
    reach(1);
    let (mut s, mut t) = (Src::new(&b, Plan::whole()), Src::new(&b, Plan::whole()));
    let mut p = TCompactInputProtocol::new(&mut s, budget);
    let mut q = TCompactInputStreamProtocol::new(&mut t, budget);
    for k in [c & 0xff, c >> 8 & 0xff] {
        if k == 0xff {
            break;
        }
        let x = prim(&mut p, k);
        let y = block_on(aprim(&mut q, k));
        observe(1, outcome(&x) as u64);
        check!(outcome(&x) == outcome(&y), "the protocols do not agree on success or on the kind of error");
        match (x, y) {
            (Ok(x), Ok(y)) => {
                reach(2);
                check!(x == y, "the asynchronous protocol returns another value")
            }
            _ => break,
        }
    }
    check!(s.pos == t.pos, "the asynchronous protocol consumes another number of bytes");
}
harnesses! {
    "c03_long" h_c03_long n_c03_long : crate::long::budget_cases => crate::long::run_budget;
    "c03_values" h_c03_values n_c03_values : value_cases => values;
    "c03_types" h_c03_types n_c03_types : type_cases => types;
    "c03_prims" h_c03_prims n_c03_prims : prim_cases => prims;
    "c03_spoilt" h_c03_spoilt n_c03_spoilt : crate::long::spoilt_both_cases => |c| crate::long::run_spoilt(None, c);
}
