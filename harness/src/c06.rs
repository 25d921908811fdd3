use crate::io::*;
use crate::rd::*;
use crate::rt::*;
use crate::schema::*;
use parquet_format_safe::thrift::protocol::*;

struct Types(u64);
impl Visit for Types {
    fn visit<T: Meta>(&mut self) {
        let (b, budget) = input::<T>(self.0);
        reach(1);
        let g = rd_with::<T>(Sync, &b, Plan::whole(), budget, 1);
        observe(1, outcome(&g.r) as u64);
        observe(2, g.used as u64);
        if let Ok(v) = &g.r {
            reach(2);
            check!(g.used > 0, "a value is read from nothing");
            // what was read can be looked at and dropped
            check!(v == v, "a value differs from itself");
        }
    }
}
fn types(c: u64) {
    on_type(c & 0xff, &mut Types(c));
}
fn type_cases(tier: u64) -> Vec<u64> {
    if tier == 0 {
        inputs(2, 20, false)
    } else {
        inputs(3, 100, true)
    }
}
fn prims(c: u64) {
    let (b, budget) = crate::c03::prim_data(c);
    reach(1);
    let mut s = Src::new(&b, Plan::whole());
    {
        let mut p = TCompactInputProtocol::new(&mut s, budget);
        for k in [c & 0xff, c >> 8 & 0xff] {
            if k == 0xff {
                break;
            }
            let x = prim(&mut p, k);
            observe(1, outcome(&x) as u64);
            if x.is_err() {
                break;
            }
            reach(2);
        }
    }
    check!(s.pos <= b.len(), "more is consumed than there is");
}
harnesses! {
    "c06_types" h_c06_types n_c06_types : type_cases => types;
    "c06_prims" h_c06_prims n_c06_prims : crate::c03::prim_cases => prims;
    "c06_spoilt" h_c06_spoilt n_c06_spoilt : crate::long::spoilt_cases => |c| crate::long::run_spoilt(Some(Sync), c);
}
