use crate::io::*;
use crate::ops::*;
use crate::rt::*;
use crate::schema::*;
use crate::vals::*;
use parquet_format_safe::thrift::protocol::*;

struct Values(VCase);
impl Visit for Values {
    fn visit<T: Meta>(&mut self) {
        let v: T = value(self.0);
        let (mut a, mut b) = (vec![], vec![]);
        let x = v.wr(&mut TCompactOutputProtocol::new(&mut a));
        let y = block_on(v.awr(&mut TCompactOutputStreamProtocol::new(&mut b)));
        obs_bytes(1, &a);
        check!(a == b, "the asynchronous writer emits other bytes than the synchronous one");
        check!(outcome(&x) == outcome(&y), "only one of the writers fails");
        if let (Ok(x), Ok(y)) = (x, y) {
            observe(2, y as u64);
            check!(x == y, "the writers return different byte counts");
        }
    }
}
fn values(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Values(c));
}
/// every operation after every operation
pub fn pairs(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for a in 0..N_OPS {
        for b in 0..N_OPS {
            v.push(a | b << 8);
        }
    }
    v
}
/// fields around a nested struct
pub fn nested(_: u64) -> Vec<u64> {
    (0..6).collect()
}
/// The operations of a case, the arguments chosen by the solver; inside a
/// struct so that it can be ended.
pub fn sequence(c: u64) -> Vec<Op> {
    let (a, b) = (c & 0xff, c >> 8 & 0xff);
    let first = if a == 4 || a == 5 { Args::Wide } else { Args::Narrow };
    let p = make(a, first);
    let q = make(b, Args::Wide);
    // two structs, since both may end one
    vec![Op::StructBegin, Op::StructBegin, p, q]
}
/// Field, struct with a field, field, with any ids and kinds.
pub fn nesting(c: u64) -> Vec<Op> {
    let f = |a: Args, b: bool| {
        if b {
            make(5, a)
        } else {
            // one wire type is enough here
            plain_field(a)
        }
    };
    let x = f(Args::Wide, c & 1 == 1);
    let y = f(if c < 2 { Args::Wide } else { Args::Narrow }, c & 1 == 0);
    let z = f(Args::Wide, c & 1 == 1);
    if c < 4 {
        vec![Op::StructBegin, x, Op::StructBegin, y, Op::FieldStop, Op::StructEnd, z, Op::FieldStop, Op::StructEnd]
    } else {
        vec![Op::StructBegin, x, Op::FieldStop, Op::StructEnd, Op::StructBegin, y, z, Op::FieldStop, Op::StructEnd]
    }
}
fn compare(ops: &[Op]) {
    reach(1);
    let (mut a, mut b) = (vec![], vec![]);
    {
        let mut p = TCompactOutputProtocol::new(&mut a);
        let mut q = TCompactOutputStreamProtocol::new(&mut b);
        for o in ops {
            let x = write(&mut p, o);
            let y = block_on(awrite(&mut q, o));
            check!(outcome(&x) == outcome(&y), "only one of the protocols fails a write call");
            if let (Ok(x), Ok(y)) = (x, y) {
                observe(2, y as u64);
                check!(x == y, "a write call returns different byte counts");
            }
        }
    }
    obs_bytes(1, &a);
    check!(a == b, "a write call emits other bytes asynchronously");
}
harnesses! {
    "c04_values" h_c04_values n_c04_values : value_cases => values;
    "c04_calls" h_c04_calls n_c04_calls : pairs => |c| compare(&sequence(c));
    "c04_long" h_c04_long n_c04_long : crate::long::op_cases => |c| compare(&crate::long::ops(c));
    "c04_nested" h_c04_nested n_c04_nested : nested => |c| compare(&nesting(c));
}
