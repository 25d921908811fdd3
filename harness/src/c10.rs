use crate::rt::*;
use crate::schema::*;
use crate::vals::*;
use parquet_format_safe::thrift::protocol::*;

struct Canonical(VCase);
impl Visit for Canonical {
    fn visit<T: Meta>(&mut self) {
        let v: T = value(self.0);
        let mut buf = vec![];
        let w = v.wr(&mut TCompactOutputProtocol::new(&mut buf));
        check!(w.is_ok(), "writing a value to a Vec failed");
        let mut e = vec![];
        v.body(&mut Enc::new(), &mut e, true);
        obs_bytes(1, &buf);
        check!(buf == e, "the synchronous writer's bytes are not the canonical encoding");
        let mut buf = vec![];
        let w = block_on(v.awr(&mut TCompactOutputStreamProtocol::new(&mut buf)));
        check!(w.is_ok(), "writing a value to a Vec failed");
        check!(buf == e, "the asynchronous writer's bytes are not the canonical encoding");
    }
}
fn run(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Canonical(c));
}
harnesses! {
    "c10_long" h_c10_long n_c10_long : crate::long::cases => crate::long::run_canonical;
    "c10_canonical" h_c10_canonical n_c10_canonical : value_cases => run;
}
