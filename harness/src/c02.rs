use crate::schema::*;
use crate::vals::*;
use parquet_format_safe::thrift::protocol::*;

struct RoundTrip(VCase);
impl Visit for RoundTrip {
    fn visit<T: Meta>(&mut self) {
        let v: T = value(self.0);
        let mut buf = vec![];
        let w = crate::rt::block_on(v.awr(&mut TCompactOutputStreamProtocol::new(&mut buf)));
        check!(w.is_ok(), "writing a value to a Vec failed");
        crate::rt::obs_bytes(1, &buf);
        let mut src: &[u8] = &buf;
        match crate::rt::block_on(T::ard(&mut TCompactInputStreamProtocol::new(&mut src, usize::MAX))) {
            Ok(r) => check!(r == v, "the value read back differs from the value written"),
            Err(_) => check!(false, "the bytes written cannot be read back"),
        }
    }
}
pub fn run(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut RoundTrip(c));
}
harnesses! {
    "c02_roundtrip" h_c02_roundtrip n_c02_roundtrip : value_cases => run;
    "c02_long" h_c02_long n_c02_long : crate::long::cases => |c| crate::long::run(crate::rd::Side::Async, c);
}
