use crate::ops::*;
use crate::rt::*;
use crate::schema::*;
use crate::vals::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::*;

struct Values(VCase);
impl Visit for Values {
    fn visit<T: Meta>(&mut self) {
        if T::UNION {
            return;
        }
        let mut g = G::new(self.0.pat, self.0.wide);
        g.sym_opts = self.0.sym_opts;
        // all fields of a type distinguishable: integers range over all values
        g.all = true;
        let v: T = T::make(&mut g);
        reach(1);
        check!(v.rebuild() == v, "a constructor puts an argument into another field");
    }
}
fn cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for pat in PATS {
            v.push(pack(VCase { ty, pat, wide: NOWIDE, sym_opts: true, extra: 0 }));
        }
    }
    v
}
fn values(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Values(c));
}
macro_rules! same {
    ($($t:ident)*) => { $(
        check!($t::default() == $t::new() && $t::default() == $t {}, "an empty struct has another default");
    )* };
}
fn defaults(_: u64) {
    reach(1);
    same!(StringType UUIDType MapType ListType EnumType DateType NullType MilliSeconds MicroSeconds NanoSeconds JsonType
        BsonType IndexPageHeader SplitBlockAlgorithm XxHash Uncompressed EncryptionWithFooterKey TypeDefinedOrder);
}
fn one(_: u64) -> Vec<u64> {
    vec![0]
}
/// identifiers of the protocol layer
fn ids(_: u64) {
    let t = WIRE[pick(11) as usize].0;
    let u = WIRE[pick(11) as usize].0;
    let n = int(32) as u32;
    let id = sext(int(16), 16) as i16;
    let s = text(Args::Wide);
    reach(1);
    let l = TListIdentifier::new(t, n);
    check!(l.element_type == t && l.size == n, "a list identifier is made with other contents");
    let l = TSetIdentifier::new(t, n);
    check!(l.element_type == t && l.size == n, "a set identifier is made with other contents");
    let m = TMapIdentifier::new(t, Some(u), n);
    check!(m.key_type == Some(t) && m.value_type == Some(u) && m.size == n, "a map identifier is made with other contents");
    let m = TMapIdentifier::new(None, u, n);
    check!(m.key_type.is_none() && m.value_type == Some(u) && m.size == n, "a map identifier is made with other contents");
    let f = TFieldIdentifier::new(s.as_str(), t, id);
    check!(f.name.as_ref() == Some(&s) && f.field_type == t && f.id == Some(id), "a field identifier is made with other contents");
    let f = TFieldIdentifier::new::<Option<String>, String, Option<i16>>(None, t, None);
    check!(f.name.is_none() && f.field_type == t && f.id.is_none(), "a field identifier is made with other contents");
    let x = TStructIdentifier::new(s.as_str());
    check!(x.name == s, "a struct identifier is made with another name");
    let m = TMessageIdentifier::new(s.as_str(), MSG[1], n);
    check!(m.name == s && m.message_type == MSG[1] && m.sequence_number == n, "a message identifier is made with other contents");
}
harnesses! {
    "c27_new" h_c27_new n_c27_new : cases => values;
    "c27_defaults" h_c27_defaults n_c27_defaults : one => defaults;
    "c27_ids" h_c27_ids n_c27_ids : one => ids;
}
