//! Values compare, hash, order and clone by all of their parts.
use crate::c25::KINDS;
use crate::c26::{PKINDS, TKINDS};
use crate::ops::*;
use crate::rt::*;
use crate::schema::*;
use crate::vals::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// What is fed to a hasher.
#[derive(Default)]
struct Fed(Vec<u64>);
macro_rules! fed {
    ($($f:ident $t:ty),*) => { $( fn $f(&mut self, v: $t) { self.0.push(v as u64) } )* };
}
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0.push(*x as u64);
        }
    }
    fed!(write_u8 u8, write_u16 u16, write_u32 u32, write_u64 u64, write_usize usize,
        write_i8 i8, write_i16 i16, write_i32 i32, write_i64 i64, write_isize isize);
}
fn hash<T: Hash>(v: &T) -> Vec<u64> {
    let mut h = Fed::default();
    v.hash(&mut h);
    h.0
}
fn same_words(a: &[u64], b: &[u64]) -> bool {
    let mut r = a.len() == b.len();
    if r {
        for i in 0..a.len() {
            r &= a[i] == b[i];
        }
    }
    r
}
/// equality, hash and order of two values, of which `same` tells whether they are equal
fn two<T: Ord + Hash + Clone>(v: &T, w: &T, same: bool) {
    let eq = v == w;
    check!(eq == same, "two values are equal although a part differs, or unequal although none does");
    check!((v != w) != eq, "two values are both equal and unequal, or neither");
    check!((w == v) == eq, "equality depends on the side");
    if eq {
        check!(same_words(&hash(v), &hash(w)), "equal values are hashed differently");
    }
    let o = v.cmp(w);
    check!((o == Ordering::Equal) == eq, "two values are ordered as equal but are not, or the reverse");
    check!(w.cmp(v) == o.reverse(), "the order of two values depends on the side");
    check!(v.partial_cmp(w) == Some(o), "the partial order differs from the order");
}
struct Pair(VCase);
impl Visit for Pair {
    fn visit<T: Meta>(&mut self) {
        let c = self.0;
        let mut g = G::new(c.pat, c.wide);
        g.sym_opts = c.sym_opts;
        g.calm = c.wide != NOWIDE;
        let v = T::make(&mut g);
        let mut g = G::new(c.pat, c.wide);
        g.calm = c.wide != NOWIDE;
        let w = T::make(&mut g);
        reach(1);
        let same = v.same(&w);
        two(&v, &w, same);
        let x = v.clone();
        check!(x.same(&v), "a clone differs from its original");
        let mut y = w.clone();
        y.clone_from(&v);
        check!(y.same(&v), "a value differs from what it was assigned from");
    }
}
fn pair_cases(t: u64) -> Vec<u64> {
    value_cases(t)
}
fn pair(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Pair(c));
}
/// three values, two leaves of which vary
struct Three(VCase);
impl Visit for Three {
    fn visit<T: Meta>(&mut self) {
        let c = self.0;
        let mk = || {
            let mut g = G::new(c.pat, c.wide);
            g.calm = true;
            g.wide2 = c.extra as u32;
            g.short = true;
            T::make(&mut g)
        };
        let (u, v, w) = (mk(), mk(), mk());
        reach(1);
        if u <= v && v <= w {
            check!(u <= w, "the order of three values is no order");
            check!((u == w) == (u == v && v == w) || u < w, "the order of three values is no order");
        }
    }
}
fn three_cases(t: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for pat in PATS {
            let n = leaves(ty, pat);
            for a in 0..n {
                for b in a + 1..n {
                    // neighbours, or any two
                    if t == 0 && b > a + 1 {
                        continue;
                    }
                    v.push(pack(VCase { ty, pat, wide: a, sym_opts: false, extra: b as u64 }));
                }
            }
        }
    }
    v
}
fn three(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Three(c));
}
/// the seven enum types, codes unconstrained
fn enum_cases(_: u64) -> Vec<u64> {
    (0..7).collect()
}
fn enums(c: u64) {
    let (a, b, d) = (int(32) as i32, int(32) as i32, int(32) as i32);
    macro_rules! on {
        ($($i:literal $t:ident)*) => { match c { $( $i => {
            use parquet_format_safe::$t;
            let (u, v, w) = ($t(a), $t(b), $t(d));
            reach(1);
            two(&u, &v, a == b);
            check!(u.clone().0 == a, "a clone differs from its original");
            if u <= v && v <= w {
                check!(u <= w, "the order of three values is no order");
            }
        } )* _ => {} } };
    }
    on!(0 Type 1 ConvertedType 2 FieldRepetitionType 3 Encoding 4 CompressionCodec 5 PageType 6 BoundaryOrder);
}
/// identifiers of the protocol layer and the errors
fn part_cases(_: u64) -> Vec<u64> {
    (0..9).collect()
}
fn name() -> String {
    let n = pick(3) as usize;
    let mut s = String::new();
    for _ in 0..n {
        let b = u8_();
        assume(b < 0x80);
        s.push(b as char);
    }
    s
}
fn same_text(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut r = a.len() == b.len();
    if r {
        for i in 0..a.len() {
            r &= a[i] == b[i];
        }
    }
    r
}
fn parts(c: u64) {
    macro_rules! cmp {
        ($a:expr, $b:expr, $same:expr) => {{
            reach(1);
            let (a, b, same) = ($a, $b, $same);
            check!((a == b) == same, "two identifiers or errors are equal although a part differs, or the reverse");
            check!((a != b) != same, "two identifiers or errors are both equal and unequal, or neither");
        }};
    }
    match c {
        0 => {
            let (s, t) = (name(), name());
            let (m, n) = (MSG[pick(4) as usize], MSG[pick(4) as usize]);
            let (i, j) = (int(32) as u32, int(32) as u32);
            let same = same_text(&s, &t) & (m as u8 == n as u8) & (i == j);
            let a = TMessageIdentifier::new(s, m, i);
            check!(a.clone() == a, "a clone differs from its original");
            cmp!(a, TMessageIdentifier::new(t, n, j), same)
        }
        1 => {
            let (s, t) = (name(), name());
            let same = same_text(&s, &t);
            let a = TStructIdentifier::new(s);
            check!(a.clone() == a, "a clone differs from its original");
            cmp!(a, TStructIdentifier::new(t), same)
        }
        2 => {
            let (s, t) = (if flip() { Some(name()) } else { None }, if flip() { Some(name()) } else { None });
            let (m, n) = (WIRE[pick(11) as usize].0, WIRE[pick(11) as usize].0);
            let (i, j) = (if flip() { Some(int(16) as i16) } else { None }, if flip() { Some(int(16) as i16) } else { None });
            let names = match (&s, &t) {
                (Some(s), Some(t)) => same_text(s, t),
                (None, None) => true,
                _ => false,
            };
            let ids = match (i, j) {
                (Some(i), Some(j)) => i == j,
                (None, None) => true,
                _ => false,
            };
            let same = names & ids & (m as u8 == n as u8);
            let a = TFieldIdentifier { name: s, field_type: m, id: i };
            check!(a.clone() == a, "a clone differs from its original");
            cmp!(a, TFieldIdentifier { name: t, field_type: n, id: j }, same)
        }
        3 | 4 => {
            let (m, n) = (WIRE[pick(11) as usize].0, WIRE[pick(11) as usize].0);
            let (i, j) = (int(32) as u32, int(32) as u32);
            let same = (m as u8 == n as u8) & (i == j);
            if c == 3 {
                cmp!(TListIdentifier::new(m, i), TListIdentifier::new(n, j).clone(), same)
            } else {
                cmp!(TSetIdentifier::new(m, i), TSetIdentifier::new(n, j).clone(), same)
            }
        }
        5 => {
            let t = || if flip() { Some(WIRE[[0, 3, 10][pick(3) as usize]].0) } else { None };
            let (a, b, d, e) = (t(), t(), t(), t());
            let (i, j) = (int(32) as u32, int(32) as u32);
            let o = |a: Option<TType>| a.map_or(255, |t| t as u8);
            let same = (o(a) == o(b)) & (o(d) == o(e)) & (i == j);
            cmp!(
                TMapIdentifier { key_type: a, value_type: d, size: i },
                TMapIdentifier { key_type: b, value_type: e, size: j }.clone(),
                same
            )
        }
        6 => {
            let (s, t) = (name(), name());
            let (i, j) = (pick(7) as usize, pick(7) as usize);
            let same = same_text(&s, &t) & (i == j);
            cmp!(TransportError::new(TKINDS[i], s), TransportError::new(TKINDS[j], t), same)
        }
        7 => {
            let (s, t) = (name(), name());
            let (i, j) = (pick(7) as usize, pick(7) as usize);
            let same = same_text(&s, &t) & (i == j);
            cmp!(ProtocolError::new(PKINDS[i], s), ProtocolError::new(PKINDS[j], t), same)
        }
        _ => {
            let (s, t) = (name(), name());
            let (i, j) = (pick(11) as usize, pick(11) as usize);
            let same = same_text(&s, &t) & (i == j);
            cmp!(ApplicationError::new(KINDS[i], s), ApplicationError::new(KINDS[j], t), same)
        }
    }
}
harnesses! {
    "c30_pair" h_c30_pair n_c30_pair : pair_cases => pair;
    "c30_three" h_c30_three n_c30_three : three_cases => three;
    "c30_enums" h_c30_enums n_c30_enums : enum_cases => enums;
    "c30_parts" h_c30_parts n_c30_parts : part_cases => parts;
}
