use crate::rd::*;
use crate::rt::*;
use crate::schema::*;

const TWISTS: [Twist; 5] = [Twist::Struct, Twist::Union, Twist::List, Twist::Varint, Twist::Bools];
/// type | twist << 8 | pattern << 12 | position << 16 | swaps << 32
fn cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for (p, pat) in [Pat::All, Pat::Alt].iter().enumerate() {
            let e = sizes(ty, *pat).e;
            let n = [e.structs, e.unions, e.lists, e.varints, e.bools.min(1)];
            for t in 0..5 {
                for i in 0..n[t] as u64 {
                    let c = ty | (t as u64) << 8 | (p as u64) << 12 | i << 16;
                    if t == 0 && p == 1 && tier == 0 && i > 0 {
                        continue;
                    }
                    v.push(c);
                    if t == 0 && (tier > 0 || i == 0 && p == 0) {
                        v.push(c | 1 << 32);
                    }
                }
            }
        }
    }
    v
}
struct Types(u64);
impl Visit for Types {
    fn visit<T: Meta>(&mut self) {
        let c = self.0;
        let v: T = plain(if c >> 12 & 15 == 1 { Pat::Alt } else { Pat::All });
        let mut e = Enc::twisted(TWISTS[(c >> 8 & 15) as usize], (c >> 16 & 0xffff) as u32, c >> 32);
        let mut b = vec![];
        v.body(&mut e, &mut b, false);
        check!(e.hits > 0, "the encoding has no such place");
        obs_bytes(1, &b);
        reach(1);
        for s in SIDES {
            let g = rd::<T>(s, &b);
            check!(g.r.is_ok(), "a conforming encoding is refused");
            if let Ok(x) = g.r {
                check!(x == v, "a conforming encoding is read to another value");
            }
            check!(g.used == b.len(), "a conforming encoding is not consumed to its end");
        }
    }
}
harnesses! {
    "c11_types" h_c11_types n_c11_types : cases => |c| on_type(c & 0xff, &mut Types(c));
}
