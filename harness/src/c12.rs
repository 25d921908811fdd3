use crate::junk;
use crate::ops::WIRE;
use crate::rd::*;
use crate::rt::*;
use crate::schema::*;

/// type | wire type << 8 | shape << 12 | struct << 20 | any id << 36 | pattern << 37
fn cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for (p, pat) in [Pat::All, Pat::Alt].iter().enumerate() {
            if p == 1 && tier == 0 {
                continue;
            }
            let e = sizes(ty, *pat).e;
            for i in 0..e.structs as u64 {
                for t in 0..11u64 {
                    if i > 0 && tier == 0 && !matches!(t, 0 | 6 | 9 | 10) {
                        continue;
                    }
                    // what is skipped does not depend on the type around it:
                    // all shapes in one small and one large type
                    let all = i == 0 && (ty == 0 || ty == N_TYPES - 2 || tier > 0);
                    let n = junk::SHAPES[t as usize];
                    for s in 0..n {
                        if all || s == n - 1 || s == 17 {
                            v.push(ty | t << 8 | s << 12 | i << 20 | (p as u64) << 37);
                        }
                    }
                    if all || i == 0 && t == 6 {
                        for s in 0..junk::longs(t as usize) {
                            if all && i == 0 || s == 2 {
                                v.push(ty | t << 8 | (junk::LONG + s) << 12 | i << 20 | (p as u64) << 37);
                            }
                        }
                    }
                    if i == 0 && (t == 1 || t == 0) {
                        v.push(ty | t << 8 | i << 20 | 1 << 36 | (p as u64) << 37);
                    }
                }
            }
        }
    }
    v
}
fn stranger(e: &mut Enc) -> (i16, u8, Vec<u8>) {
    let (t, s, any) = ((e.sel & 15) as usize, (e.sel >> 4 & 0xff) as usize, e.sel >> 12 & 1 == 1);
    let ids = e.ids;
    let id = if any {
        let id = int(16) as i16;
        for k in ids {
            assume(id != *k);
        }
        id
    } else {
        let last = ids.last().map_or(0, |x| *x);
        [last + 1, 1000][pick(2) as usize]
    };
    let mut b = vec![];
    let nib = if t == 0 {
        1 + flip() as u8
    } else {
        junk::shape(&mut b, t, s);
        WIRE[t].1
    };
    (id, nib, b)
}
struct Types(u64);
impl Visit for Types {
    fn visit<T: Meta>(&mut self) {
        let c = self.0;
        let v: T = plain(if c >> 37 & 1 == 1 { Pat::Alt } else { Pat::All });
        let mut e = Enc::twisted(Twist::Unknown, (c >> 20 & 0xffff) as u32, c >> 8 & 15 | (c >> 12 & 0xff) << 4 | (c >> 36 & 1) << 12);
        e.unknown = Some(stranger);
        let mut b = vec![];
        v.body(&mut e, &mut b, false);
        check!(e.hits > 0, "the encoding has no such struct");
        obs_bytes(1, &b);
        reach(1);
        for s in SIDES {
            let g = rd::<T>(s, &b);
            check!(g.r.is_ok(), "an unknown field makes reading fail");
            if let Ok(x) = g.r {
                check!(x == v, "an unknown field changes the value read");
            }
            check!(g.used == b.len(), "a value with an unknown field is not consumed to its end");
        }
    }
}
harnesses! {
    "c12_types" h_c12_types n_c12_types : cases => |c| on_type(c & 0xff, &mut Types(c));
}
