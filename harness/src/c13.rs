use crate::rd::*;
use crate::rt::*;
use crate::schema::*;

const TWISTS: [Twist; 4] = [Twist::Drop, Twist::DropOpt, Twist::Empty, Twist::Twice];
/// type | twist << 8 | pattern << 12 | position << 16 | any number of fields << 32
fn cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for (p, pat) in [Pat::All, Pat::Alt, Pat::None].iter().enumerate() {
            let e = sizes(ty, *pat).e;
            let n = [e.structs, e.structs, e.unions, e.unions];
            for t in 0..4 {
                for i in 0..n[t] as u64 {
                    let c = ty | (t as u64) << 8 | (p as u64) << 12 | i << 16;
                    if t != 1 || p == 0 {
                        v.push(c);
                    }
                    if t == 0 && i == 0 {
                        v.push(c | 1 << 32);
                    }
                }
            }
        }
    }
    v
}
struct Types(u64);
impl Visit for Types {
    fn visit<T: Meta>(&mut self) {
        let c = self.0;
        let v: T = plain([Pat::All, Pat::Alt, Pat::None][(c >> 12 & 15) as usize]);
        let twist = TWISTS[(c >> 8 & 15) as usize];
        let mut e = Enc::twisted(twist, (c >> 16 & 0xffff) as u32, c >> 32);
        let mut b = vec![];
        v.body(&mut e, &mut b, false);
        check!(e.hits > 0, "the encoding has no such place");
        obs_bytes(1, &b);
        reach(1);
        for s in SIDES {
            let g = rd::<T>(s, &b);
            observe(2, crate::io::outcome(&g.r) as u64);
            match twist {
                Twist::Empty => check!(g.r.is_err(), "an empty union is accepted"),
                Twist::Twice => check!(g.r.is_err(), "a union with two alternatives is accepted"),
                _ => {
                    if e.reqs > 0 {
                        check!(g.r.is_err(), "a struct without a required field is accepted");
                    } else {
                        check!(g.r.is_ok(), "a struct with all its required fields is refused");
                        if let Ok(x) = g.r {
                            // what was left out is absent, everything else is there
                            check!(enc(&x) == b, "leaving out an optional field changes other fields");
                        }
                    }
                }
            }
        }
    }
}
harnesses! {
    "c13_types" h_c13_types n_c13_types : cases => |c| on_type(c & 0xff, &mut Types(c));
}
