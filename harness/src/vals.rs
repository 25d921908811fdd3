//! Case lists over values of the generated types.
use crate::rt::*;
use crate::schema::*;

pub const PATS: [Pat; 3] = [Pat::All, Pat::None, Pat::Alt];

/// A case: type, pattern of optional fields, which leaf is unconstrained.
#[derive(Clone, Copy)]
pub struct VCase {
    pub ty: u64,
    pub pat: Pat,
    pub wide: u32,
    pub sym_opts: bool,
    pub extra: u64,
}
pub fn pack(c: VCase) -> u64 {
    let p = match c.pat {
        Pat::All => 0,
        Pat::None => 1,
        Pat::Alt => 2,
    };
    c.ty | p << 8 | (c.sym_opts as u64) << 10 | (c.wide.min(0xffff) as u64) << 16 | c.extra << 32
}
pub fn unpack(c: u64) -> VCase {
    let w = (c >> 16 & 0xffff) as u32;
    VCase {
        ty: c & 0xff,
        pat: PATS[(c >> 8 & 3) as usize],
        sym_opts: c >> 10 & 1 == 1,
        wide: if w == 0xffff { NOWIDE } else { w },
        extra: c >> 32,
    }
}
struct Count {
    pat: Pat,
    n: u32,
}
impl Visit for Count {
    fn visit<T: Meta>(&mut self) {
        let mut g = G::new(self.pat, NOWIDE);
        g.count = true;
        let v = T::make(&mut g);
        self.n = g.leaf;
        std::mem::forget(v);
    }
}
pub fn leaves(ty: u64, pat: Pat) -> u32 {
    let mut c = Count { pat, n: 0 };
    on_type(ty, &mut c);
    c.n
}
/// Every type: presence of its own optional fields symbolic with everything
/// else narrow, then each leaf in turn unconstrained under each pattern.
pub fn value_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for (i, pat) in PATS.iter().enumerate() {
            if i < 2 {
                v.push(pack(VCase { ty, pat: *pat, wide: NOWIDE, sym_opts: true, extra: 0 }));
            }
            if i == 2 && tier == 0 {
                continue;
            }
            let n = leaves(ty, *pat);
            for wide in 0..n {
                v.push(pack(VCase { ty, pat: *pat, wide, sym_opts: false, extra: 0 }));
            }
        }
    }
    v
}
pub fn value<T: Meta>(c: VCase) -> T {
    let mut g = G::new(c.pat, c.wide);
    g.sym_opts = c.sym_opts;
    let v = T::make(&mut g);
    reach(1);
    v
}
