use crate::io::*;
use crate::ops::*;
use crate::rd::*;
use crate::rt::*;
use crate::schema::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result;

const MODES: [Mode; 6] = [Mode::One, Mode::Part, Mode::Retry, Mode::Slow, Mode::Zero, Mode::PartRetry];
const POLLS: u32 = 20000;
fn plan(m: u64, two: bool) -> Plan {
    let mut p = Plan::new(MODES[m as usize]);
    if matches!(m, 1 | 2 | 4 | 5) {
        p.at = int(16);
        if two {
            p.at2 = int(16);
            assume(p.at < p.at2);
        }
    }
    p
}
/// operation | mode << 8 | asynchronous << 12 | cut off << 13
fn read_cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for x in 0..N_OPS {
        for m in 0..6 {
            for s in 0..2 {
                if m != 4 {
                    v.push(x | m << 8 | s << 12);
                    if m != 1 {
                        v.push(x | m << 8 | s << 12 | 1 << 13);
                    }
                }
            }
        }
    }
    v
}
fn do_read(s: &mut Src, asy: bool, what: u64) -> Option<Result<Vec<u64>>> {
    if asy {
        block_on_max(aprim(&mut TCompactInputStreamProtocol::new(s, usize::MAX), what), POLLS)
    } else {
        Some(prim(&mut TCompactInputProtocol::new(s, usize::MAX), what))
    }
}
fn read_call(c: u64) {
    let k = c & 0xff;
    let mut r = Ref::new();
    r.put(&make(k, Args::Wide));
    let mut b = r.out;
    reach(1);
    let what = match k {
        0 => 0,
        4 | 7 => 2,
        5 => 3,
        8 => 4,
        9 => 5,
        10..=14 => k - 4,
        15 => 11,
        16 => 12,
        18 => 13,
        20 => 14,
        22 => 15,
        _ => return,
    };
    if c >> 13 & 1 == 1 {
        let n = int(16) as usize;
        assume(n < b.len());
        b.truncate(fix(n as u64) as usize);
    }
    let asy = c >> 12 & 1 == 1;
    let mut whole = Src::new(&b, Plan::whole());
    let mut other = Src::new(&b, plan(c >> 8 & 15, c >> 13 & 1 == 0));
    let x = do_read(&mut whole, asy, what);
    let y = do_read(&mut other, asy, what);
    match (x, y) {
        (Some(x), Some(y)) => {
            observe(1, outcome(&y) as u64);
            check!(outcome(&x) == outcome(&y), "success of a read call depends on how the source delivers");
            if let (Ok(x), Ok(y)) = (x, y) {
                check!(x == y, "what a read call returns depends on how the source delivers");
                check!(whole.pos == other.pos, "how much a read call consumes depends on how the source delivers");
            }
        }
        _ => check!(false, "an asynchronous read call never completes"),
    }
}
/// operation | mode << 8 | asynchronous << 12
fn write_cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for x in 0..N_OPS {
        for m in 0..6 {
            for s in 0..2 {
                v.push(x | m << 8 | s << 12);
            }
        }
    }
    v
}
fn do_write(s: &mut Sink, asy: bool, ops: &[Op]) -> Option<Result<usize>> {
    if asy {
        let mut p = TCompactOutputStreamProtocol::new(s);
        let f = async {
            let mut n = 0;
            for o in ops {
                n += awrite(&mut p, o).await?;
            }
            Ok(n)
        };
        block_on_max(f, POLLS)
    } else {
        let mut p = TCompactOutputProtocol::new(s);
        let mut n = 0;
        for o in ops {
            match write(&mut p, o) {
                Ok(k) => n += k,
                Err(e) => return Some(Err(e)),
            }
        }
        Some(Ok(n))
    }
}
/// a sink that accepts nothing once must lead to an error or be asked again
fn compare(x: Option<Result<usize>>, y: Option<Result<usize>>, a: &Sink, b: &Sink, zero: bool) {
    match (x, y) {
        (Some(x), Some(y)) => {
            observe(1, outcome(&y) as u64);
            if zero && b.plan.hit && y.is_err() {
                check!(b.out.len() <= a.out.len() && b.out[..] == a.out[..b.out.len()], "bytes are lost before an error");
                return;
            }
            check!(outcome(&x) == outcome(&y), "success of writing depends on how the sink accepts");
            check!(a.out == b.out, "the bytes written depend on how the sink accepts");
        }
        _ => check!(false, "an asynchronous write call never completes"),
    }
}
fn write_call(c: u64) {
    // with a field header before and behind
    let ops = [Op::StructBegin, make(c & 0xff, Args::Wide), Op::Field(3, 2), Op::I32(300), Op::FieldStop];
    let asy = c >> 12 & 1 == 1;
    let m = c >> 8 & 15;
    reach(1);
    let mut a = Sink::new(Plan::whole());
    let mut b = Sink::new(plan(m, m != 4));
    let x = do_write(&mut a, asy, &ops);
    let y = do_write(&mut b, asy, &ops);
    compare(x, y, &a, &b, m == 4);
}
/// type | mode << 8 | asynchronous << 12 | pattern << 13 | write << 16 | two places << 17 | cut off << 18
fn type_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for m in 0..6 {
            for s in 0..2 {
                for p in 0..2 {
                    let n = sizes(ty, [Pat::All, Pat::Alt][p as usize]).len;
                    let c = ty | m << 8 | s << 12 | p << 13;
                    if tier == 0 && p == 1 && n > 100 {
                        continue;
                    }
                    let two = n < if tier == 0 { 16 } else { 40 } && matches!(m, 1 | 2 | 5);
                    v.push(c | 1 << 16 | (two as u64) << 17);
                    if m != 4 {
                        v.push(c | (two as u64) << 17);
                        if n < if tier == 0 { 60 } else { 300 } && m != 1 {
                            v.push(c | 1 << 18);
                        }
                    }
                }
            }
        }
    }
    v
}
struct Types(u64);
impl Visit for Types {
    fn visit<T: Meta>(&mut self) {
        let c = self.0;
        let m = c >> 8 & 15;
        let side = SIDES[(c >> 12 & 1) as usize];
        let v: T = plain(if c >> 13 & 1 == 1 { Pat::Alt } else { Pat::All });
        let p = plan(m, c >> 17 & 1 == 1);
        reach(1);
        if c >> 16 & 1 == 1 {
            let (x, a) = wr_with(side, &v, Plan::whole(), 1);
            let (y, b) = wr_with(side, &v, p, POLLS);
            compare(Some(x), Some(y), &a, &b, m == 4);
        } else {
            let mut b = enc(&v);
            if c >> 18 & 1 == 1 {
                let n = int(16) as usize;
                assume(n < b.len());
                b.truncate(fix(n as u64) as usize);
                let g = rd_with::<T>(side, &b, p, usize::MAX, POLLS);
                observe(1, outcome(&g.r) as u64);
                let h = rd::<T>(side, &b);
                check!(outcome(&g.r) == outcome(&h.r), "success of reading depends on how the source delivers");
                return;
            }
            let g = rd_with::<T>(side, &b, p, usize::MAX, POLLS);
            observe(1, outcome(&g.r) as u64);
            check!(g.r.is_ok(), "reading fails because of how the source delivers");
            if let Ok(x) = g.r {
                check!(x == v, "the value read depends on how the source delivers");
            }
            check!(g.used == b.len(), "what is consumed depends on how the source delivers");
        }
    }
}
fn types(c: u64) {
    on_type(c & 0xff, &mut Types(c));
}
harnesses! {
    "c19_reads" h_c19_reads n_c19_reads : read_cases => read_call;
    "c19_writes" h_c19_writes n_c19_writes : write_cases => write_call;
    "c19_long" h_c19_long n_c19_long : crate::long::io_cases => crate::long::run_io;
    "c19_types" h_c19_types n_c19_types : type_cases => types;
}
