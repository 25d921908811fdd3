use crate::io::*;
use crate::ops::*;
use crate::rt::*;
use crate::schema::*;
use crate::vals::*;
use parquet_format_safe::thrift::protocol::*;

pub const MODES: [Mode; 6] = [Mode::Whole, Mode::One, Mode::Part, Mode::Retry, Mode::Slow, Mode::Zero];

/// kind of operation, sink mode
fn calls(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..N_OPS {
        for m in 0..MODES.len() as u64 {
            v.push(k | m << 8);
        }
    }
    v
}
fn plan(m: u64) -> Plan {
    let mode = MODES[m as usize];
    let mut p = Plan::new(mode);
    if matches!(mode, Mode::Part | Mode::Retry | Mode::Zero) {
        p.at = int(8);
    }
    p
}
fn call(c: u64) {
    // after a field, so that there is a header to be written
    let o = make(c & 0xff, Args::Wide);
    let ops = [Op::StructBegin, Op::Field(3, 1), Op::I32(7), o];
    let p = plan(c >> 8);
    reach(1);
    {
        let mut s = Sink::new(p);
        let mut had = 0;
        for o in &ops {
            let r = write(&mut TCompactOutputProtocol::new(&mut s), &fixed_end(o));
            let n = s.out.len() - had;
            had = s.out.len();
            match r {
                Ok(w) => {
                    observe(1, w as u64);
                    check!(w == n, "a synchronous write call returns another count than it delivered")
                }
                Err(_) => break,
            }
        }
    }
    {
        let mut s = Sink::new(p);
        let mut had = 0;
        for o in &ops {
            let r = {
                let mut q = TCompactOutputStreamProtocol::new(&mut s);
                let x = fixed_end(o);
                let f = awrite(&mut q, &x);
                block_on_max(f, 1000)
            };
            let n = s.out.len() - had;
            had = s.out.len();
            match r {
                Some(Ok(w)) => {
                    observe(2, w as u64);
                    check!(w == n, "an asynchronous write call returns another count than it delivered")
                }
                Some(Err(_)) => break,
                None => {
                    check!(false, "an asynchronous write call never completes");
                }
            }
        }
    }
}
/// each call goes to a protocol of its own, in which no struct was begun
fn fixed_end(o: &Op) -> Op {
    match o {
        Op::StructEnd => Op::FieldEnd,
        o => o.clone(),
    }
}
fn value_calls(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    // each leaf unconstrained
    for c in value_cases(tier) {
        if !unpack(c).sym_opts {
            v.push(c);
        }
    }
    for ty in (0..N_TYPES).rev() {
        for m in 0..MODES.len() as u64 {
            for (i, pat) in PATS.iter().enumerate() {
                if i == 0 || m < 2 {
                    v.push(pack(VCase { ty, pat: *pat, wide: NOWIDE, sym_opts: m == 0 && i < 2, extra: m }));
                }
            }
        }
    }
    v
}
struct Values(VCase);
impl Visit for Values {
    fn visit<T: Meta>(&mut self) {
        let m = self.0.extra;
        let v: T = if m < 2 { value(self.0) } else { T::make(&mut G::plain(self.0.pat)) };
        reach(1);
        let p = plan(m);
        let mut s = Sink::new(p);
        if let Ok(w) = v.wr(&mut TCompactOutputProtocol::new(&mut s)) {
            observe(1, w as u64);
            check!(w == s.out.len(), "synchronously writing a value returns another count than it delivered");
        }
        let mut s = Sink::new(p);
        let r = {
            let mut q = TCompactOutputStreamProtocol::new(&mut s);
            let r = block_on_max(v.awr(&mut q), 4000);
            r
        };
        match r {
            Some(Ok(w)) => {
                observe(2, w as u64);
                check!(w == s.out.len(), "asynchronously writing a value returns another count than it delivered")
            }
            Some(Err(_)) => {}
            None => {
                check!(false, "asynchronously writing a value never completes");
            }
        }
    }
}
fn values(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Values(c));
}
harnesses! {
    "c05_calls" h_c05_calls n_c05_calls : calls => call;
    "c05_long" h_c05_long n_c05_long : crate::long::cases => crate::long::run_counted;
    "c05_values" h_c05_values n_c05_values : value_calls => values;
}
