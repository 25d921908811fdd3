use crate::io::*;
use crate::ops::*;
use crate::rd::*;
use crate::rec::*;
use crate::rt::*;
use crate::schema::*;
use crate::vals::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result;

/// first operation | box << 8: 0 of the protocol, 1 of a trait object, 2 box of a box
/// | what the sink does << 16
fn write_cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..N_OPS {
        for b in 0..3 {
            for m in 0..2 {
                v.push(k | b << 8 | m << 16);
            }
        }
    }
    v
}
fn run<P: TOutputProtocol>(p: &mut P, ops: &[Op]) -> (u32, u64) {
    let (mut n, mut sum) = (0u32, 0u64);
    for o in ops {
        match write(p, o) {
            Ok(w) => sum = sum.wrapping_mul(1031).wrapping_add(w as u64),
            Err(e) => return (class(&e), sum),
        }
        n += 1;
    }
    (n, sum)
}
fn writes(c: u64) {
    // around it fields, whose headers tell the state of the protocol
    let o = make(c & 0xff, Args::Wide);
    let ops = [Op::StructBegin, Op::Field(3, 7), o, plain_field(Args::Narrow)];
    let mut plan = Plan::whole();
    if c >> 16 == 1u64 {
        plan = Plan::at(Mode::Fail, int(8));
        plan.kind = std::io::ErrorKind::TimedOut;
    }
    through(&ops, c >> 8 & 0xff, plan);
}
fn through(ops: &[Op], boxed: u64, plan: Plan) {
    reach(1);
    let (mut a, mut b) = (Sink::new(plan), Sink::new(plan));
    let x = run(&mut TCompactOutputProtocol::new(&mut a), ops);
    let y = match boxed {
        0 => run(&mut Box::new(TCompactOutputProtocol::new(&mut b)), ops),
        1 => {
            let mut p: Box<dyn TOutputProtocol> = Box::new(TCompactOutputProtocol::new(&mut b));
            run(&mut p, ops)
        }
        _ => run(&mut Box::new(Box::new(TCompactOutputProtocol::new(&mut b))), ops),
    };
    obs_bytes(1, &b.out);
    check!(a.out == b.out, "a boxed protocol writes other bytes");
    observe(2, y.0 as u64);
    check!(x.0 == y.0, "a boxed protocol fails otherwise");
    check!(x.1 == y.1, "a boxed protocol returns other counts");
    check!(a.plan.calls == b.plan.calls, "a boxed protocol calls its sink differently often");
}
/// what is read | sources << 8
fn read_cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..N_PRIM {
        for m in 0..3 {
            v.push(k | m << 8);
        }
    }
    v
}
fn twice<P: TInputProtocol>(p: &mut P, k: u64) -> (u32, Vec<u64>) {
    let mut v = vec![];
    match p.read_struct_begin().and_then(|_| prim(p, k)) {
        Ok(x) => v.extend(x),
        Err(e) => return (class(&e), v),
    }
    let r = match k & 3 {
        0 => p.read_field_end(),
        1 => p.read_struct_end(),
        2 => p.read_list_end().and_then(|_| p.read_set_end()).and_then(|_| p.read_map_end()),
        _ => p.read_message_end(),
    };
    if let Err(e) = r {
        return (class(&e), v);
    }
    // what state is left shows in the next field header
    match prim(p, 2) {
        Ok(x) => v.extend(x),
        Err(e) => return (class(&e), v),
    }
    (0, v)
}
fn reads(c: u64) {
    let k = c & 0xff;
    let b = any_bytes(if k == 28 || k == 32 || (k >= 23 && k <= 26) { 3 } else { 4 });
    let (mut plan, mut budget) = (Plan::whole(), usize::MAX);
    match c >> 8 {
        1 => {
            plan = Plan::at(Mode::Fail, int(8));
            plan.kind = std::io::ErrorKind::TimedOut;
        }
        2 => budget = int(64) as usize,
        _ => {}
    }
    reach(1);
    let (mut s, mut t) = (Src::new(&b, plan), Src::new(&b, plan));
    let x = twice(&mut TCompactInputProtocol::new(&mut s, budget), k);
    let y = twice(&mut Box::new(TCompactInputProtocol::new(&mut t, budget)), k);
    observe(1, y.0 as u64);
    check!(x.0 == y.0, "a boxed protocol fails otherwise when reading");
    check!(x.1 == y.1, "a boxed protocol reads something else");
    check!(s.pos == t.pos, "a boxed protocol consumes another number of bytes");
}
/// calls through boxes arrive at the protocol inside, whatever it is
fn forward_cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..N_OPS {
        for b in 0..3 {
            v.push(k | b << 8);
        }
    }
    v
}
fn forward(c: u64) {
    let o = make(c & 0xff, Args::Wide);
    let fail = int(2);
    reach(1);
    let go = |r: Result<usize>| match r {
        Ok(n) => n as u64,
        r => 1000 + is_refusal(&r) as u64,
    };
    let (mut a, b) = (Rec::new(fail, u64::MAX), Rec::new(fail, u64::MAX));
    let x = go(write(&mut a, &o));
    let (y, r) = match c >> 8 {
        0 => {
            let mut p = Box::new(b);
            (go(write(&mut p, &o)), *p)
        }
        1 => {
            let mut p = Box::new(Box::new(b));
            (go(write(&mut p, &o)), **p)
        }
        _ => {
            let raw = Box::into_raw(Box::new(b));
            let mut p: Box<dyn TOutputProtocol> = unsafe { Box::from_raw(raw) };
            let y = go(write(&mut p, &o));
            std::mem::forget(p);
            (y, *unsafe { Box::from_raw(raw) })
        }
    };
    observe(1, y);
    check!(x == y, "a boxed protocol answers a call differently");
    check!(a.j.b == r.j.b, "a call through a box arrives as another call");
    // read it back
    let mut j = a.j.clone();
    if matches!(o, Op::Flush) {
        return;
    }
    j.call(FS);
    let names = flip();
    let (mut s, mut t) = (Play::new(&j, fail, u64::MAX, names), Play::new(&j, fail, u64::MAX, names));
    let x = read(&mut s, &o);
    let y = {
        let mut p = Box::new(Play::new(&j, fail, u64::MAX, names));
        let y = read(&mut p, &o);
        t.pos = p.pos;
        t.n = p.n;
        y
    };
    check!(outcome(&x) == outcome(&y), "a boxed protocol fails otherwise when reading");
    if let (Ok(x), Ok(y)) = (&x, &y) {
        reach(2);
        check!(*x && *y, "a boxed protocol reads another value");
    }
    check!(s.pos == t.pos && s.n == t.n, "a read call through a box arrives as another call");
}
/// skipping nested values through boxes. levels | how << 8 | what << 16
fn deep_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for how in 0..8 {
        for levels in [1, 2, 33, 63, 64, 65, 66, 67, 100] {
            if how < 4 || tier > 0 {
                v.push(levels | how << 8);
                v.push(levels | how << 8 | 1 << 16);
            }
        }
    }
    v
}
fn deep(c: u64) {
    let (t, mut b) = crate::junk::nest(c & 0xff, c >> 8 & 0xff);
    b.push(3);
    reach(1);
    fn go<P: TInputProtocol>(p: &mut P, t: TType, some: bool) -> (u32, u32) {
        let r = if some { p.skip_till_depth(t, 40) } else { p.skip(t) };
        let q = p.read_byte();
        (outcome(&r), outcome(&q))
    }
    let (mut s, mut u) = (Src::new(&b, Plan::whole()), Src::new(&b, Plan::whole()));
    let some = c >> 16 == 1u64;
    let x = go(&mut TCompactInputProtocol::new(&mut s, usize::MAX), WIRE[t].0, some);
    let y = go(&mut Box::new(Box::new(TCompactInputProtocol::new(&mut u, usize::MAX))), WIRE[t].0, some);
    observe(1, y.0 as u64);
    check!(x == y, "a boxed protocol skips with another outcome");
    check!(s.pos == u.pos, "a boxed protocol skips something else");
}
/// values through boxes
fn value_cases_(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for pat in PATS {
            v.push(pack(VCase { ty, pat, wide: NOWIDE, sym_opts: false, extra: 0 }));
        }
    }
    v
}
struct Values(VCase);
impl Visit for Values {
    fn visit<T: Meta>(&mut self) {
        let v: T = value(self.0);
        let (mut a, mut b) = (vec![], vec![]);
        let x = v.wr(&mut TCompactOutputProtocol::new(&mut a));
        let y = {
            let mut p: Box<dyn TOutputProtocol> = Box::new(TCompactOutputProtocol::new(&mut b));
            v.wr(&mut p)
        };
        obs_bytes(1, &b);
        check!(a == b, "a value is written differently through a box");
        check!(matches!((&x, &y), (Ok(x), Ok(y)) if x == y), "writing a value through a box returns another count");
        let mut s = Src::new(&b, Plan::whole());
        match T::rd(&mut Box::new(TCompactInputProtocol::new(&mut s, usize::MAX))) {
            Ok(r) => check!(r == v, "a value is read differently through a box"),
            Err(_) => check!(false, "a value cannot be read through a box"),
        }
        check!(s.pos == b.len(), "reading a value through a box consumes other bytes");
    }
}
fn values(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Values(c));
}
harnesses! {
    "c23_writes" h_c23_writes n_c23_writes : write_cases => writes;
    "c23_reads" h_c23_reads n_c23_reads : read_cases => reads;
    "c23_forward" h_c23_forward n_c23_forward : forward_cases => forward;
    "c23_deep" h_c23_deep n_c23_deep : deep_cases => deep;
    "c23_long" h_c23_long n_c23_long : crate::long::op_cases => |c| through(&crate::long::ops(c), c % 3, Plan::whole());
    "c23_values" h_c23_values n_c23_values : value_cases_ => values;
}
