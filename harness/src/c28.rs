use crate::rec::*;
use crate::rt::*;
use crate::schema::*;
use crate::vals::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::*;

const NEVER: u64 = u64::MAX;
fn told<T: Meta>(v: &T) -> J {
    let mut j = J::new();
    v.tell(&mut j);
    j
}
/// values through protocols that record and answer
struct Calls(VCase);
impl Visit for Calls {
    fn visit<T: Meta>(&mut self) {
        let v: T = value(self.0);
        let want = told(&v);
        let mut r = Rec::new(NEVER, NEVER);
        let w = v.wr(&mut r);
        obs_bytes(1, &r.j.b);
        check!(r.j.b == want.b, "a value is written by other calls than its definition prescribes");
        check!(matches!(w, Ok(n) if n == r.sum), "writing does not return the sum of what the calls return");
        let mut r = Rec::new(NEVER, NEVER);
        let w = block_on(v.awr(&mut r));
        check!(r.j.b == want.b, "a value is written asynchronously by other calls than its definition prescribes");
        check!(matches!(w, Ok(n) if n == r.sum), "asynchronous writing does not return the sum of what the calls return");
        let names = self.0.wide & 1 == 1;
        let mut p = Play::new(&want, NEVER, NEVER, names);
        match T::rd(&mut p) {
            Ok(x) => check!(x == v, "a value is read differently from another protocol"),
            Err(_) => check!(false, "a value cannot be read from another protocol"),
        }
        check!(p.at_end(), "reading ends with calls left over");
        let mut p = Play::new(&want, NEVER, NEVER, names);
        match block_on(T::ard(&mut p)) {
            Ok(x) => check!(x == v, "a value is read differently from another asynchronous protocol"),
            Err(_) => check!(false, "a value cannot be read from another asynchronous protocol"),
        }
        check!(p.at_end(), "asynchronous reading ends with calls left over");
    }
}
fn calls(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Calls(c));
}
/// at any call the protocol refuses
fn refusal_cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        for pat in [Pat::All, Pat::Alt] {
            for extra in 0..4 {
                v.push(pack(VCase { ty, pat, wide: NOWIDE, sym_opts: false, extra }));
            }
        }
    }
    v
}
struct Refusals(VCase);
impl Visit for Refusals {
    fn visit<T: Meta>(&mut self) {
        let v: T = value(self.0);
        let want = told(&v);
        let at = int(16);
        let pend = if flip() { at } else { NEVER };
        match self.0.extra {
            0 | 1 => {
                let mut r = Rec::new(at, pend);
                let w = if self.0.extra == 0 { v.wr(&mut r) } else { all(v.awr(&mut r)) };
                let n = r.j.n;
                observe(1, n);
                check!(w.is_ok() == (at >= want.n), "a refusal by a protocol is not reported");
                if w.is_err() {
                    check!(is_refusal(&w), "a refusal by a protocol is reported as another error");
                    check!(n == at + 1, "after a refusal the protocol is called again");
                }
            }
            k => {
                let mut p = Play::new(&want, at, pend, false);
                let r = if k == 2 { T::rd(&mut p) } else { all(T::ard(&mut p)) };
                observe(1, p.n);
                check!(r.is_ok() == (at >= want.n), "a refusal by a protocol is not reported when reading");
                if r.is_err() {
                    check!(is_refusal(&r), "a refusal by a protocol is reported as another error when reading");
                    check!(p.n == at + 1, "after a refusal the protocol is read again");
                }
            }
        }
    }
}
fn all<F: std::future::Future>(f: F) -> F::Output {
    match block_on_max(f, 3) {
        Some(x) => x,
        None => {
            check!(false, "a future stays pending although its protocol is ready");
            cut()
        }
    }
}
fn refusals(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Refusals(c));
}
/// unknown fields in other protocols: extra = struct | kind << 8 | async << 12
fn unknown_cases(tier: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in (0..N_TYPES).rev() {
        let mut s = Structs(0);
        on_type(ty, &mut s);
        for at in 0..s.0 {
            for kind in 0..JUNK.len() as u64 {
                for a in 0..2 {
                    // at the outermost struct everything, further in some
                    if tier > 0 || at == 0 || (kind == 10 || (at as u64 + kind) % 5 == 0) {
                        let extra = at as u64 | kind << 8 | a << 12;
                        v.push(pack(VCase { ty, pat: Pat::All, wide: NOWIDE, sym_opts: false, extra }));
                    }
                }
            }
        }
    }
    v
}
struct Structs(u32);
impl Visit for Structs {
    fn visit<T: Meta>(&mut self) {
        self.0 = told(&T::make(&mut G::plain(Pat::All))).structs;
    }
}
struct Unknown(VCase);
impl Visit for Unknown {
    fn visit<T: Meta>(&mut self) {
        let v = T::make(&mut G::plain(Pat::All));
        let mut j = J::new();
        j.at = (self.0.extra & 0xff) as u32;
        j.junk = self.0.extra >> 8 & 15;
        v.tell(&mut j);
        reach(1);
        let mut p = Play::new(&j, NEVER, NEVER, flip());
        let r = if self.0.extra >> 12 == 0u64 { T::rd(&mut p) } else { block_on(T::ard(&mut p)) };
        match r {
            Ok(x) => check!(x == v, "an unknown field in another protocol changes the value"),
            Err(_) => check!(false, "an unknown field in another protocol makes reading fail"),
        }
        observe(1, p.pos as u64);
        check!(p.at_end(), "reading past an unknown field ends with calls left over");
    }
}
fn unknown(c: u64) {
    let c = unpack(c);
    on_type(c.ty, &mut Unknown(c));
}
/// skipping single values
fn skip_cases(_: u64) -> Vec<u64> {
    (0..JUNK.len() as u64 * 2).collect()
}
fn skips(c: u64) {
    let t = JUNK[c as usize / 2];
    let mut j = J::new();
    j.stuff(t, 2);
    let at = int(16);
    reach(1);
    let mut p = Play::new(&j, at, NEVER, true);
    let r = if c & 1 == 0 { TInputProtocol::skip(&mut p, t) } else { block_on(TInputStreamProtocol::skip(&mut p, t)) };
    observe(1, p.n);
    check!(r.is_ok() == (at >= j.n), "skipping in another protocol fails or ignores a refusal");
    if r.is_ok() {
        check!(p.at_end(), "skipping in another protocol ends with calls left over");
    } else {
        check!(is_refusal(&r), "skipping reports a refusal as another error");
        check!(p.n == at + 1, "skipping calls a protocol again after a refusal");
    }
}
/// application errors
fn app(c: u64) {
    let kind = crate::c25::KINDS[pick(crate::c25::KINDS.len() as u64) as usize];
    let message = crate::ops::text(crate::ops::Args::Wide);
    let e = ApplicationError { kind, message };
    let mut j = J::new();
    j.begin("TApplicationException");
    j.field("message", TType::String, 1);
    j.blob(STR, e.message.as_bytes());
    j.call(FE);
    j.field("type", TType::I32, 2);
    j.num(I32, e.kind as i32 as i64);
    j.call(FE);
    reach(1);
    if c > 0 {
        // an unknown field
        j.junk = c - 1;
        j.unknown();
    }
    j.call(FS);
    j.call(SE);
    if c == 0 {
        let mut w = j.clone();
        w.call(FLUSH);
        let at = int(8);
        let mut r = Rec::new(at, NEVER);
        let x = Error::write_application_error_to_out_protocol(&e, &mut r);
        observe(1, r.j.n);
        check!(x.is_ok() == (at >= w.n), "writing an application error ignores a refusal");
        if x.is_ok() {
            check!(r.j.b == w.b, "an application error is written by other calls than prescribed");
        } else {
            check!(is_refusal(&x), "writing an application error reports a refusal as another error");
            check!(r.j.n == at + 1, "writing an application error goes on after a refusal");
        }
    }
    let mut p = Play::new(&j, NEVER, NEVER, flip());
    match Error::read_application_error_from_in_protocol(&mut p) {
        Ok(x) => check!(x.kind == e.kind && x.message == e.message, "an application error is read differently from another protocol"),
        Err(_) => check!(false, "an application error cannot be read from another protocol"),
    }
    check!(p.at_end(), "reading an application error ends with calls left over");
}
fn app_cases(_: u64) -> Vec<u64> {
    (0..=JUNK.len() as u64).collect()
}
harnesses! {
    "c28_calls" h_c28_calls n_c28_calls : value_cases => calls;
    "c28_refusals" h_c28_refusals n_c28_refusals : refusal_cases => refusals;
    "c28_unknown" h_c28_unknown n_c28_unknown : unknown_cases => unknown;
    "c28_skips" h_c28_skips n_c28_skips : skip_cases => skips;
    "c28_app" h_c28_app n_c28_app : app_cases => app;
}
