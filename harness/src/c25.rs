use crate::io::*;
use crate::ops::{text, Args};
use crate::rt::*;
use crate::schema::{sext, Enc};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::{new_application_error, ApplicationError, ApplicationErrorKind, Error, Result};

pub const KINDS: [ApplicationErrorKind; 11] = [
    ApplicationErrorKind::Unknown,
    ApplicationErrorKind::UnknownMethod,
    ApplicationErrorKind::InvalidMessageType,
    ApplicationErrorKind::WrongMethodName,
    ApplicationErrorKind::BadSequenceId,
    ApplicationErrorKind::MissingResult,
    ApplicationErrorKind::InternalError,
    ApplicationErrorKind::ProtocolError,
    ApplicationErrorKind::InvalidTransform,
    ApplicationErrorKind::InvalidProtocol,
    ApplicationErrorKind::UnsupportedClientType,
];
fn rd(s: &mut Src) -> Result<ApplicationError> {
    let mut p = TCompactInputProtocol::new(s, usize::MAX);
    Error::read_application_error_from_in_protocol(&mut p)
}
fn wr(s: &mut Sink, e: &ApplicationError) -> Result<()> {
    let mut p = TCompactOutputProtocol::new(s);
    Error::write_application_error_to_out_protocol(e, &mut p)
}
fn spec(kind: i32, m: &[u8]) -> Vec<u8> {
    let mut b = vec![0x18];
    Enc::uv(&mut b, m.len() as u64);
    b.extend_from_slice(m);
    b.push(0x15);
    Enc::uv(&mut b, Enc::zz(kind as i64));
    b.push(0);
    b
}
/// kind | in the middle of other structs << 8 | long message << 12
fn trip_cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..11 {
        for i in 0..2 {
            v.push(k | i << 8);
            for n in [255, 1025, 4097, 16384] {
                v.push(k | i << 8 | n << 12);
            }
        }
    }
    v
}
fn trip(c: u64) {
    let m = if c >> 12 == 0 { text(Args::Wide) } else { crate::long::text((c >> 12) as usize) };
    let k = c & 0xff;
    let e = match new_application_error(KINDS[k as usize], m.clone()) {
        Error::Application(e) => e,
        _ => {
            check!(false, "new_application_error makes another error");
            cut()
        }
    };
    check!(e == ApplicationError::new(KINDS[k as usize], m.clone()), "the constructors of an application error differ");
    reach(1);
    let inside = c >> 8 & 1 == 1u64;
    let mut s = Sink::new(Plan::whole());
    if inside {
        // as the field of a struct, followed by another one
        let mut p = TCompactOutputProtocol::new(&mut s);
        let f = |i| TFieldIdentifier::new("f", TType::Struct, i);
        let ok = p.write_struct_begin(&TStructIdentifier::new("s")).is_ok()
            && p.write_field_begin(&f(9)).is_ok()
            && Error::write_application_error_to_out_protocol(&e, &mut p).is_ok()
            && p.write_field_begin(&f(11)).is_ok()
            && Error::write_application_error_to_out_protocol(&e, &mut p).is_ok()
            && p.write_field_stop().is_ok()
            && p.write_struct_end().is_ok();
        check!(ok, "writing an application error inside a struct fails");
    } else {
        check!(wr(&mut s, &e).is_ok(), "writing an application error fails");
    }
    let one = spec(k as i32, m.as_bytes());
    let want = if inside {
        let mut w = vec![0x9c];
        w.extend_from_slice(&one);
        w.push(0x2c);
        w.extend_from_slice(&one);
        w.push(0);
        w
    } else {
        one
    };
    obs_bytes(1, &s.out);
    check!(s.out == want, "an application error is not written as specified");
    let mut src = Src::new(&s.out, Plan::whole());
    if inside {
        let mut p = TCompactInputProtocol::new(&mut src, usize::MAX);
        let r = (|| {
            p.read_struct_begin()?;
            let a = p.read_field_begin()?.id;
            let x = Error::read_application_error_from_in_protocol(&mut p)?;
            let b = p.read_field_begin()?.id;
            let y = Error::read_application_error_from_in_protocol(&mut p)?;
            let stop = p.read_field_begin()?.field_type;
            p.read_struct_end()?;
            Ok::<bool, Error>(a == Some(9) && b == Some(11) && stop == TType::Stop && x == e && y == e)
        })();
        check!(matches!(r, Ok(true)), "an application error inside a struct is not read back");
    } else {
        match rd(&mut src) {
            Ok(x) => check!(x == e, "an application error is read back with another kind or message"),
            Err(_) => check!(false, "an application error is not read back"),
        }
    }
    check!(src.pos == s.out.len(), "reading an application error does not end behind it");
}
/// What other writers may send: 0 any code, 1 unknown fields, 2 the order of
/// the fields, 3 fields missing
fn foreign_cases(_: u64) -> Vec<u64> {
    (0..4).collect()
}
fn foreign(c: u64) {
    let x = u8_();
    assume(x < 128);
    let code = if c == 0 { sext(int(32), 32) as i32 } else { 6 };
    let mut body: Vec<(i16, u8, Vec<u8>)> = vec![(1, 8, vec![1, x])];
    let mut kb = vec![];
    Enc::uv(&mut kb, Enc::zz(code as i64));
    body.push((2, 5, kb));
    let (mut has_m, mut has_k) = (true, true);
    if c == 1 {
        let id = sext(int(16), 16) as i16;
        assume(id != 1 && id != 2);
        // one of each wire type
        let f = match pick(9) {
            0 => (1u8, vec![]),
            1 => (3, vec![u8_()]),
            2 => (6, vec![0x80 | u8_(), 3]),
            3 => (7, vec![u8_(), 0, 0, 0, 0, 0, 0, u8_()]),
            4 => (8, vec![2, u8_(), u8_()]),
            5 => (9, vec![0x25, 2, 4]),
            6 => (10, vec![0x13, u8_()]),
            7 => (11, vec![1, 0x38, u8_(), 1, u8_()]),
            _ => (12, vec![0x13, u8_(), 0x11, 0]),
        };
        let at = pick(3) as usize;
        body.insert(at, (id, f.0, f.1));
    }
    if c == 2 && flip() {
        body.swap(0, 1);
    }
    if c == 3 {
        if flip() {
            body.remove(1);
            has_k = false;
        }
        if flip() {
            body.remove(0);
            has_m = false;
        }
    }
    let mut b = vec![];
    let mut e = Enc::new();
    let mut last = 0;
    for (id, nib, f) in &body {
        let long = c == 2 && flip();
        e.header(&mut b, *id, &mut last, *nib, long);
        b.extend_from_slice(f);
    }
    b.push(0);
    reach(1);
    let mut src = Src::new(&b, Plan::whole());
    match rd(&mut src) {
        Ok(r) => {
            let want = if has_k && code >= 0 && code <= 10 { code } else { 0 };
            observe(1, r.kind as u64);
            check!(r.kind as i32 == want, "an application error code is read as another kind");
            check!(!has_m || r.message.as_bytes() == [x], "the message of an application error is read differently");
            // what the error says must not depend on what it does not know
            check!(has_m || !r.message.is_empty(), "an application error without a message gets an empty one");
        }
        Err(_) => check!(false, "an application error with unknown fields or codes is refused"),
    }
    check!(src.pos == b.len(), "reading an application error does not end behind it");
}
/// arbitrary bytes: their number; truncations of an error: 16 + the kind
fn junk_cases(tier: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..if tier == 0 { 5 } else { 6 }).collect();
    v.extend(16..27);
    v
}
fn junk(c: u64) {
    let mut b = vec![];
    let cut_off = c >= 16;
    if cut_off {
        b = spec(c as i32 - 16, &[b'a', b'b', b'c']);
        let n = pick(b.len() as u64);
        b.truncate(n as usize);
    } else {
        for _ in 0..c {
            b.push(u8_());
        }
    }
    reach(1);
    let mut src = Src::new(&b, Plan::whole());
    let r = rd(&mut src);
    observe(1, outcome(&r) as u64);
    if cut_off {
        check!(outcome(&r) == EOF, "a truncated application error is not refused with the end of file");
    }
    if let Ok(e) = r {
        reach(2);
        // what was read can be written and is read back
        let mut s = Sink::new(Plan::whole());
        check!(wr(&mut s, &e).is_ok(), "an application error that was read cannot be written");
        match rd(&mut Src::new(&s.out, Plan::whole())) {
            Ok(x) => check!(x == e, "an application error that was read changes when written and read again"),
            Err(_) => check!(false, "an application error that was read cannot be read again"),
        }
    }
}
/// failing sink
fn sink_cases(_: u64) -> Vec<u64> {
    (0..2).collect()
}
fn sink(c: u64) {
    let e = ApplicationError::new(KINDS[pick(11) as usize], "abc");
    let mut p = Plan::at(if c == 0 { Mode::Fail } else { Mode::FailSlow }, int(8));
    p.kind = std::io::ErrorKind::TimedOut;
    let mut s = Sink::new(p);
    let r = wr(&mut s, &e);
    observe(1, outcome(&r) as u64);
    reach(1);
    check!((outcome(&r) == 103) == s.plan.hit, "an application error is reported written although the sink failed");
    check!(s.plan.hit || outcome(&r) == 0, "writing an application error fails without cause");
    check!(s.plan.after == 0, "the sink is used after it failed");
}
harnesses! {
    "c25_trip" h_c25_trip n_c25_trip : trip_cases => trip;
    "c25_foreign" h_c25_foreign n_c25_foreign : foreign_cases => foreign;
    "c25_junk" h_c25_junk n_c25_junk : junk_cases => junk;
    "c25_sink" h_c25_sink n_c25_sink : sink_cases => sink;
}
