use crate::c25::KINDS;
use crate::io::*;
use crate::ops::*;
use crate::rt::*;
use crate::schema::sext;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::*;
use std::convert::{TryFrom, TryInto};
use std::io::ErrorKind as K;

const IO: [(K, u32); 25] = [
    (K::NotFound, 100),
    (K::PermissionDenied, 100),
    (K::ConnectionRefused, 101),
    (K::ConnectionReset, 101),
    (K::ConnectionAborted, 100),
    (K::NotConnected, 101),
    (K::AddrInUse, 100),
    (K::AddrNotAvailable, 100),
    (K::BrokenPipe, 100),
    (K::AlreadyExists, 102),
    (K::WouldBlock, 100),
    (K::InvalidInput, 100),
    (K::InvalidData, 100),
    (K::TimedOut, 103),
    (K::WriteZero, 100),
    (K::Interrupted, 100),
    (K::Unsupported, 100),
    (K::UnexpectedEof, 104),
    (K::OutOfMemory, 100),
    (K::Other, 100),
    (K::StorageFull, 100),
    (K::HostUnreachable, 100),
    (K::NetworkUnreachable, 100),
    (K::Deadlock, 100),
    (K::DirectoryNotEmpty, 100),
];
/// how the error was made: 0 from its kind, 1 with a payload
fn io_cases(_: u64) -> Vec<u64> {
    vec![0, 1]
}
fn io(c: u64) {
    let (k, want) = IO[pick(IO.len() as u64) as usize];
    let e = if c == 0 { std::io::Error::from(k) } else { std::io::Error::new(k, "why") };
    reach(1);
    let e: Error = e.into();
    observe(1, class(&e) as u64);
    check!(class(&e) == want, "an I/O error is converted to another kind");
}
/// which conversion
fn conv_cases(_: u64) -> Vec<u64> {
    (0..9).collect()
}
fn conv(c: u64) {
    reach(1);
    match c {
        0 => {
            if let Err(e) = String::from_utf8(vec![u8_() | 0x80]) {
                check!(class(&Error::from(e)) == P_INVALID, "invalid UTF-8 is not converted to invalid data");
            }
        }
        1 => {
            let r: std::result::Result<u8, _> = (int(32) as u32).try_into();
            if let Err(e) = r {
                check!(class(&Error::from(e)) == P_INVALID, "a failed integer conversion is not converted to invalid data");
            }
        }
        2 => {
            let mut v: Vec<u64> = vec![];
            let n = int(64) as usize;
            assume(n > LIMIT);
            match v.try_reserve(n) {
                Err(e) => check!(class(&Error::from(e)) == P_SIZE, "a failed reservation is not converted to a size limit"),
                Ok(_) => check!(false, "harness: the reservation does not fail"),
            }
        }
        3 | 4 => {
            let s = text(Args::Wide);
            let e = if c == 3 { Error::from(s.clone()) } else { Error::from(s.as_str()) };
            match e {
                Error::Application(e) => check!(
                    e.kind as i32 == 0 && e.message == s,
                    "text is not converted to an unknown application error with that message"
                ),
                _ => check!(false, "text is converted to another category of error"),
            }
        }
        5 => {
            let k = TKINDS[pick(7) as usize];
            let s = text(Args::Wide);
            let same = |e: &TransportError| e.kind == k && e.message == s;
            match (Error::from(TransportError::new(k, s.clone())), new_transport_error(k, s.clone())) {
                (Error::Transport(a), Error::Transport(b)) => check!(same(&a) && same(&b), "a transport error is changed"),
                _ => check!(false, "a transport error becomes one of another category"),
            }
        }
        6 => {
            let k = PKINDS[pick(7) as usize];
            let s = text(Args::Wide);
            let same = |e: &ProtocolError| e.kind == k && e.message == s;
            match (Error::from(ProtocolError::new(k, s.clone())), new_protocol_error(k, s.clone())) {
                (Error::Protocol(a), Error::Protocol(b)) => check!(same(&a) && same(&b), "a protocol error is changed"),
                _ => check!(false, "a protocol error becomes one of another category"),
            }
        }
        7 => {
            let k = KINDS[pick(11) as usize];
            let s = text(Args::Wide);
            let same = |e: &ApplicationError| e.kind == k && e.message == s;
            match (Error::from(ApplicationError::new(k, s.clone())), new_application_error(k, s.clone())) {
                (Error::Application(a), Error::Application(b)) => check!(same(&a) && same(&b), "an application error is changed"),
                _ => check!(false, "an application error becomes one of another category"),
            }
        }
        _ => {
            // message types
            let b = u8_();
            let r = TMessageType::try_from(b);
            match r {
                Ok(t) => {
                    check!(b >= 1 && b <= 4 && t == MSG[b as usize - 1], "a message type code is converted to another type");
                    check!(u8::from(t) == b, "a message type is converted to another code");
                }
                Err(e) => {
                    check!(b < 1 || b > 4, "a message type code is refused");
                    check!(class(&e) == P_INVALID, "an unknown message type is not refused as invalid data");
                }
            }
        }
    }
}
pub const TKINDS: [TransportErrorKind; 7] = [
    TransportErrorKind::Unknown,
    TransportErrorKind::NotOpen,
    TransportErrorKind::AlreadyOpen,
    TransportErrorKind::TimedOut,
    TransportErrorKind::EndOfFile,
    TransportErrorKind::NegativeSize,
    TransportErrorKind::SizeLimit,
];
pub const PKINDS: [ProtocolErrorKind; 7] = [
    ProtocolErrorKind::Unknown,
    ProtocolErrorKind::InvalidData,
    ProtocolErrorKind::NegativeSize,
    ProtocolErrorKind::SizeLimit,
    ProtocolErrorKind::BadVersion,
    ProtocolErrorKind::NotImplemented,
    ProtocolErrorKind::DepthLimit,
];
/// kinds of transport, protocol, application errors from any code
fn code_cases(_: u64) -> Vec<u64> {
    (0..3).collect()
}
fn code(c: u64) {
    let x = sext(int(32), 32) as i32;
    let n = if c == 2 { 11 } else { 7 };
    let known = x >= 0 && x < n;
    reach(1);
    let (r, right, refused) = match c {
        0 => {
            let r = TransportErrorKind::try_from(x);
            (outcome(&r), matches!(r, Ok(k) if known && k == TKINDS[x as usize]), P_UNKNOWN)
        }
        1 => {
            let r = ProtocolErrorKind::try_from(x);
            (outcome(&r), matches!(r, Ok(k) if known && k == PKINDS[x as usize]), P_UNKNOWN)
        }
        _ => {
            let r = ApplicationErrorKind::try_from(x);
            (outcome(&r), matches!(r, Ok(k) if known && k == KINDS[x as usize]), 300)
        }
    };
    observe(1, r as u64);
    check!(!known || right, "an error kind code is converted to another kind");
    check!(known || r == refused, "an unknown error kind code is not refused as documented");
}
/// verification helpers
fn verify_cases(_: u64) -> Vec<u64> {
    (0..6).collect()
}
fn verify(c: u64) {
    reach(1);
    match c {
        0 => {
            let (a, b) = (int(32) as i32, int(32) as i32);
            let r = outcome(&verify_expected_sequence_number(a, b));
            check!(r == if a == b { 0 } else { 304 }, "sequence numbers are verified wrongly");
        }
        1 => {
            let (a, b) = (text(Args::Wide), text(Args::Narrow));
            let r = outcome(&verify_expected_service_call(&a, &b));
            check!(r == if a == b { 0 } else { 303 }, "method names are verified wrongly");
            let r = outcome(&verify_expected_service_call(&b, &a));
            check!(r == if a == b { 0 } else { 303 }, "method names are verified wrongly");
            check!(verify_expected_service_call(&a, &a.clone()).is_ok(), "a method name is refused though it is expected");
        }
        2 => {
            let (a, b) = (pick(4) as usize, pick(4) as usize);
            let r = outcome(&verify_expected_message_type(MSG[a], MSG[b]));
            check!(r == if a == b { 0 } else { 302 }, "message types are verified wrongly");
        }
        3 => {
            let x = if flip() { Some(int(32)) } else { None };
            let r = outcome(&verify_required_field_exists("f", &x));
            check!(r == if x.is_some() { 0 } else { P_UNKNOWN }, "the presence of a required field is verified wrongly");
        }
        4 => {
            let id = sext(int(16), 16) as i16;
            let f = TFieldIdentifier::new("f", WIRE[pick(11) as usize].0, id);
            check!(f.id == Some(id), "a field identifier is made with another id");
            check!(matches!(field_id(&f), Ok(x) if x == id), "field_id returns another id");
        }
        _ => {
            let f = TFieldIdentifier::new::<Option<String>, String, Option<i16>>(None, TType::Stop, None);
            check!(outcome(&field_id(&f)) == P_UNKNOWN, "field_id accepts a field without an id");
        }
    }
}
harnesses! {
    "c26_io" h_c26_io n_c26_io : io_cases => io;
    "c26_conv" h_c26_conv n_c26_conv : conv_cases => conv;
    "c26_codes" h_c26_codes n_c26_codes : code_cases => code;
    "c26_verify" h_c26_verify n_c26_verify : verify_cases => verify;
}
