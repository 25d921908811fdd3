use crate::io::*;
use crate::ops::*;
use crate::rt::*;
use crate::schema::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result;

fn begin(s: &mut Src, asy: bool) -> Result<TMessageIdentifier> {
    if asy {
        block_on(TCompactInputStreamProtocol::new(s, usize::MAX).read_message_begin())
    } else {
        TCompactInputProtocol::new(s, usize::MAX).read_message_begin()
    }
}
/// written synchronously, asynchronously | asynchronous reader << 1 | type << 2 | long name << 4
fn trip_cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for c in 0..16 {
        v.push(c);
        for n in [255, 256, 1025, 4097, 16384] {
            v.push(c | n << 4);
        }
    }
    v
}
fn trip(c: u64) {
    let (wa, ra, t) = (c & 1 == 1, c >> 1 & 1 == 1, (c >> 2 & 3) as usize);
    let name = if c >> 4 == 0 { text(Args::Wide) } else { crate::long::text((c >> 4) as usize) };
    let seq = int(32) as u32;
    let m = TMessageIdentifier::new(name, MSG[t], seq);
    reach(1);
    let mut b = vec![];
    let r = if wa {
        block_on(TCompactOutputStreamProtocol::new(&mut b).write_message_begin(&m))
    } else {
        TCompactOutputProtocol::new(&mut b).write_message_begin(&m)
    };
    check!(r.is_ok(), "writing a message header fails");
    obs_bytes(1, &b);
    let n = b.len();
    b.push(u8_());
    let mut s = Src::new(&b, Plan::whole());
    match begin(&mut s, ra) {
        Ok(x) => {
            check!(x == m, "a message header is read back differently");
            check!(s.pos == n, "reading a message header does not end behind it");
        }
        Err(_) => check!(false, "a message header is not read back"),
    }
}
/// asynchronous | what is arbitrary << 1
fn foreign_cases(_: u64) -> Vec<u64> {
    (0..6).collect()
}
fn foreign(c: u64) {
    let mut b = vec![0x82u8, 0x21];
    let what = c >> 1;
    if what != 1 {
        b[0] = u8_();
    }
    if what != 0 {
        b[1] = u8_();
    }
    let (id, second) = (b[0], b[1]);
    let seq = int(32) as u32;
    Enc::uv(&mut b, seq as u64);
    b.push(1);
    let x = u8_();
    assume(x < 128);
    b.push(x);
    reach(1);
    let mut s = Src::new(&b, Plan::whole());
    let r = begin(&mut s, c & 1 == 1);
    observe(1, outcome(&r) as u64);
    let (version, t) = (second & 31, second >> 5);
    if id != 0x82 || version != 1 {
        if t >= 1 && t <= 4 {
            check!(outcome(&r) == P_VERSION, "a wrong protocol id or version is not refused as a bad version");
        } else {
            check!(r.is_err(), "a wrong protocol id or version is accepted");
        }
    } else if t < 1 || t > 4 {
        check!(outcome(&r) == P_INVALID, "an unknown message type is not refused as invalid data");
    } else {
        reach(2);
        match r {
            Ok(m) => {
                check!(m.message_type == MSG[t as usize - 1], "another message type is read");
                check!(m.sequence_number == seq && m.name.as_bytes() == [x], "another sequence number or name is read");
            }
            Err(_) => check!(false, "a conforming message header is refused"),
        }
    }
}
/// a whole message: header, a struct, end; twice. type of the struct | asynchronous << 8
fn whole_cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for ty in 0..N_TYPES {
        for s in 0..2 {
            v.push(ty | s << 8);
            v.push(ty | s << 8 | 1 << 9);
        }
    }
    v
}
struct Whole(bool, Pat);
impl Visit for Whole {
    fn visit<T: Meta>(&mut self) {
        let v: T = T::make(&mut G::new(self.1, NOWIDE));
        let mut ops = vec![];
        for _ in 0..2 {
            ops.push(make(0, Args::Narrow));
        }
        reach(1);
        let mut b = vec![];
        if self.0 {
            let mut p = TCompactOutputStreamProtocol::new(&mut b);
            for o in &ops {
                let ok = block_on(async {
                    awrite(&mut p, o).await?;
                    v.awr(&mut p).await?;
                    p.write_message_end().await
                });
                check!(ok.is_ok(), "writing a message fails");
            }
        } else {
            let mut p = TCompactOutputProtocol::new(&mut b);
            for o in &ops {
                let ok = write(&mut p, o).is_ok() && v.wr(&mut p).is_ok() && p.write_message_end().is_ok();
                check!(ok, "writing a message fails");
            }
        }
        obs_bytes(1, &b);
        let mut s = Src::new(&b, Plan::whole());
        if self.0 {
            let mut p = TCompactInputStreamProtocol::new(&mut s, usize::MAX);
            for o in &ops {
                let r = block_on(async {
                    let h = aread(&mut p, o).await?;
                    let x = T::ard(&mut p).await?;
                    p.read_message_end().await?;
                    Ok::<bool, parquet_format_safe::thrift::Error>(h && x == v)
                });
                check!(matches!(r, Ok(true)), "a message is not read back");
            }
        } else {
            let mut p = TCompactInputProtocol::new(&mut s, usize::MAX);
            for o in &ops {
                let h = read(&mut p, o);
                let x = T::rd(&mut p);
                let e = p.read_message_end();
                check!(matches!(h, Ok(true)) && matches!(x, Ok(x) if x == v) && e.is_ok(), "a message is not read back");
            }
        }
        check!(s.pos == b.len(), "reading a message does not end behind it");
    }
}
fn whole(c: u64) {
    on_type(c & 0xff, &mut Whole((c >> 8) & 1 == 1, if c >> 9 == 1 { Pat::All } else { Pat::Alt }));
}
harnesses! {
    "c21_trip" h_c21_trip n_c21_trip : trip_cases => trip;
    "c21_foreign" h_c21_foreign n_c21_foreign : foreign_cases => foreign;
    "c21_whole" h_c21_whole n_c21_whole : whole_cases => whole;
}
