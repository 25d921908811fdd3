use crate::io::*;
use crate::ops::*;
use crate::rt::*;
use crate::schema::{sext, Enc};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result;

/// writes the operations, compares the bytes with the specified ones, reads them back
fn trip(ops: &[Op], asy: bool) {
    reach(1);
    let mut rf = Ref::new();
    let mut b = vec![];
    {
        let mut sink = Sink::new(Plan::whole());
        if asy {
            let mut q = TCompactOutputStreamProtocol::new(&mut sink);
            for o in ops {
                check!(block_on(awrite(&mut q, o)).is_ok(), "an asynchronous write call fails");
            }
        } else {
            let mut q = TCompactOutputProtocol::new(&mut sink);
            for o in ops {
                check!(write(&mut q, o).is_ok(), "a write call fails");
            }
        }
        b.append(&mut sink.out);
    }
    for o in ops {
        rf.put(o);
    }
    obs_bytes(1, &b);
    check!(b == rf.out, "write calls emit other bytes than the compact protocol specifies");
    // something behind, which must not be touched
    b.push(u8_());
    let mut s = Src::new(&b, Plan::whole());
    if asy {
        let mut q = TCompactInputStreamProtocol::new(&mut s, usize::MAX);
        for o in ops {
            match block_on(aread(&mut q, o)) {
                Ok(same) => check!(same, "an asynchronous read call returns something else than was written"),
                Err(_) => check!(false, "an asynchronous read call refuses what was written"),
            }
        }
    } else {
        let mut q = TCompactInputProtocol::new(&mut s, usize::MAX);
        for o in ops {
            match read(&mut q, o) {
                Ok(same) => check!(same, "a read call returns something else than was written"),
                Err(_) => check!(false, "a read call refuses what was written"),
            }
        }
    }
    check!(s.pos + 1 == b.len(), "the read calls do not consume exactly what was written");
}
/// every operation after every operation, and a field. first | second << 8 | asynchronous << 16
fn pairs(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for a in 0..N_OPS {
        for b in 1..N_OPS {
            if a == 3 && b == 3 {
                continue;
            }
            v.push(a | b << 8);
            v.push(a | b << 8 | 1 << 16);
        }
    }
    v
}
fn pair(c: u64) {
    let (a, b) = (c & 0xff, c >> 8 & 0xff);
    let header = |k| k == 4u64 || k == 5;
    // with two field headers, the type of one
    let p = if a == 4 && b != 4 {
        make(4, Args::Narrow)
    } else if a == 4 {
        plain_field(Args::Wide)
    } else {
        make(a, if a == 5 && header(b) { Args::Wide } else { Args::Narrow })
    };
    let q = make(b, Args::Wide);
    let z = plain_field(Args::Narrow);
    let ops = if a == 0 { vec![p, Op::StructBegin, q, z] } else { vec![Op::StructBegin, p, q, z] };
    trip(&ops, c >> 16 == 1u64);
}
fn nested(_: u64) -> Vec<u64> {
    (0..16).collect()
}
/// fields around structs in a struct, of any ids. which are booleans | order << 1 | asynchronous << 3
fn nest(c: u64) {
    let f = |b: bool| {
        if b {
            make(5, Args::Wide)
        } else {
            plain_field(Args::Wide)
        }
    };
    let (x, y, z) = (f(c & 1 == 1u64), f(c & 1 == 0u64), f(c & 1 == 1u64));
    let (b, s, e) = (Op::StructBegin, Op::FieldStop, Op::StructEnd);
    let ops = match c >> 1 & 3 {
        0 => vec![b.clone(), x, b, y, s.clone(), e.clone(), z, s, e],
        1 => vec![b.clone(), x, s.clone(), e.clone(), b, y, z, s, e],
        2 => vec![b.clone(), x, b.clone(), b, y, s.clone(), e.clone(), s.clone(), e.clone(), z, s, e],
        // boolean elements of a list between fields
        _ => vec![b, x, Op::ListBegin(0, 2), Op::Bool(flip()), Op::Bool(flip()), Op::ListEnd, y, Op::FieldEnd, z, s, e],
    };
    trip(&ops, c >> 3 == 1u64);
}
/// a field header as any conforming writer may emit it. asynchronous
fn header_cases(_: u64) -> Vec<u64> {
    (0..2).collect()
}
fn header(c: u64) {
    let first = sext(int(16), 16) as i16;
    let h = u8_();
    let mut b = vec![5];
    Enc::uv(&mut b, Enc::zz(first as i64));
    b.push(h);
    let (nib, d) = (h & 15, h >> 4);
    assume(nib != 0 && nib < 13);
    let id = if d == 0 {
        let id = sext(int(16), 16) as i16;
        Enc::uv(&mut b, Enc::zz(id as i64));
        id as i32
    } else {
        first as i32 + d as i32
    };
    assume(id <= i16::MAX as i32);
    reach(1);
    let mut s = Src::new(&b, Plan::whole());
    let r = if c == 1 {
        let mut q = TCompactInputStreamProtocol::new(&mut s, usize::MAX);
        block_on(async {
            q.read_struct_begin().await?;
            q.read_field_begin().await?;
            let f = q.read_field_begin().await?;
            let x = f.field_type == TType::Bool && q.read_bool().await?;
            Ok((f, x))
        })
    } else {
        let mut q = TCompactInputProtocol::new(&mut s, usize::MAX);
        let mut go = || {
            q.read_struct_begin()?;
            q.read_field_begin()?;
            let f = q.read_field_begin()?;
            let x = f.field_type == TType::Bool && q.read_bool()?;
            Ok((f, x))
        };
        go()
    };
    let r: Result<_> = r;
    match r {
        Ok((f, x)) => {
            check!(x == (nib == 1), "a boolean in a field header is read as another");
            observe(1, f.id.unwrap_or(0) as u16 as u64);
            check!(f.id == Some(id as i16), "a field header is read with another id");
            let t = [
                TType::Bool,
                TType::Bool,
                TType::I08,
                TType::I16,
                TType::I32,
                TType::I64,
                TType::Double,
                TType::String,
                TType::List,
                TType::Set,
                TType::Map,
                TType::Struct,
            ][nib as usize - 1];
            check!(f.field_type == t, "a field header is read with another type");
        }
        Err(_) => check!(false, "a conforming field header is refused"),
    }
    check!(s.pos == b.len(), "reading a field header consumes other bytes than its own");
}
/// asynchronous << 32
fn long_cases(tier: u64) -> Vec<u64> {
    let mut v = crate::long::op_cases(tier);
    for i in 0..v.len() {
        v.push(v[i] | 1 << 32);
    }
    v
}
harnesses! {
    "c22_pairs" h_c22_pairs n_c22_pairs : pairs => pair;
    "c22_nested" h_c22_nested n_c22_nested : nested => nest;
    "c22_long" h_c22_long n_c22_long : long_cases => |c| trip(&crate::long::ops(c & 0xffff_ffff), c >> 32 == 1u64);
    "c22_header" h_c22_header n_c22_header : header_cases => header;
}
