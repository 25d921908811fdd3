use crate::c14::Num;
use crate::rt::*;
use parquet_format_safe::thrift::varint::*;
use std::io::ErrorKind;

/// type, number of bytes
fn cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for t in 0..8 {
        for n in (0..13).chain([15, 16, 17, 20, 24, 31, 32, 33, 40, 64]) {
            v.push(t | n << 8);
        }
    }
    v
}
fn arbitrary<T: Num>(n: usize) {
    let mut b = vec![];
    for _ in 0..n {
        b.push(u8_());
    }
    reach(1);
    // the position of the first byte without continuation bit
    let mut end = 0;
    while end < n && b[end] >= 128 {
        end += 1;
    }
    let max = ((T::BITS + 7) / 7) as usize;
    let mut w = 0u64;
    let mut i = 0;
    while i <= end && i < n && i < 10 {
        w |= ((b[i] & 127) as u64) << (7 * i as u32);
        i += 1;
    }
    let want = T::of_wire(w);
    let s = T::decode_var(&b);
    if end < n && end < 10 {
        match s {
            Some((d, k)) => {
                check!(d == want, "a slice decodes to another integer");
                check!(k == end + 1, "decoding a slice reports another size");
            }
            None => check!(false, "decoding a complete varint from a slice fails"),
        }
    } else {
        check!(s.is_none(), "decoding an unfinished or overlong varint from a slice succeeds");
    }
    let mut src: &[u8] = &b;
    let r = src.read_varint::<T>();
    let used = n - src.len();
    let mut asrc: &[u8] = &b;
    let a = block_on(asrc.read_varint_async::<T>());
    check!(used == n - asrc.len(), "asynchronous decoding consumes another number of bytes");
    observe(1, used as u64);
    match (&r, &a) {
        (Ok(x), Ok(y)) => check!(x == y, "asynchronous decoding yields another integer"),
        (Err(x), Err(y)) => check!(x.kind() == y.kind(), "asynchronous decoding fails with another kind"),
        _ => check!(false, "only one of synchronous and asynchronous decoding fails"),
    }
    if end < n && end < max {
        match r {
            Ok(d) => {
                observe(2, 1);
                check!(d == want, "another integer is read");
                check!(used == end + 1, "reading does not stop behind the first byte without continuation bit");
            }
            Err(_) => check!(false, "reading a complete varint fails"),
        }
    } else {
        // the integer is longer than allowed as soon as `max` bytes all continue
        let long = n > max;
        match r {
            Ok(_) => check!(false, "reading an unfinished or overlong varint succeeds"),
            Err(e) => {
                let k = if long { ErrorKind::InvalidData } else { ErrorKind::UnexpectedEof };
                check!(e.kind() == k, "an unfinished or overlong varint is reported with another kind");
                check!(used <= max + 1, "reading goes on beyond the longest possible varint");
            }
        }
    }
}
fn run(c: u64) {
    on_num!(c & 0xff, arbitrary, (c >> 8) as usize)
}
harnesses! {
    "c15_decode" h_c15_decode n_c15_decode : cases => run;
}
