use crate::io::*;
use crate::rt::*;
use crate::schema::{sext, Enc};
use parquet_format_safe::thrift::varint::*;

/// An integer type with what its encoding denotes.
pub trait Num: VarInt + PartialEq + Send + 'static {
    const BITS: u64;
    fn any() -> Self;
    /// the unsigned number that is put on the wire
    fn wire(self) -> u64;
    fn of_wire(w: u64) -> Self;
}
macro_rules! num {
    ($($t:ty, $b:literal, $s:literal;)*) => { $(
        impl Num for $t {
            const BITS: u64 = $b;
            fn any() -> Self {
                if $s { sext(int($b), $b) as $t } else { int($b) as $t }
            }
            fn wire(self) -> u64 {
                if $s { Enc::zz(self as i64) } else { self as u64 }
            }
            fn of_wire(w: u64) -> Self {
                if $s {
                    let m = (w >> 1) as i64;
                    (if w & 1 == 1 { !m } else { m }) as $t
                } else {
                    w as $t
                }
            }
        }
    )* };
}
num! { u8, 8, false; u16, 16, false; u32, 32, false; u64, 64, false; i8, 8, true; i16, 16, true; i32, 32, true; i64, 64, true; }
fn codec<T: Num>() {
    let v = T::any();
    reach(1);
    // fewest groups of seven bits that hold the number
    let w = v.wire();
    let mut n = 1usize;
    let mut x = w >> 7;
    while x != 0 {
        n += 1;
        x >>= 7;
    }
    observe(1, n as u64);
    check!(v.required_space() == n, "the advertised space is not the minimal number of bytes");
    let e = v.encode_var_vec();
    check!(e.len() == n && n >= 1 && n <= 10, "the encoding has not the advertised size");
    obs_bytes(2, &e);
    let mut r = vec![];
    Enc::uv(&mut r, w);
    check!(e == r, "the encoding is not the canonical one");
    let mut buf = [0xaau8; 12];
    let k = v.encode_var(&mut buf);
    check!(k == n && buf[..n] == r[..] && buf[n] == 0xaa, "encoding into a slice differs");
    let mut s = [0u8; 10];
    let k = v.encode_var(&mut s[..n]);
    check!(k == n && s[..n] == r[..], "encoding into an exactly fitting slice differs");
    // into and from larger slices
    let a = u8_();
    for m in [16usize, 20, 32, 64] {
        let mut t = vec![a; m];
        let k = v.encode_var(&mut t);
        check!(k == n && t[..n] == r[..], "encoding into a large slice differs");
        check!(t[n..].iter().all(|x| *x == a), "encoding into a large slice writes beyond the integer");
        match T::decode_var(&t) {
            Some((d, k)) => check!(d == v && k == n, "decoding from a large slice yields something else"),
            None => check!(false, "decoding from a large slice fails"),
        }
    }
    // with anything behind it
    let mut t = e.clone();
    t.push(u8_());
    t.push(u8_());
    match T::decode_var(&t) {
        Some((d, k)) => {
            check!(d == v, "decoding from a slice yields another integer");
            check!(k == n, "decoding from a slice reports another size");
        }
        None => check!(false, "decoding from a slice fails"),
    }
    let mut src: &[u8] = &t;
    match src.read_varint::<T>() {
        Ok(d) => {
            check!(d == v, "reading yields another integer");
            check!(src.len() == 2, "reading consumes another number of bytes");
        }
        Err(_) => check!(false, "reading fails"),
    }
    let mut src: &[u8] = &t;
    match block_on(src.read_varint_async::<T>()) {
        Ok(d) => {
            check!(d == v, "reading asynchronously yields another integer");
            check!(src.len() == 2, "reading asynchronously consumes another number of bytes");
        }
        Err(_) => check!(false, "reading asynchronously fails"),
    }
    let mut out = vec![];
    let k = out.write_varint(v);
    check!(matches!(k, Ok(k) if k == n) && out == r, "writing differs from encoding");
    let mut out = vec![];
    let k = block_on(out.write_varint_async(v));
    check!(matches!(k, Ok(k) if k == n) && out == r, "writing asynchronously differs from encoding");
    let mut s = Sink::new(Plan::new(Mode::One));
    let k = s.write_varint(v);
    check!(matches!(k, Ok(k) if k == n) && s.out == r, "writing to a sink that takes one byte at a time differs");
}
fn run(c: u64) {
    on_num!(c, codec)
}
harnesses! {
    "c14_codec" h_c14_codec n_c14_codec : |_| (0..8).collect() => run;
}
