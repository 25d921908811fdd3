use crate::io::*;
use crate::rd::*;
use crate::rt::*;
use parquet_format_safe::thrift::protocol::*;
use std::io::{Read, Result, Seek, SeekFrom};

/// a source that notes how it is sought in
struct Tape<'a> {
    b: &'a [u8],
    pos: usize,
    answer: Option<u64>,
}
impl<'a> Read for Tape<'a> {
    fn read(&mut self, o: &mut [u8]) -> Result<usize> {
        let left = &self.b[self.pos.min(self.b.len())..];
        let n = left.len().min(o.len());
        o[..n].copy_from_slice(&left[..n]);
        self.pos += n;
        Ok(n)
    }
}
impl<'a> Seek for Tape<'a> {
    fn seek(&mut self, _: SeekFrom) -> Result<u64> {
        match self.answer {
            Some(n) => {
                self.pos = n.min(self.b.len() as u64) as usize;
                Ok(n)
            }
            None => Err(std::io::ErrorKind::AddrInUse.into()),
        }
    }
}
/// what is read before and after | kind of seek << 8
fn cases(_: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 0..N_PRIM {
        if !(k >= 23 && k <= 26 || k == 32) {
            for s in 0..4 {
                if s == 0 || matches!(k, 0 | 2 | 4 | 9 | 12) {
                    v.push(k | s << 8);
                }
            }
        }
    }
    v
}
fn seek(c: u64) {
    let b = any_bytes(4);
    let n = int(64);
    let to = match c >> 8 {
        0 => SeekFrom::Start(n),
        1 => SeekFrom::End(n as i64),
        _ => SeekFrom::Current(n as i64),
    };
    // where it lands; the last kind fails
    let at = pick(5);
    let answer = if c >> 8 == 3u64 { None } else { Some(at) };
    reach(1);
    let mut p = TCompactInputProtocol::new(Tape { b: &b, pos: 0, answer }, usize::MAX);
    let first = p.read_byte();
    observe(1, outcome(&first) as u64);
    match p.seek(to) {
        Ok(x) => check!(answer == Some(x), "seeking returns another position than the source"),
        Err(e) => check!(answer.is_none() && e.kind() == std::io::ErrorKind::AddrInUse, "seeking fails otherwise than the source"),
    }
    let k = c & 0xff;
    let y = prim(&mut p, k);
    let mut rest = Src::new(&b[if answer.is_some() { at as usize } else { 1 }..], Plan::whole());
    let x = prim(&mut TCompactInputProtocol::new(&mut rest, usize::MAX), k);
    check!(outcome(&x) == outcome(&y), "after seeking reading ends otherwise than from that position");
    if let (Ok(x), Ok(y)) = (&x, &y) {
        reach(2);
        check!(x == y, "after seeking something else is read than from that position");
    }
}
/// the request reaches the source
struct Note<'a>(&'a mut Option<SeekFrom>, &'a mut u32);
impl<'a> Read for Note<'a> {
    fn read(&mut self, _: &mut [u8]) -> Result<usize> {
        check!(false, "seeking reads");
        Ok(0)
    }
}
impl<'a> Seek for Note<'a> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        *self.0 = Some(to);
        *self.1 += 1;
        Ok(7)
    }
}
fn asked(c: u64) {
    let n = int(64);
    let to = match c {
        0 => SeekFrom::Start(n),
        1 => SeekFrom::End(n as i64),
        _ => SeekFrom::Current(n as i64),
    };
    let (mut seen, mut calls) = (None, 0u32);
    reach(1);
    let r = TCompactInputProtocol::new(Note(&mut seen, &mut calls), int(64) as usize).seek(to);
    check!(matches!(r, Ok(7)), "seeking returns another position than the source's");
    check!(calls == 1 && seen == Some(to), "the source is asked for another position");
}
fn asked_cases(_: u64) -> Vec<u64> {
    vec![0, 1, 2]
}
harnesses! {
    "c29_seek" h_c29_seek n_c29_seek : cases => seek;
    "c29_asked" h_c29_asked n_c29_asked : asked_cases => asked;
}
