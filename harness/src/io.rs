//! Sources and sinks whose behaviour the solver chooses.
use crate::rt::*;
use futures::io::{AsyncRead, AsyncWrite};
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::pin::Pin;
use std::task::{Context, Poll};

/// What a transport does out of the ordinary. `at` and `at2` count its calls.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// transfers all it can
    Whole,
    /// one byte per call
    One,
    /// transfers a part chosen by the solver in call `at` and in call `at2`
    Part,
    /// asks for a retry (synchronous: Interrupted, asynchronous: Pending) before call `at` and before `at2`
    Retry,
    /// asks for a retry before every call, and transfers one byte at a time
    Slow,
    /// fails in call `at`
    Fail,
    /// fails in call `at`, before that one byte per call
    FailSlow,
    /// asks for a retry before call `at` and transfers one byte in it, likewise `at2`
    PartRetry,
    /// accepts nothing in call `at` (sinks)
    Zero,
}
#[derive(Clone, Copy)]
pub struct Plan {
    pub mode: Mode,
    pub at: u64,
    pub at2: u64,
    pub kind: ErrorKind,
    pub calls: u64,
    pub retried: bool,
    /// the fault has happened
    pub hit: bool,
    /// calls made after the fault
    pub after: u64,
}
pub enum Act {
    All,
    Upto(usize),
    Retry,
    Fail(ErrorKind),
    Zero,
}
impl Plan {
    pub fn whole() -> Plan {
        Plan::new(Mode::Whole)
    }
    pub fn new(mode: Mode) -> Plan {
        Plan { mode, at: u64::MAX, at2: u64::MAX, kind: ErrorKind::Other, calls: 0, retried: false, hit: false, after: 0 }
    }
    pub fn at(mode: Mode, at: u64) -> Plan {
        let mut p = Plan::new(mode);
        p.at = at;
        p
    }
    /// `n`: how much the call could transfer
    fn act(&mut self, n: usize) -> Act {
        if self.hit && matches!(self.mode, Mode::Fail | Mode::FailSlow | Mode::Zero) {
            self.after += 1;
        }
        let c = self.calls;
        let now = match self.mode {
            Mode::Whole | Mode::One => false,
            Mode::Slow => true,
            _ => fix((self.at == c || self.at2 == c) as u64) == 1,
        };
        match self.mode {
            Mode::Retry | Mode::Slow | Mode::PartRetry if now && !self.retried => {
                self.retried = true;
                self.hit = true;
                return Act::Retry;
            }
            _ => {}
        }
        self.retried = false;
        self.calls += 1;
        match self.mode {
            Mode::One | Mode::Slow => Act::Upto(1),
            Mode::Part if now && n > 1 => {
                self.hit = true;
                Act::Upto(1 + pick(n.min(4) as u64 - 1) as usize)
            }
            Mode::Fail | Mode::FailSlow if now => {
                self.hit = true;
                Act::Fail(self.kind)
            }
            Mode::PartRetry if now => Act::Upto(1),
            Mode::Zero if now => {
                self.hit = true;
                Act::Zero
            }
            Mode::FailSlow => Act::Upto(1),
            _ => Act::All,
        }
    }
}

pub struct Src<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: Plan,
}
impl<'a> Src<'a> {
    pub fn new(data: &'a [u8], plan: Plan) -> Src<'a> {
        Src { data, pos: 0, plan }
    }
    fn give(&mut self, b: &mut [u8], max: usize) -> usize {
        let mut n = self.data.len() - self.pos;
        if b.len() < n {
            n = b.len();
        }
        if max < n {
            n = max;
        }
        // one path for each number of bytes transferred
        let n = fix(n as u64) as usize;
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        n
    }
    fn room(&self, b: &[u8]) -> usize {
        let n = self.data.len() - self.pos;
        if b.len() < n {
            b.len()
        } else {
            n
        }
    }
}
impl<'a> Read for Src<'a> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        match self.plan.act(self.room(b)) {
            Act::All => Ok(self.give(b, usize::MAX)),
            Act::Upto(n) => Ok(self.give(b, n)),
            Act::Retry => Err(Error::from(ErrorKind::Interrupted)),
            Act::Fail(k) => Err(Error::from(k)),
            Act::Zero => Ok(0),
        }
    }
}
impl<'a> AsyncRead for Src<'a> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<Result<usize>> {
        let n = self.room(b);
        match self.plan.act(n) {
            Act::All => Poll::Ready(Ok(self.give(b, usize::MAX))),
            Act::Upto(n) => Poll::Ready(Ok(self.give(b, n))),
            Act::Retry => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Act::Fail(k) => Poll::Ready(Err(Error::from(k))),
            Act::Zero => Poll::Ready(Ok(0)),
        }
    }
}

/// A sink that records what it accepted.
pub struct Sink {
    pub out: Vec<u8>,
    pub plan: Plan,
}
impl Sink {
    pub fn new(plan: Plan) -> Sink {
        Sink { out: vec![], plan }
    }
    fn take(&mut self, b: &[u8], max: usize) -> usize {
        let n = if b.len() < max { b.len() } else { max };
        self.out.extend_from_slice(&b[..n]);
        n
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        match self.plan.act(b.len()) {
            Act::All => Ok(self.take(b, usize::MAX)),
            Act::Upto(n) => Ok(self.take(b, n)),
            Act::Retry => Err(Error::from(ErrorKind::Interrupted)),
            Act::Fail(k) => Err(Error::from(k)),
            Act::Zero => Ok(0),
        }
    }
    fn flush(&mut self) -> Result<()> {
        // only of `write` it is said that it be repeated when interrupted
        match self.plan.act(0) {
            Act::Fail(k) => Err(Error::from(k)),
            _ => Ok(()),
        }
    }
}
impl AsyncWrite for Sink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        match self.plan.act(b.len()) {
            Act::All => Poll::Ready(Ok(self.take(b, usize::MAX))),
            Act::Upto(n) => Poll::Ready(Ok(self.take(b, n))),
            Act::Retry => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Act::Fail(k) => Poll::Ready(Err(Error::from(k))),
            Act::Zero => Poll::Ready(Ok(0)),
        }
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        match self.plan.act(0) {
            Act::Retry => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Act::Fail(k) => Poll::Ready(Err(Error::from(k))),
            _ => Poll::Ready(Ok(())),
        }
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// Category and kind of an error, as a number.
pub fn class(e: &parquet_format_safe::thrift::Error) -> u32 {
    use parquet_format_safe::thrift::Error::*;
    match e {
        Transport(e) => 100 + e.kind as u32,
        Protocol(e) => 200 + e.kind as u32,
        Application(e) => 300 + e.kind as u32,
    }
}
pub const EOF: u32 = 104;
pub const P_UNKNOWN: u32 = 200;
pub const P_INVALID: u32 = 201;
pub const P_SIZE: u32 = 203;
pub const P_VERSION: u32 = 204;
pub const P_DEPTH: u32 = 206;
/// 0 for a value, otherwise the class of the error
pub fn outcome<T>(r: &parquet_format_safe::thrift::Result<T>) -> u32 {
    match r {
        Ok(_) => 0,
        Err(e) => class(e),
    }
}
