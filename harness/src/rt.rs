//! Interface between the harnesses and what runs them: the symbolic executor
//! (which intercepts the `sym_*` declarations) or the native replayer.

#[cfg(not(feature = "native"))]
extern "C" {
    fn sym_int(width: u64) -> u64;
    fn sym_assume(c: u64);
    fn sym_assert(c: u64, id: u64);
    fn sym_observe(tag: u64, v: u64);
    fn sym_reach(id: u64);
    fn sym_cut() -> !;
    fn sym_fix(v: u64) -> u64;
}

#[cfg(not(feature = "native"))]
mod imp {
    use super::*;
    pub fn int(w: u64) -> u64 {
        unsafe { sym_int(w) }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c as u64) }
    }
    pub fn assert_id(c: bool, id: u64, _m: &'static str) {
        unsafe { sym_assert(c as u64, id) }
    }
    pub fn observe(t: u64, v: u64) {
        unsafe { sym_observe(t, v) }
    }
    pub fn reach(id: u64) {
        unsafe { sym_reach(id) }
    }
    pub fn cut() -> ! {
        unsafe { sym_cut() }
    }
    /// the same value, with one path for each value it can have
    pub fn fix(v: u64) -> u64 {
        unsafe { sym_fix(v) }
    }
    /// stands in for `alloc::fmt::format` (message texts are not modelled)
    #[no_mangle]
    #[inline(never)]
    pub extern "Rust" fn stub_format_inner(_a: core::fmt::Arguments<'_>) -> String {
        String::from("<message>")
    }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    pub struct Failed(pub u64, pub &'static str);
    pub struct Assumed;
    pub struct CutOff;
    #[derive(Default)]
    pub struct Run {
        pub inputs: Vec<u64>,
        pub next: usize,
        pub obs: Vec<(u64, u64)>,
        pub exhausted: bool,
    }
    thread_local!(pub static RUN: RefCell<Run> = RefCell::new(Run::default()));
    pub fn int(w: u64) -> u64 {
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            let i = r.next;
            r.next += 1;
            if i >= r.inputs.len() {
                r.exhausted = true;
                return 0;
            }
            let v = r.inputs[i];
            if w >= 64 {
                v
            } else {
                v & ((1u64 << w) - 1)
            }
        })
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Assumed)
        }
    }
    pub fn assert_id(c: bool, id: u64, m: &'static str) {
        if !c {
            std::panic::panic_any(Failed(id, m))
        }
    }
    pub fn observe(t: u64, v: u64) {
        RUN.with(|r| r.borrow_mut().obs.push((t, v)))
    }
    pub fn reach(_: u64) {}
    pub fn fix(v: u64) -> u64 {
        v
    }
    pub fn cut() -> ! {
        std::panic::panic_any(CutOff)
    }
}
pub use imp::{assert_id, assume, cut, fix, int, observe, reach};

pub const fn fnv(s: &str) -> u64 {
    let b = s.as_bytes();
    let mut h: u64 = 0xcbf29ce484222325;
    let mut i = 0;
    while i < b.len() {
        h ^= b[i] as u64;
        h = h.wrapping_mul(0x100000001b3);
        i += 1;
    }
    h & 0xffff_ffff_ffff
}

#[macro_export]
macro_rules! check {
    ($c:expr, $m:expr) => {{
        const ID: u64 = $crate::rt::fnv($m);
        $crate::rt::assert_id($c, ID, $m)
    }};
}

#[allow(unused_macros)]
macro_rules! on_num {
    ($i:expr, $f:ident $(, $a:expr)*) => {
        match $i {
            0 => $f::<u8>($($a),*),
            1 => $f::<u16>($($a),*),
            2 => $f::<u32>($($a),*),
            3 => $f::<u64>($($a),*),
            4 => $f::<i8>($($a),*),
            5 => $f::<i16>($($a),*),
            6 => $f::<i32>($($a),*),
            _ => $f::<i64>($($a),*),
        }
    };
}

pub fn u8_() -> u8 {
    int(8) as u8
}
/// one of 0..n, chosen by the solver; one path each
pub fn pick(n: u64) -> u64 {
    let v = int(8);
    assume(v < n);
    fix(v)
}
pub fn flip() -> bool {
    fix(int(1)) == 1
}
pub fn obs_bytes(tag: u64, b: &[u8]) {
    observe(tag, b.len() as u64);
    for x in b {
        observe(tag, *x as u64);
    }
}

// ---------------------------------------------------------------------
// Allocator: requests above LIMIT fail (as they would on a machine with that
// little memory), and the sizes asked for are recorded.
use std::alloc::{GlobalAlloc, Layout};
pub const LIMIT: usize = 1 << 26;
pub struct Lim;
pub static mut MAX_REQ: usize = 0;
pub static mut TRACK: bool = false;

extern "C" {
    fn malloc(n: usize) -> *mut u8;
    fn calloc(n: usize, m: usize) -> *mut u8;
    fn realloc(p: *mut u8, n: usize) -> *mut u8;
    fn free(p: *mut u8);
    fn posix_memalign(p: *mut *mut u8, a: usize, n: usize) -> i32;
}
#[inline(always)]
fn note(n: usize) -> bool {
    unsafe {
        if TRACK {
            let m = MAX_REQ;
            MAX_REQ = if n > m { n } else { m };
        }
    }
    n <= LIMIT
}
unsafe impl GlobalAlloc for Lim {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return core::ptr::null_mut();
        }
        if l.align() <= 16 {
            malloc(l.size())
        } else {
            let mut p = core::ptr::null_mut();
            posix_memalign(&mut p, l.align(), l.size());
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return core::ptr::null_mut();
        }
        if l.align() <= 16 {
            calloc(l.size(), 1)
        } else {
            let mut p = core::ptr::null_mut();
            posix_memalign(&mut p, l.align(), l.size());
            core::ptr::write_bytes(p, 0, l.size());
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, _l: Layout) {
        free(p)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n) {
            return core::ptr::null_mut();
        }
        if l.align() <= 16 {
            realloc(p, n)
        } else {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                core::ptr::copy_nonoverlapping(p, q, if n < l.size() { n } else { l.size() });
                free(p);
            }
            q
        }
    }
}

// ---------------------------------------------------------------------
// A minimal executor: poll until ready.
use std::future::Future;
use std::pin::Pin;
use std::cell::Cell;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
/// counts how often it is asked to wake the task
static VT: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VT), woken, woken, |_| {});
fn woken(p: *const ()) {
    let n = unsafe { &*(p as *const Cell<u32>) };
    n.set(n.get() + 1);
}
/// polls at most `max` times, and again only if asked to
pub fn block_on_max<F: Future>(f: F, max: u32) -> Option<F::Output> {
    // outlives every waker
    let woken: &'static Cell<u32> = Box::leak(Box::new(Cell::new(0)));
    let mut f: Pin<Box<F>> = Box::pin(f);
    let w = unsafe { Waker::from_raw(RawWaker::new(woken as *const Cell<u32> as *const (), &VT)) };
    let mut cx = Context::from_waker(&w);
    let mut i = 0;
    while i < max {
        let before = woken.get();
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Some(r);
        }
        i += 1;
        if max > 1 {
            check!(woken.get() != before, "a future is pending and nothing will wake it");
        }
    }
    None
}
/// the source or sink is always ready: the future must be ready at once
pub fn block_on<F: Future>(f: F) -> F::Output {
    match block_on_max(f, 1) {
        Some(x) => x,
        None => {
            check!(false, "a future stays pending although its transport is ready");
            cut()
        }
    }
}
