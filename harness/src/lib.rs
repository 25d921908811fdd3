//! Harnesses: each `h_*` function is executed symbolically from the LLVM IR of
//! this crate, in which the code of parquet-format-safe is compiled and linked.
#![allow(clippy::all)]
#![allow(static_mut_refs)]
#![allow(suspicious_runtime_symbol_definitions)]
#[macro_use]
pub mod rt;
pub mod io;
pub mod junk;
pub mod long;
pub mod ops;
pub mod rd;
pub mod rec;
pub mod schema;
pub mod vals;

#[global_allocator]
static ALLOC: rt::Lim = rt::Lim;

/// A harness: its list of cases in a tier, and what it does for one case.
pub struct H {
    pub name: &'static str,
    pub n: fn(u64) -> Vec<u64>,
    pub f: fn(u64),
}
/// `n_*` hands the case list to the executor: a count followed by the cases.
pub fn hand_over(v: Vec<u64>) -> *const u64 {
    let mut w = vec![v.len() as u64];
    w.extend(v);
    Box::leak(w.into_boxed_slice()).as_ptr()
}
#[macro_export]
macro_rules! harnesses {
    ($($name:literal $h:ident $n:ident : $nf:expr => $f:expr;)*) => {
        pub const REG: &[$crate::H] = &[ $( $crate::H { name: $name, n: $nf, f: $f } ),* ];
        $(
            #[cfg(not(feature = "native"))]
            #[no_mangle]
            pub extern "C" fn $h(c: u64) { $f(c) }
            #[cfg(not(feature = "native"))]
            #[no_mangle]
            pub extern "C" fn $n(t: u64) -> *const u64 { $crate::hand_over($nf(t)) }
        )*
    };
}

macro_rules! modules {
    ($($f:literal $m:ident)*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        pub fn registry() -> Vec<&'static H> {
            #[allow(unused_mut)]
            let mut v: Vec<&'static H> = vec![];
            $( #[cfg(feature = $f)] v.extend($m::REG); )*
            v
        }
    };
}
modules! {
    "c01" c01 "c02" c02 "c03" c03 "c04" c04 "c05" c05 "c06" c06 "c07" c07 "c08" c08 "c09" c09 "c10" c10
    "c11" c11 "c12" c12 "c13" c13 "c14" c14 "c15" c15 "c16" c16 "c17" c17 "c18" c18 "c19" c19 "c20" c20
    "c21" c21 "c22" c22 "c23" c23 "c24" c24 "c25" c25 "c26" c26 "c27" c27 "c28" c28 "c29" c29
    "c30" c30
}
