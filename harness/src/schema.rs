//! parquet.thrift as a table, with a generator of symbolic values and an
//! independent encoder for the Thrift compact protocol.
use crate::rec::J;
use crate::rt::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result;
use parquet_format_safe::*;
use std::future::Future;
use std::pin::Pin;

// ------------------------------------------------------------ generator
/// Which optional fields nested values have, and how long lists are.
#[derive(Clone, Copy, PartialEq)]
pub enum Pat {
    All,
    None,
    Alt,
}
pub struct G {
    pub pat: Pat,
    pub leaf: u32,
    pub wide: u32,
    pub sym_opts: bool, // presence of the fields of the outermost struct is symbolic
    pub depth: u32,
    pub plain: bool, // concrete small values only
    pub count: bool, // only counting leaves
    pub all: bool,   // integers of any value everywhere
    pub calm: bool,  // everything else than the unconstrained leaf is concrete
    pub wide2: u32,  // another unconstrained leaf
    pub short: bool, // no long lists, byte arrays or texts
}
pub const NOWIDE: u32 = u32::MAX;
impl G {
    pub fn new(pat: Pat, wide: u32) -> G {
        G { pat, leaf: 0, wide, sym_opts: false, depth: 0, plain: false, count: false, all: false, calm: false, wide2: NOWIDE, short: false }
    }
    pub fn plain(pat: Pat) -> G {
        let mut g = G::new(pat, NOWIDE);
        g.plain = true;
        g
    }
    pub fn next(&mut self) -> bool {
        let w = self.leaf == self.wide || self.leaf == self.wide2;
        self.leaf += 1;
        w && !self.plain
    }
    pub fn int(&mut self, bits: u64) -> i64 {
        let wide = self.next();
        if self.count || self.plain || self.calm && !wide {
            return (self.leaf % 100) as i64 - 50;
        }
        if wide || self.all {
            return sext(int(bits), bits);
        }
        let b = int(8) as u8;
        // one varint byte; zero is left to the unconstrained leaves, since the
        // encoder treats it separately
        assume(b.wrapping_add(64) < 128 && b != 0);
        b as i8 as i64
    }
    /// an enum code: a named one, or unconstrained
    pub fn code(&mut self) -> i32 {
        if (self.next() || self.all) && !self.count {
            return int(32) as i32;
        }
        (self.leaf % 4) as i32
    }
    pub fn boolean(&mut self) -> bool {
        if (self.next() || self.all && self.depth == 1) && !self.count {
            return flip();
        }
        self.leaf & 1 == 1
    }
    pub fn present(&mut self) -> bool {
        let wide = self.next();
        if !self.count {
            if wide || (self.sym_opts && self.depth == 1) {
                return flip();
            }
        }
        match self.pat {
            Pat::All => true,
            Pat::None => false,
            Pat::Alt => self.leaf & 1 == 1,
        }
    }
    pub fn alt(&mut self, n: u64) -> u64 {
        if self.next() && !self.count {
            return pick(n);
        }
        match self.pat {
            Pat::All => n - 1,
            Pat::None => 0,
            Pat::Alt => self.leaf as u64 % n,
        }
    }
    pub fn len(&mut self) -> usize {
        if self.next() && !self.count {
            return [0usize, 1, 2, 14, 15, 16, 127, 128][pick(if self.short { 2 } else { 8 }) as usize];
        }
        match self.pat {
            Pat::All => 1,
            Pat::None => 0,
            Pat::Alt => 2,
        }
    }
    fn bytes(&mut self, ascii: bool) -> Vec<u8> {
        let wide = self.next();
        if self.count || self.plain || self.calm && !wide {
            return vec![b'a' + (self.leaf % 20) as u8; 1 + (self.leaf % 2) as usize];
        }
        let mut v = vec![];
        if !wide {
            let b = int(8) as u8;
            if ascii {
                assume(b < 0x80);
            }
            v.push(b);
            return v;
        }
        let n = [0usize, 1, 2, 3, 4, 127, 128, 300][pick(if self.short { 2 } else { 8 }) as usize];
        let long = n > 4;
        for i in 0..n {
            if long && i > 0 && i + 1 < n {
                v.push(b'x');
                continue;
            }
            let b = int(8) as u8;
            if ascii && (long || self.calm) {
                assume(b < 0x80);
            }
            v.push(b);
        }
        v
    }
    pub fn binary(&mut self) -> Vec<u8> {
        self.bytes(false)
    }
    pub fn string(&mut self) -> String {
        match String::from_utf8(self.bytes(true)) {
            Ok(s) => s,
            Err(_) => cut(),
        }
    }
}
pub fn sext(v: u64, bits: u64) -> i64 {
    if bits >= 64 {
        v as i64
    } else {
        ((v << (64 - bits)) as i64) >> (64 - bits)
    }
}

// ------------------------------------------------------------ encoder
pub struct Fld {
    pub id: i16,
    pub nib: u8,
    pub req: bool,
    pub body: Vec<u8>,
}
/// What the encoder does differently from the canonical encoding, at one place.
#[derive(Clone, Copy, PartialEq)]
pub enum Twist {
    None,
    /// at struct `n`: long form field headers where the solver says so, fields permuted
    Struct,
    /// at union `n`: long form header
    Union,
    /// lists of booleans with the other element type, or zeros
    Bools,
    /// at list `n`: long form header, padded count
    List,
    /// at varint `n`: padded with redundant continuation bytes
    Varint,
    /// at struct `n`: one unknown field inserted at some position
    Unknown,
    /// at struct `n`: one required field left out (`sel` 1, outermost struct: any of them)
    Drop,
    /// at struct `n`: optional fields left out
    DropOpt,
    /// at union `n`: no alternative
    Empty,
    /// at union `n`: two alternatives
    Twice,
    /// at list `n`: any count, whatever follows
    HugeList,
    /// at byte array `n`: any length, whatever follows
    HugeBlob,
    /// byte array `n` holds arbitrary bytes instead, `sel` of them
    Blob,
}
pub struct Enc {
    pub twist: Twist,
    pub at: u32,
    pub structs: u32,
    pub unions: u32,
    pub lists: u32,
    pub blobs: u32,
    pub bools: u32,
    pub varints: u32,
    pub sel: u64,
    pub fields_at: u32, // number of fields of the chosen struct
    pub strings: Vec<usize>,
    pub reqs: u32,
    pub hits: u32,
    /// declared bytes plus declared elements
    pub lo: usize,
    /// false is written as 0 in lists
    pub zeros: bool,
    /// the arbitrary count or length
    pub huge: u32,
    /// declared bytes, eight for each element, two for each struct or union
    pub hi: usize,
    pub unknown: Option<fn(&mut Enc) -> (i16, u8, Vec<u8>)>,
    /// the arbitrary bytes, and whether they stand for text
    pub bytes: Vec<u8>,
    pub text: bool,
    /// the field ids of the struct being encoded
    pub ids: &'static [i16],
}
impl Enc {
    pub fn new() -> Enc {
        Enc {
            twist: Twist::None,
            at: 0,
            structs: 0,
            unions: 0,
            lists: 0,
            blobs: 0,
            bools: 0,
            varints: 0,
            sel: 0,
            fields_at: 0,
            strings: vec![],
            reqs: 0,
            hits: 0,
            lo: 0,
            huge: 0,
            zeros: false,
            hi: 0,
            unknown: None,
            bytes: vec![],
            text: false,
            ids: &[],
        }
    }
    pub fn twisted(twist: Twist, at: u32, sel: u64) -> Enc {
        let mut e = Enc::new();
        e.twist = twist;
        e.at = at;
        e.sel = sel;
        e
    }
    /// canonical base-128
    pub fn uv(o: &mut Vec<u8>, mut v: u64) {
        while v >= 128 {
            o.push(v as u8 | 128);
            v >>= 7;
        }
        o.push(v as u8);
    }
    pub fn zz(v: i64) -> u64 {
        if v < 0 {
            !((v as u64) << 1)
        } else {
            (v as u64) << 1
        }
    }
    /// a varint holding an integer of at most `bits` bits
    pub fn varint(&mut self, o: &mut Vec<u8>, v: u64, bits: u32) {
        let hit = self.twist == Twist::Varint && self.varints == self.at;
        self.varints += 1;
        let start = o.len();
        Enc::uv(o, v);
        if hit {
            self.hits += 1;
            let max = ((bits + 6) / 7) as usize;
            let room = max - (o.len() - start);
            let pad = pick(room as u64 + 1);
            if pad > 0 {
                let l = o.len() - 1;
                o[l] |= 128;
                for _ in 1..pad {
                    o.push(128);
                }
                o.push(0);
            }
        }
    }
    pub fn header(&mut self, o: &mut Vec<u8>, id: i16, last: &mut i16, nib: u8, long: bool) {
        let d = id as i32 - *last as i32;
        if d > 0 && d < 16 && !long {
            // the reference encoders use the short form for 1..=15
            o.push((d as u8) << 4 | nib);
        } else {
            o.push(nib);
            self.varint(o, Enc::zz(id as i64), 16);
        }
        *last = id;
    }
    pub fn list(&mut self, o: &mut Vec<u8>, n: usize, mut el: u8) {
        if el == 1 {
            self.bools += 1;
        }
        if self.twist == Twist::Bools && el == 1 {
            self.hits += 1;
            el = 1 + flip() as u8;
            self.zeros = flip();
        }
        let hit = self.twist == Twist::List && self.lists == self.at;
        let huge = self.twist == Twist::HugeList && self.lists == self.at;
        self.lists += 1;
        self.lo += n;
        self.hi += 8 * n;
        if huge {
            self.hits += 1;
            o.push(0xf0 | el);
            self.huge = int(32) as u32;
            return padded(o, self.huge);
        }
        if n < 15 && !hit {
            o.push((n as u8) << 4 | el);
        } else {
            o.push(0xf0 | el);
            if hit {
                self.hits += 1;
                let start = o.len();
                Enc::uv(o, n as u64);
                let room = 5 - (o.len() - start);
                let pad = pick(room as u64 + 1);
                if pad > 0 {
                    let l = o.len() - 1;
                    o[l] |= 128;
                    for _ in 1..pad {
                        o.push(128);
                    }
                    o.push(0);
                }
            } else {
                self.varint(o, n as u64, 32);
            }
        }
    }
    pub fn st(&mut self, o: &mut Vec<u8>, me: u32, mut f: Vec<Fld>) {
        let hit = me == self.at && !matches!(self.twist, Twist::None | Twist::Union | Twist::Bools | Twist::List | Twist::Varint | Twist::Empty | Twist::Twice | Twist::HugeList | Twist::HugeBlob | Twist::Blob);
        if hit {
            self.fields_at = f.len() as u32;
            self.hits += 1;
        }
        let mut long = 0;
        if hit {
            match self.twist {
                Twist::Struct => {
                    let n = f.len() as u64;
                    // no long header, all, or one
                    long = pick(n + 2);
                    if n > 1 && self.sel == 1 {
                        let (i, j) = (pick(n) as usize, pick(n) as usize);
                        f.swap(i, j);
                    } else if n > 1 {
                        // rotations and reversals of rotations
                        let r = pick(n) as usize;
                        f.rotate_left(r);
                        if flip() {
                            f.reverse();
                        }
                    }
                }
                Twist::Unknown => {
                    let (id, nib, body) = self.unknown.unwrap()(self);
                    let at = pick(f.len() as u64 + 1) as usize;
                    f.insert(at, Fld { id, nib, req: false, body });
                }
                Twist::Drop => {
                    // one required field is missing, or any of them
                    let any = self.sel == 1 && me == 0;
                    let n = f.iter().filter(|x| x.req).count() as u64;
                    let one = if any || n == 0 { u64::MAX } else { pick(n) };
                    let (mut i, mut k) = (0, 0);
                    while i < f.len() {
                        let r = f[i].req;
                        if r && (k == one || any && flip()) {
                            f.remove(i);
                            self.reqs += 1;
                        } else {
                            i += 1;
                        }
                        k += r as u64;
                    }
                }
                Twist::DropOpt => {
                    let mut i = 0;
                    while i < f.len() {
                        if !f[i].req && flip() {
                            f.remove(i);
                        } else {
                            i += 1;
                        }
                    }
                }
                _ => {}
            }
        }
        let mut last = 0i16;
        for (i, x) in f.iter().enumerate() {
            let lf = long == 1 || long == i as u64 + 2;
            self.header(o, x.id, &mut last, x.nib, lf);
            o.extend_from_slice(&x.body);
        }
        o.push(0);
    }
}

// ------------------------------------------------------------ values
pub trait TT: Sized {
    const EL: u8;
    fn nib(&self) -> u8 {
        Self::EL
    }
    fn make(g: &mut G) -> Self;
    fn body(&self, e: &mut Enc, o: &mut Vec<u8>, in_field: bool);
    /// the calls that write it
    fn tell(&self, j: &mut J);
    /// equal in every part
    fn same(&self, o: &Self) -> bool;
    /// some other value
    fn zero() -> Self {
        Self::make(&mut G::plain(Pat::None))
    }
}
macro_rules! tint {
    ($t:ty, $el:literal, $bits:literal, $tag:expr) => {
        impl TT for $t {
            const EL: u8 = $el;
            fn make(g: &mut G) -> Self {
                g.int($bits) as $t
            }
            fn body(&self, e: &mut Enc, o: &mut Vec<u8>, _: bool) {
                e.varint(o, Enc::zz(*self as i64), $bits)
            }
            fn tell(&self, j: &mut J) {
                j.num($tag, *self as i64)
            }
            fn same(&self, o: &Self) -> bool {
                *self == *o
            }
        }
    };
}
tint!(i16, 4, 16, crate::rec::I16);
tint!(i32, 5, 32, crate::rec::I32);
tint!(i64, 6, 64, crate::rec::I64);
impl TT for i8 {
    const EL: u8 = 3;
    fn make(g: &mut G) -> Self {
        g.next();
        if g.count || g.plain {
            return g.leaf as i8;
        }
        int(8) as i8
    }
    fn body(&self, _: &mut Enc, o: &mut Vec<u8>, _: bool) {
        o.push(*self as u8)
    }
    fn tell(&self, j: &mut J) {
        j.num(crate::rec::I8, *self as i64)
    }
    fn same(&self, o: &Self) -> bool {
        *self == *o
    }
}
impl TT for bool {
    const EL: u8 = 1;
    fn nib(&self) -> u8 {
        if *self {
            1
        } else {
            2
        }
    }
    fn make(g: &mut G) -> Self {
        g.boolean()
    }
    fn body(&self, _e: &mut Enc, o: &mut Vec<u8>, in_field: bool) {
        if !in_field {
            o.push(if *self {
                1
            } else if _e.zeros {
                0
            } else {
                2
            })
        }
    }
    fn tell(&self, j: &mut J) {
        j.num(crate::rec::BOOL, *self as i64)
    }
    fn same(&self, o: &Self) -> bool {
        *self == *o
    }
}
/// a varint of five bytes
pub fn padded(o: &mut Vec<u8>, v: u32) {
    for i in 0..4 {
        o.push((v >> (7 * i)) as u8 | 128);
    }
    o.push((v >> 28) as u8);
}
fn blob(e: &mut Enc, o: &mut Vec<u8>, b: &[u8], text: bool) {
    if e.twist == Twist::Blob && e.blobs == e.at {
        e.hits += 1;
        e.text = text;
        let n = e.sel as usize;
        o.push(n as u8);
        for _ in 0..n {
            let x = u8_();
            o.push(x);
            e.bytes.push(x);
        }
        e.blobs += 1;
        return;
    }
    let huge = e.twist == Twist::HugeBlob && e.blobs == e.at;
    e.blobs += 1;
    e.lo += b.len();
    e.hi += b.len();
    if huge {
        e.hits += 1;
        e.huge = int(32) as u32;
        padded(o, e.huge);
        o.extend_from_slice(b);
        return;
    }
    e.varint(o, b.len() as u64, 32);
    o.extend_from_slice(b);
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    let mut r = a.len() == b.len();
    if r {
        for i in 0..a.len() {
            r &= a[i] == b[i];
        }
    }
    r
}
impl TT for String {
    const EL: u8 = 8;
    fn make(g: &mut G) -> Self {
        g.string()
    }
    fn body(&self, e: &mut Enc, o: &mut Vec<u8>, _: bool) {
        blob(e, o, self.as_bytes(), true);
    }
    fn tell(&self, j: &mut J) {
        j.blob(crate::rec::STR, self.as_bytes())
    }
    fn same(&self, o: &Self) -> bool {
        same_bytes(self.as_bytes(), o.as_bytes())
    }
}
impl TT for Vec<u8> {
    const EL: u8 = 8;
    fn make(g: &mut G) -> Self {
        g.binary()
    }
    fn body(&self, e: &mut Enc, o: &mut Vec<u8>, _: bool) {
        blob(e, o, self, false);
    }
    fn tell(&self, j: &mut J) {
        j.blob(crate::rec::BYTES, self)
    }
    fn same(&self, o: &Self) -> bool {
        same_bytes(self, o)
    }
}
impl<T: TT> TT for Vec<T> {
    const EL: u8 = 9;
    fn make(g: &mut G) -> Self {
        let n = g.len();
        let mut v = Vec::new();
        let (p, w) = (g.plain, g.pat);
        for i in 0..n {
            if i == 2 {
                g.plain = true;
                g.pat = Pat::None;
            }
            v.push(T::make(g));
        }
        g.plain = p;
        g.pat = w;
        v
    }
    fn body(&self, e: &mut Enc, o: &mut Vec<u8>, _: bool) {
        e.list(o, self.len(), T::EL);
        for x in self {
            x.body(e, o, false);
        }
    }
    fn tell(&self, j: &mut J) {
        j.seq(crate::rec::LB, crate::rec::wire(T::EL), self.len() as u32);
        for x in self {
            x.tell(j);
        }
        j.call(crate::rec::LE);
    }
    fn same(&self, o: &Self) -> bool {
        let mut r = self.len() == o.len();
        if r {
            for i in 0..self.len() {
                r &= self[i].same(&o[i]);
            }
        }
        r
    }
}
macro_rules! tenum {
    ($($t:ident)*) => { $(
        impl TT for $t {
            const EL: u8 = 5;
            fn make(g: &mut G) -> Self {
                $t(g.code())
            }
            fn body(&self, e: &mut Enc, o: &mut Vec<u8>, _: bool) {
                e.varint(o, Enc::zz(self.0 as i64), 32)
            }
            fn tell(&self, j: &mut J) {
                j.num(crate::rec::I32, self.0 as i64)
            }
            fn same(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
    )* };
}
tenum!(Type ConvertedType FieldRepetitionType Encoding CompressionCodec PageType BoundaryOrder);

macro_rules! mk {
    ($g:expr, req, $t:ty) => {
        <$t as TT>::make($g)
    };
    ($g:expr, opt, $t:ty) => {
        if $g.present() {
            Some(<$t as TT>::make($g))
        } else {
            None
        }
    };
}
macro_rules! put {
    ($e:expr, $v:expr, $id:literal, $x:expr, req) => {{
        let mut b = vec![];
        $x.body($e, &mut b, true);
        $v.push(Fld { id: $id, nib: $x.nib(), req: true, body: b });
    }};
    ($e:expr, $v:expr, $id:literal, $x:expr, opt) => {
        if let Some(x) = &$x {
            let mut b = vec![];
            x.body($e, &mut b, true);
            $v.push(Fld { id: $id, nib: x.nib(), req: false, body: b });
        }
    };
}
macro_rules! alike {
    ($a:expr, $b:expr, req) => {
        $a.same(&$b)
    };
    ($a:expr, $b:expr, opt) => {
        match (&$a, &$b) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    };
}
macro_rules! told {
    ($j:expr, $v:expr, $id:literal, $n:expr, $x:expr, req) => {{
        let mut j = $j.inner();
        $x.tell(&mut j);
        $j.outer(&j);
        $v.push(($n, el(&$x), $id, j));
    }};
    ($j:expr, $v:expr, $id:literal, $n:expr, $x:expr, opt) => {
        if let Some(x) = &$x {
            let mut j = $j.inner();
            x.tell(&mut j);
            $j.outer(&j);
            $v.push(($n, el(x), $id, j));
        }
    };
}
fn el<T: TT>(_: &T) -> u8 {
    T::EL
}
macro_rules! isreq {
    (req) => {
        1
    };
    (opt) => {
        0
    };
}
macro_rules! tstruct {
    ($T:ident { $($id:literal $q:ident $f:ident : $t:ty),* }) => {
        impl TT for $T {
            const EL: u8 = 12;
            #[allow(unused_variables)]
            #[inline(never)]
            fn make(g: &mut G) -> Self {
                g.depth += 1;
                let r = $T { $($f: mk!(g, $q, $t)),* };
                g.depth -= 1;
                r
            }
            #[allow(unused_mut)]
            #[inline(never)]
            fn body(&self, e: &mut Enc, o: &mut Vec<u8>, _: bool) {
                let me = e.structs;
                e.structs += 1;
                e.hi += 2;
                let mut v: Vec<Fld> = vec![];
                $( put!(e, v, $id, self.$f, $q); )*
                e.ids = &[$($id),*];
                e.st(o, me, v);
            }
            #[allow(unused_mut)]
            #[inline(never)]
            fn tell(&self, j: &mut J) {
                let me = j.structs;
                j.structs += 1;
                let mut v: Vec<(&str, u8, i16, J)> = vec![];
                $( told!(j, v, $id, stringify!($f), self.$f, $q); )*
                j.fields(me, stringify!($T), v);
            }
            #[allow(unused_variables)]
            #[inline(never)]
            fn same(&self, o: &Self) -> bool {
                true $(& alike!(self.$f, o.$f, $q))*
            }
        }
        meta!($T, false, 0 $(+ isreq!($q))*, |_s| $T::new($(_s.$f.clone()),*));
    };
}
macro_rules! tunion {
    ($T:ident { $($id:literal $f:ident : $t:ty),* }) => {
        impl TT for $T {
            const EL: u8 = 12;
            #[inline(never)]
            fn make(g: &mut G) -> Self {
                g.depth += 1;
                let n = [$($id),*].len() as u64;
                let k = g.alt(n);
                let mut i = 0u64;
                let mut r = None;
                $( if i == k { r = Some($T::$f(<$t as TT>::make(g))); } i += 1; )*
                let _ = i;
                g.depth -= 1;
                match r { Some(r) => r, None => cut() }
            }
            #[inline(never)]
            fn body(&self, e: &mut Enc, o: &mut Vec<u8>, _: bool) {
                let hit = matches!(e.twist, Twist::Empty | Twist::Twice | Twist::Union) && e.unions == e.at;
                e.unions += 1;
                e.hi += 2;
                if hit { e.hits += 1; }
                let mut last = 0i16;
                if !(hit && e.twist == Twist::Empty) {
                    match self { $(
                        $T::$f(x) => { e.header(o, $id, &mut last, 12, hit && e.twist == Twist::Union); x.body(e, o, true); }
                    )* }
                }
                if hit && e.twist == Twist::Twice {
                    // a second alternative, possibly the same one again
                    let n = [$($id),*].len() as u64;
                    let k = pick(n);
                    let mut i = 0u64;
                    $( if i == k { e.header(o, $id, &mut last, 12, false); <$t as TT>::zero().body(e, o, true); } i += 1; )*
                    let _ = i;
                }
                o.push(0);
            }
            #[inline(never)]
            fn tell(&self, j: &mut J) {
                let mut i = j.inner();
                // unions are not extended: an alternative this version does not
                // know is none at all
                let (n, id) = match self { $( $T::$f(x) => { x.tell(&mut i); (stringify!($f), $id) } )* };
                j.outer(&i);
                j.fields(u32::MAX - 1, stringify!($T), vec![(n, 12, id, i)]);
            }
            #[allow(unreachable_patterns)]
            #[inline(never)]
            fn same(&self, o: &Self) -> bool {
                match (self, o) {
                    $( ($T::$f(a), $T::$f(b)) => a.same(b), )*
                    _ => false,
                }
            }
        }
        meta!($T, true, 0, |s| s.clone());
    };
}
pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
/// A generated type, with its four entry points.
pub trait Meta: TT + Ord + std::hash::Hash + Clone + std::fmt::Debug + ReadThrift + AsyncReadThrift + 'static {
    const NAME: &'static str;
    const UNION: bool;
    const REQS: u32;
    /// the value made anew by its constructor from its fields
    fn rebuild(&self) -> Self;
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize>;
    fn rd<P: TInputProtocol>(p: &mut P) -> Result<Self>;
    fn awr<'a, P: TOutputStreamProtocol>(&'a self, p: &'a mut P) -> Fut<'a, Result<usize>>;
    fn ard<'a, P: TInputStreamProtocol>(p: &'a mut P) -> Fut<'a, Result<Self>>;
}
macro_rules! meta {
    ($T:ident, $u:literal, $r:expr, |$s:ident| $re:expr) => {
        impl Meta for $T {
            const NAME: &'static str = stringify!($T);
            const UNION: bool = $u;
            const REQS: u32 = $r;
            fn rebuild(&self) -> Self {
                let $s = self;
                $re
            }
            fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> {
                self.write_to_out_protocol(p)
            }
            fn rd<P: TInputProtocol>(p: &mut P) -> Result<Self> {
                $T::read_from_in_protocol(p)
            }
            fn awr<'a, P: TOutputStreamProtocol>(&'a self, p: &'a mut P) -> Fut<'a, Result<usize>> {
                Box::pin(self.write_to_out_stream_protocol(p))
            }
            fn ard<'a, P: TInputStreamProtocol>(p: &'a mut P) -> Fut<'a, Result<Self>> {
                Box::pin($T::stream_from_in_protocol(p))
            }
        }
    };
}

pub trait Visit {
    fn visit<T: Meta>(&mut self);
}
macro_rules! types {
    ($($T:ident)*) => {
        pub const N_TYPES: u64 = [$(stringify!($T)),*].len() as u64;
        pub fn on_type<V: Visit>(i: u64, v: &mut V) {
            let mut k = 0u64;
            $( if k == i { return v.visit::<$T>(); } k += 1; )*
            let _ = k;
        }
    };
}
types!(Statistics StringType UUIDType MapType ListType EnumType DateType NullType DecimalType MilliSeconds
    MicroSeconds NanoSeconds TimeUnit TimestampType TimeType IntType JsonType BsonType LogicalType SchemaElement
    DataPageHeader IndexPageHeader DictionaryPageHeader DataPageHeaderV2 SplitBlockAlgorithm BloomFilterAlgorithm
    XxHash BloomFilterHash Uncompressed BloomFilterCompression BloomFilterHeader PageHeader KeyValue SortingColumn
    PageEncodingStats ColumnMetaData EncryptionWithFooterKey EncryptionWithColumnKey ColumnCryptoMetaData ColumnChunk
    RowGroup TypeDefinedOrder ColumnOrder PageLocation OffsetIndex ColumnIndex AesGcmV1 AesGcmCtrV1
    EncryptionAlgorithm FileMetaData FileCryptoMetaData);

tstruct!(Statistics { 1 opt max: Vec<u8>, 2 opt min: Vec<u8>, 3 opt null_count: i64, 4 opt distinct_count: i64,
    5 opt max_value: Vec<u8>, 6 opt min_value: Vec<u8> });
tstruct!(StringType {});
tstruct!(UUIDType {});
tstruct!(MapType {});
tstruct!(ListType {});
tstruct!(EnumType {});
tstruct!(DateType {});
tstruct!(NullType {});
tstruct!(DecimalType { 1 req scale: i32, 2 req precision: i32 });
tstruct!(MilliSeconds {});
tstruct!(MicroSeconds {});
tstruct!(NanoSeconds {});
tunion!(TimeUnit { 1 MILLIS: MilliSeconds, 2 MICROS: MicroSeconds, 3 NANOS: NanoSeconds });
tstruct!(TimestampType { 1 req is_adjusted_to_u_t_c: bool, 2 req unit: TimeUnit });
tstruct!(TimeType { 1 req is_adjusted_to_u_t_c: bool, 2 req unit: TimeUnit });
tstruct!(IntType { 1 req bit_width: i8, 2 req is_signed: bool });
tstruct!(JsonType {});
tstruct!(BsonType {});
tunion!(LogicalType { 1 STRING: StringType, 2 MAP: MapType, 3 LIST: ListType, 4 ENUM: EnumType, 5 DECIMAL: DecimalType,
    6 DATE: DateType, 7 TIME: TimeType, 8 TIMESTAMP: TimestampType, 10 INTEGER: IntType, 11 UNKNOWN: NullType,
    12 JSON: JsonType, 13 BSON: BsonType, 14 UUID: UUIDType });
tstruct!(SchemaElement { 1 opt type_: Type, 2 opt type_length: i32, 3 opt repetition_type: FieldRepetitionType,
    4 req name: String, 5 opt num_children: i32, 6 opt converted_type: ConvertedType, 7 opt scale: i32,
    8 opt precision: i32, 9 opt field_id: i32, 10 opt logical_type: LogicalType });
tstruct!(DataPageHeader { 1 req num_values: i32, 2 req encoding: Encoding, 3 req definition_level_encoding: Encoding,
    4 req repetition_level_encoding: Encoding, 5 opt statistics: Statistics });
tstruct!(IndexPageHeader {});
tstruct!(DictionaryPageHeader { 1 req num_values: i32, 2 req encoding: Encoding, 3 opt is_sorted: bool });
tstruct!(DataPageHeaderV2 { 1 req num_values: i32, 2 req num_nulls: i32, 3 req num_rows: i32, 4 req encoding: Encoding,
    5 req definition_levels_byte_length: i32, 6 req repetition_levels_byte_length: i32, 7 opt is_compressed: bool,
    8 opt statistics: Statistics });
tstruct!(SplitBlockAlgorithm {});
tunion!(BloomFilterAlgorithm { 1 BLOCK: SplitBlockAlgorithm });
tstruct!(XxHash {});
tunion!(BloomFilterHash { 1 XXHASH: XxHash });
tstruct!(Uncompressed {});
tunion!(BloomFilterCompression { 1 UNCOMPRESSED: Uncompressed });
tstruct!(BloomFilterHeader { 1 req num_bytes: i32, 2 req algorithm: BloomFilterAlgorithm, 3 req hash: BloomFilterHash,
    4 req compression: BloomFilterCompression });
tstruct!(PageHeader { 1 req type_: PageType, 2 req uncompressed_page_size: i32, 3 req compressed_page_size: i32,
    4 opt crc: i32, 5 opt data_page_header: DataPageHeader, 6 opt index_page_header: IndexPageHeader,
    7 opt dictionary_page_header: DictionaryPageHeader, 8 opt data_page_header_v2: DataPageHeaderV2 });
tstruct!(KeyValue { 1 req key: String, 2 opt value: String });
tstruct!(SortingColumn { 1 req column_idx: i32, 2 req descending: bool, 3 req nulls_first: bool });
tstruct!(PageEncodingStats { 1 req page_type: PageType, 2 req encoding: Encoding, 3 req count: i32 });
tstruct!(ColumnMetaData { 1 req type_: Type, 2 req encodings: Vec<Encoding>, 3 req path_in_schema: Vec<String>,
    4 req codec: CompressionCodec, 5 req num_values: i64, 6 req total_uncompressed_size: i64,
    7 req total_compressed_size: i64, 8 opt key_value_metadata: Vec<KeyValue>, 9 req data_page_offset: i64,
    10 opt index_page_offset: i64, 11 opt dictionary_page_offset: i64, 12 opt statistics: Statistics,
    13 opt encoding_stats: Vec<PageEncodingStats>, 14 opt bloom_filter_offset: i64 });
tstruct!(EncryptionWithFooterKey {});
tstruct!(EncryptionWithColumnKey { 1 req path_in_schema: Vec<String>, 2 opt key_metadata: Vec<u8> });
tunion!(ColumnCryptoMetaData { 1 ENCRYPTIONWITHFOOTERKEY: EncryptionWithFooterKey,
    2 ENCRYPTIONWITHCOLUMNKEY: EncryptionWithColumnKey });
tstruct!(ColumnChunk { 1 opt file_path: String, 2 req file_offset: i64, 3 opt meta_data: ColumnMetaData,
    4 opt offset_index_offset: i64, 5 opt offset_index_length: i32, 6 opt column_index_offset: i64,
    7 opt column_index_length: i32, 8 opt crypto_metadata: ColumnCryptoMetaData,
    9 opt encrypted_column_metadata: Vec<u8> });
tstruct!(RowGroup { 1 req columns: Vec<ColumnChunk>, 2 req total_byte_size: i64, 3 req num_rows: i64,
    4 opt sorting_columns: Vec<SortingColumn>, 5 opt file_offset: i64, 6 opt total_compressed_size: i64,
    7 opt ordinal: i16 });
tstruct!(TypeDefinedOrder {});
tunion!(ColumnOrder { 1 TYPEORDER: TypeDefinedOrder });
tstruct!(PageLocation { 1 req offset: i64, 2 req compressed_page_size: i32, 3 req first_row_index: i64 });
tstruct!(OffsetIndex { 1 req page_locations: Vec<PageLocation> });
tstruct!(ColumnIndex { 1 req null_pages: Vec<bool>, 2 req min_values: Vec<Vec<u8>>, 3 req max_values: Vec<Vec<u8>>,
    4 req boundary_order: BoundaryOrder, 5 opt null_counts: Vec<i64> });
tstruct!(AesGcmV1 { 1 opt aad_prefix: Vec<u8>, 2 opt aad_file_unique: Vec<u8>, 3 opt supply_aad_prefix: bool });
tstruct!(AesGcmCtrV1 { 1 opt aad_prefix: Vec<u8>, 2 opt aad_file_unique: Vec<u8>, 3 opt supply_aad_prefix: bool });
tunion!(EncryptionAlgorithm { 1 AESGCMV1: AesGcmV1, 2 AESGCMCTRV1: AesGcmCtrV1 });
tstruct!(FileMetaData { 1 req version: i32, 2 req schema: Vec<SchemaElement>, 3 req num_rows: i64,
    4 req row_groups: Vec<RowGroup>, 5 opt key_value_metadata: Vec<KeyValue>, 6 opt created_by: String,
    7 opt column_orders: Vec<ColumnOrder>, 8 opt encryption_algorithm: EncryptionAlgorithm,
    9 opt footer_signing_key_metadata: Vec<u8> });
tstruct!(FileCryptoMetaData { 1 req encryption_algorithm: EncryptionAlgorithm, 2 opt key_metadata: Vec<u8> });
