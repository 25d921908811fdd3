//! Parser for the textual LLVM IR that rustc emits for the harness crate.
//! Functions are parsed lazily, on first execution.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u64, Box<Ty>),
    Arr(u64, Box<Ty>),
    St(Vec<Ty>, bool),
    Meta,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(b) => {
                let by = (*b as u64 + 7) / 8;
                by.next_power_of_two()
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => match **t {
                Ty::Int(b) => (n * b as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) => self.size().clamp(1, 16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two().clamp(1, 16),
            Ty::Arr(_, t) => t.align(),
            Ty::St(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::St(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::St(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::St(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    /// scalar bit width
    pub fn bits(&self) -> Option<u32> {
        match self {
            Ty::Int(b) => Some(*b),
            Ty::Ptr | Ty::F64 => Some(64),
            Ty::F32 => Some(32),
            _ => None,
        }
    }
}
pub fn align_up(a: u64, b: u64) -> u64 {
    (a + b - 1) / b * b
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    W(u128),
    Agg(Arc<Vec<Opd>>),
}

#[derive(Clone, Debug)]
pub enum VT {
    I(u32),
    V(u32, u32),
    A(Arc<Ty>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Bit,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Intr(String),
    Ind(Opd),
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(crate::expr::Op, VT, u32, Opd, Opd),
    Cmp(Pred, VT, u32, Opd, Opd),
    Fp(crate::fp::Fop, u32, u32, u32, Opd, Option<Opd>),
    Cast(CastK, VT, VT, u32, Opd),
    Load(u32, Arc<Ty>, Opd),
    Store(Arc<Ty>, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u32, u64)>),
    Alloca(u32, u64, u64),
    Select(VT, u32, Opd, bool, Opd, Opd),
    Call(Option<u32>, Callee, Vec<Opd>, VT, Option<u32>),
    Br(u32),
    CBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Opd, Opd, Vec<u32>),
    Rmw(String, u32, u32, Opd, Opd),
    CmpXchg(u32, u32, Opd, Opd, Opd),
    Copy(u32, Opd),
    ExtElt(u32, u32, Opd, Opd),
    InsElt(u32, u32, Opd, Opd, Opd),
    Shuffle(u32, u32, Opd, Opd, Vec<u32>),
    Nop,
    Unsup(String),
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninst: usize,
}
pub struct FuncDecl {
    pub name: String,
    pub pretty: String,
    pub range: Option<(usize, usize)>, // line numbers define..}
    pub body: OnceLock<Arc<Func>>,
}
pub struct Glob {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub init: Vec<u8>,
}
pub struct Program {
    pub lines: Vec<&'static str>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Glob>, // sorted by address
    pub sym: HashMap<String, u64>,
}
pub const FBASE: u64 = 0x1000_0000;
pub const GBASE: u64 = 0x2000_0000;

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Id(&'a str),
    Loc(&'a str),
    Glo(&'a str),
    Num(&'a str),
    Str(&'a str),
    P(u8),
    Meta(&'a str),
}

fn lex(s: &str) -> Vec<T<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(32);
    let name_ch = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let st = i + 1;
                let (n, e) = if b[st] == b'"' {
                    let mut j = st + 1;
                    while b[j] != b'"' {
                        j += 1
                    }
                    (&s[st + 1..j], j + 1)
                } else {
                    let mut j = st;
                    while j < b.len() && name_ch(b[j]) {
                        j += 1
                    }
                    (&s[st..j], j)
                };
                out.push(if c == b'%' { T::Loc(n) } else { T::Glo(n) });
                i = e;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(T::Str(&s[i + 1..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1
                }
                out.push(T::Str(&s[i + 2..j]));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && name_ch(b[j]) {
                    j += 1
                }
                out.push(T::Meta(&s[i..j]));
                i = j;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (name_ch(b[j]) || b[j] == b'+') {
                    j += 1
                }
                out.push(T::Num(&s[i..j]));
                i = j;
            }
            b'+' => {
                let mut j = i + 1;
                while j < b.len() && name_ch(b[j]) {
                    j += 1
                }
                out.push(T::Num(&s[i..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < b.len() && name_ch(b[j]) {
                    j += 1
                }
                out.push(T::Id(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(T::P(c));
                i += 1;
            }
        }
    }
    out
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

struct Ps<'a, 'b> {
    t: &'b [T<'a>],
    i: usize,
    prog: &'b Program,
    regs: Option<&'b mut HashMap<String, u32>>,
}

type R<X> = Result<X, String>;

impl<'a, 'b> Ps<'a, 'b> {
    fn peek(&self) -> Option<&T<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T<'a>> {
        let r = self.t.get(self.i).cloned().ok_or("eol".to_string());
        self.i += 1;
        r
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Some(&T::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c as char, self.t.get(self.i)))
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.peek() == Some(&T::Id(s)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.expect(b'(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Some(T::Id(s)) => {
                matches!(*s, "void" | "ptr" | "double" | "float" | "metadata" | "label")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P(b'{')) | Some(T::P(b'[')) | Some(T::P(b'<')) => true,
            _ => false,
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next()? {
            T::Num(n) => n.parse::<u64>().map_err(|e| format!("{} {}", n, e)),
            x => Err(format!("num {:?}", x)),
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            T::Id("void") => Ok(Ty::Void),
            T::Id("ptr") => Ok(Ty::Ptr),
            T::Id("double") => Ok(Ty::F64),
            T::Id("float") => Ok(Ty::F32),
            T::Id("metadata") | T::Id("label") => Ok(Ty::Meta),
            T::Id(s) if s.starts_with('i') => {
                s[1..].parse().map(Ty::Int).map_err(|_| format!("type {}", s))
            }
            T::P(b'{') => self.fields(b'}', false),
            T::P(b'[') => {
                let n = self.num()?;
                self.eat_id("x");
                let t = self.ty()?;
                self.expect(b']')?;
                Ok(Ty::Arr(n, Box::new(t)))
            }
            T::P(b'<') => {
                if self.eat(b'{') {
                    let r = self.fields(b'}', true)?;
                    self.expect(b'>')?;
                    return Ok(r);
                }
                let n = self.num()?;
                self.eat_id("x");
                let t = self.ty()?;
                self.expect(b'>')?;
                Ok(Ty::Vec(n, Box::new(t)))
            }
            x => Err(format!("type {:?}", x)),
        }
    }
    fn fields(&mut self, end: u8, packed: bool) -> R<Ty> {
        let mut f = vec![];
        if self.eat(end) {
            return Ok(Ty::St(f, packed));
        }
        loop {
            f.push(self.ty()?);
            if self.eat(end) {
                return Ok(Ty::St(f, packed));
            }
            self.expect(b',')?;
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let m = self.regs.as_mut().expect("register in constant");
        let l = m.len() as u32;
        *m.entry(n.to_string()).or_insert(l)
    }
    fn zero(&self, ty: &Ty) -> Opd {
        match ty {
            Ty::Int(b) if *b > 64 => Opd::W(0),
            Ty::Vec(..) | Ty::Arr(..) | Ty::St(..) => {
                Opd::Agg(Arc::new((0..ty.count()).map(|i| self.zero(ty.elem(i))).collect()))
            }
            _ => Opd::C(0),
        }
    }
    fn int(&self, n: &str, ty: &Ty) -> R<Opd> {
        let w = ty.bits().ok_or(format!("int of {:?}", ty))?;
        if let Ty::F64 | Ty::F32 = ty {
            let wide = *ty == Ty::F64;
            // the very bits
            if let Some(h) = n.strip_prefix("f0x") {
                return u64::from_str_radix(h, 16).map(Opd::C).map_err(|e| e.to_string());
            }
            let (sign, m) = match n.as_bytes().first() {
                Some(b'-') => (true, &n[1..]),
                Some(b'+') => (false, &n[1..]),
                _ => (false, n),
            };
            let (inf, q) = if wide { (0x7ffu64 << 52, 51) } else { (0xffu64 << 23, 22) };
            let special = if m == "inf" {
                Some(inf)
            } else if m == "qnan" {
                Some(inf | 1 << q)
            } else if let Some(p) = m.strip_prefix("nan(0x").or(m.strip_prefix("snan(0x")) {
                let p = u64::from_str_radix(p.trim_end_matches(')'), 16).map_err(|e| e.to_string())?;
                Some(inf | p | if m.starts_with('n') { 1 << q } else { 0 })
            } else {
                None
            };
            if let Some(b) = special {
                return Ok(Opd::C(b | (sign as u64) << if wide { 63 } else { 31 }));
            }
            let f = match n.strip_prefix("0x") {
                Some(h) => f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?),
                None => n.parse::<f64>().map_err(|e| e.to_string())?,
            };
            return Ok(Opd::C(if wide { f.to_bits() } else { (f as f32).to_bits() as u64 }));
        }
        let v: u128 = if let Some(m) = n.strip_prefix('-') {
            let x: u128 = m.parse().map_err(|e| format!("{} {}", n, e))?;
            0u128.wrapping_sub(x)
        } else {
            n.parse().map_err(|e| format!("{} {}", n, e))?
        };
        let v = v & crate::expr::wmask(w);
        Ok(if w > 64 { Opd::W(v) } else { Opd::C(v as u64) })
    }
    /// operand of a known type
    fn val(&mut self, ty: &Ty) -> R<Opd> {
        match self.next()? {
            T::Loc(n) => Ok(Opd::R(self.reg(n))),
            T::Glo(n) => self
                .prog
                .sym
                .get(n)
                .map(|a| Opd::C(*a))
                .ok_or_else(|| format!("unknown global {}", n)),
            T::Num(n) => {
                // the payload of a NaN
                if n.ends_with("nan") && self.peek() == Some(&T::P(b'(')) {
                    self.next()?;
                    let p = match self.next()? {
                        T::Num(p) => format!("{}({})", n, p),
                        x => return Err(format!("nan {:?}", x)),
                    };
                    self.expect(b')')?;
                    return self.int(&p, ty);
                }
                self.int(n, ty)
            }
            T::Id(n) if n.starts_with("f0x") => self.int(n, ty),
            T::Id("true") => Ok(Opd::C(1)),
            T::Id("false") | T::Id("null") => Ok(Opd::C(0)),
            T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") => Ok(self.zero(ty)),
            T::Id("splat") => {
                self.expect(b'(')?;
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.expect(b')')?;
                Ok(Opd::Agg(Arc::new(vec![v; ty.count()])))
            }
            T::Str(s) => Ok(Opd::Agg(Arc::new(
                unescape(s).into_iter().map(|b| Opd::C(b as u64)).collect(),
            ))),
            T::P(b'{') => self.agg(b'}', false),
            T::P(b'[') => self.agg(b']', false),
            T::P(b'<') => {
                if self.eat(b'{') {
                    self.agg(b'}', true)
                } else {
                    self.agg(b'>', false)
                }
            }
            T::Id("getelementptr") => {
                while !self.eat(b'(') {
                    if let T::Id("inrange") = self.next()? {
                        self.skip_parens()?;
                    }
                }
                let t = self.ty()?;
                self.expect(b',')?;
                let bt = self.ty()?;
                let base = self.val(&bt)?;
                let mut off = 0i64;
                let mut first = true;
                let mut cur = t.clone();
                while self.eat(b',') {
                    let it = self.ty()?;
                    let ix = match self.val(&it)? {
                        Opd::C(c) => {
                            let w = it.bits().unwrap();
                            ((c << (64 - w)) as i64) >> (64 - w)
                        }
                        _ => return Err("gep const".into()),
                    };
                    if first {
                        off += ix * t.size() as i64;
                        first = false;
                    } else {
                        off += cur.field_off(ix as usize) as i64;
                        cur = cur.elem(ix as usize).clone();
                    }
                }
                self.expect(b')')?;
                match base {
                    Opd::C(b) => Ok(Opd::C(b.wrapping_add(off as u64))),
                    _ => Err("gep base".into()),
                }
            }
            T::Id("inttoptr") | T::Id("ptrtoint") | T::Id("bitcast") | T::Id("addrspacecast") | T::Id("trunc") => {
                self.expect(b'(')?;
                let t = self.ty()?;
                let v = self.val(&t)?;
                if !self.eat_id("to") {
                    return Err("cast const".into());
                }
                let _ = self.ty()?;
                self.expect(b')')?;
                Ok(v)
            }
            T::Id(op @ ("add" | "sub")) => {
                while !self.eat(b'(') {
                    self.next()?;
                }
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.expect(b',')?;
                let t2 = self.ty()?;
                let b = self.val(&t2)?;
                self.expect(b')')?;
                match (a, b) {
                    (Opd::C(a), Opd::C(b)) => Ok(Opd::C(
                        if op == "add" { a.wrapping_add(b) } else { a.wrapping_sub(b) }
                            & crate::expr::wmask(t.bits().unwrap_or(64)) as u64,
                    )),
                    _ => Err("const add".into()),
                }
            }
            x => Err(format!("value {:?}", x)),
        }
    }
    fn agg(&mut self, end: u8, packed: bool) -> R<Opd> {
        let mut v = vec![];
        if !self.eat(end) {
            loop {
                let t = self.ty()?;
                v.push(self.val(&t)?);
                if self.eat(end) {
                    break;
                }
                self.expect(b',')?;
            }
        }
        if packed {
            self.expect(b'>')?;
        }
        Ok(Opd::Agg(Arc::new(v)))
    }
    fn tval(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn skip_flags(&mut self) {
        while let Some(T::Id(s)) = self.peek() {
            if matches!(
                *s,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic"
                    | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "tail" | "musttail" | "notail" | "weak"
            ) {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn skip_to_ty(&mut self) -> R<()> {
        // attributes before a type
        while !self.is_ty() {
            match self.next()? {
                T::Id("align") => {
                    if self.peek() == Some(&T::P(b'(')) {
                        self.skip_parens()?
                    } else {
                        self.i += 1
                    }
                }
                T::Id("inrange") => self.skip_parens()?,
                T::Id(_) | T::Str(_) => {
                    if self.peek() == Some(&T::P(b'(')) {
                        self.skip_parens()?
                    }
                }
                T::P(b'#') => {
                    self.i += 1;
                }
                x => return Err(format!("attr {:?}", x)),
            }
        }
        Ok(())
    }
    /// skip parameter attributes until a value token
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::Id(s)) => {
                    if matches!(
                        *s,
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                            | "ptrtoint" | "splat" | "sub" | "add" | "bitcast"
                    ) {
                        return Ok(());
                    }
                    let s = *s;
                    self.i += 1;
                    if self.peek() == Some(&T::P(b'(')) {
                        self.skip_parens()?
                    } else if s == "align" {
                        self.i += 1
                    }
                }
                _ => return Ok(()),
            }
        }
    }
}

pub fn vt(t: &Ty) -> VT {
    match t {
        Ty::Vec(n, e) => VT::V(*n as u32, e.bits().unwrap_or(0)),
        Ty::Arr(..) | Ty::St(..) => VT::A(Arc::new(t.clone())),
        Ty::Void | Ty::Meta => VT::I(0),
        _ => VT::I(t.bits().unwrap()),
    }
}

fn write_init(ty: &Ty, v: &Opd, out: &mut [u8]) {
    match v {
        Opd::C(c) => {
            let n = ty.size() as usize;
            let b = c.to_le_bytes();
            for i in 0..n {
                out[i] = if i < 8 { b[i] } else { 0 };
            }
        }
        Opd::W(c) => {
            let n = ty.size() as usize;
            out[..n].copy_from_slice(&c.to_le_bytes()[..n]);
        }
        Opd::Agg(f) => {
            for (i, x) in f.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                let t = ty.elem(i);
                write_init(t, x, &mut out[o..o + t.size() as usize]);
            }
        }
        Opd::R(_) => panic!(),
    }
}

impl Program {
    pub fn load(path: &str) -> R<Program> {
        let text: &'static str =
            Box::leak(std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?.into_boxed_str());
        let lines: Vec<&'static str> = text.lines().collect();
        let mut p = Program {
            lines,
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            sym: HashMap::new(),
        };
        let mut glines: Vec<(String, usize)> = vec![];
        let mut aliases: Vec<(String, usize)> = vec![];
        let mut pretty = String::new();
        let mut i = 0;
        while i < p.lines.len() {
            let l = p.lines[i];
            if let Some(r) = l.strip_prefix("; ") {
                if !r.starts_with("Function Attrs") {
                    pretty = r.to_string();
                }
            } else if l.starts_with('@') {
                let (n, rest) = gname(l);
                if rest.contains(" alias ") {
                    aliases.push((n, i));
                } else {
                    glines.push((n, i));
                }
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').ok_or("define without name")?;
                let (n, _) = gname(&l[at..]);
                let id = p.funcs.len() as u32;
                let mut range = None;
                if l.starts_with("define ") {
                    let st = i;
                    while p.lines[i] != "}" {
                        i += 1;
                    }
                    range = Some((st, i));
                }
                p.sym.insert(n.clone(), FBASE + id as u64 * 16);
                p.fidx.insert(n.clone(), id);
                p.funcs.push(FuncDecl {
                    name: n,
                    pretty: std::mem::take(&mut pretty),
                    range,
                    body: OnceLock::new(),
                });
            } else if l.is_empty() {
                pretty.clear();
            }
            i += 1;
        }
        // addresses of globals
        let mut addr = GBASE;
        let mut parsed: Vec<(String, u64, Ty, usize, usize)> = vec![];
        for (n, li) in &glines {
            let toks = lex(p.lines[*li]);
            let mut ps = Ps { t: &toks, i: 0, prog: &p, regs: None };
            let mut found = false;
            while let Ok(t) = ps.next() {
                if t == T::Id("global") || t == T::Id("constant") {
                    found = true;
                    break;
                }
                if ps.peek() == Some(&T::P(b'(')) {
                    ps.skip_parens()?;
                }
            }
            if !found {
                return Err(format!("global line {}", p.lines[*li]));
            }
            let ty = ps.ty().map_err(|e| format!("global {}: {}", n, e))?;
            let size = ty.size();
            addr = align_up(addr, 64);
            parsed.push((n.clone(), addr, ty, *li, ps.i));
            addr += size.max(1) + 16;
        }
        for (n, a, ..) in &parsed {
            p.sym.insert(n.clone(), *a);
        }
        for _ in 0..2 {
            for (n, li) in &aliases {
                let toks = lex(p.lines[*li]);
                for t in toks.iter().skip(1) {
                    if let T::Glo(x) = t {
                        if let Some(a) = p.sym.get(*x).copied() {
                            p.sym.insert(n.clone(), a);
                            if let Some(f) = p.fidx.get(*x).copied() {
                                p.fidx.insert(n.clone(), f);
                            }
                        }
                    }
                }
            }
        }
        let mut globals = vec![];
        for (n, a, ty, li, at) in parsed {
            let toks = lex(p.lines[li]);
            let mut init = vec![0u8; ty.size() as usize];
            if at < toks.len() && toks[at] != T::P(b',') {
                let mut ps = Ps { t: &toks, i: at, prog: &p, regs: None };
                let v = ps.val(&ty).map_err(|e| format!("init of {}: {}", n, e))?;
                write_init(&ty, &v, &mut init);
            }
            globals.push(Glob { name: n, addr: a, size: ty.size(), init });
        }
        p.globals = globals;
        Ok(p)
    }
    pub fn func(&self, id: u32) -> R<Arc<Func>> {
        if let Some(f) = self.funcs[id as usize].body.get() {
            return Ok(f.clone());
        }
        let f = Arc::new(self.parse_func(id).map_err(|e| format!("in {}: {}", self.funcs[id as usize].name, e))?);
        // another thread may have been first: only the stored one lives for ever
        let _ = self.funcs[id as usize].body.set(f);
        Ok(self.funcs[id as usize].body.get().unwrap().clone())
    }
    fn parse_func(&self, id: u32) -> R<Func> {
        let (st, en) = self.funcs[id as usize].range.ok_or("external function has no body")?;
        let mut regs: HashMap<String, u32> = HashMap::new();
        // header
        let toks = lex(self.lines[st]);
        let mut params = vec![];
        // an entry block without a label takes the number after the unnamed parameters
        let mut unnamed = 0;
        {
            let mut k = 0;
            while !matches!(toks[k], T::Glo(_)) {
                k += 1;
            }
            let mut ps = Ps { t: &toks, i: k + 1, prog: self, regs: Some(&mut regs) };
            ps.expect(b'(')?;
            if !ps.eat(b')') {
                loop {
                    if ps.eat(b'.') {
                        break;
                    }
                    ps.ty()?;
                    ps.skip_attrs()?;
                    match ps.next()? {
                        T::Loc(n) => {
                            if n.parse::<u32>() == Ok(unnamed) {
                                unnamed += 1;
                            }
                            let r = ps.reg(n);
                            params.push(r)
                        }
                        x => return Err(format!("param {:?}", x)),
                    }
                    if ps.eat(b')') {
                        break;
                    }
                    ps.expect(b',')?;
                }
            }
        }
        // logical lines and blocks
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut blks: Vec<Vec<String>> = vec![];
        let mut i = st + 1;
        while i < en {
            let l = self.lines[i];
            let tl = l.trim_start();
            if tl.is_empty() || tl.starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                let n = if let Some(q) = l.strip_prefix('"') {
                    q[..q.find('"').unwrap()].to_string()
                } else {
                    l[..l.find(':').ok_or_else(|| format!("label {}", l))?].to_string()
                };
                labels.insert(n, blks.len() as u32);
                blks.push(vec![]);
                i += 1;
                continue;
            }
            if blks.is_empty() {
                labels.insert(unnamed.to_string(), 0);
                blks.push(vec![]);
            }
            let mut s = tl.to_string();
            if tl.starts_with("switch ") {
                while !self.lines[i].trim_start().starts_with(']') {
                    i += 1;
                    s.push(' ');
                    s.push_str(self.lines[i].trim_start());
                }
            } else if tl.starts_with("invoke ") || tl.contains(" = invoke ") {
                i += 1;
                s.push(' ');
                s.push_str(self.lines[i].trim_start());
            } else if matches!(tl.split(' ').next(), Some("cleanup" | "catch" | "filter")) {
                i += 1;
                continue;
            }
            blks.last_mut().unwrap().push(s);
            i += 1;
        }
        let mut blocks = vec![];
        let mut ninst = 0;
        for b in &blks {
            let mut blk = Block { phis: vec![], insts: vec![] };
            for l in b {
                let toks = lex(l);
                let mut ps = Ps { t: &toks, i: 0, prog: self, regs: Some(&mut regs) };
                let dst = if matches!(toks[0], T::Loc(_)) && toks.get(1) == Some(&T::P(b'=')) {
                    let n = if let T::Loc(n) = toks[0] { n } else { "" };
                    ps.i = 2;
                    Some(ps.reg(n))
                } else {
                    None
                };
                if ps.peek() == Some(&T::Id("phi")) {
                    ps.i += 1;
                    ps.skip_flags();
                    let t = ps.ty()?;
                    let mut inc = vec![];
                    loop {
                        ps.expect(b'[')?;
                        let v = ps.val(&t)?;
                        ps.expect(b',')?;
                        let bl = match ps.next()? {
                            T::Loc(n) => *labels.get(n).ok_or_else(|| format!("label {}", n))?,
                            x => return Err(format!("phi {:?}", x)),
                        };
                        ps.expect(b']')?;
                        inc.push((bl, v));
                        if !ps.eat(b',') || matches!(ps.peek(), Some(T::Meta(_))) {
                            break;
                        }
                    }
                    blk.phis.push((dst.unwrap(), inc));
                    continue;
                }
                let ins = parse_inst(&mut ps, dst, &labels, self).unwrap_or_else(|e| Inst::Unsup(format!("{} in: {}", e, l)));
                ninst += 1;
                blk.insts.push(ins);
            }
            blocks.push(blk);
        }
        Ok(Func { id, params, nregs: regs.len() as u32, blocks, ninst })
    }
}

fn gname(l: &str) -> (String, &str) {
    let b = l.as_bytes();
    if b[1] == b'"' {
        let e = l[2..].find('"').unwrap() + 2;
        (l[2..e].to_string(), &l[e + 1..])
    } else {
        let mut j = 1;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-')) {
            j += 1
        }
        (l[1..j].to_string(), &l[j..])
    }
}

fn label(ps: &mut Ps, labels: &HashMap<String, u32>) -> R<u32> {
    if !ps.eat_id("label") {
        return Err("label expected".into());
    }
    match ps.next()? {
        T::Loc(n) => labels.get(n).copied().ok_or_else(|| format!("no label {}", n)),
        x => Err(format!("label {:?}", x)),
    }
}

fn parse_inst(ps: &mut Ps, dst: Option<u32>, labels: &HashMap<String, u32>, prog: &Program) -> R<Inst> {
    use crate::expr::Op;
    let op = match ps.next()? {
        T::Id(s) => s,
        x => return Err(format!("opcode {:?}", x)),
    };
    let d = dst.unwrap_or(u32::MAX);
    let binop = match op {
        "add" => Some(Op::Add),
        "sub" => Some(Op::Sub),
        "mul" => Some(Op::Mul),
        "udiv" => Some(Op::UDiv),
        "urem" => Some(Op::URem),
        "sdiv" => Some(Op::SDiv),
        "srem" => Some(Op::SRem),
        "and" => Some(Op::And),
        "or" => Some(Op::Or),
        "xor" => Some(Op::Xor),
        "shl" => Some(Op::Shl),
        "lshr" => Some(Op::LShr),
        "ashr" => Some(Op::AShr),
        _ => None,
    };
    if let Some(b) = binop {
        ps.skip_flags();
        let (t, a) = ps.tval()?;
        ps.expect(b',')?;
        let c = ps.val(&t)?;
        return Ok(Inst::Bin(b, vt(&t), d, a, c));
    }
    use crate::fp::Fop;
    let fop = match op {
        "fadd" => Some(Fop::Add),
        "fsub" => Some(Fop::Sub),
        "fmul" => Some(Fop::Mul),
        "fdiv" => Some(Fop::Div),
        "frem" => Some(Fop::Rem),
        "fneg" => Some(Fop::Neg),
        "fptrunc" => Some(Fop::Trunc),
        "fpext" => Some(Fop::Ext),
        "uitofp" => Some(Fop::FromU),
        "sitofp" => Some(Fop::FromS),
        "fptoui" => Some(Fop::ToU),
        "fptosi" => Some(Fop::ToS),
        _ => None,
    };
    if let Some(f) = fop {
        ps.skip_flags();
        let (t, a) = ps.tval()?;
        let w = match t {
            Ty::Int(_) | Ty::F64 | Ty::F32 => t.bits().unwrap(),
            _ => return Err("floating point vectors".into()),
        };
        if ps.eat(b',') {
            if matches!(f, Fop::Add | Fop::Sub | Fop::Mul | Fop::Div | Fop::Rem) {
                let b = ps.val(&t)?;
                return Ok(Inst::Fp(f, w, w, d, a, Some(b)));
            }
        }
        let to = if ps.eat_id("to") { ps.ty()?.bits().unwrap_or(0) } else { w };
        return Ok(Inst::Fp(f, w, to, d, a, None));
    }
    match op {
        "fcmp" => {
            ps.skip_flags();
            let p = match ps.next()? {
                T::Id(s) => crate::fp::pred(s).ok_or("fcmp")?,
                x => return Err(format!("pred {:?}", x)),
            };
            let (t, a) = ps.tval()?;
            ps.expect(b',')?;
            let b = ps.val(&t)?;
            match t {
                Ty::F64 | Ty::F32 => Ok(Inst::Fp(Fop::Cmp(p), t.bits().unwrap(), 1, d, a, Some(b))),
                _ => Err("floating point vectors".into()),
            }
        }
        "icmp" => {
            ps.skip_flags();
            let p = match ps.next()? {
                T::Id("eq") => Pred::Eq,
                T::Id("ne") => Pred::Ne,
                T::Id("ult") => Pred::Ult,
                T::Id("ule") => Pred::Ule,
                T::Id("ugt") => Pred::Ugt,
                T::Id("uge") => Pred::Uge,
                T::Id("slt") => Pred::Slt,
                T::Id("sle") => Pred::Sle,
                T::Id("sgt") => Pred::Sgt,
                T::Id("sge") => Pred::Sge,
                x => return Err(format!("pred {:?}", x)),
            };
            let (t, a) = ps.tval()?;
            ps.expect(b',')?;
            let b = ps.val(&t)?;
            Ok(Inst::Cmp(p, vt(&t), d, a, b))
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
            ps.skip_flags();
            let (t, a) = ps.tval()?;
            if !ps.eat_id("to") {
                return Err("cast".into());
            }
            let t2 = ps.ty()?;
            let k = match op {
                "trunc" => CastK::Trunc,
                "zext" => CastK::Zext,
                "sext" => CastK::Sext,
                _ => {
                    if let (Some(a), Some(b)) = (t.bits(), t2.bits()) {
                        if a < b {
                            CastK::Zext
                        } else if a > b {
                            CastK::Trunc
                        } else {
                            CastK::Bit
                        }
                    } else {
                        CastK::Bit
                    }
                }
            };
            Ok(Inst::Cast(k, vt(&t), vt(&t2), d, a))
        }
        "freeze" => {
            let (_, a) = ps.tval()?;
            Ok(Inst::Copy(d, a))
        }
        "load" => {
            ps.skip_flags();
            let t = ps.ty()?;
            ps.expect(b',')?;
            let (_, p) = ps.tval()?;
            Ok(Inst::Load(d, Arc::new(t), p))
        }
        "store" => {
            ps.skip_flags();
            let (t, v) = ps.tval()?;
            ps.expect(b',')?;
            let (_, p) = ps.tval()?;
            Ok(Inst::Store(Arc::new(t), v, p))
        }
        "getelementptr" => {
            ps.skip_flags();
            let t = ps.ty()?;
            ps.expect(b',')?;
            let (_, base) = ps.tval()?;
            let mut off = 0i64;
            let mut idx = vec![];
            let mut first = true;
            let mut cur = t.clone();
            while ps.eat(b',') {
                if matches!(ps.peek(), Some(T::Meta(_))) {
                    break;
                }
                let (it, v) = ps.tval()?;
                let w = it.bits().ok_or("gep idx")?;
                let scale = if first {
                    t.size()
                } else {
                    match &cur {
                        Ty::St(..) => {
                            if let Opd::C(c) = v {
                                off += cur.field_off(c as usize) as i64;
                                cur = cur.elem(c as usize).clone();
                                continue;
                            }
                            return Err("gep struct idx".into());
                        }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            let e = (**e).clone();
                            let s = e.size();
                            cur = e;
                            s
                        }
                        _ => return Err("gep".into()),
                    }
                };
                first = false;
                match v {
                    Opd::C(c) => {
                        let s = ((c << (64 - w)) as i64) >> (64 - w);
                        off = off.wrapping_add(s.wrapping_mul(scale as i64));
                    }
                    v => idx.push((v, w, scale)),
                }
            }
            Ok(Inst::Gep(d, base, off, idx))
        }
        "alloca" => {
            let t = ps.ty()?;
            let mut n = 1;
            let mut al = t.align();
            while ps.eat(b',') {
                match ps.peek() {
                    Some(T::Id("align")) => {
                        ps.i += 1;
                        al = ps.num()?;
                    }
                    Some(T::Meta(_)) => break,
                    _ => {
                        let (_, v) = ps.tval()?;
                        if let Opd::C(c) = v {
                            n = c
                        } else {
                            return Err("dynamic alloca".into());
                        }
                    }
                }
            }
            Ok(Inst::Alloca(d, t.size() * n, al))
        }
        "select" => {
            ps.skip_flags();
            let (ct, c) = ps.tval()?;
            ps.expect(b',')?;
            let (t, a) = ps.tval()?;
            ps.expect(b',')?;
            let (_, b) = ps.tval()?;
            Ok(Inst::Select(vt(&t), d, c, matches!(ct, Ty::Vec(..)), a, b))
        }
        "br" => {
            if ps.peek() == Some(&T::Id("label")) {
                return Ok(Inst::Br(label(ps, labels)?));
            }
            let (_, c) = ps.tval()?;
            ps.expect(b',')?;
            let a = label(ps, labels)?;
            ps.expect(b',')?;
            let b = label(ps, labels)?;
            Ok(Inst::CBr(c, a, b))
        }
        "switch" => {
            let (t, v) = ps.tval()?;
            ps.expect(b',')?;
            let def = label(ps, labels)?;
            ps.expect(b'[')?;
            let mut cs = vec![];
            while !ps.eat(b']') {
                let (_, k) = ps.tval()?;
                ps.expect(b',')?;
                let l = label(ps, labels)?;
                let k = match k {
                    Opd::C(c) => c as u128,
                    Opd::W(w) => w,
                    _ => return Err("switch".into()),
                };
                cs.push((k, l));
            }
            Ok(Inst::Switch(t.bits().ok_or("switch ty")?, v, def, cs))
        }
        "ret" => {
            if ps.eat_id("void") {
                return Ok(Inst::Ret(None));
            }
            let (_, v) = ps.tval()?;
            Ok(Inst::Ret(Some(v)))
        }
        "unreachable" => Ok(Inst::Unreachable),
        "fence" => Ok(Inst::Nop),
        "extractvalue" => {
            let (_, a) = ps.tval()?;
            let mut path = vec![];
            while ps.eat(b',') {
                if matches!(ps.peek(), Some(T::Meta(_))) {
                    break;
                }
                path.push(ps.num()? as u32);
            }
            Ok(Inst::Extract(d, a, path))
        }
        "insertvalue" => {
            let (_, a) = ps.tval()?;
            ps.expect(b',')?;
            let (_, v) = ps.tval()?;
            let mut path = vec![];
            while ps.eat(b',') {
                if matches!(ps.peek(), Some(T::Meta(_))) {
                    break;
                }
                path.push(ps.num()? as u32);
            }
            Ok(Inst::Insert(d, a, v, path))
        }
        "atomicrmw" => {
            ps.skip_flags();
            let o = match ps.next()? {
                T::Id(s) => s.to_string(),
                x => return Err(format!("rmw {:?}", x)),
            };
            let (_, p) = ps.tval()?;
            ps.expect(b',')?;
            let (t, v) = ps.tval()?;
            Ok(Inst::Rmw(o, t.bits().ok_or("rmw")?, d, p, v))
        }
        "cmpxchg" => {
            ps.skip_flags();
            let (_, p) = ps.tval()?;
            ps.expect(b',')?;
            let (t, c) = ps.tval()?;
            ps.expect(b',')?;
            let (_, n) = ps.tval()?;
            Ok(Inst::CmpXchg(t.bits().ok_or("cmpxchg")?, d, p, c, n))
        }
        "extractelement" => {
            let (t, a) = ps.tval()?;
            ps.expect(b',')?;
            let (_, i) = ps.tval()?;
            Ok(Inst::ExtElt(t.elem(0).bits().unwrap_or(0), d, a, i))
        }
        "insertelement" => {
            let (t, a) = ps.tval()?;
            ps.expect(b',')?;
            let (_, v) = ps.tval()?;
            ps.expect(b',')?;
            let (_, i) = ps.tval()?;
            Ok(Inst::InsElt(t.elem(0).bits().unwrap_or(0), d, a, v, i))
        }
        "shufflevector" => {
            let (t, a) = ps.tval()?;
            ps.expect(b',')?;
            let (_, b) = ps.tval()?;
            ps.expect(b',')?;
            let (mt, m) = ps.tval()?;
            let mask = match m {
                Opd::Agg(v) => v
                    .iter()
                    .map(|x| match x {
                        Opd::C(c) => *c as u32,
                        _ => 0,
                    })
                    .collect(),
                _ => vec![0; mt.count()],
            };
            Ok(Inst::Shuffle(d, t.count() as u32, a, b, mask))
        }
        "call" | "tail" | "musttail" | "notail" | "invoke" => {
            if op != "call" && op != "invoke" {
                ps.next()?; // call
            }
            ps.skip_to_ty()?;
            let rt = ps.ty()?;
            if ps.peek() == Some(&T::P(b'(')) {
                ps.skip_parens()?; // function type
            }
            let callee = match ps.next()? {
                T::Glo(n) => {
                    if n.starts_with("llvm.") {
                        Callee::Intr(n.to_string())
                    } else {
                        Callee::Fn(*prog.fidx.get(n).ok_or_else(|| format!("unknown function {}", n))?)
                    }
                }
                T::Loc(n) => Callee::Ind(Opd::R(ps.reg(n))),
                T::Id("inttoptr") => {
                    ps.i -= 1;
                    Callee::Ind(ps.val(&Ty::Ptr)?)
                }
                // an empty template does nothing (`black_box`)
                T::Id("asm") => loop {
                    match ps.next()? {
                        T::Id(_) => {}
                        T::Str(t) if matches!(t, "" | "\"\"") && rt == Ty::Void => return Ok(Inst::Nop),
                        _ => return Ok(Inst::Unsup("inline asm".into())),
                    }
                },
                x => return Err(format!("callee {:?}", x)),
            };
            if let Callee::Intr(n) = &callee {
                for p in [
                    "llvm.dbg.",
                    "llvm.lifetime.",
                    "llvm.assume",
                    "llvm.experimental.noalias",
                    "llvm.donothing",
                    "llvm.x86.sse2.pause",
                    "llvm.prefetch",
                    "llvm.var.annotation",
                ] {
                    if n.starts_with(p) {
                        return Ok(Inst::Nop);
                    }
                }
            }
            ps.expect(b'(')?;
            let mut args = vec![];
            if !ps.eat(b')') {
                loop {
                    let t = ps.ty()?;
                    if t == Ty::Meta {
                        return Ok(Inst::Nop);
                    }
                    ps.skip_attrs()?;
                    args.push(ps.val(&t)?);
                    if ps.eat(b')') {
                        break;
                    }
                    ps.expect(b',')?;
                }
            }
            let mut normal = None;
            if op == "invoke" {
                while !ps.eat_id("to") {
                    ps.next()?;
                }
                normal = Some(label(ps, labels)?);
            }
            Ok(Inst::Call(dst, callee, args, vt(&rt), normal))
        }
        "landingpad" | "resume" => Ok(Inst::Unsup(op.to_string())),
        _ => Err(format!("unsupported opcode {}", op)),
    }
}
