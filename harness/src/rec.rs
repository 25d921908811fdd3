//! Protocols that are not the compact protocol: one records the calls made to
//! it, the other answers calls from such a record. What a record must contain
//! follows from parquet.thrift (`TT::tell`).
use crate::rt::*;
use async_trait::async_trait;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::{Error, ProtocolError, ProtocolErrorKind, Result};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub const MB: u8 = 1;
pub const ME: u8 = 2;
pub const SB: u8 = 3;
pub const SE: u8 = 4;
pub const FB: u8 = 5;
pub const FE: u8 = 6;
pub const FS: u8 = 7;
pub const BOOL: u8 = 8;
pub const BYTES: u8 = 9;
pub const I8: u8 = 10;
pub const I16: u8 = 11;
pub const I32: u8 = 12;
pub const I64: u8 = 13;
pub const DOUBLE: u8 = 14;
pub const STR: u8 = 15;
pub const LB: u8 = 16;
pub const LE: u8 = 17;
pub const TB: u8 = 18;
pub const TE: u8 = 19;
pub const PB: u8 = 20;
pub const PE: u8 = 21;
pub const BYTE: u8 = 22;
pub const FLUSH: u8 = 23;
/// text or bytes: read by either call
pub const BLOB: u8 = 24;

const TYPES: [TType; 16] = [
    TType::Stop,
    TType::Void,
    TType::Bool,
    TType::I08,
    TType::Double,
    TType::I16,
    TType::I32,
    TType::I64,
    TType::String,
    TType::Utf7,
    TType::Struct,
    TType::Map,
    TType::Set,
    TType::List,
    TType::Utf8,
    TType::Utf16,
];
fn code(t: TType) -> u8 {
    let mut i = 0;
    while i < 16 {
        if TYPES[i] == t {
            return i as u8;
        }
        i += 1;
    }
    cut()
}
/// the type of a wire nibble
pub fn wire(n: u8) -> TType {
    for w in crate::ops::WIRE {
        if w.1 == n {
            return w.0;
        }
    }
    TType::Bool
}
/// the name a field has in parquet.thrift
fn thrift_name(f: &str) -> &str {
    match f {
        "type_" => "type",
        "is_adjusted_to_u_t_c" => "isAdjustedToUTC",
        "bit_width" => "bitWidth",
        "is_signed" => "isSigned",
        "num_bytes" => "numBytes",
        "logical_type" => "logicalType",
        "ENCRYPTIONWITHFOOTERKEY" => "ENCRYPTION_WITH_FOOTER_KEY",
        "ENCRYPTIONWITHCOLUMNKEY" => "ENCRYPTION_WITH_COLUMN_KEY",
        "TYPEORDER" => "TYPE_ORDER",
        "AESGCMV1" => "AES_GCM_V1",
        "AESGCMCTRV1" => "AES_GCM_CTR_V1",
        f => f,
    }
}

/// Calls, one after the other.
#[derive(Clone, PartialEq)]
pub struct J {
    pub b: Vec<u8>,
    /// calls
    pub n: u64,
    /// at the struct of this number an unknown field is inserted
    pub at: u32,
    pub structs: u32,
    pub junk: u64,
    pub hits: u32,
}
impl J {
    pub fn new() -> J {
        J { b: vec![], n: 0, at: u32::MAX, structs: 0, junk: 0, hits: 0 }
    }
    /// a record of what stands inside
    pub fn inner(&self) -> J {
        let mut j = self.clone();
        j.b = vec![];
        j.n = 0;
        j
    }
    pub fn outer(&mut self, j: &J) {
        self.structs = j.structs;
        self.hits = j.hits;
    }
    pub fn call(&mut self, t: u8) {
        self.n += 1;
        self.b.push(t);
    }
    pub fn num(&mut self, t: u8, v: i64) {
        self.call(t);
        self.b.extend_from_slice(&v.to_le_bytes());
    }
    fn put(&mut self, s: &[u8]) {
        self.b.extend_from_slice(&(s.len() as u32).to_le_bytes());
        self.b.extend_from_slice(s);
    }
    pub fn blob(&mut self, t: u8, s: &[u8]) {
        self.call(t);
        self.put(s);
    }
    pub fn begin(&mut self, name: &str) {
        self.call(SB);
        self.put(name.as_bytes());
    }
    pub fn field(&mut self, name: &str, t: TType, id: i16) {
        self.call(FB);
        self.put(name.as_bytes());
        self.b.push(code(t));
        self.b.extend_from_slice(&id.to_le_bytes());
    }
    pub fn seq(&mut self, tag: u8, t: TType, n: u32) {
        self.call(tag);
        self.b.push(code(t));
        self.b.extend_from_slice(&n.to_le_bytes());
    }
    pub fn map(&mut self, k: TType, v: TType, n: u32) {
        self.call(PB);
        self.b.push(code(k));
        self.b.push(code(v));
        self.b.extend_from_slice(&n.to_le_bytes());
    }
    pub fn message(&mut self, i: &TMessageIdentifier) {
        self.blob(MB, i.name.as_bytes());
        self.b.push(u8::from(i.message_type));
        self.b.extend_from_slice(&i.sequence_number.to_le_bytes());
    }
    pub fn field_id(&mut self, i: &TFieldIdentifier) {
        match (&i.name, i.id) {
            (Some(n), Some(id)) => self.field(n, i.field_type, id),
            _ => check!(false, "a field is written without name or id"),
        }
    }
    pub fn map_id(&mut self, i: &TMapIdentifier) {
        match (i.key_type, i.value_type) {
            (Some(k), Some(v)) => self.map(k, v, i.size),
            _ => check!(false, "a map is written without types"),
        }
    }
    /// a struct of fields (name, nibble, id, what stands in it)
    pub fn fields(&mut self, me: u32, name: &str, f: Vec<(&str, u8, i16, J)>) {
        let hit = me == self.at;
        let at = if hit { pick(f.len() as u64 + 1) as usize } else { usize::MAX };
        self.begin(name);
        for (i, x) in f.iter().enumerate() {
            if i == at {
                self.unknown();
            }
            self.field(thrift_name(x.0), wire(x.1), x.2);
            self.b.extend_from_slice(&x.3.b);
            self.n += x.3.n;
            self.call(FE);
        }
        if at == f.len() {
            self.unknown();
        }
        self.call(FS);
        self.call(SE);
    }
    pub fn unknown(&mut self) {
        self.hits += 1;
        // above every id in use
        let id = int(16) as u16 as i16;
        assume(id > 20 || id < 0);
        let t = JUNK[self.junk as usize % JUNK.len()];
        self.field("unknown", t, id);
        self.stuff(t, 2);
        self.call(FE);
    }
    pub fn stuff(&mut self, t: TType, depth: u32) {
        match t {
            TType::Bool => self.num(BOOL, 1),
            TType::I08 => self.num(I8, int(8) as i64),
            TType::I16 => self.num(I16, int(8) as i64),
            TType::I32 => self.num(I32, int(8) as i64),
            TType::I64 => self.num(I64, int(8) as i64),
            TType::Double => self.num(DOUBLE, 7),
            TType::String => self.blob(BLOB, b"x"),
            TType::Struct => {
                self.begin("other");
                for (i, t) in JUNK.iter().enumerate() {
                    if depth > 0 || i < 7 {
                        self.field("inner", *t, i as i16);
                        self.stuff(*t, depth.max(1) - 1);
                        self.call(FE);
                    }
                }
                if depth > 0 {
                    // containers with nothing in them
                    for (b, e) in [(LB, LE), (TB, TE), (PB, PE)] {
                        let t = if b == LB { TType::List } else if b == TB { TType::Set } else { TType::Map };
                        self.field("empty", t, e as i16);
                        if b == PB {
                            self.map(TType::I32, TType::Struct, 0);
                        } else {
                            self.seq(b, if b == LB { TType::Bool } else { TType::Struct }, 0);
                        }
                        self.call(e);
                        self.call(FE);
                    }
                }
                self.call(FS);
                self.call(SE);
            }
            TType::List | TType::Set => {
                let (b, e) = if t == TType::List { (LB, LE) } else { (TB, TE) };
                let el = if depth > 0 { TType::Struct } else { TType::I16 };
                self.seq(b, el, 2);
                for _ in 0..2 {
                    self.stuff(el, depth.max(1) - 1);
                }
                self.call(e);
            }
            _ => {
                let el = if depth > 0 { TType::List } else { TType::Bool };
                self.map(TType::String, el, 2);
                for _ in 0..2 {
                    self.stuff(TType::String, 0);
                    self.stuff(el, depth.max(1) - 1);
                }
                self.call(PE);
            }
        }
    }
}
pub const JUNK: [TType; 11] = [
    TType::Bool,
    TType::I08,
    TType::I16,
    TType::I32,
    TType::I64,
    TType::Double,
    TType::String,
    TType::List,
    TType::Set,
    TType::Map,
    TType::Struct,
];

pub const MARK: &str = "refused by the protocol";
pub fn refused<T>() -> Result<T> {
    Err(Error::Protocol(ProtocolError { kind: ProtocolErrorKind::NotImplemented, message: MARK.to_string() }))
}
pub fn is_refusal<T>(r: &Result<T>) -> bool {
    matches!(r, Err(Error::Protocol(e)) if e.kind == ProtocolErrorKind::NotImplemented && e.message == MARK)
}
/// pending once if asked to
struct Once(bool);
impl Future for Once {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            self.0 = false;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(())
    }
}

/// Records what is written.
pub struct Rec {
    pub j: J,
    /// this call is refused
    pub fail_at: u64,
    /// this call is pending at first
    pub pend_at: u64,
    /// what the calls returned together
    pub sum: usize,
}
impl Rec {
    pub fn new(fail_at: u64, pend_at: u64) -> Rec {
        Rec { j: J::new(), fail_at, pend_at, sum: 0 }
    }
    fn done(&mut self) -> Result<usize> {
        let k = self.j.n - 1;
        if k == self.fail_at {
            return refused();
        }
        let w = 1 + (k * k % 97) as usize;
        self.sum += w;
        Ok(w)
    }
    async fn adone(&mut self) -> Result<usize> {
        Once(self.j.n - 1 == self.pend_at).await;
        self.done()
    }
}
impl TOutputProtocol for Rec {
    fn write_message_begin(&mut self, i: &TMessageIdentifier) -> Result<usize> {
        self.j.message(i);
        self.done()
    }
    fn write_message_end(&mut self) -> Result<usize> {
        self.j.call(ME);
        self.done()
    }
    fn write_struct_begin(&mut self, i: &TStructIdentifier) -> Result<usize> {
        self.j.begin(&i.name);
        self.done()
    }
    fn write_struct_end(&mut self) -> Result<usize> {
        self.j.call(SE);
        self.done()
    }
    fn write_field_begin(&mut self, i: &TFieldIdentifier) -> Result<usize> {
        self.j.field_id(i);
        self.done()
    }
    fn write_field_end(&mut self) -> Result<usize> {
        self.j.call(FE);
        self.done()
    }
    fn write_field_stop(&mut self) -> Result<usize> {
        self.j.call(FS);
        self.done()
    }
    fn write_bool(&mut self, b: bool) -> Result<usize> {
        self.j.num(BOOL, b as i64);
        self.done()
    }
    fn write_bytes(&mut self, b: &[u8]) -> Result<usize> {
        self.j.blob(BYTES, b);
        self.done()
    }
    fn write_i8(&mut self, i: i8) -> Result<usize> {
        self.j.num(I8, i as i64);
        self.done()
    }
    fn write_i16(&mut self, i: i16) -> Result<usize> {
        self.j.num(I16, i as i64);
        self.done()
    }
    fn write_i32(&mut self, i: i32) -> Result<usize> {
        self.j.num(I32, i as i64);
        self.done()
    }
    fn write_i64(&mut self, i: i64) -> Result<usize> {
        self.j.num(I64, i);
        self.done()
    }
    fn write_double(&mut self, d: f64) -> Result<usize> {
        self.j.num(DOUBLE, d.to_bits() as i64);
        self.done()
    }
    fn write_string(&mut self, s: &str) -> Result<usize> {
        self.j.blob(STR, s.as_bytes());
        self.done()
    }
    fn write_list_begin(&mut self, i: &TListIdentifier) -> Result<usize> {
        self.j.seq(LB, i.element_type, i.size);
        self.done()
    }
    fn write_list_end(&mut self) -> Result<usize> {
        self.j.call(LE);
        self.done()
    }
    fn write_set_begin(&mut self, i: &TSetIdentifier) -> Result<usize> {
        self.j.seq(TB, i.element_type, i.size);
        self.done()
    }
    fn write_set_end(&mut self) -> Result<usize> {
        self.j.call(TE);
        self.done()
    }
    fn write_map_begin(&mut self, i: &TMapIdentifier) -> Result<usize> {
        self.j.map_id(i);
        self.done()
    }
    fn write_map_end(&mut self) -> Result<usize> {
        self.j.call(PE);
        self.done()
    }
    fn flush(&mut self) -> Result<()> {
        self.j.call(FLUSH);
        self.done().map(|_| ())
    }
    fn write_byte(&mut self, b: u8) -> Result<usize> {
        self.j.num(BYTE, b as i64);
        self.done()
    }
}
#[async_trait]
impl TOutputStreamProtocol for Rec {
    async fn write_message_begin(&mut self, i: &TMessageIdentifier) -> Result<usize> {
        self.j.message(i);
        self.adone().await
    }
    async fn write_message_end(&mut self) -> Result<usize> {
        self.j.call(ME);
        self.adone().await
    }
    async fn write_struct_begin(&mut self, i: &TStructIdentifier) -> Result<usize> {
        self.j.begin(&i.name);
        self.adone().await
    }
    fn write_struct_end(&mut self) -> Result<usize> {
        self.j.call(SE);
        self.done()
    }
    async fn write_field_begin(&mut self, i: &TFieldIdentifier) -> Result<usize> {
        self.j.field_id(i);
        self.adone().await
    }
    fn write_field_end(&mut self) -> Result<usize> {
        self.j.call(FE);
        self.done()
    }
    async fn write_field_stop(&mut self) -> Result<usize> {
        self.j.call(FS);
        self.adone().await
    }
    async fn write_bool(&mut self, b: bool) -> Result<usize> {
        self.j.num(BOOL, b as i64);
        self.adone().await
    }
    async fn write_bytes(&mut self, b: &[u8]) -> Result<usize> {
        self.j.blob(BYTES, b);
        self.adone().await
    }
    async fn write_i8(&mut self, i: i8) -> Result<usize> {
        self.j.num(I8, i as i64);
        self.adone().await
    }
    async fn write_i16(&mut self, i: i16) -> Result<usize> {
        self.j.num(I16, i as i64);
        self.adone().await
    }
    async fn write_i32(&mut self, i: i32) -> Result<usize> {
        self.j.num(I32, i as i64);
        self.adone().await
    }
    async fn write_i64(&mut self, i: i64) -> Result<usize> {
        self.j.num(I64, i);
        self.adone().await
    }
    async fn write_double(&mut self, d: f64) -> Result<usize> {
        self.j.num(DOUBLE, d.to_bits() as i64);
        self.adone().await
    }
    async fn write_string(&mut self, s: &str) -> Result<usize> {
        self.j.blob(STR, s.as_bytes());
        self.adone().await
    }
    async fn write_list_begin(&mut self, i: &TListIdentifier) -> Result<usize> {
        self.j.seq(LB, i.element_type, i.size);
        self.adone().await
    }
    async fn write_list_end(&mut self) -> Result<usize> {
        self.j.call(LE);
        self.adone().await
    }
    async fn write_set_begin(&mut self, i: &TSetIdentifier) -> Result<usize> {
        self.j.seq(TB, i.element_type, i.size);
        self.adone().await
    }
    async fn write_set_end(&mut self) -> Result<usize> {
        self.j.call(TE);
        self.adone().await
    }
    async fn write_map_begin(&mut self, i: &TMapIdentifier) -> Result<usize> {
        self.j.map_id(i);
        self.adone().await
    }
    async fn write_map_end(&mut self) -> Result<usize> {
        self.j.call(PE);
        self.adone().await
    }
    async fn flush(&mut self) -> Result<()> {
        self.j.call(FLUSH);
        self.adone().await.map(|_| ())
    }
    async fn write_byte(&mut self, b: u8) -> Result<usize> {
        self.j.num(BYTE, b as i64);
        self.adone().await
    }
}

/// Answers from a record, and notes calls the record does not have.
pub struct Play<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub n: u64,
    pub fail_at: u64,
    pub pend_at: u64,
    /// names are told
    pub names: bool,
    pub lost: bool,
}
impl<'a> Play<'a> {
    pub fn new(j: &'a J, fail_at: u64, pend_at: u64, names: bool) -> Play<'a> {
        Play { b: &j.b, pos: 0, n: 0, fail_at, pend_at, names, lost: false }
    }
    pub fn at_end(&self) -> bool {
        !self.lost && self.pos == self.b.len()
    }
    fn peek(&self) -> u8 {
        if self.pos < self.b.len() {
            self.b[self.pos]
        } else {
            0
        }
    }
    fn take(&mut self, n: usize) -> &'a [u8] {
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        r
    }
    fn call(&mut self, t: u8) -> Result<()> {
        self.n += 1;
        if self.n - 1 == self.fail_at {
            return refused();
        }
        let x = self.peek();
        if x != t && !(x == BLOB && (t == STR || t == BYTES)) && !(x == FS && t == FB) {
            self.lost = true;
            check!(false, "a protocol is asked for something else than what stands next");
            return refused();
        }
        self.pos += 1;
        Ok(())
    }
    fn u32_(&mut self) -> u32 {
        let x = self.take(4);
        u32::from_le_bytes([x[0], x[1], x[2], x[3]])
    }
    fn text(&mut self) -> &'a [u8] {
        let n = self.u32_();
        self.take(n as usize)
    }
    fn ty(&mut self) -> TType {
        TYPES[self.take(1)[0] as usize]
    }
    fn num(&mut self, t: u8) -> Result<i64> {
        self.call(t)?;
        let mut a = [0u8; 8];
        a.copy_from_slice(self.take(8));
        Ok(i64::from_le_bytes(a))
    }
    fn end(&mut self, t: u8) -> Result<()> {
        self.call(t)
    }
    fn name(&mut self) -> Option<String> {
        let n = self.text().to_vec();
        if self.names {
            // names are ASCII
            Some(unsafe { String::from_utf8_unchecked(n) })
        } else {
            None
        }
    }
    fn message(&mut self) -> Result<TMessageIdentifier> {
        self.call(MB)?;
        let n = self.text().to_vec();
        let t = self.take(1)[0];
        let s = self.u32_();
        Ok(TMessageIdentifier {
            name: unsafe { String::from_utf8_unchecked(n) },
            message_type: crate::ops::MSG[t as usize - 1],
            sequence_number: s,
        })
    }
    fn begin(&mut self) -> Result<Option<TStructIdentifier>> {
        self.call(SB)?;
        Ok(self.name().map(|name| TStructIdentifier { name }))
    }
    fn field(&mut self) -> Result<TFieldIdentifier> {
        self.call(FB)?;
        if self.b[self.pos - 1] == FS {
            return Ok(TFieldIdentifier { name: None, field_type: TType::Stop, id: None });
        }
        let name = self.name();
        let field_type = self.ty();
        let x = self.take(2);
        Ok(TFieldIdentifier { name, field_type, id: Some(i16::from_le_bytes([x[0], x[1]])) })
    }
    fn blob(&mut self, t: u8) -> Result<Vec<u8>> {
        self.call(t)?;
        Ok(self.text().to_vec())
    }
    fn string(&mut self) -> Result<String> {
        // was text when the record was made
        Ok(unsafe { String::from_utf8_unchecked(self.blob(STR)?) })
    }
    fn list(&mut self) -> Result<TListIdentifier> {
        self.call(LB)?;
        Ok(TListIdentifier { element_type: self.ty(), size: self.u32_() })
    }
    fn set(&mut self) -> Result<TSetIdentifier> {
        self.call(TB)?;
        Ok(TSetIdentifier { element_type: self.ty(), size: self.u32_() })
    }
    fn map(&mut self) -> Result<TMapIdentifier> {
        self.call(PB)?;
        let (k, v, size) = (self.ty(), self.ty(), self.u32_());
        // of an empty map, as in the compact protocol, the types may be unknown
        if size == 0 && !self.names {
            return Ok(TMapIdentifier { key_type: None, value_type: None, size });
        }
        Ok(TMapIdentifier { key_type: Some(k), value_type: Some(v), size })
    }
    async fn wait(&mut self) {
        Once(self.n == self.pend_at).await
    }
}
impl<'a> TInputProtocol for Play<'a> {
    fn read_message_begin(&mut self) -> Result<TMessageIdentifier> {
        self.message()
    }
    fn read_message_end(&mut self) -> Result<()> {
        self.end(ME)
    }
    fn read_struct_begin(&mut self) -> Result<Option<TStructIdentifier>> {
        self.begin()
    }
    fn read_struct_end(&mut self) -> Result<()> {
        self.end(SE)
    }
    fn read_field_begin(&mut self) -> Result<TFieldIdentifier> {
        self.field()
    }
    fn read_field_end(&mut self) -> Result<()> {
        self.end(FE)
    }
    fn read_bool(&mut self) -> Result<bool> {
        self.num(BOOL).map(|x| x != 0)
    }
    fn read_bytes(&mut self) -> Result<Vec<u8>> {
        self.blob(BYTES)
    }
    fn read_i8(&mut self) -> Result<i8> {
        self.num(I8).map(|x| x as i8)
    }
    fn read_i16(&mut self) -> Result<i16> {
        self.num(I16).map(|x| x as i16)
    }
    fn read_i32(&mut self) -> Result<i32> {
        self.num(I32).map(|x| x as i32)
    }
    fn read_i64(&mut self) -> Result<i64> {
        self.num(I64)
    }
    fn read_double(&mut self) -> Result<f64> {
        self.num(DOUBLE).map(|x| f64::from_bits(x as u64))
    }
    fn read_string(&mut self) -> Result<String> {
        self.string()
    }
    fn read_list_begin(&mut self) -> Result<TListIdentifier> {
        self.list()
    }
    fn read_list_end(&mut self) -> Result<()> {
        self.end(LE)
    }
    fn read_set_begin(&mut self) -> Result<TSetIdentifier> {
        self.set()
    }
    fn read_set_end(&mut self) -> Result<()> {
        self.end(TE)
    }
    fn read_map_begin(&mut self) -> Result<TMapIdentifier> {
        self.map()
    }
    fn read_map_end(&mut self) -> Result<()> {
        self.end(PE)
    }
    fn read_byte(&mut self) -> Result<u8> {
        self.num(BYTE).map(|x| x as u8)
    }
}
#[async_trait]
impl<'a> TInputStreamProtocol for Play<'a> {
    async fn read_message_begin(&mut self) -> Result<TMessageIdentifier> {
        self.wait().await;
        self.message()
    }
    async fn read_message_end(&mut self) -> Result<()> {
        self.wait().await;
        self.end(ME)
    }
    async fn read_struct_begin(&mut self) -> Result<Option<TStructIdentifier>> {
        self.wait().await;
        self.begin()
    }
    async fn read_struct_end(&mut self) -> Result<()> {
        self.wait().await;
        self.end(SE)
    }
    async fn read_field_begin(&mut self) -> Result<TFieldIdentifier> {
        self.wait().await;
        self.field()
    }
    async fn read_field_end(&mut self) -> Result<()> {
        self.wait().await;
        self.end(FE)
    }
    async fn read_bool(&mut self) -> Result<bool> {
        self.wait().await;
        self.num(BOOL).map(|x| x != 0)
    }
    async fn read_bytes(&mut self) -> Result<Vec<u8>> {
        self.wait().await;
        self.blob(BYTES)
    }
    async fn read_i8(&mut self) -> Result<i8> {
        self.wait().await;
        self.num(I8).map(|x| x as i8)
    }
    async fn read_i16(&mut self) -> Result<i16> {
        self.wait().await;
        self.num(I16).map(|x| x as i16)
    }
    async fn read_i32(&mut self) -> Result<i32> {
        self.wait().await;
        self.num(I32).map(|x| x as i32)
    }
    async fn read_i64(&mut self) -> Result<i64> {
        self.wait().await;
        self.num(I64)
    }
    async fn read_double(&mut self) -> Result<f64> {
        self.wait().await;
        self.num(DOUBLE).map(|x| f64::from_bits(x as u64))
    }
    async fn read_string(&mut self) -> Result<String> {
        self.wait().await;
        self.string()
    }
    async fn read_list_begin(&mut self) -> Result<TListIdentifier> {
        self.wait().await;
        self.list()
    }
    async fn read_list_end(&mut self) -> Result<()> {
        self.wait().await;
        self.end(LE)
    }
    async fn read_set_begin(&mut self) -> Result<TSetIdentifier> {
        self.wait().await;
        self.set()
    }
    async fn read_set_end(&mut self) -> Result<()> {
        self.wait().await;
        self.end(TE)
    }
    async fn read_map_begin(&mut self) -> Result<TMapIdentifier> {
        self.wait().await;
        self.map()
    }
    async fn read_map_end(&mut self) -> Result<()> {
        self.wait().await;
        self.end(PE)
    }
    async fn read_byte(&mut self) -> Result<u8> {
        self.wait().await;
        self.num(BYTE).map(|x| x as u8)
    }
}
