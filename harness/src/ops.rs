//! Calls of the two protocol traits as data.
use crate::rt::*;
use crate::schema::{sext, Enc};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result;

/// The wire types that exist, with their nibbles.
pub const WIRE: [(TType, u8); 11] = [
    (TType::Bool, 1),
    (TType::I08, 3),
    (TType::I16, 4),
    (TType::I32, 5),
    (TType::I64, 6),
    (TType::Double, 7),
    (TType::String, 8),
    (TType::List, 9),
    (TType::Set, 10),
    (TType::Map, 11),
    (TType::Struct, 12),
];
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    MessageBegin(String, u8, u32),
    MessageEnd,
    StructBegin,
    StructEnd,
    Field(usize, i16),
    BoolField(i16, bool),
    FieldEnd,
    FieldStop,
    Bool(bool),
    Bytes(Vec<u8>),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Double(u64),
    Str(String),
    ListBegin(usize, u32),
    ListEnd,
    SetBegin(usize, u32),
    SetEnd,
    MapBegin(usize, usize, u32),
    MapEnd,
    Byte(u8),
    Flush,
}
pub const N_OPS: u64 = 24;
pub const MSG: [TMessageType; 4] = [TMessageType::Call, TMessageType::Reply, TMessageType::Exception, TMessageType::OneWay];

/// how much of the arguments is symbolic
#[derive(Clone, Copy, PartialEq)]
pub enum Args {
    /// unconstrained numbers, up to two arbitrary bytes
    Wide,
    /// numbers of one varint byte, types chosen by the solver
    Narrow,
    Fixed,
}
fn num(a: Args, bits: u64) -> u64 {
    match a {
        Args::Wide => int(bits),
        Args::Narrow => {
            let b = int(8);
            assume(b > 0 && b < 60);
            b
        }
        Args::Fixed => 5,
    }
}
fn ty(a: Args) -> usize {
    match a {
        Args::Fixed => 3,
        _ => pick(11) as usize,
    }
}
fn blob(a: Args) -> Vec<u8> {
    let n = match a {
        Args::Wide => [0usize, 1, 2, 127, 128][pick(5) as usize],
        _ => 1,
    };
    let mut v = vec![];
    for i in 0..n {
        v.push(if i < 2 && a != Args::Fixed { int(8) as u8 } else { b'z' });
    }
    v
}
pub fn text(a: Args) -> String {
    match String::from_utf8(blob(a)) {
        Ok(s) => s,
        Err(_) => cut(),
    }
}
/// An operation of the given kind with arguments chosen by the solver.
pub fn make(kind: u64, a: Args) -> Op {
    match kind {
        0 => Op::MessageBegin(text(a), if a == Args::Fixed { 1 } else { pick(4) as u8 }, num(a, 32) as u32),
        1 => Op::MessageEnd,
        2 => Op::StructBegin,
        3 => Op::StructEnd,
        4 => Op::Field(1 + if a == Args::Fixed { 3 } else { pick(10) as usize }, sext(num(a, 16), 16) as i16),
        5 => Op::BoolField(sext(num(a, 16), 16) as i16, a == Args::Fixed || flip()),
        6 => Op::FieldEnd,
        7 => Op::FieldStop,
        8 => Op::Bool(a == Args::Fixed || flip()),
        9 => Op::Bytes(blob(a)),
        10 => Op::I8(num(a, 8) as i8),
        11 => Op::I16(sext(num(a, 16), 16) as i16),
        12 => Op::I32(sext(num(a, 32), 32) as i32),
        13 => Op::I64(num(a, 64) as i64),
        14 => Op::Double(if a == Args::Fixed { 0x4008_0000_0000_0001 } else { int(64) }),
        15 => Op::Str(text(a)),
        16 => Op::ListBegin(ty(a), num(a, 32) as u32),
        17 => Op::ListEnd,
        18 => Op::SetBegin(ty(a), num(a, 32) as u32),
        19 => Op::SetEnd,
        20 => {
            let n = num(a, 32) as u32;
            Op::MapBegin(ty(a), if a == Args::Wide { pick(11) as usize } else { 3 }, n)
        }
        21 => Op::MapEnd,
        22 => Op::Byte(num(a, 8) as u8),
        _ => Op::Flush,
    }
}
/// a field of a fixed type
pub fn plain_field(a: Args) -> Op {
    Op::Field(3, sext(num(a, 16), 16) as i16)
}
pub fn fid(name: &str, t: TType, id: i16) -> TFieldIdentifier {
    TFieldIdentifier::new(name, t, id)
}
fn sid() -> TStructIdentifier {
    TStructIdentifier::new("An Identifier")
}
/// the name is left out: the protocols do not look at it
fn map_id(k: usize, v: usize, n: u32) -> TMapIdentifier {
    TMapIdentifier::new(WIRE[k].0, WIRE[v].0, n)
}
pub fn write<P: TOutputProtocol>(p: &mut P, o: &Op) -> Result<usize> {
    match o {
        Op::MessageBegin(n, t, s) => p.write_message_begin(&TMessageIdentifier::new(n.clone(), MSG[*t as usize], *s)),
        Op::MessageEnd => p.write_message_end(),
        Op::StructBegin => p.write_struct_begin(&sid()),
        Op::StructEnd => p.write_struct_end(),
        Op::Field(t, i) => p.write_field_begin(&fid("someField", WIRE[*t].0, *i)),
        Op::BoolField(i, b) => {
            let n = p.write_field_begin(&fid("someField", TType::Bool, *i))?;
            Ok(n + p.write_bool(*b)?)
        }
        Op::FieldEnd => p.write_field_end(),
        Op::FieldStop => p.write_field_stop(),
        Op::Bool(b) => p.write_bool(*b),
        Op::Bytes(b) => p.write_bytes(b),
        Op::I8(x) => p.write_i8(*x),
        Op::I16(x) => p.write_i16(*x),
        Op::I32(x) => p.write_i32(*x),
        Op::I64(x) => p.write_i64(*x),
        Op::Double(x) => p.write_double(f64::from_bits(*x)),
        Op::Str(s) => p.write_string(s),
        Op::ListBegin(t, n) => p.write_list_begin(&TListIdentifier::new(WIRE[*t].0, *n)),
        Op::ListEnd => p.write_list_end(),
        Op::SetBegin(t, n) => p.write_set_begin(&TSetIdentifier::new(WIRE[*t].0, *n)),
        Op::SetEnd => p.write_set_end(),
        Op::MapBegin(k, v, n) => p.write_map_begin(&map_id(*k, *v, *n)),
        Op::MapEnd => p.write_map_end(),
        Op::Byte(b) => p.write_byte(*b),
        Op::Flush => p.flush().map(|_| 0),
    }
}
pub async fn awrite<P: TOutputStreamProtocol>(p: &mut P, o: &Op) -> Result<usize> {
    match o {
        Op::MessageBegin(n, t, s) => p.write_message_begin(&TMessageIdentifier::new(n.clone(), MSG[*t as usize], *s)).await,
        Op::MessageEnd => p.write_message_end().await,
        Op::StructBegin => p.write_struct_begin(&sid()).await,
        Op::StructEnd => p.write_struct_end(),
        Op::Field(t, i) => p.write_field_begin(&fid("someField", WIRE[*t].0, *i)).await,
        Op::BoolField(i, b) => {
            let n = p.write_field_begin(&fid("someField", TType::Bool, *i)).await?;
            Ok(n + p.write_bool(*b).await?)
        }
        Op::FieldEnd => p.write_field_end(),
        Op::FieldStop => p.write_field_stop().await,
        Op::Bool(b) => p.write_bool(*b).await,
        Op::Bytes(b) => p.write_bytes(b).await,
        Op::I8(x) => p.write_i8(*x).await,
        Op::I16(x) => p.write_i16(*x).await,
        Op::I32(x) => p.write_i32(*x).await,
        Op::I64(x) => p.write_i64(*x).await,
        Op::Double(x) => p.write_double(f64::from_bits(*x)).await,
        Op::Str(s) => p.write_string(s).await,
        Op::ListBegin(t, n) => p.write_list_begin(&TListIdentifier::new(WIRE[*t].0, *n)).await,
        Op::ListEnd => p.write_list_end().await,
        Op::SetBegin(t, n) => p.write_set_begin(&TSetIdentifier::new(WIRE[*t].0, *n)).await,
        Op::SetEnd => p.write_set_end().await,
        Op::MapBegin(k, v, n) => p.write_map_begin(&map_id(*k, *v, *n)).await,
        Op::MapEnd => p.write_map_end().await,
        Op::Byte(b) => p.write_byte(*b).await,
        Op::Flush => p.flush().await.map(|_| 0),
    }
}
/// What reading `o` back must yield: the same identifiers and values. `None`
/// if an error was returned; otherwise whether what was read equals `o`.
pub fn read<P: TInputProtocol>(p: &mut P, o: &Op) -> Result<bool> {
    Ok(match o {
        Op::MessageBegin(n, t, s) => p.read_message_begin()? == TMessageIdentifier::new(n.clone(), MSG[*t as usize], *s),
        Op::MessageEnd => p.read_message_end().map(|_| true)?,
        Op::StructBegin => p.read_struct_begin()?.map_or(true, |i| i.name == "An Identifier"),
        Op::StructEnd => p.read_struct_end().map(|_| true)?,
        Op::Field(t, i) => is_field(&p.read_field_begin()?, WIRE[*t].0, Some(*i)),
        Op::BoolField(i, b) => {
            let f = p.read_field_begin()?;
            let x = p.read_bool()?;
            is_field(&f, TType::Bool, Some(*i)) && x == *b
        }
        Op::FieldEnd => p.read_field_end().map(|_| true)?,
        Op::FieldStop => is_field(&p.read_field_begin()?, TType::Stop, None),
        Op::Bool(b) => p.read_bool()? == *b,
        Op::Bytes(b) => p.read_bytes()? == *b,
        Op::I8(x) => p.read_i8()? == *x,
        Op::I16(x) => p.read_i16()? == *x,
        Op::I32(x) => p.read_i32()? == *x,
        Op::I64(x) => p.read_i64()? == *x,
        Op::Double(x) => p.read_double()?.to_bits() == *x,
        Op::Str(s) => p.read_string()? == *s,
        Op::ListBegin(t, n) => p.read_list_begin()? == TListIdentifier::new(WIRE[*t].0, *n),
        Op::ListEnd => p.read_list_end().map(|_| true)?,
        Op::SetBegin(t, n) => p.read_set_begin()? == TSetIdentifier::new(WIRE[*t].0, *n),
        Op::SetEnd => p.read_set_end().map(|_| true)?,
        Op::MapBegin(k, v, n) => is_map(&p.read_map_begin()?, *k, *v, *n),
        Op::MapEnd => p.read_map_end().map(|_| true)?,
        Op::Byte(b) => p.read_byte()? == *b,
        Op::Flush => true,
    })
}
pub async fn aread<P: TInputStreamProtocol>(p: &mut P, o: &Op) -> Result<bool> {
    Ok(match o {
        Op::MessageBegin(n, t, s) => p.read_message_begin().await? == TMessageIdentifier::new(n.clone(), MSG[*t as usize], *s),
        Op::MessageEnd => p.read_message_end().await.map(|_| true)?,
        Op::StructBegin => p.read_struct_begin().await?.map_or(true, |i| i.name == "An Identifier"),
        Op::StructEnd => p.read_struct_end().await.map(|_| true)?,
        Op::Field(t, i) => is_field(&p.read_field_begin().await?, WIRE[*t].0, Some(*i)),
        Op::BoolField(i, b) => {
            let f = p.read_field_begin().await?;
            let x = p.read_bool().await?;
            is_field(&f, TType::Bool, Some(*i)) && x == *b
        }
        Op::FieldEnd => p.read_field_end().await.map(|_| true)?,
        Op::FieldStop => is_field(&p.read_field_begin().await?, TType::Stop, None),
        Op::Bool(b) => p.read_bool().await? == *b,
        Op::Bytes(b) => p.read_bytes().await? == *b,
        Op::I8(x) => p.read_i8().await? == *x,
        Op::I16(x) => p.read_i16().await? == *x,
        Op::I32(x) => p.read_i32().await? == *x,
        Op::I64(x) => p.read_i64().await? == *x,
        Op::Double(x) => p.read_double().await?.to_bits() == *x,
        Op::Str(s) => p.read_string().await? == *s,
        Op::ListBegin(t, n) => p.read_list_begin().await? == TListIdentifier::new(WIRE[*t].0, *n),
        Op::ListEnd => p.read_list_end().await.map(|_| true)?,
        Op::SetBegin(t, n) => p.read_set_begin().await? == TSetIdentifier::new(WIRE[*t].0, *n),
        Op::SetEnd => p.read_set_end().await.map(|_| true)?,
        Op::MapBegin(k, v, n) => is_map(&p.read_map_begin().await?, *k, *v, *n),
        Op::MapEnd => p.read_map_end().await.map(|_| true)?,
        Op::Byte(b) => p.read_byte().await? == *b,
        Op::Flush => true,
    })
}
fn is_field(f: &TFieldIdentifier, t: TType, id: Option<i16>) -> bool {
    let named = match &f.name {
        None => true,
        Some(n) => n == if t == TType::Stop { "" } else { "someField" },
    };
    f.field_type == t && f.id == id && named
}
fn is_map(m: &TMapIdentifier, k: usize, v: usize, n: u32) -> bool {
    // the types of an empty map are not on the wire
    m.size == n && (n == 0 || m.key_type == Some(WIRE[k].0) && m.value_type == Some(WIRE[v].0))
}

/// The compact encoding of a sequence of operations, by the specification.
pub struct Ref {
    pub out: Vec<u8>,
    last: i16,
    stack: Vec<i16>,
}
impl Ref {
    pub fn new() -> Ref {
        Ref { out: vec![], last: 0, stack: vec![] }
    }
    fn head(&mut self, nib: u8, id: i16) {
        let d = id as i32 - self.last as i32;
        // the crate's writer uses the short form for steps of 1 to 14
        if d > 0 && d < 15 {
            self.out.push((d as u8) << 4 | nib);
        } else {
            self.out.push(nib);
            Enc::uv(&mut self.out, Enc::zz(id as i64));
        }
        self.last = id;
    }
    fn seq(&mut self, t: usize, n: u32) {
        if n < 15 {
            self.out.push((n as u8) << 4 | WIRE[t].1);
        } else {
            self.out.push(0xf0 | WIRE[t].1);
            Enc::uv(&mut self.out, n as u64);
        }
    }
    pub fn put(&mut self, o: &Op) {
        let b = &mut self.out;
        match o {
            Op::MessageBegin(n, t, s) => {
                b.push(0x82);
                b.push((t + 1) << 5 | 1);
                Enc::uv(b, *s as u64);
                Enc::uv(b, n.len() as u64);
                b.extend_from_slice(n.as_bytes());
            }
            Op::StructBegin => {
                self.stack.push(self.last);
                self.last = 0;
            }
            Op::StructEnd => self.last = self.stack.pop().unwrap_or(0),
            Op::Field(t, i) => self.head(WIRE[*t].1, *i),
            Op::BoolField(i, x) => self.head(if *x { 1 } else { 2 }, *i),
            Op::FieldStop => b.push(0),
            Op::Bool(x) => b.push(if *x { 1 } else { 2 }),
            Op::Bytes(x) => {
                Enc::uv(b, x.len() as u64);
                b.extend_from_slice(x);
            }
            Op::Str(x) => {
                Enc::uv(b, x.len() as u64);
                b.extend_from_slice(x.as_bytes());
            }
            Op::I8(x) => b.push(*x as u8),
            Op::I16(x) => Enc::uv(b, Enc::zz(*x as i64)),
            Op::I32(x) => Enc::uv(b, Enc::zz(*x as i64)),
            Op::I64(x) => Enc::uv(b, Enc::zz(*x)),
            Op::Double(x) => b.extend_from_slice(&x.to_le_bytes()),
            Op::ListBegin(t, n) | Op::SetBegin(t, n) => self.seq(*t, *n),
            Op::MapBegin(k, v, n) => {
                Enc::uv(b, *n as u64);
                if *n != 0 {
                    b.push(WIRE[*k].1 << 4 | WIRE[*v].1);
                }
            }
            Op::Byte(x) => b.push(*x),
            Op::MessageEnd | Op::FieldEnd | Op::ListEnd | Op::SetEnd | Op::MapEnd | Op::Flush => {}
        }
    }
}
