use bitreader::BitReader;
use rust_bitwriter::BitWriter;
use simmodel::value::*;
use std::io::{Read, Write};
use std::marker::PhantomData;
use zserio::ztype::{BytesType, ExternType};
use zserio::{ZserioError, ZserioPackableObject};

pub trait Glue: Sized {
    fn from_val(v: &Value) -> Self;
    fn to_val(&self) -> Value;
}
pub fn vint(v: &Value) -> i128 {
    match v {
        Value::Int(i) => *i,
        Value::Bool(b) => *b as i128,
        _ => 0,
    }
}
pub fn mask<M: From<U>, U: TryFrom<i128>>(v: &Value, _bits: impl Fn(&M) -> U) -> M {
    match U::try_from(vint(v)) {
        Ok(u) => M::from(u),
        Err(_) => match U::try_from(1) {
            Ok(u) => M::from(u),
            Err(_) => panic!("mask"),
        },
    }
}
macro_rules! ints { ($($t:ty)*) => { $(impl Glue for $t {
    fn from_val(v: &Value) -> Self { vint(v) as $t }
    fn to_val(&self) -> Value { Value::Int(*self as i128) }
})* } }
ints!(u8 u16 u32 u64 i8 i16 i32 i64);
impl Glue for bool {
    fn from_val(v: &Value) -> Self {
        vint(v) != 0
    }
    fn to_val(&self) -> Value {
        Value::Bool(*self)
    }
}
impl Glue for f32 {
    fn from_val(v: &Value) -> Self {
        match v {
            Value::F32(b) => f32::from_bits(*b),
            _ => 0.0,
        }
    }
    fn to_val(&self) -> Value {
        Value::F32(self.to_bits())
    }
}
impl Glue for f64 {
    fn from_val(v: &Value) -> Self {
        match v {
            Value::F64(b) => f64::from_bits(*b),
            _ => 0.0,
        }
    }
    fn to_val(&self) -> Value {
        Value::F64(self.to_bits())
    }
}
impl Glue for String {
    fn from_val(v: &Value) -> Self {
        match v {
            Value::Str(b) => b.clone(),
            _ => String::new(),
        }
    }
    fn to_val(&self) -> Value {
        Value::Str(self.clone())
    }
}
impl Glue for BytesType {
    fn from_val(v: &Value) -> Self {
        match v {
            Value::Bytes(b) => BytesType { byte_size: b.len() as u32, data_blob: b.clone() },
            // data of another length than declared
            Value::Arr(a) => match &a[..] {
                [Value::Int(n), Value::Bytes(b)] => BytesType { byte_size: *n as u32, data_blob: b.clone() },
                _ => BytesType::default(),
            },
            _ => BytesType::default(),
        }
    }
    fn to_val(&self) -> Value {
        // a size that contradicts the data is not the value that was stored
        if self.byte_size as usize != self.data_blob.len() {
            return Value::Arr(vec![Value::Int(self.byte_size as i128), Value::Bytes(self.data_blob.clone())]);
        }
        Value::Bytes(self.data_blob.clone())
    }
}
impl Glue for ExternType {
    fn from_val(v: &Value) -> Self {
        match v {
            Value::Ext(n, b) => ExternType { bit_size: *n, data_blob: b.clone() },
            _ => ExternType::default(),
        }
    }
    fn to_val(&self) -> Value {
        Value::Ext(self.bit_size, self.data_blob.clone())
    }
}
impl<T: Glue> Glue for Vec<T> {
    fn from_val(v: &Value) -> Self {
        match v {
            Value::Arr(a) => a.iter().map(T::from_val).collect(),
            _ => vec![],
        }
    }
    fn to_val(&self) -> Value {
        Value::Arr(self.iter().map(|x| x.to_val()).collect())
    }
}
pub trait Elems {
    fn size(&self) -> usize;
}
impl<T> Elems for Vec<T> {
    fn size(&self) -> usize {
        std::mem::size_of::<T>()
    }
}
impl<T> Elems for Option<Vec<T>> {
    fn size(&self) -> usize {
        std::mem::size_of::<T>()
    }
}
pub fn esize(e: &dyn Elems) -> usize {
    e.size()
}
impl<T: Glue> Glue for Option<T> {
    fn from_val(v: &Value) -> Self {
        match v {
            Value::Absent => None,
            v => Some(T::from_val(v)),
        }
    }
    fn to_val(&self) -> Value {
        match self {
            None => Value::Absent,
            Some(x) => x.to_val(),
        }
    }
}

pub type Res<T> = Result<T, ZserioError>;
pub trait Obj: Send + Sync {
    fn to_bytes(&self) -> Res<Vec<u8>>;
    fn to_writer(&self, w: &mut dyn Write) -> Res<()>;
    fn write(&self, w: &mut BitWriter) -> Res<()>;
    fn read(&mut self, r: &mut BitReader) -> Res<()>;
    fn bitsize(&self, pos: u64) -> Res<u64>;
    /// every member, inactive ones included
    fn value(&self) -> Value;
    fn dup(&self) -> Box<dyn Obj>;
    fn set(&mut self, v: &Value);
}
pub trait TypeOps: Sync + Send {
    fn name(&self) -> &'static str;
    fn idx(&self) -> usize;
    fn make(&self, v: &Value) -> Box<dyn Obj>;
    fn fresh(&self) -> Box<dyn Obj>;
    fn from_bytes(&self, b: &[u8]) -> Res<Box<dyn Obj>>;
    fn from_reader(&self, r: &mut dyn Read) -> Res<Box<dyn Obj>>;
    fn from_file(&self, p: &str) -> Res<Box<dyn Obj>>;
}
struct O<T>(T);
impl<T: Glue + ZserioPackableObject + Clone + Send + Sync + 'static> Obj for O<T> {
    fn to_bytes(&self) -> Res<Vec<u8>> {
        zserio::to_bytes(&self.0)
    }
    fn to_writer(&self, w: &mut dyn Write) -> Res<()> {
        zserio::to_writer(w, &self.0)
    }
    fn write(&self, w: &mut BitWriter) -> Res<()> {
        self.0.zserio_write(w)
    }
    fn read(&mut self, r: &mut BitReader) -> Res<()> {
        self.0.zserio_read(r)
    }
    fn bitsize(&self, pos: u64) -> Res<u64> {
        self.0.zserio_bitsize(pos)
    }
    fn value(&self) -> Value {
        self.0.to_val()
    }
    fn dup(&self) -> Box<dyn Obj> {
        Box::new(O(self.0.clone()))
    }
    fn set(&mut self, v: &Value) {
        self.0 = T::from_val(v);
    }
}
struct Typed<T>(&'static str, usize, PhantomData<fn() -> T>);
pub fn typed<T: Glue + ZserioPackableObject + Clone + Send + Sync + 'static>(n: &'static str, i: usize) -> Box<dyn TypeOps> {
    Box::new(Typed::<T>(n, i, PhantomData))
}
impl<T: Glue + ZserioPackableObject + Clone + Send + Sync + 'static> TypeOps for Typed<T> {
    fn name(&self) -> &'static str {
        self.0
    }
    fn idx(&self) -> usize {
        self.1
    }
    fn make(&self, v: &Value) -> Box<dyn Obj> {
        Box::new(O(T::from_val(v)))
    }
    fn fresh(&self) -> Box<dyn Obj> {
        Box::new(O(T::default()))
    }
    fn from_bytes(&self, b: &[u8]) -> Res<Box<dyn Obj>> {
        Ok(Box::new(O(zserio::from_bytes::<T>(b)?)))
    }
    fn from_reader(&self, r: &mut dyn Read) -> Res<Box<dyn Obj>> {
        Ok(Box::new(O(zserio::from_reader::<_, T>(r)?)))
    }
    fn from_file(&self, p: &str) -> Res<Box<dyn Obj>> {
        Ok(Box::new(O(zserio::from_file::<_, T>(p)?)))
    }
}
