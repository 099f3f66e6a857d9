//! A document as a tree, and serde's two directions over it.  Stands in for the
//! byte-level codecs: what procstar's types do with a document is real, its
//! bytes are not modelled.
#![allow(unused, static_mut_refs)]
use serde::de::{self, DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
#[repr(u8)]
pub enum Value {
    Null,
    Bool(bool),
    Int(i64),
    UInt(u64),
    Float(f64),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<Value>),
    /// The entries are boxed because the memory of boxes, unlike that of vectors, has a type.
    Map(Vec<Box<(Value, Value)>>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Error;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("codec error")
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Error
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Error
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Error
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        Error
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        Error
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Error
    }
    fn missing_field(_: &'static str) -> Self {
        Error
    }
    fn duplicate_field(_: &'static str) -> Self {
        Error
    }
}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Error
    }
}

/// Documents that stand behind the modelled byte strings.
pub static mut DOCS: (Vec<Value>, u64) = (Vec::new(), 0x6d63_b8ab03a8);
pub fn docs() -> &'static mut Vec<Value> {
    unsafe { &mut *std::ptr::addr_of_mut!(DOCS.0) }
}
/// Files a document, and gives the byte string that stands for it.
pub fn file(v: Value) -> Vec<u8> {
    docs().push(v);
    vec![(docs().len() - 1) as u8]
}
/// The document a byte string stands for, if well-formed.
pub fn lookup(b: &[u8]) -> Option<&'static Value> {
    if b.len() == 1 && (b[0] as usize) < docs().len() {
        Some(&docs()[b[0] as usize])
    } else {
        None
    }
}

pub fn s(x: &str) -> Value {
    Value::Str(String::from(x))
}
pub fn map<const N: usize>(e: [(&str, Value); N]) -> Value {
    Value::Map(e.into_iter().map(|(k, v)| Box::new((s(k), v))).collect())
}

impl Value {
    pub fn get(&self, k: &str) -> Option<&Value> {
        match self {
            Value::Map(m) => {
                for e in m.iter() {
                    let (n, v) = &**e;
                    if let Value::Str(n) = n {
                        if n == k {
                            return Some(v);
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, Value::Null)
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            Value::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_i64(&self) -> Option<i64> {
        match self {
            Value::Int(i) => Some(*i),
            Value::UInt(u) => Some(*u as i64),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            Value::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn as_seq(&self) -> Option<&Vec<Value>> {
        match self {
            Value::Seq(v) => Some(v),
            _ => None,
        }
    }
    pub fn as_map(&self) -> Option<&Vec<Box<(Value, Value)>>> {
        match self {
            Value::Map(v) => Some(v),
            _ => None,
        }
    }
}

impl Serialize for Value {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match self {
            Value::Null => s.serialize_unit(),
            Value::Bool(b) => s.serialize_bool(*b),
            Value::Int(i) => s.serialize_i64(*i),
            Value::UInt(i) => s.serialize_u64(*i),
            Value::Float(f) => s.serialize_f64(*f),
            Value::Str(x) => s.serialize_str(x),
            Value::Bytes(b) => s.serialize_bytes(b),
            Value::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for e in v {
                    q.serialize_element(e)?;
                }
                q.end()
            }
            Value::Map(v) => {
                let mut q = s.serialize_map(Some(v.len()))?;
                for p in v {
                    let (k, e) = &**p;
                    q.serialize_entry(k, e)?;
                }
                q.end()
            }
        }
    }
}

// ---------------------------------------------------------------------------
// Serializing

#[derive(Clone, Copy)]
pub struct Ser {
    pub human: bool,
}
pub fn to_value<T: Serialize + ?Sized>(t: &T, human: bool) -> Result<Value, Error> {
    t.serialize(Ser { human })
}

pub struct SeqSer {
    s: Ser,
    v: Vec<Value>,
    variant: Option<&'static str>,
}
pub struct MapSer {
    s: Ser,
    v: Vec<Box<(Value, Value)>>,
    k: Option<Value>,
    variant: Option<&'static str>,
}
fn wrap(variant: Option<&'static str>, v: Value) -> Value {
    match variant {
        Some(n) => Value::Map(vec![Box::new((s(n), v))]),
        None => v,
    }
}
impl Serializer for Ser {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = SeqSer;
    type SerializeTuple = SeqSer;
    type SerializeTupleStruct = SeqSer;
    type SerializeTupleVariant = SeqSer;
    type SerializeMap = MapSer;
    type SerializeStruct = MapSer;
    type SerializeStructVariant = MapSer;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_bool(self, v: bool) -> Result<Value, Error> {
        Ok(Value::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Value, Error> {
        Ok(Value::Int(v as i64))
    }
    fn serialize_i16(self, v: i16) -> Result<Value, Error> {
        Ok(Value::Int(v as i64))
    }
    fn serialize_i32(self, v: i32) -> Result<Value, Error> {
        Ok(Value::Int(v as i64))
    }
    fn serialize_i64(self, v: i64) -> Result<Value, Error> {
        Ok(Value::Int(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Value, Error> {
        Ok(Value::UInt(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<Value, Error> {
        Ok(Value::UInt(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<Value, Error> {
        Ok(Value::UInt(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<Value, Error> {
        Ok(Value::UInt(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Value, Error> {
        Ok(Value::Float(v as f64))
    }
    fn serialize_f64(self, v: f64) -> Result<Value, Error> {
        Ok(Value::Float(v))
    }
    fn serialize_char(self, v: char) -> Result<Value, Error> {
        Ok(Value::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Value, Error> {
        Ok(Value::Str(String::from(v)))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Value, Error> {
        Ok(Value::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Value, Error> {
        Ok(Value::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Value, Error> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Value, Error> {
        Ok(Value::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value, Error> {
        Ok(Value::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<Value, Error> {
        Ok(s(n))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Value, Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        _: u32,
        n: &'static str,
        v: &T,
    ) -> Result<Value, Error> {
        Ok(wrap(Some(n), v.serialize(self)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqSer, Error> {
        Ok(SeqSer { s: self, v: Vec::new(), variant: None })
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqSer, Error> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqSer, Error> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<SeqSer, Error> {
        Ok(SeqSer { s: self, v: Vec::new(), variant: Some(n) })
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapSer, Error> {
        Ok(MapSer { s: self, v: Vec::with_capacity(24), k: None, variant: None })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapSer, Error> {
        self.serialize_map(None)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<MapSer, Error> {
        Ok(MapSer { s: self, v: Vec::with_capacity(24), k: None, variant: Some(n) })
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, v: &T) -> Result<Value, Error> {
        Ok(Value::Str(v.to_string()))
    }
}
macro_rules! seqser {
    ($($tr:ident, $f:ident;)*) => { $(
        impl ser::$tr for SeqSer {
            type Ok = Value;
            type Error = Error;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
                let v = v.serialize(self.s)?;
                self.v.push(v);
                Ok(())
            }
            fn end(self) -> Result<Value, Error> {
                Ok(wrap(self.variant, Value::Seq(self.v)))
            }
        }
    )* };
}
seqser! {
    SerializeSeq, serialize_element;
    SerializeTuple, serialize_element;
    SerializeTupleStruct, serialize_field;
    SerializeTupleVariant, serialize_field;
}
impl ser::SerializeMap for MapSer {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.k = Some(k.serialize(self.s)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.k.take().unwrap();
        let v = v.serialize(self.s)?;
        self.v.push(Box::new((k, v)));
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        Ok(wrap(self.variant, Value::Map(self.v)))
    }
}
macro_rules! structser {
    ($($tr:ident;)*) => { $(
        impl ser::$tr for MapSer {
            type Ok = Value;
            type Error = Error;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
                let v = v.serialize(self.s)?;
                self.v.push(Box::new((s(k), v)));
                Ok(())
            }
            fn end(self) -> Result<Value, Error> {
                Ok(wrap(self.variant, Value::Map(self.v)))
            }
        }
    )* };
}
structser! { SerializeStruct; SerializeStructVariant; }

// ---------------------------------------------------------------------------
// Deserializing

pub struct De {
    pub v: Value,
    pub human: bool,
}
pub fn from_value<T: de::DeserializeOwned>(v: Value, human: bool) -> Result<T, Error> {
    T::deserialize(De { v, human })
}

macro_rules! fwd_any {
    ($($f:ident)*) => { $( fn $f<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> { self.deserialize_any(vis) } )* };
}
impl<'de> Deserializer<'de> for De {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
        match self.v {
            Value::Null => vis.visit_unit(),
            Value::Bool(b) => vis.visit_bool(b),
            Value::Int(i) => {
                if i >= 0 {
                    vis.visit_u64(i as u64)
                } else {
                    vis.visit_i64(i)
                }
            }
            Value::UInt(i) => vis.visit_u64(i),
            Value::Float(f) => vis.visit_f64(f),
            Value::Str(x) => vis.visit_string(x),
            Value::Bytes(b) => vis.visit_byte_buf(b),
            Value::Seq(v) => {
                let mut a = SeqDe { i: v.into_iter(), human: self.human };
                let r = vis.visit_seq(&mut a)?;
                // Trailing elements are an error, as in the real codecs.
                if a.i.next().is_some() {
                    return Err(Error);
                }
                Ok(r)
            }
            Value::Map(v) => {
                let mut a = MapDe { i: v.into_iter(), v: None, human: self.human };
                let r = vis.visit_map(&mut a)?;
                if a.i.next().is_some() {
                    return Err(Error);
                }
                Ok(r)
            }
        }
    }
    fwd_any! {
        deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64
        deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
        deserialize_unit deserialize_seq deserialize_map deserialize_identifier
    }
    fn deserialize_option<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
        match self.v {
            Value::Null => vis.visit_none(),
            _ => vis.visit_some(self),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, Error> {
        self.deserialize_any(vis)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, Error> {
        vis.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, vis: V) -> Result<V::Value, Error> {
        self.deserialize_any(vis)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: usize,
        vis: V,
    ) -> Result<V::Value, Error> {
        self.deserialize_any(vis)
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        vis: V,
    ) -> Result<V::Value, Error> {
        self.deserialize_any(vis)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        vis: V,
    ) -> Result<V::Value, Error> {
        match self.v {
            Value::Str(n) => vis.visit_enum(EnumDe { n, v: None, human: self.human }),
            Value::Map(mut m) => {
                if m.len() != 1 {
                    return Err(Error);
                }
                let (n, v) = *m.pop().unwrap();
                match n {
                    Value::Str(n) => vis.visit_enum(EnumDe { n, v: Some(v), human: self.human }),
                    _ => Err(Error),
                }
            }
            _ => Err(Error),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
        vis.visit_unit()
    }
}
pub struct SeqDe {
    i: std::vec::IntoIter<Value>,
    human: bool,
}
impl<'de> SeqAccess<'de> for SeqDe {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        match self.i.next() {
            Some(v) => Ok(Some(seed.deserialize(De { v, human: self.human })?)),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.i.len())
    }
}
pub struct MapDe {
    i: std::vec::IntoIter<Box<(Value, Value)>>,
    v: Option<Value>,
    human: bool,
}
impl<'de> MapAccess<'de> for MapDe {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        match self.i.next() {
            Some(p) => {
                let (k, v) = *p;
                self.v = Some(v);
                Ok(Some(seed.deserialize(De { v: k, human: self.human })?))
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
        seed.deserialize(De { v: self.v.take().unwrap(), human: self.human })
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.i.len())
    }
}
struct EnumDe {
    n: String,
    v: Option<Value>,
    human: bool,
}
impl<'de> de::EnumAccess<'de> for EnumDe {
    type Error = Error;
    type Variant = VarDe;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, VarDe), Error> {
        let n = seed.deserialize(De { v: Value::Str(self.n), human: self.human })?;
        Ok((n, VarDe { v: self.v, human: self.human }))
    }
}
struct VarDe {
    v: Option<Value>,
    human: bool,
}
impl<'de> de::VariantAccess<'de> for VarDe {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        match self.v {
            None | Some(Value::Null) => Ok(()),
            _ => Err(Error),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Error> {
        match self.v {
            Some(v) => seed.deserialize(De { v, human: self.human }),
            None => Err(Error),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, vis: V) -> Result<V::Value, Error> {
        match self.v {
            Some(v @ Value::Seq(_)) => De { v, human: self.human }.deserialize_any(vis),
            _ => Err(Error),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], vis: V) -> Result<V::Value, Error> {
        match self.v {
            Some(v @ Value::Map(_)) | Some(v @ Value::Seq(_)) => De { v, human: self.human }.deserialize_any(vis),
            _ => Err(Error),
        }
    }
}
