//! A small serde format, which keeps the data as a tree: self-describing, with structures as maps or as sequences.
use std::fmt;

use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Unit, Bool(bool), U(u64), I(i64), F(f64), Str(String), Bytes(Vec<u8>), None, Some(Box<Val>),
    Seq(Vec<Val>), Map(Vec<(Val, Val)>), Struct(String, Vec<(String, Val)>), Variant(u32, String, Box<Val>),
}
#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: fmt::Display>(m: T) -> Self { E(m.to_string()) } }
impl de::Error for E { fn custom<T: fmt::Display>(m: T) -> Self { E(m.to_string()) } }

#[derive(Copy, Clone)]
pub struct Ser { pub human: bool }
pub struct Seq { s: Ser, v: Vec<Val>, var: Option<(u32, &'static str)> }
pub struct Map { s: Ser, v: Vec<(Val, Val)>, k: Option<Val> }
pub struct Str { s: Ser, n: &'static str, v: Vec<(String, Val)>, var: Option<(u32, &'static str)>, len: usize }

macro_rules! prim { ($($m:ident $t:ty => $v:ident as $c:ty),*) => { $(fn $m(self, v: $t) -> Result<Val, E> { Ok(Val::$v(v as $c)) })* } }
impl ser::Serializer for Ser {
    type Ok = Val; type Error = E;
    type SerializeSeq = Seq; type SerializeTuple = Seq; type SerializeTupleStruct = Seq; type SerializeTupleVariant = Seq;
    type SerializeMap = Map; type SerializeStruct = Str; type SerializeStructVariant = Str;
    prim!(serialize_bool bool => Bool as bool, serialize_i8 i8 => I as i64, serialize_i16 i16 => I as i64, serialize_i32 i32 => I as i64, serialize_i64 i64 => I as i64,
        serialize_u8 u8 => U as u64, serialize_u16 u16 => U as u64, serialize_u32 u32 => U as u64, serialize_u64 u64 => U as u64, serialize_f32 f32 => F as f64, serialize_f64 f64 => F as f64);
    fn serialize_char(self, v: char) -> Result<Val, E> { Ok(Val::Str(v.to_string())) }
    fn serialize_str(self, v: &str) -> Result<Val, E> { Ok(Val::Str(v.to_string())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Val, E> { Ok(Val::Bytes(v.to_vec())) }
    fn serialize_none(self) -> Result<Val, E> { Ok(Val::None) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Val, E> { Ok(Val::Some(Box::new(v.serialize(self)?))) }
    fn serialize_unit(self) -> Result<Val, E> { Ok(Val::Unit) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, E> { Ok(Val::Unit) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, v: &'static str) -> Result<Val, E> { Ok(Val::Variant(i, v.into(), Box::new(Val::Unit))) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Val, E> { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> Result<Val, E> { Ok(Val::Variant(i, n.into(), Box::new(v.serialize(self)?))) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, E> { Ok(Seq { s: self, v: vec![], var: None }) }
    fn serialize_tuple(self, _: usize) -> Result<Seq, E> { Ok(Seq { s: self, v: vec![], var: None }) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, E> { Ok(Seq { s: self, v: vec![], var: None }) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Seq, E> { Ok(Seq { s: self, v: vec![], var: Some((i, n)) }) }
    fn serialize_map(self, _: Option<usize>) -> Result<Map, E> { Ok(Map { s: self, v: vec![], k: None }) }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<Str, E> { Ok(Str { s: self, n, v: vec![], var: None, len }) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, len: usize) -> Result<Str, E> { Ok(Str { s: self, n, v: vec![], var: Some((i, n)), len }) }
    fn is_human_readable(&self) -> bool { self.human }
}
impl Seq { fn fin(self) -> Result<Val, E> { let v = Val::Seq(self.v); Ok(match self.var { Some((i, n)) => Val::Variant(i, n.into(), Box::new(v)), None => v }) } }
macro_rules! seq { ($($t:ident $m:ident),*) => { $(impl ser::$t for Seq { type Ok = Val; type Error = E;
    fn $m<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.v.push(v.serialize(self.s)?); Ok(()) }
    fn end(self) -> Result<Val, E> { self.fin() } })* } }
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for Map { type Ok = Val; type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.k = Some(v.serialize(self.s)?); Ok(()) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { let k = self.k.take().unwrap(); self.v.push((k, v.serialize(self.s)?)); Ok(()) }
    fn end(self) -> Result<Val, E> { Ok(Val::Map(self.v)) } }
impl Str { fn fin(self) -> Result<Val, E> {
    if self.len != self.v.len() { return Err(E(format!("{} parts declared, {} written", self.len, self.v.len()))) }
    let v = Val::Struct(self.n.into(), self.v); Ok(match self.var { Some((i, n)) => Val::Variant(i, n.into(), Box::new(v)), None => v }) } }
macro_rules! st { ($($t:ident),*) => { $(impl ser::$t for Str { type Ok = Val; type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> { self.v.push((k.into(), v.serialize(self.s)?)); Ok(()) }
    fn end(self) -> Result<Val, E> { self.fin() } })* } }
st!(SerializeStruct, SerializeStructVariant);

/// how structures are given to the reader
#[derive(Copy, Clone, PartialEq, Debug)]
pub enum How { Named, Bytes, Index, Sequence }
#[derive(Clone)]
pub struct De { pub v: Val, pub human: bool, pub how: How }
impl De { fn sub(&self, v: Val) -> De { De { v, human: self.human, how: self.how } } }

struct SeqA { d: De, it: std::vec::IntoIter<Val> }
impl<'de> SeqAccess<'de> for SeqA { type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.it.next() { Some(v) => s.deserialize(self.d.sub(v)).map(Some), None => Ok(None) } }
    fn size_hint(&self) -> Option<usize> { Some(self.it.len()) } }
struct MapA { d: De, it: std::vec::IntoIter<(Val, Val)>, v: Option<Val> }
impl<'de> MapAccess<'de> for MapA { type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.it.next() { Some((k, v)) => { self.v = Some(v); s.deserialize(self.d.sub(k)).map(Some) } None => Ok(None) } }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> { s.deserialize(self.d.sub(self.v.take().unwrap())) } }
struct EnumA { d: De, i: u32, n: String, v: Val }
impl<'de> EnumAccess<'de> for EnumA { type Error = E; type Variant = De;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, De), E> {
        let d = self.d.sub(self.v);
        let k = if self.d.human { s.deserialize::<de::value::StringDeserializer<E>>(self.n.into_deserializer())? } else { s.deserialize::<de::value::U32Deserializer<E>>(self.i.into_deserializer())? };
        Ok((k, d)) } }
impl<'de> VariantAccess<'de> for De { type Error = E;
    fn unit_variant(self) -> Result<(), E> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> { s.deserialize(self) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> { de::Deserializer::deserialize_any(self, v) }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, E> { de::Deserializer::deserialize_any(self, v) } }

impl<'de> de::Deserializer<'de> for De {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
        match self.v.clone() {
            Val::Unit => vis.visit_unit(), Val::Bool(b) => vis.visit_bool(b), Val::U(x) => vis.visit_u64(x), Val::I(x) => vis.visit_i64(x), Val::F(x) => vis.visit_f64(x),
            Val::Str(s) => vis.visit_string(s), Val::Bytes(b) => vis.visit_byte_buf(b), Val::None => vis.visit_none(), Val::Some(x) => vis.visit_some(self.sub(*x)),
            Val::Seq(s) => vis.visit_seq(SeqA { it: s.into_iter(), d: self }), Val::Map(m) => vis.visit_map(MapA { it: m.into_iter(), v: None, d: self }),
            Val::Struct(_, f) => match self.how {
                How::Sequence => vis.visit_seq(SeqA { it: f.into_iter().map(|x| x.1).collect::<Vec<_>>().into_iter(), d: self }),
                how => vis.visit_map(MapA { it: f.into_iter().enumerate().map(|(i, (k, v))| (match how { How::Bytes => Val::Bytes(k.into_bytes()), How::Index => Val::U(i as u64), _ => Val::Str(k) }, v)).collect::<Vec<_>>().into_iter(), v: None, d: self }),
            },
            Val::Variant(i, n, v) => vis.visit_enum(EnumA { d: self, i, n, v: *v }),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, E> {
        match self.v.clone() { Val::None | Val::Unit => vis.visit_none(), Val::Some(x) => vis.visit_some(self.sub(*x)), _ => vis.visit_some(self) } }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    fn is_human_readable(&self) -> bool { self.human }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
