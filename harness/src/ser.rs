//! C26: serialized values read back equal. The format is a tape of tokens, in two styles:
//! - style 0, like a binary format: no names, structures as sequences, integers of the size written, not human readable;
//! - style 1, like a text format: structures as maps of names (read back in the order written), newtypes transparent,
//!   a non-negative integer read back as unsigned, human readable;
//! - style 2: as style 1, the entries of a map read back in reverse order.
use crate::{h::*, v::*};
use chronologic::*;
use serde::{de, ser, Deserialize, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct Er;
impl fmt::Display for Er { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl std::error::Error for Er {}
impl ser::Error for Er { fn custom<T: fmt::Display>(_: T) -> Self { Er } }
impl de::Error for Er {
    fn custom<T: fmt::Display>(_: T) -> Self { Er }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Er }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Er }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Er }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { Er }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { Er }
    fn missing_field(_: &'static str) -> Self { Er }
    fn duplicate_field(_: &'static str) -> Self { Er }
}

#[derive(Clone)]
pub enum Tok { Unit, Bool(bool), Int(i64), Wide(i128), Float(f64), Chr(char), Str(String), Bytes(Vec<u8>), None, Some(Box<Tok>), Seq(Vec<Tok>), Map(Vec<(Tok, Tok)>), Var(u32, &'static str, Box<Tok>) }

// ------------------------------------------------------------------ writer
#[derive(Clone, Copy)]
pub struct W { style: i64 }
pub struct List { w: W, v: Vec<Tok> }
pub struct Dict { w: W, v: Vec<(Tok, Tok)>, key: Option<Tok> }
pub struct Rec { w: W, v: Vec<(Tok, Tok)>, var: Option<(u32, &'static str)> }
impl Rec { fn done(self) -> Tok {
    let t = if self.w.style == 0 { let mut s = Vec::new(); for (_, x) in self.v { s.push(x) } Tok::Seq(s) } else { Tok::Map(self.v) };
    match self.var { Some((i, n)) => Tok::Var(i, n, Box::new(t)), None => t } } }
type R = Result<Tok, Er>;
impl ser::Serializer for W {
    type Ok = Tok; type Error = Er;
    type SerializeSeq = List; type SerializeTuple = List; type SerializeTupleStruct = List; type SerializeTupleVariant = Rec;
    type SerializeMap = Dict; type SerializeStruct = Rec; type SerializeStructVariant = Rec;
    fn serialize_bool(self, v: bool) -> R { Ok(Tok::Bool(v)) }
    fn serialize_i8(self, v: i8) -> R { Ok(Tok::Int(v as i64)) }
    fn serialize_i16(self, v: i16) -> R { Ok(Tok::Int(v as i64)) }
    fn serialize_i32(self, v: i32) -> R { Ok(Tok::Int(v as i64)) }
    fn serialize_i64(self, v: i64) -> R { Ok(Tok::Int(v)) }
    fn serialize_i128(self, v: i128) -> R { Ok(Tok::Wide(v)) }
    fn serialize_u8(self, v: u8) -> R { Ok(Tok::Int(v as i64)) }
    fn serialize_u16(self, v: u16) -> R { Ok(Tok::Int(v as i64)) }
    fn serialize_u32(self, v: u32) -> R { Ok(Tok::Int(v as i64)) }
    fn serialize_u64(self, v: u64) -> R { Ok(Tok::Wide(v as i128)) }
    fn serialize_u128(self, v: u128) -> R { Ok(Tok::Wide(v as i128)) }
    fn serialize_f32(self, v: f32) -> R { Ok(Tok::Float(v as f64)) }
    fn serialize_f64(self, v: f64) -> R { Ok(Tok::Float(v)) }
    fn serialize_char(self, v: char) -> R { Ok(Tok::Chr(v)) }
    fn serialize_str(self, v: &str) -> R { Ok(Tok::Str(String::from(v))) }
    fn serialize_bytes(self, v: &[u8]) -> R { Ok(Tok::Bytes(v.to_vec())) }
    fn serialize_none(self) -> R { Ok(Tok::None) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R { Ok(Tok::Some(Box::new(v.serialize(self)?))) }
    fn serialize_unit(self) -> R { Ok(Tok::Unit) }
    fn serialize_unit_struct(self, _: &'static str) -> R { Ok(Tok::Unit) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> R { Ok(Tok::Var(i, n, Box::new(Tok::Unit))) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> R { Ok(Tok::Var(i, n, Box::new(v.serialize(self)?))) }
    fn serialize_seq(self, _: Option<usize>) -> Result<List, Er> { Ok(List { w: self, v: Vec::new() }) }
    fn serialize_tuple(self, _: usize) -> Result<List, Er> { Ok(List { w: self, v: Vec::new() }) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<List, Er> { Ok(List { w: self, v: Vec::new() }) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Rec, Er> { Ok(Rec { w: W { style: 0 }, v: Vec::new(), var: Some((i, n)) }) }
    fn serialize_map(self, _: Option<usize>) -> Result<Dict, Er> { Ok(Dict { w: self, v: Vec::new(), key: None }) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Rec, Er> { Ok(Rec { w: self, v: Vec::new(), var: None }) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Rec, Er> { Ok(Rec { w: self, v: Vec::new(), var: Some((i, n)) }) }
    fn is_human_readable(&self) -> bool { self.style != 0 }
}
impl ser::SerializeSeq for List { type Ok = Tok; type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { let t = v.serialize(self.w)?; self.v.push(t); Ok(()) }
    fn end(self) -> R { Ok(Tok::Seq(self.v)) } }
impl ser::SerializeTuple for List { type Ok = Tok; type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { let t = v.serialize(self.w)?; self.v.push(t); Ok(()) }
    fn end(self) -> R { Ok(Tok::Seq(self.v)) } }
impl ser::SerializeTupleStruct for List { type Ok = Tok; type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { let t = v.serialize(self.w)?; self.v.push(t); Ok(()) }
    fn end(self) -> R { Ok(Tok::Seq(self.v)) } }
impl ser::SerializeTupleVariant for Rec { type Ok = Tok; type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { let t = v.serialize(self.w)?; self.v.push((Tok::Unit, t)); Ok(()) }
    fn end(self) -> R { Ok(self.done()) } }
impl ser::SerializeMap for Dict { type Ok = Tok; type Error = Er;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Er> { let t = k.serialize(self.w)?; self.key = Some(t); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { let t = v.serialize(self.w)?; match self.key.take() { Some(k) => { self.v.push((k, t)); Ok(()) } None => Err(Er) } }
    fn end(self) -> R { Ok(Tok::Map(self.v)) } }
impl ser::SerializeStruct for Rec { type Ok = Tok; type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Er> { let t = v.serialize(self.w)?; self.v.push((Tok::Str(String::from(k)), t)); Ok(()) }
    fn end(self) -> R { Ok(self.done()) } }
impl ser::SerializeStructVariant for Rec { type Ok = Tok; type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Er> { let t = v.serialize(self.w)?; self.v.push((Tok::Str(String::from(k)), t)); Ok(()) }
    fn end(self) -> R { Ok(self.done()) } }

// ------------------------------------------------------------------ reader
pub struct Rd { style: i64, t: Tok }
struct Items { style: i64, it: std::vec::IntoIter<Tok> }
struct Entries { style: i64, it: std::vec::IntoIter<(Tok, Tok)>, val: Option<Tok> }
struct Variant { style: i64, i: u32, n: &'static str, t: Tok }
impl<'de> de::SeqAccess<'de> for Items { type Error = Er;
    fn next_element_seed<S: de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Er> { match self.it.next() { Some(t) => Ok(Some(s.deserialize(Rd { style: self.style, t })?)), None => Ok(None) } }
    fn size_hint(&self) -> Option<usize> { if self.style == 0 { Some(self.it.len()) } else { None } } }
impl<'de> de::MapAccess<'de> for Entries { type Error = Er;
    fn next_key_seed<S: de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Er> {
        let e = if self.style == 2 { self.it.next_back() } else { self.it.next() };
        match e { Some((k, v)) => { self.val = Some(v); Ok(Some(s.deserialize(Rd { style: self.style, t: k })?)) } None => Ok(None) } }
    fn next_value_seed<S: de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Er> { match self.val.take() { Some(t) => s.deserialize(Rd { style: self.style, t }), None => Err(Er) } } }
impl<'de> de::EnumAccess<'de> for Variant { type Error = Er; type Variant = Rd;
    fn variant_seed<S: de::DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Rd), Er> {
        let k = if self.style == 0 { Tok::Int(self.i as i64) } else { Tok::Str(String::from(self.n)) };
        Ok((s.deserialize(Rd { style: self.style, t: k })?, Rd { style: self.style, t: self.t })) } }
impl<'de> de::VariantAccess<'de> for Rd { type Error = Er;
    fn unit_variant(self) -> Result<(), Er> { Ok(()) }
    fn newtype_variant_seed<S: de::DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, Er> { s.deserialize(self) }
    fn tuple_variant<V: de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Er> { de::Deserializer::deserialize_any(self, v) }
    fn struct_variant<V: de::Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Er> { de::Deserializer::deserialize_any(self, v) } }
impl<'de> de::Deserializer<'de> for Rd {
    type Error = Er;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        let style = self.style;
        match self.t {
            Tok::Unit => v.visit_unit(), Tok::Bool(b) => v.visit_bool(b), Tok::Float(f) => v.visit_f64(f), Tok::Chr(c) => v.visit_char(c), Tok::Str(s) => v.visit_string(s), Tok::Bytes(b) => v.visit_byte_buf(b),
            Tok::Int(i) => if style != 0 && i >= 0 { v.visit_u64(i as u64) } else { v.visit_i64(i) },
            Tok::Wide(i) => if i >= 0 && i <= u64::MAX as i128 { v.visit_u64(i as u64) } else if i >= i64::MIN as i128 && i < 0 { v.visit_i64(i as i64) } else { v.visit_i128(i) },
            Tok::None => v.visit_none(), Tok::Some(t) => v.visit_some(Rd { style, t: *t }),
            Tok::Seq(s) => v.visit_seq(Items { style, it: s.into_iter() }),
            Tok::Map(m) => v.visit_map(Entries { style, it: m.into_iter(), val: None }),
            Tok::Var(i, n, t) => v.visit_enum(Variant { style, i, n, t: *t }),
        }
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> { v.visit_newtype_struct(self) }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { match self.t { Tok::None => v.visit_none(), Tok::Some(t) => v.visit_some(Rd { style: self.style, t: *t }), _ => Err(Er) } }
    fn is_human_readable(&self) -> bool { self.style != 0 }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

/// writes v and reads it back
fn back<T: Serialize + for<'a> Deserialize<'a>>(style: i64, v: &T) -> T {
    let t = match v.serialize(W { style }) { Ok(t) => t, Err(_) => { check(false, "written without error"); unreachable!() } };
    match T::deserialize(Rd { style, t }) { Ok(r) => r, Err(_) => { check(false, "read back without error"); unreachable!() } }
}
trait Sp: Pt + Serialize + for<'a> Deserialize<'a> {}
impl Sp for TimeValue {} impl Sp for Timestamp {}

/// params: type, style
#[no_mangle] pub extern "C" fn c26_point() {
    fn go<T: Sp>() {
        let t = range(-MAX, MAX); let r: T = back(param(1), &T::mk(t));
        observe(r.tk()); check(r.tk() == t, "the point read back is the one written");
        check(r == T::mk(t), "the point read back is equal");
        if !fin(t) { cover("infinite"); } if t < 0 { cover("negative"); }
    }
    typed!(go)
}
/// params: type, style, pieces (0 or 1)
#[no_mangle] pub extern "C" fn c26_interval() {
    fn go<T: Sp>() {
        let p = pieces(param(2) as usize, WIDE, true);
        let i = itv01::<T>(&p); let r: TimeInterval<T> = back(param(1), &i);
        let q = readi(&r); q.obs();
        check(q.same(&p), "the interval read back has the bounds written");
        check(r == i, "the interval read back is equal");
        check(r.lower_bound().tk() == i.lower_bound().tk(), "same lower bound"); check(r.upper_bound().tk() == i.upper_bound().tk(), "same upper bound");
        cover("read back");
    }
    typed!(go)
}
/// params: type, style, number of pieces
#[no_mangle] pub extern "C" fn c26_set() {
    fn go<T: Sp>() {
        let p = pieces(param(2) as usize, WIDE, true);
        let s = set::<T>(&p); let r: TimeSet<T> = back(param(1), &s);
        let q = reads(&r); q.obs();
        check(q.same(&p), "the set read back has the pieces written");
        check(r == s, "the set read back is equal");
        cover("read back");
    }
    typed!(go)
}
