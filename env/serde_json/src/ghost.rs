//! VERIF: assumed contract of JSON: `to_string` is injective and `from_str` its
//! inverse, on the values the program converts (see /verif/env/vghost/src/md.rs).
use crate::error::{Error, ErrorCode};
use alloc::string::String;
use serde::de::{self, DeserializeSeed, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize};
use vghost::md::{doc, doc_new, Doc, Item, DOC0, I0, MAX_CREATOR};
use vghost::K;

fn err() -> Error {
    Error::syntax(ErrorCode::EofWhileParsingValue, 0, 0)
}
pub fn to_string<T: ?Sized + Serialize>(value: &T) -> Result<String, Error> {
    let mut d = DOC0;
    match value.serialize(Ser { d: &mut d }) {
        Ok(()) => {}
        Err(e) => return Err(e),
    }
    let t = doc_new(d);
    Ok(unsafe { String::from_utf8_unchecked(t.to_vec()) })
}
fn item(v: &[u8]) -> Item {
    let mut i = I0;
    if v.len() == 48 {
        let p = v.as_ptr();
        unsafe {
            i.some = true;
            i.k = K((p as *const u128).read_unaligned(), (p.add(16) as *const u128).read_unaligned());
            i.a = (p.add(32) as *const u64).read_unaligned();
            i.b = (p.add(40) as *const u64).read_unaligned();
        }
    }
    i
}
pub struct Ser<'a> {
    d: &'a mut Doc,
}
impl Ser<'_> {
    fn put(self, i: Item) -> Result<(), Error> {
        if self.d.n >= MAX_CREATOR {
            panic!("vghost: JSON list too long");
        }
        self.d.c[self.d.n] = i;
        self.d.n += 1;
        Ok(())
    }
    fn num(self, a: u64) -> Result<(), Error> {
        let mut i = I0;
        i.some = true;
        i.a = a;
        self.put(i)
    }
}
macro_rules! nums { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), Error> { self.num(v as u64) })* } }
impl<'a> ser::Serializer for Ser<'a> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Ser<'a>;
    type SerializeTuple = Impossible<(), Error>;
    type SerializeTupleStruct = Impossible<(), Error>;
    type SerializeTupleVariant = Impossible<(), Error>;
    type SerializeMap = Impossible<(), Error>;
    type SerializeStruct = Impossible<(), Error>;
    type SerializeStructVariant = Impossible<(), Error>;
    nums!(serialize_bool bool, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_i8 i8, serialize_i16 i16,
        serialize_i32 i32, serialize_i64 i64, serialize_char char);
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> {
        let i = item(v);
        self.put(i)
    }
    fn serialize_none(self) -> Result<(), Error> {
        self.put(I0)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Ser<'a>, Error> {
        self.d.list = true;
        Ok(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_f32(self, _: f32) -> Result<(), Error> {
        panic!("vghost: JSON")
    }
    fn serialize_f64(self, _: f64) -> Result<(), Error> {
        panic!("vghost: JSON")
    }
    fn serialize_str(self, _: &str) -> Result<(), Error> {
        panic!("vghost: JSON")
    }
    fn serialize_unit(self) -> Result<(), Error> {
        panic!("vghost: JSON")
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> {
        panic!("vghost: JSON")
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Error> {
        self.num(i as u64)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> {
        panic!("vghost: JSON")
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> {
        panic!("vghost: JSON")
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> {
        panic!("vghost: JSON")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> {
        panic!("vghost: JSON")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> {
        panic!("vghost: JSON")
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        panic!("vghost: JSON")
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> {
        panic!("vghost: JSON")
    }
}
impl ser::SerializeSeq for Ser<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(Ser { d: self.d })
    }
    fn end(self) -> Result<(), Error> {
        Ok(())
    }
}

pub fn from_str<'a, T: de::Deserialize<'a>>(s: &'a str) -> Result<T, Error> {
    let d = doc(s.as_bytes());
    if !d.ok {
        return Err(err());
    }
    T::deserialize(De { d, at: 0 })
}
struct De {
    d: &'static Doc,
    at: usize,
}
struct Seq {
    d: &'static Doc,
    at: usize,
}
impl<'de> SeqAccess<'de> for Seq {
    type Error = Error;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, Error> {
        if self.at >= self.d.n {
            return Ok(None);
        }
        let i = self.at;
        self.at += 1;
        match seed.deserialize(De { d: self.d, at: i }) {
            Ok(v) => Ok(Some(v)),
            Err(e) => Err(e),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.d.n)
    }
}
impl<'de> de::Deserializer<'de> for De {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
        Err(err())
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let i = &self.d.c[self.at];
        let mut b = [0u8; 48];
        let p = b.as_mut_ptr();
        unsafe {
            (p as *mut u128).write_unaligned(i.k.0);
            (p.add(16) as *mut u128).write_unaligned(i.k.1);
            (p.add(32) as *mut u64).write_unaligned(i.a);
            (p.add(40) as *mut u64).write_unaligned(i.b);
        }
        v.visit_bytes(&b)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if !self.d.list {
            return Err(err());
        }
        v.visit_seq(Seq { d: self.d, at: 0 })
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_some(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        byte_buf unit unit_struct newtype_struct tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
