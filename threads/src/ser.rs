//! Everything that is serialized, as one number.
use crate::rng::mix;
use serde::ser::*;
use std::fmt;

pub struct Num(pub u64);

#[derive(Debug)]
pub struct No;
impl fmt::Display for No {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("no")
    }
}
impl std::error::Error for No {}
impl Error for No {
    fn custom<T: fmt::Display>(_: T) -> No {
        No
    }
}

impl Num {
    fn add(&mut self, x: u64) -> Result<(), No> {
        self.0 = mix(self.0, x);
        Ok(())
    }
}

macro_rules! plain {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), No> { self.add(v as u64) })* };
}

impl<'a> Serializer for &'a mut Num {
    type Ok = ();
    type Error = No;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    plain!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char);
    fn serialize_str(self, v: &str) -> Result<(), No> {
        self.add(crate::rng::hash_bytes(v.as_bytes()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), No> {
        self.add(crate::rng::hash_bytes(v))
    }
    fn serialize_none(self) -> Result<(), No> {
        self.add(3)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), No> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), No> {
        self.add(4)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), No> {
        self.add(5)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), No> {
        self.add(i as u64)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), No> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), No> {
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, No> {
        self.add(6)?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, No> {
        self.add(7)?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, No> {
        self.add(8)?;
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, No> {
        self.add(9)?;
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, No> {
        self.add(10)?;
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, No> {
        self.add(11)?;
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, No> {
        self.add(12)?;
        Ok(self)
    }
}
macro_rules! compound {
    ($($t:ident $f:ident),*) => { $(impl<'a> $t for &'a mut Num {
        type Ok = ();
        type Error = No;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> { v.serialize(&mut **self) }
        fn end(self) -> Result<(), No> { self.add(13) }
    })* };
}
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($t:ident),*) => { $(impl<'a> $t for &'a mut Num {
        type Ok = ();
        type Error = No;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), No> { v.serialize(&mut **self) }
        fn end(self) -> Result<(), No> { self.add(14) }
    })* };
}
fields!(SerializeStruct, SerializeStructVariant);
impl<'a> SerializeMap for &'a mut Num {
    type Ok = ();
    type Error = No;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), No> {
        self.add(15)
    }
}
