//! A serializer of a format that is not human readable: keeps a string, names anything else.
use crate::ops::{bytes, tag, Outcome};
use serde::ser::{self, Impossible, Serialize};

#[derive(Debug)]
pub struct Other(&'static str);
impl std::fmt::Display for Other {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Other {}
impl ser::Error for Other {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Other("error")
    }
}

struct Plain;
macro_rules! not {
    ($($f:ident($($t:ty),*) $n:expr;)*) => { $(fn $f(self, $(_: $t),*) -> Result<String, Other> { Err(Other($n)) })* };
}
impl ser::Serializer for Plain {
    type Ok = String;
    type Error = Other;
    type SerializeSeq = Impossible<String, Other>;
    type SerializeTuple = Impossible<String, Other>;
    type SerializeTupleStruct = Impossible<String, Other>;
    type SerializeTupleVariant = Impossible<String, Other>;
    type SerializeMap = Impossible<String, Other>;
    type SerializeStruct = Impossible<String, Other>;
    type SerializeStructVariant = Impossible<String, Other>;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_str(self, v: &str) -> Result<String, Other> {
        Ok(v.to_string())
    }
    fn collect_str<T: std::fmt::Display + ?Sized>(self, v: &T) -> Result<String, Other> {
        Ok(v.to_string())
    }
    not! {
        serialize_bool(bool) "bool"; serialize_i8(i8) "number"; serialize_i16(i16) "number"; serialize_i32(i32) "number";
        serialize_i64(i64) "number"; serialize_u8(u8) "number"; serialize_u16(u16) "number"; serialize_u32(u32) "number";
        serialize_u64(u64) "number"; serialize_f32(f32) "number"; serialize_f64(f64) "number"; serialize_char(char) "char";
        serialize_bytes(&[u8]) "raw"; serialize_none() "none"; serialize_unit() "unit"; serialize_unit_struct(&'static str) "unit";
        serialize_unit_variant(&'static str, u32, &'static str) "unit";
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<String, Other> {
        Err(Other("option"))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<String, Other> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, Other> {
        Err(Other("variant"))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Other> {
        Err(Other("sequence"))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Other> {
        Err(Other("sequence"))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Other> {
        Err(Other("sequence"))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Other> {
        Err(Other("variant"))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Other> {
        Err(Other("map"))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Other> {
        Err(Other("map"))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Other> {
        Err(Other("variant"))
    }
}

pub fn written<T: Serialize>(x: &T) -> Outcome {
    match x.serialize(Plain) {
        Ok(s) => bytes(s.as_bytes()),
        Err(e) => tag(e.0),
    }
}
