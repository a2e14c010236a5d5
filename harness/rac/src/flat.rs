//! A serialization format without any framing: only single bytes in tuples, as bincode writes them.
use serde::{de, ser};
use std::fmt;

pub const LEN: usize = 64;
pub static mut BYTES: [u8; LEN] = [0; LEN];

#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Error
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Error
    }
}

/// writes to `BYTES`; the length is in the field
pub struct Writer {
    pub pos: usize,
}
struct Byte;
macro_rules! no {
    ($($f:ident $t:ty),*) => { $( fn $f(self, _: $t) -> Result<Self::Ok, Error> { Err(Error) } )* };
}
macro_rules! refuse {
    () => {
        no!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
            serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64,
            serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
        fn serialize_none(self) -> Result<Self::Ok, Error> { Err(Error) }
        fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<Self::Ok, Error> { Err(Error) }
        fn serialize_unit(self) -> Result<Self::Ok, Error> { Err(Error) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Self::Ok, Error> { Err(Error) }
        fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, Error> { Err(Error) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> { Err(Error) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> { Err(Error) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> { Err(Error) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> { Err(Error) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> { Err(Error) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> { Err(Error) }
    };
}
type Never<T> = ser::Impossible<T, Error>;
impl ser::Serializer for Byte {
    type Ok = u8;
    type Error = Error;
    type SerializeSeq = Never<u8>;
    type SerializeTuple = Never<u8>;
    type SerializeTupleStruct = Never<u8>;
    type SerializeTupleVariant = Never<u8>;
    type SerializeMap = Never<u8>;
    type SerializeStruct = Never<u8>;
    type SerializeStructVariant = Never<u8>;
    fn serialize_u8(self, v: u8) -> Result<u8, Error> {
        Ok(v)
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, v: &T) -> Result<u8, Error> {
        v.serialize(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> {
        Err(Error)
    }
    refuse!();
}
impl ser::Serializer for &mut Writer {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Never<()>;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Never<()>;
    type SerializeTupleVariant = Never<()>;
    type SerializeMap = Never<()>;
    type SerializeStruct = Never<()>;
    type SerializeStructVariant = Never<()>;
    fn serialize_u8(self, v: u8) -> Result<(), Error> {
        if self.pos >= LEN {
            return Err(Error);
        }
        unsafe { BYTES[self.pos] = v }
        self.pos += 1;
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, Error> {
        Ok(self)
    }
    refuse!();
}
impl ser::SerializeTuple for &mut Writer {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Error> {
        let b = v.serialize(Byte)?;
        ser::Serializer::serialize_u8(&mut **self, b)
    }
    fn end(self) -> Result<(), Error> {
        Ok(())
    }
}

/// reads from `BYTES`
pub struct Reader {
    pub pos: usize,
}
macro_rules! unread {
    ($($f:ident),*) => { $( fn $f<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Error> { Err(Error) } )* };
}
impl<'de> de::Deserializer<'de> for &mut Reader {
    type Error = Error;
    fn deserialize_u8<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.pos >= LEN {
            return Err(Error);
        }
        self.pos += 1;
        v.visit_u8(unsafe { BYTES[self.pos - 1] })
    }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Seq { left: n, r: self })
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    unread!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
            deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64, deserialize_char,
            deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf, deserialize_option,
            deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier, deserialize_ignored_any);
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Error> {
        Err(Error)
    }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Error> {
        Err(Error)
    }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Error> {
        Err(Error)
    }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Error> {
        Err(Error)
    }
}
struct Seq<'a> {
    left: usize,
    r: &'a mut Reader,
}
impl<'de, 'a> de::SeqAccess<'de> for Seq<'a> {
    type Error = Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(&mut *self.r).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}
