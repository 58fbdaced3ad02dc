//! Stands for bincode: a binary serde format that does not describe itself.
use std::fmt;
#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
        write!(formatter, "{}", self.0)
    }
}
impl std::error::Error for Error {}
impl serde_::ser::Error for Error {
    fn custom<T: fmt::Display>(message: T) -> Self {
        Self(message.to_string())
    }
}
impl serde_::de::Error for Error {
    fn custom<T: fmt::Display>(message: T) -> Self {
        Self(message.to_string())
    }
}
pub mod error {
    pub type EncodeError = crate::Error;
    pub type DecodeError = crate::Error;
}
pub mod config {
    #[derive(Clone, Copy)]
    pub struct Configuration;
    pub fn standard() -> Configuration {
        Configuration
    }
}
pub mod serde {
    use super::{config::Configuration, de::Reader, ser::Writer, Error};
    pub fn encode_to_vec<T: serde_::Serialize>(value: T, _: Configuration) -> Result<Vec<u8>, Error> {
        let mut writer = Writer(vec![]);
        value.serialize(&mut writer)?;
        Ok(writer.0)
    }
    pub fn decode_from_slice<T: serde_::de::DeserializeOwned>(
        slice: &[u8],
        _: Configuration,
    ) -> Result<(T, usize), Error> {
        let mut reader = Reader(slice);
        let value = T::deserialize(&mut reader)?;
        Ok((value, slice.len() - reader.0.len()))
    }
}
mod ser {
    use super::Error;
    use serde_::ser::*;
    pub struct Writer(pub Vec<u8>);
    impl Writer {
        fn put(&mut self, number: u64) -> Result<(), Error> {
            self.0.extend(number.to_le_bytes());
            Ok(())
        }
    }
    macro_rules! number {
        ($($name:ident $type:ty),*) => { $(fn $name(self, v: $type) -> Result<(), Error> { self.put(v as u64) })* };
    }
    impl<'a> Serializer for &'a mut Writer {
        type Ok = ();
        type Error = Error;
        type SerializeSeq = Self;
        type SerializeTuple = Self;
        type SerializeTupleStruct = Self;
        type SerializeTupleVariant = Self;
        type SerializeMap = Self;
        type SerializeStruct = Self;
        type SerializeStructVariant = Self;
        number!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8,
            serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_bool bool, serialize_char char);
        fn serialize_f32(self, v: f32) -> Result<(), Error> {
            self.put((v as f64).to_bits())
        }
        fn serialize_f64(self, v: f64) -> Result<(), Error> {
            self.put(v.to_bits())
        }
        fn serialize_str(self, v: &str) -> Result<(), Error> {
            self.serialize_bytes(v.as_bytes())
        }
        fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> {
            self.put(v.len() as u64)?;
            self.0.extend(v);
            Ok(())
        }
        fn serialize_none(self) -> Result<(), Error> {
            self.put(0)
        }
        fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<(), Error> {
            self.put(1)?;
            value.serialize(self)
        }
        fn serialize_unit(self) -> Result<(), Error> {
            Ok(())
        }
        fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> {
            Ok(())
        }
        fn serialize_unit_variant(self, _: &'static str, index: u32, _: &'static str) -> Result<(), Error> {
            self.put(index as u64)
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, value: &T) -> Result<(), Error> {
            value.serialize(self)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            index: u32,
            _: &'static str,
            value: &T,
        ) -> Result<(), Error> {
            self.put(index as u64)?;
            value.serialize(self)
        }
        fn serialize_seq(self, length: Option<usize>) -> Result<Self, Error> {
            self.put(length.ok_or_else(|| Error("length needed".into()))? as u64)?;
            Ok(self)
        }
        fn serialize_tuple(self, _: usize) -> Result<Self, Error> {
            Ok(self)
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Error> {
            Ok(self)
        }
        fn serialize_tuple_variant(
            self,
            _: &'static str,
            index: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self, Error> {
            self.put(index as u64)?;
            Ok(self)
        }
        fn serialize_map(self, length: Option<usize>) -> Result<Self, Error> {
            self.serialize_seq(length)
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Error> {
            Ok(self)
        }
        fn serialize_struct_variant(
            self,
            _: &'static str,
            index: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self, Error> {
            self.put(index as u64)?;
            Ok(self)
        }
    }
    macro_rules! compound {
        ($($trait:ident $method:ident),*) => { $(impl<'a> $trait for &'a mut Writer {
            type Ok = ();
            type Error = Error;
            fn $method<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Error> { value.serialize(&mut **self) }
            fn end(self) -> Result<(), Error> { Ok(()) }
        })* };
    }
    compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field,
        SerializeTupleVariant serialize_field);
    macro_rules! fields {
        ($($trait:ident),*) => { $(impl<'a> $trait for &'a mut Writer {
            type Ok = ();
            type Error = Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, value: &T) -> Result<(), Error> { value.serialize(&mut **self) }
            fn end(self) -> Result<(), Error> { Ok(()) }
        })* };
    }
    fields!(SerializeStruct, SerializeStructVariant);
    impl<'a> SerializeMap for &'a mut Writer {
        type Ok = ();
        type Error = Error;
        fn serialize_key<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Error> {
            value.serialize(&mut **self)
        }
        fn serialize_value<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Error> {
            value.serialize(&mut **self)
        }
        fn end(self) -> Result<(), Error> {
            Ok(())
        }
    }
}
mod de {
    use super::Error;
    use serde_::de::{value::U32Deserializer, *};
    pub struct Reader<'d>(pub &'d [u8]);
    impl<'d> Reader<'d> {
        fn take(&mut self, length: usize) -> Result<&'d [u8], Error> {
            if self.0.len() < length {
                return Err(Error("unexpected end".into()));
            }
            let (head, tail) = self.0.split_at(length);
            self.0 = tail;
            Ok(head)
        }
        fn get(&mut self) -> Result<u64, Error> {
            Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
        }
        fn text(&mut self) -> Result<&'d str, Error> {
            let length = self.get()? as usize;
            std::str::from_utf8(self.take(length)?).map_err(|error| Error(error.to_string()))
        }
    }
    struct Elements<'a, 'd>(&'a mut Reader<'d>, usize);
    impl<'a, 'd> SeqAccess<'d> for Elements<'a, 'd> {
        type Error = Error;
        fn next_element_seed<T: DeserializeSeed<'d>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
            if self.1 == 0 {
                return Ok(None);
            }
            self.1 -= 1;
            seed.deserialize(&mut *self.0).map(Some)
        }
        fn size_hint(&self) -> Option<usize> {
            Some(self.1)
        }
    }
    impl<'a, 'd> MapAccess<'d> for Elements<'a, 'd> {
        type Error = Error;
        fn next_key_seed<T: DeserializeSeed<'d>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
            self.next_element_seed(seed)
        }
        fn next_value_seed<T: DeserializeSeed<'d>>(&mut self, seed: T) -> Result<T::Value, Error> {
            seed.deserialize(&mut *self.0)
        }
        fn size_hint(&self) -> Option<usize> {
            Some(self.1)
        }
    }
    impl<'a, 'd> EnumAccess<'d> for &'a mut Reader<'d> {
        type Error = Error;
        type Variant = Self;
        fn variant_seed<T: DeserializeSeed<'d>>(self, seed: T) -> Result<(T::Value, Self), Error> {
            let index: U32Deserializer<Error> = (self.get()? as u32).into_deserializer();
            Ok((seed.deserialize(index)?, self))
        }
    }
    impl<'a, 'd> VariantAccess<'d> for &'a mut Reader<'d> {
        type Error = Error;
        fn unit_variant(self) -> Result<(), Error> {
            Ok(())
        }
        fn newtype_variant_seed<T: DeserializeSeed<'d>>(self, seed: T) -> Result<T::Value, Error> {
            seed.deserialize(self)
        }
        fn tuple_variant<V: Visitor<'d>>(self, length: usize, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_seq(Elements(self, length))
        }
        fn struct_variant<V: Visitor<'d>>(self, fields: &'static [&'static str], visitor: V) -> Result<V::Value, Error> {
            visitor.visit_seq(Elements(self, fields.len()))
        }
    }
    macro_rules! number {
        ($($name:ident $visit:ident $type:ty),*) => { $(fn $name<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            visitor.$visit(self.get()? as $type)
        })* };
    }
    impl<'a, 'd> Deserializer<'d> for &'a mut Reader<'d> {
        type Error = Error;
        number!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32,
            deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16,
            deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);
        fn deserialize_any<V: Visitor<'d>>(self, _: V) -> Result<V::Value, Error> {
            Err(Error("format does not describe itself".into()))
        }
        fn deserialize_bool<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_bool(self.get()? != 0)
        }
        fn deserialize_f32<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_f32(f64::from_bits(self.get()?) as f32)
        }
        fn deserialize_f64<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_f64(f64::from_bits(self.get()?))
        }
        fn deserialize_char<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_char(char::from_u32(self.get()? as u32).ok_or_else(|| Error("character".into()))?)
        }
        fn deserialize_str<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_borrowed_str(self.text()?)
        }
        fn deserialize_string<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_str(self.text()?)
        }
        fn deserialize_bytes<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            let length = self.get()? as usize;
            visitor.visit_bytes(self.take(length)?)
        }
        fn deserialize_byte_buf<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            self.deserialize_bytes(visitor)
        }
        fn deserialize_option<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            if self.get()? == 0 {
                visitor.visit_none()
            } else {
                visitor.visit_some(self)
            }
        }
        fn deserialize_unit<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_unit()
        }
        fn deserialize_unit_struct<V: Visitor<'d>>(self, _: &'static str, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_unit()
        }
        fn deserialize_newtype_struct<V: Visitor<'d>>(self, _: &'static str, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_newtype_struct(self)
        }
        fn deserialize_seq<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            let length = self.get()? as usize;
            visitor.visit_seq(Elements(self, length))
        }
        fn deserialize_tuple<V: Visitor<'d>>(self, length: usize, visitor: V) -> Result<V::Value, Error> {
            visitor.visit_seq(Elements(self, length))
        }
        fn deserialize_tuple_struct<V: Visitor<'d>>(
            self,
            _: &'static str,
            length: usize,
            visitor: V,
        ) -> Result<V::Value, Error> {
            visitor.visit_seq(Elements(self, length))
        }
        fn deserialize_map<V: Visitor<'d>>(self, visitor: V) -> Result<V::Value, Error> {
            let length = self.get()? as usize;
            visitor.visit_map(Elements(self, length))
        }
        fn deserialize_struct<V: Visitor<'d>>(
            self,
            _: &'static str,
            fields: &'static [&'static str],
            visitor: V,
        ) -> Result<V::Value, Error> {
            visitor.visit_seq(Elements(self, fields.len()))
        }
        fn deserialize_enum<V: Visitor<'d>>(
            self,
            _: &'static str,
            _: &'static [&'static str],
            visitor: V,
        ) -> Result<V::Value, Error> {
            visitor.visit_enum(self)
        }
        fn deserialize_identifier<V: Visitor<'d>>(self, _: V) -> Result<V::Value, Error> {
            Err(Error("format does not describe itself".into()))
        }
        fn deserialize_ignored_any<V: Visitor<'d>>(self, _: V) -> Result<V::Value, Error> {
            Err(Error("format does not describe itself".into()))
        }
        fn is_human_readable(&self) -> bool {
            false
        }
    }
}
