//! A stand-in for neon-serde 0.4: JavaScript values from and to what serde knows.
use neon::prelude::*;
use std::marker::PhantomData;
use serde::de::{self, DeserializeOwned, IntoDeserializer};
use serde::ser::{self, Serialize};

pub mod errors {
    use neon::result::Throw;
    #[derive(Debug)]
    pub enum Error {
        Js(Throw),
        Msg(String),
    }
    pub type Result<T> = std::result::Result<T, Error>;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            match self {
                Error::Js(_) => f.write_str("JS exception"),
                Error::Msg(m) => f.write_str(m),
            }
        }
    }
    impl std::error::Error for Error {}
    impl From<Throw> for Error {
        fn from(t: Throw) -> Error {
            Error::Js(t)
        }
    }
    impl serde::de::Error for Error {
        fn custom<T: std::fmt::Display>(m: T) -> Error {
            Error::Msg(m.to_string())
        }
    }
    impl serde::ser::Error for Error {
        fn custom<T: std::fmt::Display>(m: T) -> Error {
            Error::Msg(m.to_string())
        }
    }
}
use errors::{Error, Result};

pub fn from_value<'j, C: Context<'j>, T: DeserializeOwned>(cx: &mut C, value: Handle<'j, JsValue>) -> Result<T> {
    T::deserialize(De { cx, value })
}
pub fn from_value_opt<'j, C: Context<'j>, T: DeserializeOwned>(cx: &mut C, value: Option<Handle<'j, JsValue>>) -> Result<T> {
    let value = value.unwrap_or_else(|| JsUndefined::new().upcast());
    from_value(cx, value)
}
pub fn to_value<'j, C: Context<'j>, V: Serialize + ?Sized>(cx: &mut C, value: &V) -> Result<Handle<'j, JsValue>> {
    value.serialize(Ser { cx, life: PhantomData })
}

struct De<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    value: Handle<'j, JsValue>,
}
impl<'a, 'j, C: Context<'j>> De<'a, 'j, C> {
    fn nothing(&self) -> bool {
        self.value.is_a::<JsNull>() || self.value.is_a::<JsUndefined>()
    }
}
impl<'de, 'a, 'j, C: Context<'j>> de::Deserializer<'de> for De<'a, 'j, C> {
    type Error = Error;
    fn deserialize_any<V: de::Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
        let v = self.value;
        if self.nothing() {
            visitor.visit_unit()
        } else if let Ok(b) = v.downcast::<JsBoolean>() {
            visitor.visit_bool(b.value())
        } else if let Ok(s) = v.downcast::<JsString>() {
            visitor.visit_string(s.value())
        } else if let Ok(n) = v.downcast::<JsNumber>() {
            let n = n.value();
            if n.trunc() == n && n.abs() < 9e15 {
                visitor.visit_i64(n as i64)
            } else {
                visitor.visit_f64(n)
            }
        } else if let Ok(a) = v.downcast::<JsArray>() {
            let len = a.len();
            visitor.visit_seq(Seq { cx: self.cx, array: a, at: 0, len })
        } else if let Ok(o) = v.downcast::<JsObject>() {
            let names = o.get_own_property_names(self.cx)?;
            let len = names.len();
            visitor.visit_map(Map { cx: self.cx, object: o, names, at: 0, len, next: None })
        } else {
            Err(Error::Msg("unsupported type".into()))
        }
    }
    fn deserialize_option<V: de::Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
        if self.nothing() {
            visitor.visit_none()
        } else {
            visitor.visit_some(self)
        }
    }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], visitor: V) -> Result<V::Value> {
        if let Ok(s) = self.value.downcast::<JsString>() {
            visitor.visit_enum(Enum { cx: self.cx, name: s.value(), value: None })
        } else if let Ok(o) = self.value.downcast::<JsObject>() {
            let names = o.get_own_property_names(self.cx)?;
            if names.len() != 1 {
                return Err(Error::Msg("object key is not a single variant".into()));
            }
            let key = names.get(self.cx, 0u32)?;
            let value = o.get(self.cx, key)?;
            let name = key.downcast::<JsString>().or_throw(self.cx)?.value();
            visitor.visit_enum(Enum { cx: self.cx, name, value: Some(value) })
        } else {
            Err(Error::Msg("not an enum".into()))
        }
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, visitor: V) -> Result<V::Value> {
        visitor.visit_newtype_struct(self)
    }
    fn deserialize_ignored_any<V: de::Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
        visitor.visit_unit()
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct
        seq tuple tuple_struct map struct identifier
    }
}

struct Seq<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    array: Handle<'j, JsArray>,
    at: u32,
    len: u32,
}
impl<'de, 'a, 'j, C: Context<'j>> de::SeqAccess<'de> for Seq<'a, 'j, C> {
    type Error = Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>> {
        if self.at >= self.len {
            return Ok(None);
        }
        let value = self.array.get(self.cx, self.at)?;
        self.at += 1;
        seed.deserialize(De { cx: self.cx, value }).map(Some)
    }
}

struct Map<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    object: Handle<'j, JsObject>,
    names: Handle<'j, JsArray>,
    at: u32,
    len: u32,
    next: Option<Handle<'j, JsValue>>,
}
impl<'de, 'a, 'j, C: Context<'j>> de::MapAccess<'de> for Map<'a, 'j, C> {
    type Error = Error;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>> {
        if self.at >= self.len {
            return Ok(None);
        }
        let name = self.names.get(self.cx, self.at)?;
        self.at += 1;
        self.next = Some(name);
        seed.deserialize(De { cx: self.cx, value: name }).map(Some)
    }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value> {
        let name = self.next.take().expect("a key comes before its value");
        let value = self.object.get(self.cx, name)?;
        seed.deserialize(De { cx: self.cx, value })
    }
}

struct Enum<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    name: String,
    value: Option<Handle<'j, JsValue>>,
}
struct Variant<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    value: Option<Handle<'j, JsValue>>,
}
impl<'de, 'a, 'j, C: Context<'j>> de::EnumAccess<'de> for Enum<'a, 'j, C> {
    type Error = Error;
    type Variant = Variant<'a, 'j, C>;
    fn variant_seed<V: de::DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self::Variant)> {
        let name: de::value::StringDeserializer<Error> = self.name.into_deserializer();
        Ok((seed.deserialize(name)?, Variant { cx: self.cx, value: self.value }))
    }
}
impl<'a, 'j, C: Context<'j>> Variant<'a, 'j, C> {
    fn inner(self) -> Result<De<'a, 'j, C>> {
        match self.value {
            Some(value) => Ok(De { cx: self.cx, value }),
            None => Err(Error::Msg("variant without content".into())),
        }
    }
}
impl<'de, 'a, 'j, C: Context<'j>> de::VariantAccess<'de> for Variant<'a, 'j, C> {
    type Error = Error;
    fn unit_variant(self) -> Result<()> {
        match self.value {
            None => Ok(()),
            Some(_) => Err(Error::Msg("unit variant with content".into())),
        }
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value> {
        seed.deserialize(self.inner()?)
    }
    fn tuple_variant<V: de::Visitor<'de>>(self, _: usize, visitor: V) -> Result<V::Value> {
        de::Deserializer::deserialize_any(self.inner()?, visitor)
    }
    fn struct_variant<V: de::Visitor<'de>>(self, _: &'static [&'static str], visitor: V) -> Result<V::Value> {
        de::Deserializer::deserialize_any(self.inner()?, visitor)
    }
}

struct Ser<'a, 'j, C> {
    cx: &'a mut C,
    life: PhantomData<&'j ()>,
}
type Js<'j> = Handle<'j, JsValue>;
struct List<'a, 'j, C> {
    cx: &'a mut C,
    array: Handle<'j, JsArray>,
    at: u32,
    wrap: Option<Handle<'j, JsObject>>,
}
struct Obj<'a, 'j, C> {
    cx: &'a mut C,
    object: Handle<'j, JsObject>,
    key: Option<Js<'j>>,
    wrap: Option<Handle<'j, JsObject>>,
}
macro_rules! numbers {
    ($($f:ident $t:ty)*) => { $(fn $f(self, v: $t) -> Result<Js<'j>> {
        Ok(JsNumber::new(self.cx, v as f64).upcast())
    })* };
}
impl<'a, 'j, C: Context<'j>> Ser<'a, 'j, C> {
    fn wrapped(&mut self, variant: &'static str) -> (Handle<'j, JsObject>, &'static str) {
        (JsObject::new(self.cx), variant)
    }
}
impl<'a, 'j, C: Context<'j>> ser::Serializer for Ser<'a, 'j, C> {
    type Ok = Js<'j>;
    type Error = Error;
    type SerializeSeq = List<'a, 'j, C>;
    type SerializeTuple = List<'a, 'j, C>;
    type SerializeTupleStruct = List<'a, 'j, C>;
    type SerializeTupleVariant = List<'a, 'j, C>;
    type SerializeMap = Obj<'a, 'j, C>;
    type SerializeStruct = Obj<'a, 'j, C>;
    type SerializeStructVariant = Obj<'a, 'j, C>;
    numbers!(serialize_i8 i8 serialize_i16 i16 serialize_i32 i32 serialize_i64 i64 serialize_u8 u8 serialize_u16 u16
             serialize_u32 u32 serialize_u64 u64 serialize_f32 f32 serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> Result<Js<'j>> {
        Ok(JsBoolean::new(self.cx, v).upcast())
    }
    fn serialize_char(self, v: char) -> Result<Js<'j>> {
        Ok(JsString::new(self.cx, v.to_string()).upcast())
    }
    fn serialize_str(self, v: &str) -> Result<Js<'j>> {
        Ok(JsString::new(self.cx, v).upcast())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Js<'j>> {
        let a = JsArray::new(self.cx, v.len() as u32);
        for (i, b) in v.iter().enumerate() {
            let n = JsNumber::new(self.cx, *b);
            a.set(self.cx, i as u32, n)?;
        }
        Ok(a.upcast())
    }
    fn serialize_none(self) -> Result<Js<'j>> {
        Ok(JsNull::new().upcast())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Js<'j>> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Js<'j>> {
        Ok(JsNull::new().upcast())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Js<'j>> {
        Ok(JsNull::new().upcast())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, variant: &'static str) -> Result<Js<'j>> {
        self.serialize_str(variant)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Js<'j>> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(mut self, _: &'static str, _: u32, variant: &'static str, v: &T) -> Result<Js<'j>> {
        let (o, name) = self.wrapped(variant);
        let inner = v.serialize(Ser { cx: &mut *self.cx, life: PhantomData })?;
        o.set(self.cx, name, inner)?;
        Ok(o.upcast())
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<List<'a, 'j, C>> {
        let array = JsArray::new(self.cx, 0);
        Ok(List { cx: self.cx, array, at: 0, wrap: None })
    }
    fn serialize_tuple(self, _: usize) -> Result<List<'a, 'j, C>> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<List<'a, 'j, C>> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_variant(mut self, _: &'static str, _: u32, variant: &'static str, _: usize) -> Result<List<'a, 'j, C>> {
        let (o, name) = self.wrapped(variant);
        let array = JsArray::new(self.cx, 0);
        o.set(self.cx, name, array)?;
        Ok(List { cx: self.cx, array, at: 0, wrap: Some(o) })
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Obj<'a, 'j, C>> {
        let object = JsObject::new(self.cx);
        Ok(Obj { cx: self.cx, object, key: None, wrap: None })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Obj<'a, 'j, C>> {
        self.serialize_map(None)
    }
    fn serialize_struct_variant(mut self, _: &'static str, _: u32, variant: &'static str, _: usize) -> Result<Obj<'a, 'j, C>> {
        let (o, name) = self.wrapped(variant);
        let object = JsObject::new(self.cx);
        o.set(self.cx, name, object)?;
        Ok(Obj { cx: self.cx, object, key: None, wrap: Some(o) })
    }
}
impl<'a, 'j, C: Context<'j>> List<'a, 'j, C> {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        let v = v.serialize(Ser { cx: &mut *self.cx, life: PhantomData })?;
        self.array.set(self.cx, self.at, v)?;
        self.at += 1;
        Ok(())
    }
    fn done(self) -> Result<Js<'j>> {
        Ok(match self.wrap {
            Some(o) => o.upcast(),
            None => self.array.upcast(),
        })
    }
}
impl<'a, 'j, C: Context<'j>> Obj<'a, 'j, C> {
    fn add<T: Serialize + ?Sized>(&mut self, key: &'static str, v: &T) -> Result<()> {
        let v = v.serialize(Ser { cx: &mut *self.cx, life: PhantomData })?;
        self.object.set(self.cx, key, v)?;
        Ok(())
    }
    fn done(self) -> Result<Js<'j>> {
        Ok(match self.wrap {
            Some(o) => o.upcast(),
            None => self.object.upcast(),
        })
    }
}
macro_rules! lists {
    ($($tr:ident $f:ident)*) => { $(impl<'a, 'j, C: Context<'j>> ser::$tr for List<'a, 'j, C> {
        type Ok = Js<'j>;
        type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
            self.add(v)
        }
        fn end(self) -> Result<Js<'j>> {
            self.done()
        }
    })* };
}
lists!(SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field
       SerializeTupleVariant serialize_field);
macro_rules! objects {
    ($($tr:ident)*) => { $(impl<'a, 'j, C: Context<'j>> ser::$tr for Obj<'a, 'j, C> {
        type Ok = Js<'j>;
        type Error = Error;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &'static str, v: &T) -> Result<()> {
            self.add(key, v)
        }
        fn end(self) -> Result<Js<'j>> {
            self.done()
        }
    })* };
}
objects!(SerializeStruct SerializeStructVariant);
impl<'a, 'j, C: Context<'j>> ser::SerializeMap for Obj<'a, 'j, C> {
    type Ok = Js<'j>;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<()> {
        self.key = Some(k.serialize(Ser { cx: &mut *self.cx, life: PhantomData })?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        let v = v.serialize(Ser { cx: &mut *self.cx, life: PhantomData })?;
        let k = self.key.take().expect("a key comes before its value");
        self.object.set(self.cx, k, v)?;
        Ok(())
    }
    fn end(self) -> Result<Js<'j>> {
        self.done()
    }
}
