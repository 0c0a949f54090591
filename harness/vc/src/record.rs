//! A serializer that writes down every call it gets, and a hasher that does the same.
use serde::ser::*;
use std::fmt::{self, Display, Write};
use std::hash::Hasher;

#[derive(Debug)]
pub struct Refused(pub String);
impl Display for Refused {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Refused {}
impl Error for Refused {
    fn custom<T: Display>(m: T) -> Self {
        Refused(m.to_string())
    }
}

#[derive(Default)]
pub struct Rec {
    pub out: String,
    /// refuses the element with this number, if not zero
    pub refuse: usize,
    pub seen: usize,
}

macro_rules! leaf {
    ($($f:ident($t:ty))*) => {$(
        fn $f(self, v: $t) -> Result<(), Refused> {
            write!(self.out, "{}({v:?}) ", stringify!($f)).unwrap();
            Ok(())
        }
    )*};
}

impl<'a> Serializer for &'a mut Rec {
    type Ok = ();
    type Error = Refused;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Impossible<(), Refused>;
    type SerializeStruct = Impossible<(), Refused>;
    type SerializeStructVariant = Impossible<(), Refused>;
    leaf! {
        serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64)
        serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64)
        serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str) serialize_bytes(&[u8])
    }
    fn serialize_none(self) -> Result<(), Refused> {
        self.out.push_str("none ");
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, t: &T) -> Result<(), Refused> {
        self.out.push_str("some ");
        t.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Refused> {
        self.out.push_str("unit ");
        Ok(())
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<(), Refused> {
        write!(self.out, "unit {n} ").unwrap();
        Ok(())
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), Refused> {
        write!(self.out, "{n}::{i}{v} ").unwrap();
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, t: &T) -> Result<(), Refused> {
        write!(self.out, "new {n} ").unwrap();
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, v: &'static str, t: &T) -> Result<(), Refused> {
        write!(self.out, "new {n}::{i}{v} ").unwrap();
        t.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Refused> {
        write!(self.out, "[{n:?}: ").unwrap();
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, Refused> {
        write!(self.out, "({n}: ").unwrap();
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, Refused> {
        self.serialize_tuple(n)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Self, Refused> {
        self.serialize_tuple(n)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Refused> {
        Err(Refused("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Refused> {
        Err(Refused("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Refused> {
        Err(Refused("struct".into()))
    }
    fn collect_str<T: ?Sized + Display>(self, t: &T) -> Result<(), Refused> {
        self.serialize_str(&t.to_string())
    }
}
impl SerializeSeq for &mut Rec {
    type Ok = ();
    type Error = Refused;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Refused> {
        self.seen += 1;
        if self.seen == self.refuse {
            self.out.push_str("refused ");
            return Err(Refused("refused".into()));
        }
        t.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Refused> {
        self.out.push_str("] ");
        Ok(())
    }
}
macro_rules! tuples {
    ($($t:ident $f:ident)*) => {$(
        impl $t for &mut Rec {
            type Ok = ();
            type Error = Refused;
            fn $f<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Refused> {
                t.serialize(&mut **self)
            }
            fn end(self) -> Result<(), Refused> {
                self.out.push_str(") ");
                Ok(())
            }
        }
    )*};
}
tuples! { SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field }

/// Everything written, in order.
#[derive(Default)]
pub struct Bytes(pub Vec<u8>);
impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        self.0.iter().fold(7, |h, b| mon::rng::mix(h ^ u64::from(*b)))
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
