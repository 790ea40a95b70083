//! What a type of the library tells a serializer, word by word, and whether it
//! understands the same words when it is read.  No format stands in between.

use serde::de::{self, Deserialize, DeserializeOwned, Deserializer, Visitor};
use serde::ser::{self, Impossible, Serialize, Serializer};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Word {
    Some,
    None,
    Str(String),
    Int(&'static str, i128),
    F64(f64),
    Other(&'static str),
}
pub struct Oops(String);
impl fmt::Debug for Oops {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Display for Oops {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Oops {}
impl ser::Error for Oops {
    fn custom<T: fmt::Display>(x: T) -> Oops {
        Oops(x.to_string())
    }
}
impl de::Error for Oops {
    fn custom<T: fmt::Display>(x: T) -> Oops {
        Oops(x.to_string())
    }
}

struct Listen<'a> {
    words: &'a mut Vec<Word>,
    human: bool,
}
macro_rules! ints {
    ($($f:ident $t:ident),*) => {$(
        fn $f(self, x: $t) -> Result<(), Oops> {
            self.words.push(Word::Int(stringify!($t), x as i128));
            Ok(())
        }
    )*};
}
type Never = Impossible<(), Oops>;
impl Listen<'_> {
    fn other<T>(self, what: &'static str) -> Result<T, Oops> {
        self.words.push(Word::Other(what));
        Err(ser::Error::custom(what))
    }
}
impl Serializer for Listen<'_> {
    type Ok = ();
    type Error = Oops;
    type SerializeSeq = Never;
    type SerializeTuple = Never;
    type SerializeTupleStruct = Never;
    type SerializeTupleVariant = Never;
    type SerializeMap = Never;
    type SerializeStruct = Never;
    type SerializeStructVariant = Never;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    ints!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_u128(self, _: u128) -> Result<(), Oops> {
        self.other("u128")
    }
    fn serialize_bool(self, _: bool) -> Result<(), Oops> {
        self.other("bool")
    }
    fn serialize_f32(self, _: f32) -> Result<(), Oops> {
        self.other("f32")
    }
    fn serialize_f64(self, x: f64) -> Result<(), Oops> {
        self.words.push(Word::F64(x));
        Ok(())
    }
    fn serialize_char(self, _: char) -> Result<(), Oops> {
        self.other("char")
    }
    fn serialize_str(self, x: &str) -> Result<(), Oops> {
        self.words.push(Word::Str(x.to_string()));
        Ok(())
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), Oops> {
        self.other("bytes")
    }
    fn serialize_none(self) -> Result<(), Oops> {
        self.words.push(Word::None);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, x: &T) -> Result<(), Oops> {
        self.words.push(Word::Some);
        x.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Oops> {
        self.other("unit")
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Oops> {
        self.other("unit struct")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Oops> {
        self.other("unit variant")
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, x: &T) -> Result<(), Oops> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Oops> {
        self.other("newtype variant")
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Never, Oops> {
        self.other("seq")
    }
    fn serialize_tuple(self, _: usize) -> Result<Never, Oops> {
        self.other("tuple")
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Never, Oops> {
        self.other("tuple struct")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Never, Oops> {
        self.other("tuple variant")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Never, Oops> {
        self.other("map")
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Never, Oops> {
        self.other("struct")
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Never, Oops> {
        self.other("struct variant")
    }
}

/// What `x` tells a serializer.
pub fn told<T: Serialize>(x: &T, human: bool) -> Vec<Word> {
    let mut words = vec![];
    if x.serialize(Listen { words: &mut words, human }).is_err() {
        words.push(Word::Other("error"));
    }
    words
}
pub fn shown(words: &[Word]) -> String {
    let w: Vec<String> = words
        .iter()
        .map(|w| match w {
            Word::Some => "some".into(),
            Word::None => "none".into(),
            Word::Str(s) => format!("str {s}"),
            Word::Int(t, x) => format!("{t} {x}"),
            // which one, is another question
            Word::F64(_) => "f64".into(),
            Word::Other(s) => format!("? {s}"),
        })
        .collect();
    w.join(" ")
}

/// Gives words back.  A format that is not for people does not describe itself:
/// whoever reads has to ask for exactly what was written.
struct Speak<'a> {
    words: &'a [Word],
    human: bool,
    /// strings are there only as long as they are looked at
    transient: bool,
}
impl<'a> Speak<'a> {
    fn word(self) -> (&'a Word, Speak<'a>) {
        static END: Word = Word::Other("end");
        match self.words.split_first() {
            Some((w, rest)) => (w, Speak { words: rest, ..self }),
            None => (&END, self),
        }
    }
    fn wrong<T>(what: &str, w: &Word) -> Result<T, Oops> {
        Err(de::Error::custom(format!("asked for {what} instead of {w:?}")))
    }
}
macro_rules! asked_int {
    ($($f:ident $t:ident $v:ident),*) => {$(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Oops> {
            if self.human {
                return self.deserialize_any(v);
            }
            match self.word().0 {
                Word::Int(t, x) if *t == stringify!($t) => v.$v(*x as $t),
                w => Speak::wrong(stringify!($t), w),
            }
        }
    )*};
}
macro_rules! asked {
    ($($f:ident)*) => {$(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Oops> {
            if self.human {
                return self.deserialize_any(v);
            }
            Speak::wrong(stringify!($f), self.word().0)
        }
    )*};
}
impl<'de> Deserializer<'de> for Speak<'de> {
    type Error = Oops;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Oops> {
        let transient = self.transient;
        if !self.human {
            return Speak::wrong("anything", self.word().0);
        }
        match self.word() {
            (Word::Some, rest) => v.visit_some(rest),
            (Word::None, _) => v.visit_none(),
            (Word::Str(s), _) if transient => v.visit_str(s),
            (Word::Str(s), _) => v.visit_borrowed_str(s),
            (Word::F64(x), _) => v.visit_f64(*x),
            (Word::Int("i8", x), _) => v.visit_i8(*x as i8),
            (Word::Int("i16", x), _) => v.visit_i16(*x as i16),
            (Word::Int("i32", x), _) => v.visit_i32(*x as i32),
            (Word::Int("i64", x), _) => v.visit_i64(*x as i64),
            (Word::Int("i128", x), _) => v.visit_i128(*x),
            (Word::Int("u8", x), _) => v.visit_u8(*x as u8),
            (Word::Int("u16", x), _) => v.visit_u16(*x as u16),
            (Word::Int("u32", x), _) => v.visit_u32(*x as u32),
            (Word::Int("u64", x), _) => v.visit_u64(*x as u64),
            (w, _) => Speak::wrong("a word", w),
        }
    }
    asked_int!(deserialize_i8 i8 visit_i8, deserialize_i16 i16 visit_i16, deserialize_i32 i32 visit_i32,
        deserialize_i64 i64 visit_i64, deserialize_i128 i128 visit_i128, deserialize_u8 u8 visit_u8,
        deserialize_u16 u16 visit_u16, deserialize_u32 u32 visit_u32, deserialize_u64 u64 visit_u64);
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Oops> {
        if self.human {
            return self.deserialize_any(v);
        }
        match self.word().0 {
            Word::F64(x) => v.visit_f64(*x),
            w => Speak::wrong("f64", w),
        }
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Oops> {
        let transient = self.transient;
        match self.word().0 {
            Word::Str(s) if transient => v.visit_str(s),
            Word::Str(s) => v.visit_borrowed_str(s),
            w => Speak::wrong("str", w),
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Oops> {
        self.deserialize_str(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Oops> {
        match self.word() {
            (Word::Some, rest) => v.visit_some(rest),
            (Word::None, _) => v.visit_none(),
            (w, _) => Speak::wrong("option", w),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Oops> {
        v.visit_newtype_struct(self)
    }
    asked!(deserialize_bool deserialize_f32 deserialize_char deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq
        deserialize_map deserialize_identifier deserialize_ignored_any deserialize_u128);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Oops> {
        self.deserialize_unit(v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Oops> {
        self.deserialize_seq(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Oops> {
        self.deserialize_seq(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Oops> {
        self.deserialize_map(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Oops> {
        self.deserialize_unit(v)
    }
}
/// Reads the words.
pub fn understood<T: DeserializeOwned>(words: &[Word], human: bool, transient: bool) -> Result<T, String> {
    understood_from(words, human, transient)
}
fn understood_from<'de, T: Deserialize<'de>>(words: &'de [Word], human: bool, transient: bool) -> Result<T, String> {
    T::deserialize(Speak { words, human, transient }).map_err(|e| e.to_string())
}
