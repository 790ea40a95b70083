//! Through which part of the API a call of the specification is made.

macro_rules! vias {
    ($($v:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum Via { $($v),* }
        impl Via {
            pub const ALL: &'static [Via] = &[$(Via::$v),*];
            pub fn name(self) -> &'static str {
                match self { $(Via::$v => stringify!($v)),* }
            }
            pub fn parse(s: &str) -> Option<Via> {
                Via::ALL.iter().copied().find(|v| v.name() == s)
            }
        }
    };
}
vias! {
    // FixedPoint itself
    Fp,
    // primitive integers through the operation traits
    Int,
    // integer on the left, FixedPoint on the right
    IntFp,
    // a user type that implements only the required methods (default saturating ones)
    User,
    // wrapper types made by impl_op!
    Wrap,
    Display, Debug,
    // with a format that asks for few fractional digits
    DisplayShort, DebugShort,
    // source type of an integer conversion
    I8, I16, I32, I64, I128, Isize, U8, U16, U32, U64, U128, Usize,
    // serde, human readable
    SerdeStr, SerdeString, SerdeI64, SerdeU64, SerdeI128, SerdeU128, SerdeF64, Json, JsonMap, Xml, XmlAttr,
    // owned strings, and integers of the smallest type that holds them
    ModStrOwned, ModStrOptionOwned, ModStrReader, SerdeSmall,
    // keys of JSON objects, values read before their type is known, a JSON value, a character
    JsonKey, Untagged, JsonValue, Char, SerdeF32,
    // vectors, skipping, from a reader, every way of encoding
    ScaleVec, ScaleSkip, ScaleReader, ScaleSize,
    ModStr, ModStrOption, ModFloat, ModFloatOption, JsonOption,
    // binary
    Bincode, ModRepr, ModReprOption, Scale, ScaleAs,
    JsonRepr, JsonReprOption,
    // no format in between: what a serializer is told; the same of a type that wraps the library's
    Told, ToldWrap,
    // strings in a binary format
    BinStr,
    Bool, Null, Array, Map, Unit, Bytes,
}

impl Via {
    /// Not in every build that has codecs.
    pub fn extra(self) -> bool {
        matches!(self, Via::JsonMap | Via::Xml | Via::XmlAttr)
    }
}
