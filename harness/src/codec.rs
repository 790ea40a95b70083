//! Calls made through serde, SCALE and JSON schema.

use crate::spec::*;
use crate::via::Via;

#[cfg(not(feature = "codecs"))]
pub fn exec(_w: u32, _p: u32, _via: Via, _c: &Call) -> Option<Outcome> {
    None
}
#[cfg(feature = "codecs")]
pub use imp::*;

#[cfg(feature = "codecs")]
mod imp {
    use super::*;
    use crate::fx::{points, string};
    use crate::z::{zi, Z};
    use fixnum::{typenum::*, FixedPoint};
    use parity_scale_codec::{Compact, CompactAs, CompactRef, Decode, Encode, IoReader};
    use serde::de::value::*;
    use serde::de::{Deserialize, IntoDeserializer};
    use serde::Serialize;
    use crate::tell::{self, Word};
    use std::marker::PhantomData;

    type E = serde::de::value::Error;

    trait Probe: Sync {
        fn exec(&self, via: Via, c: &Call) -> Option<Outcome>;
        fn schema(&self) -> serde_json::Value;
        fn write(&self, a: i128) -> serde_json::Value;
    }
    struct P<I, D>(PhantomData<fn() -> (I, D)>);

    fn bytes(b: &[Z]) -> Vec<u8> {
        b.iter().map(|x| x.u64() as u8).collect()
    }
    fn zs(b: &[u8]) -> Vec<Z> {
        b.iter().map(|x| Z::from(*x)).collect()
    }
    fn json_quote(s: &str) -> String {
        serde_json::to_string(s).unwrap()
    }
    #[cfg(feature = "xml")]
    fn xml_escape(s: &str) -> String {
        s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
    }

    macro_rules! forms {
        ($T:ty) => {
            #[derive(Serialize, serde::Deserialize)]
            #[serde(bound = "")]
            pub struct Str<D: Unsigned>(#[serde(with = "fixnum::serde::str")] pub $T);
            #[derive(Serialize, serde::Deserialize)]
            #[serde(bound = "")]
            pub struct StrOption<D: Unsigned>(#[serde(with = "fixnum::serde::str_option")] pub Option<$T>);
            #[derive(Serialize, serde::Deserialize)]
            #[serde(bound = "")]
            pub struct Repr<D: Unsigned>(#[serde(with = "fixnum::serde::repr")] pub $T);
            #[derive(Serialize, serde::Deserialize)]
            #[serde(bound = "")]
            pub struct ReprOption<D: Unsigned>(#[serde(with = "fixnum::serde::repr_option")] pub Option<$T>);
            #[derive(Serialize, serde::Deserialize)]
            #[serde(bound = "")]
            pub struct Float<D: Unsigned>(#[serde(with = "fixnum::serde::float")] pub $T);
            #[derive(Serialize, serde::Deserialize)]
            #[serde(bound = "")]
            pub struct FloatOption<D: Unsigned>(#[serde(with = "fixnum::serde::float_option")] pub Option<$T>);
        };
    }
    /// What a value tells, if that is understood as the same value again.
    fn there_and_back<T: Serialize + serde::de::DeserializeOwned, B: PartialEq + std::fmt::Debug>(x: T, bits: fn(&T) -> B, human: bool) -> Outcome {
        let words = tell::told(&x, human);
        for transient in [true, false] {
            match tell::understood::<T>(&words, human, transient) {
                Ok(y) if bits(&y) == bits(&x) => {}
                Ok(y) => return Outcome::Text(points(&format!("{} is understood as {:?}", tell::shown(&words), bits(&y)))),
                Err(e) => return Outcome::Text(points(&format!("{} is not understood: {e}", tell::shown(&words)))),
            }
        }
        Outcome::Text(points(&tell::shown(&words)))
    }
    /// What words are understood as, wherever they come from.
    fn agreed(all: Vec<Outcome>) -> Outcome {
        if all.iter().all(|o| *o == all[0]) { all.into_iter().next().unwrap() } else { Outcome::Text(points(&format!("not always the same: {all:?}"))) }
    }

    macro_rules! probe {
        ($I:ident, $U:ident, $wrapmod:ident) => {
            mod $wrapmod {
                // structures that use the serde(with) modules
                use super::*;
                forms!(FixedPoint<$I, D>);
                /// A type of a user that the modules take as well.
                pub mod wrap {
                    use super::*;
                    #[derive(Clone)]
                    pub struct Own<D>(pub FixedPoint<$I, D>);
                    impl<D: Unsigned> From<FixedPoint<$I, D>> for Own<D> {
                        fn from(x: FixedPoint<$I, D>) -> Self {
                            Own(x)
                        }
                    }
                    impl<D: Unsigned> From<Own<D>> for FixedPoint<$I, D> {
                        fn from(x: Own<D>) -> Self {
                            x.0
                        }
                    }
                    forms!(Own<D>);
                }
                #[derive(serde::Deserialize)]
                #[serde(untagged, bound = "")]
                pub enum Untagged<D: Unsigned> {
                    Number(FixedPoint<$I, D>),
                }
                #[cfg(feature = "xml")]
                #[derive(serde::Deserialize)]
                #[serde(bound = "")]
                pub struct Tag<D: Unsigned> {
                    pub v: FixedPoint<$I, D>,
                }
            }
            impl<D: Unsigned + 'static> Probe for P<$I, D> {
                fn schema(&self) -> serde_json::Value {
                    serde_json::to_value(schemars::schema_for!(FixedPoint<$I, D>)).unwrap()
                }
                fn write(&self, a: i128) -> serde_json::Value {
                    serde_json::to_value(FixedPoint::<$I, D>::from_bits($I::try_from(a).unwrap())).unwrap()
                }
                fn exec(&self, via: Via, c: &Call) -> Option<Outcome> {
                    type F<D> = FixedPoint<$I, D>;
                    use $wrapmod as m;
                    fn fin<D, X>(r: Result<F<D>, X>) -> Outcome {
                        match r {
                            Ok(x) => Outcome::Ret(x.into_bits().into()),
                            Err(_) => Outcome::Reject,
                        }
                    }
                    fn fin_opt<D, X>(r: Result<Option<F<D>>, X>) -> Outcome {
                        match r {
                            Ok(Some(x)) => Outcome::Ret(x.into_bits().into()),
                            Ok(None) => Outcome::Absent,
                            Err(_) => Outcome::Reject,
                        }
                    }
                    fn untagged<D: Unsigned, X>(r: Result<m::Untagged<D>, X>) -> Outcome {
                        fin(r.map(|m::Untagged::Number(x)| x))
                    }
                    let n = |z: &Z| F::<D>::from_bits($I::try_from(z.i128()).unwrap());
                    let text = |r: serde_json::Result<String>| match r {
                        Ok(s) => Outcome::Text(points(&s)),
                        Err(_) => Outcome::Reject,
                    };
                    let raw = |r: bincode::Result<Vec<u8>>| match r {
                        Ok(b) => Outcome::Bytes(zs(&b)),
                        Err(_) => Outcome::Reject,
                    };
                    let value = |r: serde_json::Result<serde_json::Value>| match r {
                        Ok(serde_json::Value::Number(x)) => Outcome::F64(x.as_f64().unwrap().to_bits().into()),
                        Ok(serde_json::Value::Null) => Outcome::Absent,
                        _ => Outcome::Reject,
                    };
                    Some(match (via, c) {
                        // text in
                        (Via::JsonKey, Call::Parse(x)) => {
                            let s = format!("{{{}:0}}", json_quote(&string(&x.s)));
                            // the only key of a map
                            match serde_json::from_str::<Keys<F<D>>>(&s) {
                                Ok(k) => Outcome::Ret(k.0.into_bits().into()),
                                Err(_) => Outcome::Reject,
                            }
                        }
                        (Via::Untagged, Call::Parse(x)) => untagged::<D, _>(serde_json::from_str(&json_quote(&string(&x.s)))),
                        (Via::Untagged, Call::FromInt(x)) => {
                            let v = x.a.to_i128()?;
                            if v < i64::MIN as i128 || v > u64::MAX as i128 {
                                return None;
                            }
                            untagged::<D, _>(serde_json::from_str(&v.to_string()))
                        }
                        (Via::Untagged, Call::FromF64(x)) => untagged::<D, _>(Deserialize::deserialize(F64Deserializer::<E>::new(f64::from_bits(x.bits.u64())))),
                        (Via::JsonValue, Call::Parse(x)) => fin(serde_json::from_value::<F<D>>(string(&x.s).into())),
                        (Via::JsonValue, Call::FromInt(x)) => {
                            let v = x.a.to_i128()?;
                            let v: serde_json::Value = match i64::try_from(v) {
                                Ok(v) => v.into(),
                                Err(_) => u64::try_from(v).ok()?.into(),
                            };
                            fin(serde_json::from_value::<F<D>>(v))
                        }
                        (Via::JsonValue, Call::FromF64(x)) => {
                            let v = serde_json::Number::from_f64(f64::from_bits(x.bits.u64()))?;
                            fin(serde_json::from_value::<F<D>>(v.into()))
                        }
                        (Via::SerdeF32, Call::FromF64(x)) => {
                            let f = f64::from_bits(x.bits.u64());
                            if ((f as f32) as f64).to_bits() != f.to_bits() {
                                return None;
                            }
                            fin(F::<D>::deserialize(F32Deserializer::<E>::new(f as f32)))
                        }
                        (Via::Char, Call::Parse(x)) => {
                            let s = string(&x.s);
                            let mut c = s.chars();
                            let (Some(c), None) = (c.next(), c.next()) else { return None };
                            fin(F::<D>::deserialize(IntoDeserializer::<E>::into_deserializer(c)))
                        }
                        (Via::SerdeStr, Call::Parse(x)) => {
                            let s = string(&x.s);
                            fin(F::<D>::deserialize(IntoDeserializer::<E>::into_deserializer(s.as_str())))
                        }
                        (Via::SerdeString, Call::Parse(x)) => fin(F::<D>::deserialize(IntoDeserializer::<E>::into_deserializer(string(&x.s)))),
                        (Via::Json, Call::Parse(x)) => fin(serde_json::from_str::<F<D>>(&json_quote(&string(&x.s)))),
                        (Via::JsonOption, Call::Parse(x)) => fin_opt(serde_json::from_str::<Option<F<D>>>(&json_quote(&string(&x.s)))),
                        #[cfg(feature = "xml")]
                        (Via::JsonMap, Call::Parse(x)) => {
                            fin(serde_json::from_str::<F<D>>(&format!("{{\"$value\":{}}}", json_quote(&string(&x.s)))))
                        }
                        (Via::ModStr, Call::Parse(x)) => {
                            let s = string(&x.s);
                            fin(m::Str::<D>::deserialize(BorrowedStrDeserializer::<E>::new(&s).newtype()).map(|x| x.0))
                        }
                        (Via::ModStrOption, Call::Parse(x)) => {
                            fin_opt(serde_json::from_str::<m::StrOption<D>>(&json_quote(&string(&x.s))).map(|x| x.0))
                        }
                        (Via::ModStrOwned, Call::Parse(x)) => fin(serde_json::from_value::<m::Str<D>>(string(&x.s).into()).map(|x| x.0)),
                        (Via::ModStrOptionOwned, Call::Parse(x)) => {
                            fin_opt(serde_json::from_value::<m::StrOption<D>>(string(&x.s).into()).map(|x| x.0))
                        }
                        (Via::ModStrReader, Call::Parse(x)) => {
                            fin(serde_json::from_reader::<_, m::Str<D>>(json_quote(&string(&x.s)).as_bytes()).map(|x| x.0))
                        }
                        #[cfg(feature = "xml")]
                        (Via::Xml, Call::Parse(x)) => {
                            let s = string(&x.s);
                            fin(quick_xml::de::from_str::<m::Tag<D>>(&format!("<t><v>{}</v></t>", xml_escape(&s))).map(|x| x.v))
                        }
                        #[cfg(feature = "xml")]
                        (Via::XmlAttr, Call::Parse(x)) => {
                            let s = string(&x.s);
                            fin(quick_xml::de::from_str::<m::Tag<D>>(&format!("<t v=\"{}\"/>", xml_escape(&s))).map(|x| x.v))
                        }
                        // numbers in
                        (Via::SerdeI64, Call::FromInt(x)) => fin(F::<D>::deserialize(I64Deserializer::<E>::new(i64::try_from(x.a.to_i128()?).ok()?))),
                        (Via::SerdeU64, Call::FromInt(x)) => fin(F::<D>::deserialize(U64Deserializer::<E>::new(u64::try_from(x.a.to_i128()?).ok()?))),
                        (Via::SerdeI128, Call::FromInt(x)) => fin(F::<D>::deserialize(I128Deserializer::<E>::new(x.a.to_i128()?))),
                        (Via::SerdeU128, Call::FromInt(x)) => fin(F::<D>::deserialize(U128Deserializer::<E>::new(x.a.to_u128()?))),
                        (Via::SerdeSmall, Call::FromInt(x)) => {
                            let v = x.a.to_i128()?;
                            macro_rules! small {
                                ($t:ty) => {
                                    if let Ok(v) = <$t>::try_from(v) {
                                        return Some(fin(F::<D>::deserialize(IntoDeserializer::<E>::into_deserializer(v))));
                                    }
                                };
                            }
                            small!(u8);
                            small!(i8);
                            small!(u16);
                            small!(i16);
                            small!(u32);
                            small!(i32);
                            return None;
                        }
                        (Via::Json, Call::FromInt(x)) => {
                            // JSON integers are read as i64 or u64
                            let v = x.a.to_i128()?;
                            if v < i64::MIN as i128 || v > u64::MAX as i128 {
                                return None;
                            }
                            fin(serde_json::from_str::<F<D>>(&v.to_string()))
                        }
                        (Via::SerdeF64, Call::FromF64(x)) => fin(F::<D>::deserialize(F64Deserializer::<E>::new(f64::from_bits(x.bits.u64())))),
                        (Via::ModFloat, Call::FromF64(x)) => {
                            fin(m::Float::<D>::deserialize(F64Deserializer::<E>::new(f64::from_bits(x.bits.u64())).newtype()).map(|x| x.0))
                        }
                        (Via::ModFloatOption, Call::FromF64(x)) => {
                            // through bincode: a tag byte and the raw bits
                            let mut b = vec![1u8];
                            b.extend_from_slice(&x.bits.u64().to_le_bytes());
                            fin_opt(bincode::deserialize::<m::FloatOption<D>>(&b).map(|x| x.0))
                        }
                        // text out
                        (Via::JsonKey, Call::ShowJson(x)) if x.some => {
                            text(serde_json::to_string(&std::collections::BTreeMap::from([(Unordered(n(&x.a)), 0)])).map(|s| {
                                s.strip_prefix('{').and_then(|s| s.strip_suffix(":0}")).unwrap_or("").to_string()
                            }))
                        }
                        (Via::JsonValue, Call::ShowJson(x)) => text(serde_json::to_value(&x.some.then(|| n(&x.a))).map(|v| v.to_string())),
                        (Via::Json, Call::ShowJson(x)) if x.some => text(serde_json::to_string(&n(&x.a))),
                        (Via::JsonOption, Call::ShowJson(x)) => text(serde_json::to_string(&x.some.then(|| n(&x.a)))),
                        (Via::ModStr, Call::ShowJson(x)) if x.some => text(serde_json::to_string(&m::Str(n(&x.a)))),
                        (Via::ModStrOption, Call::ShowJson(x)) => text(serde_json::to_string(&m::StrOption(x.some.then(|| n(&x.a))))),
                        (Via::ModFloat, Call::IntoF64(x)) => value(serde_json::to_value(&m::Float(n(&x.a)))),
                        (Via::ModFloatOption, Call::IntoF64(x)) => value(serde_json::to_value(&m::FloatOption(Some(n(&x.a))))),
                        (Via::Bincode, Call::IntoF64(x)) => match (bincode::serialize(&m::Float(n(&x.a))), bincode::serialize(&m::FloatOption(Some(n(&x.a))))) {
                            (Ok(a), Ok(b)) if a.len() == 8 && b.len() == 9 && b[0] == 1 && a[..] == b[1..] => {
                                Outcome::F64(u64::from_le_bytes(a.try_into().unwrap()).into())
                            }
                            _ => Outcome::Reject,
                        },
                        // representation as JSON integer: exact digits
                        (Via::JsonRepr, Call::Bits(x)) => {
                            let s = serde_json::to_string(&m::Repr(n(&x.a))).ok()?;
                            if s != x.a.to_string() {
                                return Some(Outcome::Text(points(&s)));
                            }
                            fin(serde_json::from_str::<m::Repr<D>>(&s).map(|x| x.0))
                        }
                        (Via::JsonReprOption, Call::Bits(x)) => {
                            let s = serde_json::to_string(&m::ReprOption(Some(n(&x.a)))).ok()?;
                            if s != x.a.to_string() {
                                return Some(Outcome::Text(points(&s)));
                            }
                            fin_opt(serde_json::from_str::<m::ReprOption<D>>(&s).map(|x| x.0))
                        }
                        // binary
                        (Via::Bincode, Call::Encode(x)) => raw(if x.b == zi(0) { bincode::serialize(&n(&x.a)) } else { bincode::serialize(&Some(n(&x.a))) }),
                        (Via::ModRepr, Call::Encode(x)) if x.b == zi(0) => raw(bincode::serialize(&m::Repr(n(&x.a)))),
                        (Via::ModReprOption, Call::Encode(x)) if x.b != zi(0) => raw(bincode::serialize(&m::ReprOption(Some(n(&x.a))))),
                        (Via::Bincode, Call::Decode(x)) => {
                            let b = bytes(&x.bytes);
                            if x.opt { fin_opt(bincode::deserialize::<Option<F<D>>>(&b)) } else { fin(bincode::deserialize::<F<D>>(&b)) }
                        }
                        (Via::ModRepr, Call::Decode(x)) if !x.opt => fin(bincode::deserialize::<m::Repr<D>>(&bytes(&x.bytes)).map(|x| x.0)),
                        (Via::ModReprOption, Call::Decode(x)) if x.opt => fin_opt(bincode::deserialize::<m::ReprOption<D>>(&bytes(&x.bytes)).map(|x| x.0)),
                        // none, in JSON
                        (_, Call::Decode(x)) if x.opt && x.bytes == [zi(0)] && via != Via::Bincode && via != Via::ModReprOption && via != Via::Scale => match via {
                            Via::JsonOption => fin_opt(serde_json::from_str::<Option<F<D>>>("null")),
                            Via::ModStrOption => fin_opt(serde_json::from_str::<m::StrOption<D>>("null").map(|x| x.0)),
                            Via::ModStrOptionOwned => fin_opt(serde_json::from_value::<m::StrOption<D>>(serde_json::Value::Null).map(|x| x.0)),
                            Via::ModFloatOption => fin_opt(serde_json::from_str::<m::FloatOption<D>>("null").map(|x| x.0)),
                            Via::JsonReprOption => fin_opt(serde_json::from_str::<m::ReprOption<D>>("null").map(|x| x.0)),
                            _ => return None,
                        },
                        (Via::Scale, Call::Encode(x)) => Outcome::Bytes(zs(&if x.b == zi(0) { n(&x.a).encode() } else { Some(n(&x.a)).encode() })),
                        (Via::ScaleVec, Call::Encode(x)) if x.b == zi(0) => {
                            let b = vec![n(&x.a); 3].encode();
                            let k = (b.len() - 1) / 3;
                            if b[0] == 12 && b.len() == 3 * k + 1 && b[1..1 + k] == b[1 + k..1 + 2 * k] && b[1..1 + k] == b[1 + 2 * k..] {
                                Outcome::Bytes(zs(&b[1..1 + k]))
                            } else {
                                Outcome::Bytes(zs(&b))
                            }
                        }
                        (Via::ScaleSize, Call::Encode(x)) => {
                            fn all<T: Encode>(x: T) -> Vec<u8> {
                                let b = x.encode();
                                let mut after = vec![7u8];
                                x.encode_to(&mut after);
                                let same = after[0] == 7 && after[1..] == b[..]
                                    && x.encoded_size() == b.len()
                                    && x.using_encoded(|c| c == &b[..])
                                    && (&x).encode() == b
                                    && Box::new(x).encode() == b;
                                if same { b } else { vec![] }
                            }
                            Outcome::Bytes(zs(&if x.b == zi(0) { all(n(&x.a)) } else { all(Some(n(&x.a))) }))
                        }
                        (Via::ScaleReader, Call::Decode(x)) => {
                            let b = bytes(&x.bytes);
                            let mut i = IoReader(&b[..]);
                            if x.opt { fin_opt(Option::<F<D>>::decode(&mut i)) } else { fin(F::<D>::decode(&mut i)) }
                        }
                        (Via::ScaleVec, Call::Decode(x)) if !x.opt => {
                            // the second of a vector of two, the first being zero
                            let mut b = vec![8u8];
                            b.extend(F::<D>::from_bits(0).encode());
                            b.extend(bytes(&x.bytes));
                            match Vec::<F<D>>::decode(&mut &b[..]) {
                                Ok(v) if v.len() == 2 && v[0].into_bits() == 0 => Outcome::Ret(v[1].into_bits().into()),
                                Ok(_) => Outcome::Absent,
                                Err(_) => Outcome::Reject,
                            }
                        }
                        (Via::ScaleSkip, Call::Consume(x)) => {
                            let b = bytes(&x.bytes);
                            let mut i = &b[..];
                            let ok = match (x.compact, x.opt) {
                                (true, _) => Compact::<F<D>>::skip(&mut i).is_ok(),
                                (_, true) => Option::<F<D>>::skip(&mut i).is_ok(),
                                _ => F::<D>::skip(&mut i).is_ok(),
                            };
                            let size = if x.compact { Compact::<F<D>>::encoded_fixed_size() } else if x.opt { Option::<F<D>>::encoded_fixed_size() } else { F::<D>::encoded_fixed_size() };
                            let used = b.len() - i.len();
                            if ok && size.is_none_or(|k| k == used) { Outcome::Ret(zi(used as i128)) } else { Outcome::Reject }
                        }
                        (Via::ScaleAs, Call::Encode(x)) if x.b == zi(0) => {
                            let f = n(&x.a);
                            Outcome::Bytes(zs(&f.encode_as().to_le_bytes()))
                        }
                        (Via::Scale, Call::Decode(x)) => {
                            let b = bytes(&x.bytes);
                            if x.opt { fin_opt(Option::<F<D>>::decode(&mut &b[..])) } else { fin(F::<D>::decode(&mut &b[..])) }
                        }
                        (Via::ScaleAs, Call::Decode(x)) if !x.opt => {
                            let b = bytes(&x.bytes);
                            match b.get(..std::mem::size_of::<$U>()) {
                                Some(b) => fin(F::<D>::decode_from($U::from_le_bytes(b.try_into().unwrap()))),
                                None => return None,
                            }
                        }
                        (Via::Scale, Call::EncodeCompact(x)) => Outcome::Bytes(zs(&Compact(n(&x.a)).encode())),
                        (Via::ScaleAs, Call::EncodeCompact(x)) => Outcome::Bytes(zs(&CompactRef(&n(&x.a)).encode())),
                        (Via::Scale, Call::DecodeCompact(x)) => fin(Compact::<F<D>>::decode(&mut &bytes(&x.bytes)[..]).map(F::<D>::from)),
                        // how much of the input is read
                        (Via::Scale, Call::Consume(x)) => {
                            let b = bytes(&x.bytes);
                            let mut i = &b[..];
                            let ok = match (x.compact, x.opt) {
                                (true, _) => Compact::<F<D>>::decode(&mut i).is_ok(),
                                (_, true) => Option::<F<D>>::decode(&mut i).is_ok(),
                                _ => F::<D>::decode(&mut i).is_ok(),
                            };
                            if ok { Outcome::Ret(zi((b.len() - i.len()) as i128)) } else { Outcome::Reject }
                        }
                        (Via::Bincode, Call::Consume(x)) if !x.compact => {
                            let b = bytes(&x.bytes);
                            let mut i = &b[..];
                            let ok = if x.opt {
                                bincode::deserialize_from::<_, Option<F<D>>>(&mut i).is_ok()
                            } else {
                                bincode::deserialize_from::<_, F<D>>(&mut i).is_ok()
                            };
                            if ok { Outcome::Ret(zi((b.len() - i.len()) as i128)) } else { Outcome::Reject }
                        }
                        // no format
                        (Via::Told, Call::Tell(x)) => {
                            let (v, o) = (n(&x.a), x.some.then(|| n(&x.a)));
                            match (x.form.usize(), x.opt) {
                                (0, false) => there_and_back(v, |x| x.into_bits(), x.human),
                                (0, true) => there_and_back(o, |x| x.map(|x| x.into_bits()), x.human),
                                (1, false) => there_and_back(m::Repr(v), |x| x.0.into_bits(), x.human),
                                (1, true) => there_and_back(m::ReprOption(o), |x| x.0.map(|x| x.into_bits()), x.human),
                                (2, false) => there_and_back(m::Str(v), |x| x.0.into_bits(), x.human),
                                (2, true) => there_and_back(m::StrOption(o), |x| x.0.map(|x| x.into_bits()), x.human),
                                (_, false) => Outcome::Text(points(&tell::shown(&tell::told(&m::Float(v), x.human)))),
                                (_, true) if x.some => Outcome::Text(points(&tell::shown(&tell::told(&m::FloatOption(o), x.human)))),
                                (_, true) => there_and_back(m::FloatOption(o), |x| x.0.map(|x| x.into_bits()), x.human),
                            }
                        }
                        (Via::ToldWrap, Call::Tell(x)) => {
                            use m::wrap::*;
                            let (v, o) = (Own(n(&x.a)), x.some.then(|| Own(n(&x.a))));
                            match (x.form.usize(), x.opt) {
                                (0, _) => return None,
                                (1, false) => there_and_back(Repr(v), |x| x.0.0.into_bits(), x.human),
                                (1, true) => there_and_back(ReprOption(o), |x| x.0.as_ref().map(|x| x.0.into_bits()), x.human),
                                (2, false) => there_and_back(Str(v), |x| x.0.0.into_bits(), x.human),
                                (2, true) => there_and_back(StrOption(o), |x| x.0.as_ref().map(|x| x.0.into_bits()), x.human),
                                (_, false) => Outcome::Text(points(&tell::shown(&tell::told(&Float(v), x.human)))),
                                (_, true) if x.some => Outcome::Text(points(&tell::shown(&tell::told(&FloatOption(o), x.human)))),
                                (_, true) => there_and_back(FloatOption(o), |x| x.0.as_ref().map(|x| x.0.into_bits()), x.human),
                            }
                        }
                        (Via::Told, Call::IntoF64(x)) => {
                            let f = |words: Vec<Word>, some: bool| match &words[..] {
                                [Word::F64(x)] if !some => Outcome::F64(x.to_bits().into()),
                                [Word::Some, Word::F64(x)] if some => Outcome::F64(x.to_bits().into()),
                                _ => Outcome::Reject,
                            };
                            use m::wrap;
                            agreed([true, false].into_iter().flat_map(|h| [
                                f(tell::told(&m::Float(n(&x.a)), h), false),
                                f(tell::told(&m::FloatOption(Some(n(&x.a))), h), true),
                                f(tell::told(&wrap::Float(wrap::Own(n(&x.a))), h), false),
                                f(tell::told(&wrap::FloatOption(Some(wrap::Own(n(&x.a)))), h), true),
                            ]).collect())
                        }
                        (Via::Told, Call::ViaF64(x)) => {
                            let words = tell::told(&m::Float(n(&x.a)), false);
                            agreed([true, false].into_iter().map(|h| fin(tell::understood::<m::Float<D>>(&words, h, false).map(|x| x.0))).collect())
                        }
                        (Via::Told, Call::FromF64(x)) => {
                            use m::wrap;
                            let f = Word::F64(f64::from_bits(x.bits.u64()));
                            let (one, some) = ([f.clone()], [Word::Some, f]);
                            agreed([true, false].into_iter().flat_map(|h| [
                                fin(tell::understood::<m::Float<D>>(&one, h, false).map(|x| x.0)),
                                fin_opt(tell::understood::<m::FloatOption<D>>(&some, h, false).map(|x| x.0)),
                                fin(tell::understood::<wrap::Float<D>>(&one, h, false).map(|x| x.0.0)),
                                fin_opt(tell::understood::<wrap::FloatOption<D>>(&some, h, false).map(|x| x.0.map(|x| x.0))),
                                if h { fin(tell::understood::<F<D>>(&one, h, false)) } else { fin(tell::understood::<m::Float<D>>(&one, h, false).map(|x| x.0)) },
                            ]).collect())
                        }
                        (Via::Told, Call::Parse(x)) => {
                            use m::wrap;
                            let f = Word::Str(string(&x.s));
                            let (one, some) = ([f.clone()], [Word::Some, f]);
                            agreed([(true, true), (true, false), (false, true), (false, false)].into_iter().flat_map(|(h, t)| [
                                fin(tell::understood::<m::Str<D>>(&one, h, t).map(|x| x.0)),
                                fin_opt(tell::understood::<m::StrOption<D>>(&some, h, t).map(|x| x.0)),
                                fin(tell::understood::<wrap::Str<D>>(&one, h, t).map(|x| x.0.0)),
                                fin_opt(tell::understood::<wrap::StrOption<D>>(&some, h, t).map(|x| x.0.map(|x| x.0))),
                                if h { fin(tell::understood::<F<D>>(&one, h, t)) } else { fin(tell::understood::<m::Str<D>>(&one, h, t).map(|x| x.0)) },
                            ]).collect())
                        }
                        (Via::BinStr, Call::Parse(x)) => {
                            // the length in front
                            let s = string(&x.s);
                            let mut b = (s.len() as u64).to_le_bytes().to_vec();
                            b.extend_from_slice(s.as_bytes());
                            let some = [&[1u8][..], &b[..]].concat();
                            agreed(vec![
                                fin(bincode::deserialize::<m::Str<D>>(&b).map(|x| x.0)),
                                fin(bincode::deserialize_from::<_, m::Str<D>>(&b[..]).map(|x| x.0)),
                                fin_opt(bincode::deserialize::<m::StrOption<D>>(&some).map(|x| x.0)),
                                fin_opt(bincode::deserialize_from::<_, m::StrOption<D>>(&some[..]).map(|x| x.0)),
                            ])
                        }
                        (Via::BinStr, Call::Show(x)) => {
                            let one = bincode::serialize(&m::Str(n(&x.a))).ok()?;
                            let some = bincode::serialize(&m::StrOption(Some(n(&x.a)))).ok()?;
                            if one.len() < 8 || some[0] != 1 || some[1..] != one[..] || one[..8] != (one.len() as u64 - 8).to_le_bytes() {
                                return Some(Outcome::Reject);
                            }
                            match std::str::from_utf8(&one[8..]) {
                                Ok(s) => Outcome::Text(points(s)),
                                Err(_) => Outcome::Reject,
                            }
                        }
                        // wrong types
                        (Via::Bool, Call::RejectType(_)) => fin(F::<D>::deserialize(BoolDeserializer::<E>::new(true))),
                        (Via::Unit, Call::RejectType(_)) => fin(F::<D>::deserialize(UnitDeserializer::<E>::new())),
                        (Via::Array, Call::RejectType(_)) => fin(F::<D>::deserialize(SeqDeserializer::<_, E>::new([1u8, 2].iter().copied()))),
                        (Via::Map, Call::RejectType(_)) => {
                            fin(F::<D>::deserialize(MapDeserializer::<_, E>::new([("value", "1"), ("$value", "1")].iter().copied())))
                        }
                        (Via::Json, Call::RejectType(x)) => {
                            let s = ["true", "false", "null", "[]", "[1]", "{}", "{\"a\":1}", "{\"$value\":true}", "{\"value\":\"1\"}"];
                            fin(serde_json::from_str::<F<D>>(s[x.a.usize() % s.len()]))
                        }
                        (Via::ModStr, Call::RejectType(x)) => {
                            let s = ["true", "1", "null", "[]", "1.5", "{}"];
                            fin(serde_json::from_str::<m::Str<D>>(s[x.a.usize() % s.len()]).map(|x| x.0))
                        }
                        (Via::ModRepr, Call::RejectType(x)) => {
                            let s = ["true", "\"1\"", "null", "[]", "1.5", "{}"];
                            fin(serde_json::from_str::<m::Repr<D>>(s[x.a.usize() % s.len()]).map(|x| x.0))
                        }
                        (Via::ModFloat, Call::RejectType(x)) => {
                            let s = ["true", "\"1\"", "null", "[]", "{}"];
                            fin(serde_json::from_str::<m::Float<D>>(s[x.a.usize() % s.len()]).map(|x| x.0))
                        }
                        (Via::Json, Call::SchemaType) => {
                            let s = schemars::schema_for!(F<D>);
                            let v = serde_json::to_value(&s).unwrap();
                            match v.get("type") {
                                Some(serde_json::Value::String(s)) => Outcome::Text(points(s)),
                                _ => Outcome::Absent,
                            }
                        }
                        _ => return None,
                    })
                }
            }
        };
    }
    /// The only key of an object.
    struct Keys<K>(K);
    impl<'de, K: Deserialize<'de>> Deserialize<'de> for Keys<K> {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct V<K>(PhantomData<K>);
            impl<'de, K: Deserialize<'de>> serde::de::Visitor<'de> for V<K> {
                type Value = Keys<K>;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("an object")
                }
                fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Keys<K>, A::Error> {
                    let (k, _) = a.next_entry::<K, u8>()?.ok_or_else(|| serde::de::Error::custom("empty"))?;
                    Ok(Keys(k))
                }
            }
            d.deserialize_map(V(PhantomData))
        }
    }
    /// A key of a map that may be of any type.
    struct Unordered<T>(T);
    impl<T> PartialEq for Unordered<T> {
        fn eq(&self, _: &Self) -> bool {
            true
        }
    }
    impl<T> std::cmp::Eq for Unordered<T> {}
    impl<T> PartialOrd for Unordered<T> {
        fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
            Some(self.cmp(o))
        }
    }
    impl<T> std::cmp::Ord for Unordered<T> {
        fn cmp(&self, _: &Self) -> std::cmp::Ordering {
            std::cmp::Ordering::Equal
        }
    }
    impl<T: Serialize> Serialize for Unordered<T> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.0.serialize(s)
        }
    }
    /// A deserializer that presents a value as a newtype struct.
    struct Newtype<T>(T);
    trait IntoNewtype: Sized {
        fn newtype(self) -> Newtype<Self> {
            Newtype(self)
        }
    }
    impl<T> IntoNewtype for T {}
    impl<'de, T: serde::Deserializer<'de>> serde::Deserializer<'de> for Newtype<T> {
        type Error = T::Error;
        fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, T::Error> {
            v.visit_newtype_struct(self.0)
        }
        serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
            unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
        }
    }

    #[cfg(feature = "i16")]
    probe!(i16, u16, m16);
    #[cfg(feature = "i32")]
    probe!(i32, u32, m32);
    #[cfg(feature = "i64")]
    probe!(i64, u64, m64);
    #[cfg(feature = "i128")]
    probe!(i128, u128, m128);

    macro_rules! table {
        ($I:ident; $($p:literal $D:ident),* $(,)?) => {
            &[$(($p, &P::<$I, $D>(PhantomData) as &dyn Probe)),*]
        };
    }
    fn table(w: u32) -> &'static [(u32, &'static dyn Probe)] {
        match w {
            #[cfg(feature = "i16")]
            16 => table!(i16; 0 U0, 2 U2, 4 U4),
            #[cfg(feature = "i32")]
            32 => table!(i32; 0 U0, 4 U4, 9 U9),
            #[cfg(feature = "i64")]
            64 => table!(i64; 0 U0, 9 U9, 18 U18),
            #[cfg(feature = "i128")]
            128 => table!(i128; 0 U0, 18 U18, 38 U38),
            _ => &[],
        }
    }
    /// A record of numbers of many types.
    #[cfg(all(feature = "i16", feature = "i32", feature = "i64", feature = "i128"))]
    type Record = (
        FixedPoint<i16, U2>,
        FixedPoint<i32, U9>,
        FixedPoint<i64, U0>,
        FixedPoint<i64, U9>,
        FixedPoint<i128, U18>,
        FixedPoint<i128, U38>,
        Option<FixedPoint<i32, U4>>,
        Vec<FixedPoint<i64, U18>>,
    );
    /// Schemas and values described by them, one pair a line.
    pub fn schemas(numbers: &dyn Fn(u32, u32) -> Vec<i128>) -> String {
        let mut out = String::new();
        for w in [16, 32, 64, 128] {
            for (p, x) in table(w) {
                let schema = x.schema();
                for a in numbers(w, *p) {
                    let j = serde_json::json!({"w": w, "p": p, "a": a.to_string(), "schema": schema, "value": x.write(a)});
                    out += &(j.to_string() + "\n");
                }
            }
        }
        #[cfg(all(feature = "i16", feature = "i32", feature = "i64", feature = "i128"))]
        {
            let schema = schemars::schema_for!(Record);
            for i in 0..20 {
                let n = |w, p| numbers(w, p)[i];
                let r: Record = (
                    FixedPoint::from_bits(n(16, 2) as i16),
                    FixedPoint::from_bits(n(32, 9) as i32),
                    FixedPoint::from_bits(n(64, 0) as i64),
                    FixedPoint::from_bits(n(64, 9) as i64),
                    FixedPoint::from_bits(n(128, 18)),
                    FixedPoint::from_bits(n(128, 38)),
                    (i % 3 > 0).then(|| FixedPoint::from_bits(n(32, 4) as i32)),
                    (0..i % 4).map(|k| FixedPoint::from_bits(numbers(64, 18)[k + i] as i64)).collect(),
                );
                let j = serde_json::json!({"record": true, "schema": schema, "value": serde_json::to_value(&r).unwrap()});
                out += &(j.to_string() + "\n");
            }
        }
        out
    }
    pub fn precisions(w: u32) -> Vec<u32> {
        if crate::fx::fps(w).is_empty() {
            return vec![];
        }
        table(w).iter().map(|x| x.0).collect()
    }
    pub fn exec(w: u32, p: u32, via: Via, c: &Call) -> Option<Outcome> {
        table(w).iter().find(|x| x.0 == p)?.1.exec(via, c)
    }
}
