//! Executes calls of the specification on the real library.

use crate::spec::*;
use crate::via::Via;
use crate::z::{zi, Z};
use fixnum::ops::{
    Bounded, CheckedAdd, CheckedMul, CheckedSub, One, RoundMode, RoundingDiv, RoundingMul,
};
use fixnum::{typenum::*, ArithmeticError, ConvertError, FixedPoint};
use std::marker::PhantomData;

pub trait Probe: Sync {
    /// `None`: this entry point does not exist for this type.
    fn exec(&self, via: Via, c: &Call) -> Option<Outcome>;
}

pub fn mode(m: &Mode) -> RoundMode {
    match m {
        Mode::Floor => RoundMode::Floor,
        Mode::Nearest => RoundMode::Nearest,
        Mode::Ceil => RoundMode::Ceil,
    }
}
pub fn arith<T: Into<Z>>(r: Result<T, ArithmeticError>) -> Outcome {
    match r {
        Ok(x) => Outcome::Ret(x.into()),
        Err(ArithmeticError::Overflow) => Outcome::Overflow,
        Err(ArithmeticError::DivisionByZero) => Outcome::DivisionByZero,
        Err(ArithmeticError::DomainViolation) => Outcome::DomainViolation,
        Err(_) => Outcome::Reject,
    }
}
pub fn conv<T: Into<Z>>(r: Result<T, ConvertError>) -> Outcome {
    match r {
        Ok(x) => Outcome::Ret(x.into()),
        Err(_) => Outcome::Reject,
    }
}
pub fn string(s: &[Z]) -> String {
    s.iter().map(|c| char::from_u32(c.u64() as u32).expect("code point")).collect()
}
pub fn points(s: &str) -> Vec<Z> {
    s.chars().map(|c| Z::from(c as u32)).collect()
}
fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// A writer that takes only so many bytes.
struct Full {
    room: usize,
    got: String,
}
impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = s.len().min(self.room - self.got.len());
        self.got.push_str(&s[..n]);
        if n == s.len() { Ok(()) } else { Err(std::fmt::Error) }
    }
}
fn into(room: usize, f: impl Fn(&mut Full) -> std::fmt::Result) -> Outcome {
    let mut w = Full { room, got: String::new() };
    match f(&mut w) {
        Ok(()) => Outcome::Text(points(&w.got)),
        Err(_) => Outcome::Cut(points(&w.got)),
    }
}

/// A user's number that implements only the required methods of the traits, so
/// that its saturating operations are the ones provided by the traits.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct User<T>(T);
impl<T: CheckedAdd<Output = T, Error = ArithmeticError>> CheckedAdd for User<T> {
    type Output = User<T>;
    type Error = ArithmeticError;
    fn cadd(self, rhs: Self) -> Result<Self, ArithmeticError> {
        self.0.cadd(rhs.0).map(User)
    }
}
impl<T: CheckedSub<Output = T, Error = ArithmeticError>> CheckedSub for User<T> {
    type Output = User<T>;
    type Error = ArithmeticError;
    fn csub(self, rhs: Self) -> Result<Self, ArithmeticError> {
        self.0.csub(rhs.0).map(User)
    }
}
impl<I, T: CheckedMul<I, Output = T, Error = ArithmeticError>> CheckedMul<I> for User<T> {
    type Output = User<T>;
    type Error = ArithmeticError;
    fn cmul(self, rhs: I) -> Result<Self, ArithmeticError> {
        self.0.cmul(rhs).map(User)
    }
}
impl<T: fixnum::ops::Zero> fixnum::ops::Zero for User<T> {
    const ZERO: Self = User(T::ZERO);
}
impl<T: Bounded> Bounded for User<T> {
    const MIN: Self = User(T::MIN);
    const MAX: Self = User(T::MAX);
}

pub struct IntProbe<I>(PhantomData<I>);
pub struct FpProbe<I, P>(PhantomData<fn() -> (I, P)>);

macro_rules! int_probe {
    ($I:ident) => {
        impl Probe for IntProbe<$I> {
            fn exec(&self, via: Via, c: &Call) -> Option<Outcome> {
                let n = |z: &Z| $I::try_from(z.i128()).unwrap();
                let ret = |x: $I| Outcome::Ret(x.into());
                if via == Via::User {
                    return Some(match c {
                        Call::SAdd(x) => ret(User(n(&x.a)).saturating_add(User(n(&x.b))).0),
                        Call::SSub(x) => ret(User(n(&x.a)).saturating_sub(User(n(&x.b))).0),
                        Call::SMul(x) => ret(User(n(&x.a)).saturating_mul(n(&x.b)).0),
                        _ => return None,
                    });
                }
                Some(match c {
                    Call::CAdd(x) => arith(n(&x.a).cadd(n(&x.b))),
                    Call::SAdd(x) => ret(CheckedAdd::saturating_add(n(&x.a), n(&x.b))),
                    Call::CSub(x) => arith(n(&x.a).csub(n(&x.b))),
                    Call::SSub(x) => ret(CheckedSub::saturating_sub(n(&x.a), n(&x.b))),
                    Call::CMul(x) => arith(n(&x.a).cmul(n(&x.b))),
                    Call::SMul(x) => ret(CheckedMul::saturating_mul(n(&x.a), n(&x.b))),
                    Call::RDivInt(x) => arith(n(&x.a).rdiv(n(&x.b), mode(&x.mode))),
                    Call::Zero(_) => ret(<$I as fixnum::ops::Zero>::ZERO),
                    Call::One(x) if x.p == zi(0) => ret(<$I as One>::ONE),
                    Call::Least(_) => ret(<$I as Bounded>::MIN),
                    Call::Greatest(_) => ret(<$I as Bounded>::MAX),
                    _ => return None,
                })
            }
        }
    };
}

macro_rules! fp_probe {
    ($I:ident) => {
        impl<P: Unsigned + std::cmp::Ord + std::hash::Hash + Default + 'static> Probe for FpProbe<$I, P> {
            fn exec(&self, via: Via, c: &Call) -> Option<Outcome> {
                type F<P> = FixedPoint<$I, P>;
                let i = |z: &Z| $I::try_from(z.i128()).unwrap();
                let n = |z: &Z| F::<P>::from_bits(i(z));
                let ret = |x: F<P>| Outcome::Ret(x.into_bits().into());
                let int = |x: $I| Outcome::Ret(x.into());
                let ar = |r: Result<F<P>, ArithmeticError>| arith(r.map(F::<P>::into_bits));
                let cv = |r: Result<F<P>, ConvertError>| conv(r.map(F::<P>::into_bits));
                Some(match (via, c) {
                    (Via::Fp, Call::CAdd(x)) => ar(n(&x.a).cadd(n(&x.b))),
                    (Via::Fp, Call::SAdd(x)) => ret(n(&x.a).saturating_add(n(&x.b))),
                    (Via::Fp, Call::CSub(x)) => ar(n(&x.a).csub(n(&x.b))),
                    (Via::Fp, Call::SSub(x)) => ret(n(&x.a).saturating_sub(n(&x.b))),
                    (Via::Fp, Call::CMul(x)) => ar(n(&x.a).cmul(i(&x.b))),
                    (Via::Fp, Call::SMul(x)) => ret(n(&x.a).saturating_mul(i(&x.b))),
                    (Via::IntFp, Call::CMul(x)) => ar(i(&x.a).cmul(n(&x.b))),
                    (Via::IntFp, Call::SMul(x)) => ret(CheckedMul::saturating_mul(i(&x.a), n(&x.b))),
                    (Via::User, Call::SAdd(x)) => ret(User(n(&x.a)).saturating_add(User(n(&x.b))).0),
                    (Via::User, Call::SSub(x)) => ret(User(n(&x.a)).saturating_sub(User(n(&x.b))).0),
                    (Via::User, Call::SMul(x)) => ret(User(n(&x.a)).saturating_mul(i(&x.b)).0),
                    (Via::Fp, Call::CNeg(x)) => ar(n(&x.a).cneg()),
                    (Via::Fp, Call::Abs(x)) => ar(n(&x.a).abs()),
                    (Via::Fp, Call::Signum(x)) => int(n(&x.a).signum()),
                    (Via::Fp, Call::RMul(x)) => ar(n(&x.a).rmul(n(&x.b), mode(&x.mode))),
                    (Via::Fp, Call::SRMul(x)) => ret(n(&x.a).saturating_rmul(n(&x.b), mode(&x.mode))),
                    (Via::Fp, Call::RDiv(x)) => ar(n(&x.a).rdiv(n(&x.b), mode(&x.mode))),
                    (Via::Fp, Call::Recip(x)) => ar(n(&x.a).recip(mode(&x.mode))),
                    (Via::Fp, Call::RDivInt(x)) => ar(n(&x.a).rdiv(i(&x.b), mode(&x.mode))),
                    (Via::Fp, Call::IntRDiv(x)) => ar(i(&x.a).rdiv(n(&x.b), mode(&x.mode))),
                    (Via::Fp, Call::Sqrt(x)) => ar(n(&x.a).rsqrt(mode(&x.mode))),
                    (Via::Fp, Call::Integral(x)) => int(n(&x.a).integral(mode(&x.mode))),
                    (Via::Fp, Call::RoundTo(x)) => ret(match x.mode {
                        Mode::Floor => n(&x.a).floor(),
                        Mode::Nearest => n(&x.a).round(),
                        Mode::Ceil => n(&x.a).ceil(),
                    }),
                    (Via::Fp, Call::HalfSum(x)) => ret(F::<P>::half_sum(n(&x.a), n(&x.b), mode(&x.mode))),
                    (Via::Fp, Call::NextPow10(x)) => ar(n(&x.a).next_power_of_ten()),
                    (Via::Fp, Call::TruncBy(x)) => ret(n(&x.a).round_towards_zero_by(n(&x.b))),
                    (Via::Fp, Call::FromDec(x)) => cv(F::<P>::from_decimal(i(&x.m), x.e.i32())),
                    (Via::Fp, Call::ToDec(x)) => {
                        let (m, e) = n(&x.m).to_decimal(x.e.i32());
                        Outcome::Decimal(R_e_m { m: m.into(), e: e.into() })
                    }
                    (Via::Fp, Call::Parse(x)) => cv(string(&x.s).parse::<F<P>>()),
                    (Via::Fp, Call::ParseExact(x)) => cv(F::<P>::from_str_exact(&string(&x.s))),
                    (Via::Display, Call::Show(x)) => Outcome::Text(points(&format!("{}", n(&x.a)))),
                    (Via::Debug, Call::Show(x)) => Outcome::Text(points(&format!("{:?}", n(&x.a)))),
                    (Via::Display, Call::ShowInto(x)) => into(x.room.usize(), |f| std::fmt::Write::write_fmt(f, format_args!("{}", n(&x.a)))),
                    (Via::Debug, Call::ShowInto(x)) => into(x.room.usize(), |f| std::fmt::Write::write_fmt(f, format_args!("{:?}", n(&x.a)))),
                    (Via::DisplayShort, Call::Show(x)) => Outcome::Text(points(&format!("{:.1}", n(&x.a)))),
                    (Via::DebugShort, Call::Show(x)) => Outcome::Text(points(&format!("{:#.2?}", n(&x.a)))),
                    (Via::Fp, Call::FromF64(x)) => cv(F::<P>::try_from(f64::from_bits(x.bits.u64()))),
                    (Via::Fp, Call::IntoF64(x)) => Outcome::F64(f64::from(n(&x.a)).to_bits().into()),
                    (Via::Fp, Call::ViaF64(x)) => cv(F::<P>::try_from(f64::from(n(&x.a)))),
                    (Via::Fp, Call::Compare(x)) => {
                        let (a, b) = (n(&x.a), n(&x.b));
                        let o = a.cmp(&b);
                        // all comparison operators tell the same story
                        let same = a.partial_cmp(&b) == Some(o)
                            && (a < b) == (o.is_lt()) && (a <= b) == (o.is_le())
                            && (a > b) == (o.is_gt()) && (a >= b) == (o.is_ge())
                            && (if o.is_lt() { (a.max(b), a.min(b)) == (b, a) } else { (a.max(b), a.min(b)) == (a, b) })
                            && (if o.is_le() { a.clamp(a, b) == a && b.clamp(a, b) == b } else { a.clamp(b, b) == b });
                        if same { Outcome::Ret(zi(o as i128)) } else { Outcome::Absent }
                    }
                    (Via::Fp, Call::Same(x)) => {
                        let (a, b) = (n(&x.a), n(&x.b));
                        #[allow(clippy::nonminimal_bool)]
                        if (a == b) == !(a != b) { Outcome::Truth(a == b) } else { Outcome::Absent }
                    }
                    (Via::Fp, Call::SameHash(x)) => Outcome::Truth(hash_of(&n(&x.a)) == hash_of(&n(&x.b))),
                    (Via::Fp, Call::Zero(_)) => ret(<F<P> as fixnum::ops::Zero>::ZERO),
                    (Via::Fp, Call::One(_)) => ret(<F<P> as One>::ONE),
                    (Via::Fp, Call::Least(_)) => ret(<F<P> as Bounded>::MIN),
                    (Via::Fp, Call::Greatest(_)) => ret(<F<P> as Bounded>::MAX),
                    (Via::Fp, Call::Epsilon(_)) => ret(F::<P>::EPSILON),
                    (Via::Fp, Call::Digits(_)) => Outcome::Ret(F::<P>::PRECISION.into()),
                    (Via::Fp, Call::Default(_)) => ret(F::<P>::default()),
                    (Via::Fp, Call::Bits(x)) => {
                        let f = n(&x.a);
                        let (r, g) = (*f.as_bits(), f.clone());
                        if r == g.into_bits() { int(r) } else { Outcome::Absent }
                    }
                    (_, Call::FromInt(x)) => {
                        macro_rules! from {
                            ($v:ty) => {
                                cv(F::<P>::try_from(match <$v>::try_from(x.a.to_i128()?) {
                                    Ok(v) => v,
                                    Err(_) => return None,
                                }))
                            };
                        }
                        match via {
                            Via::I8 => from!(i8),
                            Via::I16 => from!(i16),
                            Via::I32 => from!(i32),
                            Via::I64 => from!(i64),
                            Via::I128 => from!(i128),
                            Via::Isize => from!(isize),
                            Via::U8 => from!(u8),
                            Via::U16 => from!(u16),
                            Via::U32 => from!(u32),
                            Via::U64 => from!(u64),
                            Via::Usize => from!(usize),
                            Via::U128 => cv(F::<P>::try_from(x.a.to_u128()?)),
                            _ => return None,
                        }
                    }
                    _ => return None,
                })
            }
        }
    };
}

int_probe!(i8);
#[cfg(feature = "i16")]
fp_probe!(i16);
int_probe!(i16);
#[cfg(feature = "i32")]
fp_probe!(i32);
int_probe!(i32);
#[cfg(feature = "i64")]
fp_probe!(i64);
int_probe!(i64);
#[cfg(feature = "i128")]
fp_probe!(i128);
int_probe!(i128);

macro_rules! table {
    ($I:ident; $($p:literal $P:ident),* $(,)?) => {
        &[$(($p, &FpProbe::<$I, $P>(PhantomData) as &dyn Probe)),*]
    };
}
/// Restricts the plans to one layout, so that they make the same calls in every
/// configuration that has it.
pub static ONLY: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
pub fn fps(w: u32) -> &'static [(u32, &'static dyn Probe)] {
    let only = ONLY.load(std::sync::atomic::Ordering::Relaxed);
    if only == 0 || only == w { all_fps(w) } else { &[] }
}
fn all_fps(w: u32) -> &'static [(u32, &'static dyn Probe)] {
    match w {
        #[cfg(feature = "i16")]
        16 => table!(i16; 0 U0, 1 U1, 2 U2, 3 U3, 4 U4),
        #[cfg(feature = "i32")]
        32 => table!(i32; 0 U0, 1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8, 9 U9),
        #[cfg(feature = "i64")]
        64 => table!(i64; 0 U0, 1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8, 9 U9, 10 U10, 11 U11, 12 U12,
            13 U13, 14 U14, 15 U15, 16 U16, 17 U17, 18 U18),
        #[cfg(feature = "i128")]
        128 => table!(i128; 0 U0, 1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8, 9 U9, 10 U10, 11 U11, 12 U12,
            13 U13, 14 U14, 15 U15, 16 U16, 17 U17, 18 U18, 19 U19, 20 U20, 21 U21, 22 U22, 23 U23, 24 U24,
            25 U25, 26 U26, 27 U27, 28 U28, 29 U29, 30 U30, 31 U31, 32 U32, 33 U33, 34 U34, 35 U35, 36 U36,
            37 U37, 38 U38),
        _ => &[],
    }
}
pub fn fp(w: u32, p: u32) -> Option<&'static dyn Probe> {
    all_fps(w).iter().find(|x| x.0 == p).map(|x| x.1)
}
pub fn int(w: u32) -> Option<&'static dyn Probe> {
    Some(match w {
        8 => &IntProbe::<i8>(PhantomData),
        16 => &IntProbe::<i16>(PhantomData),
        32 => &IntProbe::<i32>(PhantomData),
        64 => &IntProbe::<i64>(PhantomData),
        128 => &IntProbe::<i128>(PhantomData),
        _ => return None,
    })
}

/// Executes a call.  `None`: there is no such entry point.
pub fn exec(w: u32, p: u32, via: Via, c: &Call) -> Option<Outcome> {
    match via {
        Via::Int => int(w)?.exec(via, c),
        Via::Wrap => crate::wrap::exec(w, p, c),
        Via::User if fp(w, p).is_none() => int(w)?.exec(via, c),
        v if v >= Via::SerdeStr => crate::codec::exec(w, p, via, c),
        _ => fp(w, p)?.exec(via, c),
    }
}
