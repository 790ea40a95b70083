//! Calls made through wrapper types defined with `impl_op!`.

use crate::fx::{arith, mode};
use crate::spec::*;
use crate::z::Z;
use fixnum::ops::{Bounded, CheckedAdd, CheckedMul, CheckedSub, RoundingDiv, RoundingMul};
use fixnum::{impl_op, typenum::*, FixedPoint};

macro_rules! wrap {
    ($m:ident, $I:ident, $P:ident, $N:ident) => {
        mod $m {
            use super::*;
            pub type Fp = FixedPoint<$I, $P>;
            // a domain in the style of the crate's documentation
            macro_rules! wrapper {
                ($n:ident, $t:ty) => {
                    #[derive(Debug, Clone, Copy, PartialEq, PartialOrd, Eq, Ord)]
                    pub struct $n(pub $t);
                    impl From<$t> for $n {
                        fn from(x: $t) -> Self {
                            Self(x)
                        }
                    }
                    impl fixnum::ops::Zero for $n {
                        const ZERO: Self = $n(<$t as fixnum::ops::Zero>::ZERO);
                    }
                    impl Bounded for $n {
                        const MIN: Self = $n(<$t as Bounded>::MIN);
                        const MAX: Self = $n(<$t as Bounded>::MAX);
                    }
                };
            }
            wrapper!(Size, $I);
            wrapper!(Count, $N); // a narrower integer, which gets promoted
            wrapper!(Price, Fp);
            wrapper!(PriceDelta, Fp);
            wrapper!(Amount, Fp);
            wrapper!(Ratio, Fp);

            impl_op!(Size [cadd] Size = Size);
            impl_op!(Size [csub] Size = Size);
            impl_op!(Size [rdiv] Size = Ratio);
            impl_op!(Size [cmul] Price = Amount);
            impl_op!(Price [csub] Price = PriceDelta);
            impl_op!(Price [cadd] PriceDelta = Price);
            impl_op!(Price [rdiv] Price = Ratio);
            impl_op!(Price [rmul] Ratio = Price);
            impl_op!(Price [cmul] Size = Amount);
            impl_op!(Price [rdiv] Size = Price);
            impl_op!(Size [rdiv] Price = Ratio);
            impl_op!(PriceDelta [cadd] PriceDelta = PriceDelta);
            impl_op!(Amount [cadd] Amount = Amount);
            impl_op!(Amount [csub] Amount = Amount);
            impl_op!(Count [cmul] Price = Amount);
            impl_op!(Price [cmul] Count = Amount);
            impl_op!(Price [rdiv] Count = Price);
            impl_op!(Count [rdiv] Price = Ratio);
            impl_op!(Count [rdiv] Count = Ratio);
            impl_op!(Size [cadd] Count = Size);

            pub fn exec(c: &Call, narrow: bool) -> Option<Outcome> {
                let i = |z: &Z| $I::try_from(z.i128()).unwrap();
                let n = |z: &Z| Fp::from_bits(i(z));
                macro_rules! out {
                    ($e:expr) => {
                        arith($e.map(|x| x.0.into_bits()))
                    };
                }
                macro_rules! val {
                    ($e:expr) => {
                        Outcome::Ret($e.0.into_bits().into())
                    };
                }
                macro_rules! count {
                    ($z:expr) => {
                        Count($N::try_from($z.to_i128()?).ok()?)
                    };
                }
                Some(match c {
                    // several pairs of types share a call: pick by operand parity
                    Call::CAdd(x) => match (x.a.i128() & 1, x.b.i128() & 1) {
                        (0, 0) => out!(Amount(n(&x.a)).cadd(Amount(n(&x.b)))),
                        (0, _) => out!(Price(n(&x.a)).cadd(PriceDelta(n(&x.b)))),
                        (_, 0) => out!(PriceDelta(n(&x.a)).cadd(PriceDelta(n(&x.b)))),
                        _ => match narrow {
                            false => arith(Size(i(&x.a)).cadd(Size(i(&x.b))).map(|x| x.0)),
                            true => arith(Size(i(&x.a)).cadd(count!(x.b)).map(|x| x.0)),
                        },
                    },
                    Call::SAdd(x) => match (x.a.i128() & 1, x.b.i128() & 1) {
                        (0, 0) => val!(Amount(n(&x.a)).saturating_add(Amount(n(&x.b)))),
                        (0, _) => val!(Price(n(&x.a)).saturating_add(PriceDelta(n(&x.b)))),
                        (_, 0) => val!(PriceDelta(n(&x.a)).saturating_add(PriceDelta(n(&x.b)))),
                        _ => Outcome::Ret(Size(i(&x.a)).saturating_add(Size(i(&x.b))).0.into()),
                    },
                    Call::CSub(x) => match x.a.i128() & 1 {
                        0 => out!(Amount(n(&x.a)).csub(Amount(n(&x.b)))),
                        _ => match x.b.i128() & 1 {
                            0 => out!(Price(n(&x.a)).csub(Price(n(&x.b)))),
                            _ => arith(Size(i(&x.a)).csub(Size(i(&x.b))).map(|x| x.0)),
                        },
                    },
                    Call::SSub(x) => match x.a.i128() & 1 {
                        0 => val!(Amount(n(&x.a)).saturating_sub(Amount(n(&x.b)))),
                        _ => val!(Price(n(&x.a)).saturating_sub(Price(n(&x.b)))),
                    },
                    Call::CMul(x) if narrow => match x.b.i128() & 1 {
                        0 => out!(Price(n(&x.a)).cmul(count!(x.b))),
                        _ => out!(count!(x.a).cmul(Price(n(&x.b)))),
                    },
                    Call::SMul(x) if narrow => match x.b.i128() & 1 {
                        0 => val!(Price(n(&x.a)).saturating_mul(count!(x.b))),
                        _ => val!(count!(x.a).saturating_mul(Price(n(&x.b)))),
                    },
                    Call::CMul(x) => match x.b.i128() & 1 {
                        0 => out!(Price(n(&x.a)).cmul(Size(i(&x.b)))),
                        _ => out!(Size(i(&x.a)).cmul(Price(n(&x.b)))),
                    },
                    Call::SMul(x) => match x.b.i128() & 1 {
                        0 => val!(Price(n(&x.a)).saturating_mul(Size(i(&x.b)))),
                        _ => val!(Size(i(&x.a)).saturating_mul(Price(n(&x.b)))),
                    },
                    Call::RMul(x) => out!(Price(n(&x.a)).rmul(Ratio(n(&x.b)), mode(&x.mode))),
                    Call::SRMul(x) => val!(Price(n(&x.a)).saturating_rmul(Ratio(n(&x.b)), mode(&x.mode))),
                    Call::RDiv(x) => out!(Price(n(&x.a)).rdiv(Price(n(&x.b)), mode(&x.mode))),
                    Call::RDivInt(x) if narrow => out!(Price(n(&x.a)).rdiv(count!(x.b), mode(&x.mode))),
                    Call::RDivInt(x) => out!(Price(n(&x.a)).rdiv(Size(i(&x.b)), mode(&x.mode))),
                    Call::IntRDiv(x) if narrow => out!(count!(x.a).rdiv(Price(n(&x.b)), mode(&x.mode))),
                    Call::IntRDiv(x) => out!(Size(i(&x.a)).rdiv(Price(n(&x.b)), mode(&x.mode))),
                    Call::IntRatio(x) if narrow => out!(count!(x.a).rdiv(count!(x.b), mode(&x.mode))),
                    Call::IntRatio(x) => out!(Size(i(&x.a)).rdiv(Size(i(&x.b)), mode(&x.mode))),
                    _ => return None,
                })
            }
        }
    };
}

#[cfg(feature = "i16")]
wrap!(w16p2, i16, U2, i8);
#[cfg(feature = "i16")]
wrap!(w16p0, i16, U0, i8);
#[cfg(feature = "i32")]
wrap!(w32p4, i32, U4, i16);
#[cfg(feature = "i64")]
wrap!(w64p9, i64, U9, i32);
#[cfg(feature = "i64")]
wrap!(w64p18, i64, U18, i8);
#[cfg(feature = "i128")]
wrap!(w128p18, i128, U18, i64);
#[cfg(feature = "i128")]
wrap!(w128p38, i128, U38, i16);

const FORMATS: &[(u32, u32, u32)] = &[
    // (bits, precision, bits of the narrower integer)
    #[cfg(feature = "i16")]
    (16, 2, 8),
    #[cfg(feature = "i16")]
    (16, 0, 8),
    #[cfg(feature = "i32")]
    (32, 4, 16),
    #[cfg(feature = "i64")]
    (64, 9, 32),
    #[cfg(feature = "i64")]
    (64, 18, 8),
    #[cfg(feature = "i128")]
    (128, 18, 64),
    #[cfg(feature = "i128")]
    (128, 38, 16),
];

pub fn formats() -> Vec<(u32, u32, u32)> {
    FORMATS.iter().copied().filter(|f| !crate::fx::fps(f.0).is_empty()).collect()
}

/// The narrow integer type is used whenever the integer operand fits into it.
pub fn exec(w: u32, p: u32, c: &Call) -> Option<Outcome> {
    let one = |narrow| match (w, p) {
        #[cfg(feature = "i16")]
        (16, 2) => w16p2::exec(c, narrow),
        #[cfg(feature = "i16")]
        (16, 0) => w16p0::exec(c, narrow),
        #[cfg(feature = "i32")]
        (32, 4) => w32p4::exec(c, narrow),
        #[cfg(feature = "i64")]
        (64, 9) => w64p9::exec(c, narrow),
        #[cfg(feature = "i64")]
        (64, 18) => w64p18::exec(c, narrow),
        #[cfg(feature = "i128")]
        (128, 18) => w128p18::exec(c, narrow),
        #[cfg(feature = "i128")]
        (128, 38) => w128p38::exec(c, narrow),
        _ => None,
    };
    let wide = one(false)?;
    match one(true) {
        // both must answer alike; if not, report the one the specification rejects
        Some(n) if n != wide => Some(if accept(c, &wide) { n } else { wide }),
        _ => Some(wide),
    }
}
