//! Which calls decide which property.

use crate::gen::{self, *};
use crate::run::Sink;
use crate::spec::{Bin, Call, Dec, Limited, Mode, Opt, Outcome, RBin, RUn, R_bits_p_w, R_bytes_opt_w, R_bytes_compact_opt_w, R_bytes_w, Str, Un};
use crate::via::Via;
use crate::z::{zi, Z};

pub type Job = Box<dyn Fn(&mut Sink) + Send + Sync>;

pub struct Plan {
    pub jobs: Vec<Job>,
    /// random cases per family
    scale: f64,
    /// how far into its family a job is: 0 (also for those without) to 1
    depth: Vec<f64>,
}

/// A type of the library: bits and precision.
pub type Fmt = (u32, u32);
pub fn formats() -> Vec<Fmt> {
    [16, 32, 64, 128].iter().flat_map(|&w| crate::fx::fps(w).iter().map(move |x| (w, x.0))).collect()
}
/// Formats weighted so that every layout gets its share, and extremes more.
fn any_format(r: &mut crate::rng::Rng) -> Fmt {
    thread_local! { static LAYOUTS: Vec<u32> = [16, 32, 64, 128].into_iter().filter(|&w| !crate::fx::fps(w).is_empty()).collect() }
    let w = LAYOUTS.with(|l| if r.chance(40) { *l.last().unwrap() } else { *r.pick(l) });
    let top = max_p(w);
    let p = match r.below(8) {
        0 => 0,
        1 => top,
        2 => top / 2,
        _ => r.below(top as u64 + 1) as u32,
    };
    (w, p)
}
fn int_width(r: &mut crate::rng::Rng) -> u32 {
    *r.pick(&[8, 16, 32, 64, 64, 128, 128])
}
fn any_mode(r: &mut crate::rng::Rng) -> Mode {
    r.pick(&MODES).clone()
}
pub fn un(w: u32, p: u32, a: i128) -> Un {
    Un { w: w.into(), p: p.into(), a: zi(a) }
}
pub fn bin(w: u32, a: i128, b: i128) -> Bin {
    Bin { w: w.into(), a: zi(a), b: zi(b) }
}
pub fn run(w: u32, p: u32, a: i128, mode: &Mode) -> RUn {
    RUn { w: w.into(), p: p.into(), a: zi(a), mode: mode.clone() }
}
pub fn rbin(w: u32, p: u32, a: i128, b: i128, mode: &Mode) -> RBin {
    RBin { w: w.into(), p: p.into(), a: zi(a), b: zi(b), mode: mode.clone() }
}
pub fn strc(w: u32, p: u32, s: &str) -> Str {
    Str { w: w.into(), p: p.into(), s: crate::fx::points(s) }
}

const CHUNK: u64 = 4000;
impl Plan {
    fn random(&mut self, n: u64, f: impl Fn(&mut Sink) + Send + Sync + Copy + 'static) {
        let n = (n as f64 * self.scale) as u64;
        let chunks = n.div_ceil(CHUNK);
        for k in 0..chunks {
            self.depth.resize(self.jobs.len(), 0.0);
            self.depth.push(k as f64 / chunks as f64);
            self.jobs.push(Box::new(move |s| {
                for i in 0..CHUNK {
                    if i % 64 == 0 && s.over() {
                        return;
                    }
                    f(s);
                }
            }));
        }
    }
    fn append(&mut self, o: Plan) {
        self.depth.resize(self.jobs.len(), 0.0);
        self.depth.extend(o.depth);
        self.jobs.extend(o.jobs);
    }
    /// The jobs in an order that leaves no family out when time runs out.
    pub fn order(&self) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.jobs.len()).collect();
        v.sort_by(|&a, &b| {
            let depth = |i: usize| self.depth.get(i).copied().unwrap_or(0.0);
            depth(a).total_cmp(&depth(b))
        });
        v
    }
    /// All values of a small layout, for every precision.
    fn all16(&mut self, f: impl Fn(&mut Sink, u32, i128) + Send + Sync + Copy + 'static) {
        for &(p, _) in crate::fx::fps(16) {
            for part in 0..8i128 {
                self.depth.resize(self.jobs.len(), 0.0);
                self.depth.push(part as f64 / 8.0);
                self.jobs.push(Box::new(move |s| {
                    for a in part * 8192 - 32768..(part + 1) * 8192 - 32768 {
                        if a % 64 == 0 && s.over() {
                            return;
                        }
                        f(s, p, a);
                    }
                }));
            }
        }
    }
    /// All pairs of bytes.
    fn all8(&mut self, f: impl Fn(&mut Sink, i128, i128) + Send + Sync + Copy + 'static) {
        for part in 0..8i128 {
            self.jobs.push(Box::new(move |s| {
                for a in part * 32 - 128..(part + 1) * 32 - 128 {
                    if s.over() {
                        return;
                    }
                    for b in -128..128 {
                        f(s, a, b);
                    }
                }
            }));
        }
    }
    /// Every format once.
    fn each(&mut self, f: impl Fn(&mut Sink, u32, u32) + Send + Sync + Copy + 'static) {
        for (w, p) in formats() {
            self.jobs.push(Box::new(move |s| {
                if !s.over() {
                    f(s, w, p)
                }
            }));
        }
    }
}

/// The numbers every format should be tried with.
pub fn corners(w: u32, p: u32) -> Vec<i128> {
    use std::num::Wrapping as W;
    let (hi, lo) = (W(gen::hi(w)), W(gen::lo(w)));
    let (one, two) = (W(1), W(2));
    let mut v = vec![W(0)];
    for d in 0..4 {
        let d = W(d);
        v.extend([d, -d, hi - d, lo + d, hi / two + d, lo / two - d, hi / two - d, lo / two + d]);
    }
    for k in 0..=max_p(w) {
        let x = W(pow10(k));
        for d in [-one, W(0), one] {
            v.extend([x + d, -x + d, hi / x + d, lo / x + d, x / two + d, -(x / two) + d]);
            if let Some(y) = x.0.checked_mul(5) {
                v.extend([W(y) + d, -W(y) + d]);
            }
            v.extend([hi / x * x + d, lo / x * x + d]);
            // the last half unit below the end of the range
            v.extend([hi / x * x + x / two + d, lo / x * x - x / two + d, hi / x * x - x / two + d, lo / x * x + x / two + d]);
        }
    }
    for k in 0..w as usize - 1 {
        let x = one << k;
        v.extend([x - one, x, x + one, -x - one, -x, one - x]);
    }
    let s = W(isqrt(hi.0 as u128) as i128);
    let t = W(isqrt((hi.0 as u128) / pow10(p) as u128) as i128);
    for d in -1..=1 {
        let d = W(d);
        v.extend([s + d, -s + d, t + d, t * W(pow10(p / 2)) + d]);
    }
    let mut v: Vec<i128> = v.into_iter().map(|x| x.0).filter(|x| inside(w, *x)).collect();
    v.sort();
    v.dedup();
    v
}

fn int_source(s: &mut Sink, w: u32, p: u32) {
    let vias = [
        (Via::I8, 8, true), (Via::I16, 16, true), (Via::I32, 32, true), (Via::I64, 64, true), (Via::I128, 128, true),
        (Via::Isize, 64, true), (Via::U8, 8, false), (Via::U16, 16, false), (Via::U32, 32, false), (Via::U64, 64, false),
        (Via::U128, 128, false), (Via::Usize, 64, false),
    ];
    let (via, bits, sgn) = *s.rng.pick(&vias);
    let a = int_operand(&mut s.rng, w, p, bits, sgn);
    s.put(w, p, via, Call::FromInt(Un { w: w.into(), p: p.into(), a }));
}
/// An integer of the given source type, mostly around the end of the target's range.
fn int_operand(r: &mut crate::rng::Rng, w: u32, p: u32, bits: u32, sgn: bool) -> Z {
    let max: u128 = if sgn { (1 << (bits - 1)) - 1 } else if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    match r.below(4) {
        0 => {
            let x = (if r.chance(50) { hi(w) } else { lo(w) } / pow10(p)).wrapping_add(r.range(-2, 2) as i128);
            if (!sgn && x < 0) || x.unsigned_abs() > max { zi(0) } else { zi(x) }
        }
        1 => {
            let d = r.below(3) as u128;
            if sgn && r.chance(50) { crate::z::sub(&zi(-1), &Z::from(max - d)) } else { Z::from(max - d) }
        }
        2 => {
            // any length
            let m = (r.u128() >> r.below(128)) & max;
            let z = Z::from(m);
            if sgn && r.chance(50) { crate::z::neg(&z) } else { z }
        }
        _ => {
            let x = value(r, if sgn { bits } else { bits.min(127).max(8) });
            if sgn { zi(x) } else { Z::from(x.unsigned_abs() & max) }
        }
    }
}

#[cfg(feature = "codecs")]
fn codec_format(r: &mut crate::rng::Rng) -> Fmt {
    thread_local! { static F: Vec<Fmt> =
    [16, 32, 64, 128].into_iter().filter(|&w| !crate::fx::fps(w).is_empty()).flat_map(|w| crate::codec::precisions(w).into_iter().map(move |p| (w, p))).collect() }
    F.with(|f| *r.pick(f))
}

/// A call that exists in every layout.
pub fn any_call(r: &mut crate::rng::Rng, w: u32, p: u32) -> Call {
    let m = any_mode(r);
    let a = value(r, w);
    match r.below(26) {
        0 => {
            let (a, b) = pair_add(r, w, false);
            Call::CAdd(bin(w, a, b))
        }
        1 => {
            let (a, b) = pair_add(r, w, true);
            Call::CSub(bin(w, a, b))
        }
        2 => {
            let (a, b) = pair_mul(r, w);
            Call::CMul(bin(w, a, b))
        }
        3 => Call::CNeg(un(w, p, a)),
        4 => Call::Abs(un(w, p, a)),
        5 => Call::Signum(un(w, p, a)),
        6 | 7 => {
            let (a, b) = pair_rmul(r, w, p);
            Call::RMul(rbin(w, p, a, b, &m))
        }
        8 | 9 => {
            let (a, b) = pair_rdiv(r, w, p);
            Call::RDiv(rbin(w, p, a, b, &m))
        }
        10 => Call::Recip(run(w, p, a, &m)),
        11 => Call::RDivInt(rbin(w, p, a, value(r, w), &m)),
        12 => Call::IntRDiv(rbin(w, p, value(r, w) / pow10(p), a, &m)),
        13 | 14 => Call::Sqrt(run(w, p, radicand(r, w, p), &m)),
        15 => Call::Integral(run(w, p, a, &m)),
        16 => Call::RoundTo(run(w, p, a, &m)),
        17 => {
            let (a, b) = pair_add(r, w, false);
            Call::HalfSum(rbin(w, p, a, b, &m))
        }
        18 => Call::NextPow10(un(w, p, a)),
        19 => Call::TruncBy(bin(w, a, value(r, w))),
        20 => Call::FromDec(Dec { w: w.into(), p: p.into(), m: zi(if a == 0 { 1 } else { a }), e: zi(r.range(-(p as i64) - 1, 11) as i128) }),
        21 => Call::ToDec(Dec { w: w.into(), p: p.into(), m: zi(a), e: zi(r.range(-(p as i64), 11) as i128) }),
        22 => {
            let t = gen::literal(r, w, p);
            if r.chance(70) { Call::Parse(strc(w, p, &t)) } else { Call::ParseExact(strc(w, p, &t)) }
        }
        23 => Call::Show(un(w, p, a)),
        24 => Call::FromF64(R_bits_p_w { w: w.into(), p: p.into(), bits: gen::float(r, w, p).into() }),
        _ => Call::IntoF64(un(w, p, a)),
    }
}
/// The same call on another layout.
pub fn on_layout(c: &Call, w: u32) -> Call {
    let mut c = c.clone();
    let w = w.into();
    match &mut c {
        Call::CAdd(x) | Call::CSub(x) | Call::CMul(x) | Call::TruncBy(x) | Call::SAdd(x) | Call::SSub(x) | Call::SMul(x) | Call::Compare(x) => x.w = w,
        Call::CNeg(x) | Call::Abs(x) | Call::Signum(x) | Call::NextPow10(x) | Call::Show(x) | Call::IntoF64(x) => x.w = w,
        Call::RMul(x) | Call::SRMul(x) | Call::RDiv(x) | Call::RDivInt(x) | Call::IntRDiv(x) | Call::IntRatio(x) | Call::HalfSum(x) => x.w = w,
        Call::Recip(x) | Call::Sqrt(x) | Call::Integral(x) | Call::RoundTo(x) => x.w = w,
        Call::FromDec(x) | Call::ToDec(x) => x.w = w,
        Call::Parse(x) | Call::ParseExact(x) => x.w = w,
        Call::FromF64(x) => x.w = w,
        _ => crate::run::harness_error("on_layout"),
    }
    c
}

pub fn plan(prop: &str, scale: f64) -> Plan {
    let mut j = Plan { jobs: vec![], scale, depth: vec![] };
    match prop {
        "C01" => {
            j.all8(|s, a, b| {
                s.put(8, 0, Via::Int, Call::CAdd(bin(8, a, b)));
                s.put(8, 0, Via::Int, Call::CSub(bin(8, a, b)));
            });
            j.all16(|s, p, a| {
                s.put(16, p, Via::Fp, Call::CNeg(un(16, p, a)));
                s.put(16, p, Via::Fp, Call::Abs(un(16, p, a)));
                s.put(16, p, Via::Fp, Call::Signum(un(16, p, a)));
            });
            j.each(|s, w, p| {
                for a in corners(w, p) {
                    s.put(w, p, Via::Fp, Call::CNeg(un(w, p, a)));
                    s.put(w, p, Via::Fp, Call::Abs(un(w, p, a)));
                    s.put(w, p, Via::Fp, Call::Signum(un(w, p, a)));
                    for b in [0, 1, -1, a, !a, hi(w) - a.max(0), lo(w) - a.min(0), hi(w), lo(w)] {
                        s.put(w, p, Via::Fp, Call::CAdd(bin(w, a, b)));
                        s.put(w, p, Via::Fp, Call::CSub(bin(w, a, b)));
                    }
                }
            });
            j.random(1_600_000, |s| {
                let minus = s.rng.chance(50);
                let (w, p, via) = if s.rng.chance(70) {
                    let (w, p) = any_format(&mut s.rng);
                    (w, p, Via::Fp)
                } else {
                    (int_width(&mut s.rng), 0, Via::Int)
                };
                let (a, b) = pair_add(&mut s.rng, w, minus);
                s.put(w, p, via, if minus { Call::CSub(bin(w, a, b)) } else { Call::CAdd(bin(w, a, b)) });
            });
            j.random(400_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let a = value(&mut s.rng, w);
                let c = un(w, p, a);
                let c = match s.rng.below(3) {
                    0 => Call::CNeg(c),
                    1 => Call::Abs(c),
                    _ => Call::Signum(c),
                };
                s.put(w, p, Via::Fp, c);
            });
        }
        "C02" => {
            j.all8(|s, a, b| {
                s.put(8, 0, Via::Int, Call::CMul(bin(8, a, b)));
            });
            j.random(2_000_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let (w, via) = match s.rng.below(5) {
                    0 => (int_width(&mut s.rng), Via::Int),
                    1 | 2 => (w, Via::IntFp),
                    _ => (w, Via::Fp),
                };
                let (a, b) = pair_mul(&mut s.rng, w);
                s.put(w, p, via, Call::CMul(bin(w, a, b)));
            });
        }
        "C03" => {
            j.each(|s, w, p| {
                let c = corners(w, p);
                for _ in 0..600 {
                    let (a, b) = (*s.rng.pick(&c), *s.rng.pick(&c));
                    for m in &MODES {
                        s.put(w, p, Via::Fp, Call::RMul(rbin(w, p, a, b, m)));
                    }
                }
            });
            j.all16(|s, p, a| {
                let b = value(&mut s.rng, 16);
                for m in &MODES {
                    s.put(16, p, Via::Fp, Call::RMul(rbin(16, p, a, b, m)));
                }
            });
            j.random(2_400_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let (a, b) = pair_rmul(&mut s.rng, w, p);
                let m = any_mode(&mut s.rng);
                s.put(w, p, Via::Fp, Call::RMul(rbin(w, p, a, b, &m)));
            });
        }
        "C04" => {
            j.each(|s, w, p| {
                let c = corners(w, p);
                for &a in &c {
                    for m in &MODES {
                        s.put(w, p, Via::Fp, Call::Recip(run(w, p, a, m)));
                    }
                }
                for _ in 0..600 {
                    let (a, b) = (*s.rng.pick(&c), *s.rng.pick(&c));
                    for m in &MODES {
                        s.put(w, p, Via::Fp, Call::RDiv(rbin(w, p, a, b, m)));
                    }
                }
            });
            j.all16(|s, p, a| {
                let b = value(&mut s.rng, 16);
                for m in &MODES {
                    s.put(16, p, Via::Fp, Call::Recip(run(16, p, a, m)));
                    s.put(16, p, Via::Fp, Call::RDiv(rbin(16, p, b, a, m)));
                }
            });
            j.random(2_400_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let m = any_mode(&mut s.rng);
                if s.rng.chance(10) {
                    let a = if s.rng.chance(50) {
                        value(&mut s.rng, w)
                    } else {
                        // results near the end of the range, and near halves
                        let (a, _) = pair_rdiv(&mut s.rng, w, p);
                        let x = pow10(p) / if a == 0 { 1 } else { a };
                        x.clamp(lo(w), hi(w))
                    };
                    s.put(w, p, Via::Fp, Call::Recip(run(w, p, a, &m)));
                } else {
                    let (a, b) = pair_rdiv(&mut s.rng, w, p);
                    s.put(w, p, Via::Fp, Call::RDiv(rbin(w, p, a, b, &m)));
                }
            });
        }
        "C05" => {
            j.all8(|s, a, b| {
                for m in &MODES {
                    s.put(8, 0, Via::Int, Call::RDivInt(rbin(8, 0, a, b, m)));
                }
            });
            j.all16(|s, p, a| {
                let b = value(&mut s.rng, 16);
                for m in &MODES {
                    s.put(16, p, Via::Fp, Call::RDivInt(rbin(16, p, b, a, m)));
                    s.put(16, p, Via::Fp, Call::IntRDiv(rbin(16, p, b / pow10(p), a, m)));
                }
            });
            j.each(|s, w, p| {
                let c = corners(w, p);
                for _ in 0..300 {
                    let (a, b) = (*s.rng.pick(&c), *s.rng.pick(&c));
                    for m in &MODES {
                        s.put(w, p, Via::Fp, Call::RDivInt(rbin(w, p, a, b, m)));
                        s.put(w, p, Via::Fp, Call::IntRDiv(rbin(w, p, a, b, m)));
                        if p == 0 {
                            s.put(w, 0, Via::Int, Call::RDivInt(rbin(w, 0, a, b, m)));
                        }
                    }
                }
            });
            j.random(2_400_000, |s| {
                let m = any_mode(&mut s.rng);
                match s.rng.below(10) {
                    0..=3 => {
                        let w = int_width(&mut s.rng);
                        let (a, b) = pair_rdiv(&mut s.rng, w, 0);
                        s.put(w, 0, Via::Int, Call::RDivInt(rbin(w, 0, a, b, &m)));
                    }
                    4..=6 => {
                        let (w, p) = any_format(&mut s.rng);
                        let (a, b) = pair_rdiv(&mut s.rng, w, 0);
                        s.put(w, p, Via::Fp, Call::RDivInt(rbin(w, p, a, b, &m)));
                    }
                    _ => {
                        let (w, p) = any_format(&mut s.rng);
                        let (a, b) = if s.rng.chance(50) {
                            pair_rdiv(&mut s.rng, w, 2 * p)
                        } else {
                            let (a, b) = pair_rdiv(&mut s.rng, w, p);
                            (a / pow10(p), b)
                        };
                        s.put(w, p, Via::Fp, Call::IntRDiv(rbin(w, p, a, b, &m)));
                    }
                }
            });
        }
        "C06" => {
            j.all16(|s, p, a| {
                for m in &MODES {
                    s.put(16, p, Via::Fp, Call::Sqrt(run(16, p, a, m)));
                }
            });
            j.each(|s, w, p| {
                for a in corners(w, p) {
                    for m in &MODES {
                        s.put(w, p, Via::Fp, Call::Sqrt(run(w, p, a, m)));
                    }
                }
            });
            j.random(1_600_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let a = radicand(&mut s.rng, w, p);
                let m = any_mode(&mut s.rng);
                s.put(w, p, Via::Fp, Call::Sqrt(run(w, p, a, &m)));
            });
        }
        "C07" => {
            j.all8(|s, a, b| {
                for via in [Via::Int, Via::User] {
                    s.put(8, 0, via, Call::SAdd(bin(8, a, b)));
                    s.put(8, 0, via, Call::SSub(bin(8, a, b)));
                    s.put(8, 0, via, Call::SMul(bin(8, a, b)));
                }
            });
            j.random(2_400_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let pick = s.rng.below(4);
                if pick == 3 {
                    let (a, b) = pair_rmul(&mut s.rng, w, p);
                    let m = any_mode(&mut s.rng);
                    s.put(w, p, Via::Fp, Call::SRMul(rbin(w, p, a, b, &m)));
                    return;
                }
                let (w, via) = match s.rng.below(10) {
                    0 | 1 => (int_width(&mut s.rng), Via::Int),
                    2 | 3 => (w, Via::User),
                    4 if pick == 2 => (w, Via::IntFp),
                    5 => (8, Via::User),
                    _ => (w, Via::Fp),
                };
                match pick {
                    0 => {
                        let (a, b) = pair_add(&mut s.rng, w, false);
                        s.put(w, p, via, Call::SAdd(bin(w, a, b)));
                    }
                    1 => {
                        let (a, b) = pair_add(&mut s.rng, w, true);
                        s.put(w, p, via, Call::SSub(bin(w, a, b)));
                    }
                    _ => {
                        let (a, b) = pair_mul(&mut s.rng, w);
                        s.put(w, p, via, Call::SMul(bin(w, a, b)));
                    }
                }
            });
        }
        "C08" => {
            j.all16(|s, p, a| {
                for m in &MODES {
                    s.put(16, p, Via::Fp, Call::Integral(run(16, p, a, m)));
                    s.put(16, p, Via::Fp, Call::RoundTo(run(16, p, a, m)));
                }
            });
            j.each(|s, w, p| {
                for a in corners(w, p) {
                    for m in &MODES {
                        s.put(w, p, Via::Fp, Call::Integral(run(w, p, a, m)));
                        s.put(w, p, Via::Fp, Call::RoundTo(run(w, p, a, m)));
                    }
                }
            });
            j.random(1_200_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let m = any_mode(&mut s.rng);
                let mut a = value(&mut s.rng, w);
                if s.rng.chance(60) {
                    // a whole number, plus nothing, a half, or nearly so
                    let c = pow10(p);
                    let f = match s.rng.below(4) {
                        0 => 0,
                        1 => c / 2,
                        2 => c - 1,
                        _ => 1,
                    } + s.rng.range(-1, 1) as i128;
                    let f = if a < 0 { -f } else { f };
                    a = clamp(w, &crate::z::add(&zi(a / c * c), &zi(f)));
                }
                let c = run(w, p, a, &m);
                let c = if s.rng.chance(50) { Call::Integral(c) } else { Call::RoundTo(c) };
                s.put(w, p, Via::Fp, c);
            });
        }
        "C09" => {
            j.each(|s, w, p| {
                let c = corners(w, p);
                for _ in 0..600 {
                    let (a, b) = (*s.rng.pick(&c), *s.rng.pick(&c));
                    for m in &MODES {
                        s.put(w, p, Via::Fp, Call::HalfSum(rbin(w, p, a, b, m)));
                    }
                }
                // every combination of signs and parities
                for a in -9..=9 {
                    for b in -9..=9 {
                        for m in &MODES {
                            s.put(w, p, Via::Fp, Call::HalfSum(rbin(w, p, a, b, m)));
                        }
                    }
                }
            });
            j.all16(|s, p, a| {
                let b = value(&mut s.rng, 16);
                for m in &MODES {
                    s.put(16, p, Via::Fp, Call::HalfSum(rbin(16, p, a, b, m)));
                }
            });
            j.random(1_600_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let m = any_mode(&mut s.rng);
                let (a, b) = pair_add(&mut s.rng, w, false);
                s.put(w, p, Via::Fp, Call::HalfSum(rbin(w, p, a, b, &m)));
            });
        }
        "C10" => {
            j.all16(|s, p, a| {
                s.put(16, p, Via::Fp, Call::NextPow10(un(16, p, a)));
            });
            j.each(|s, w, p| {
                for a in corners(w, p) {
                    s.put(w, p, Via::Fp, Call::NextPow10(un(w, p, a)));
                }
            });
            j.random(1_000_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let a = value(&mut s.rng, w);
                s.put(w, p, Via::Fp, Call::NextPow10(un(w, p, a)));
            });
        }
        "C11" => {
            j.all16(|s, p, a| {
                let b = value(&mut s.rng, 16);
                s.put(16, p, Via::Fp, Call::TruncBy(bin(16, a, b)));
                s.put(16, p, Via::Fp, Call::TruncBy(bin(16, b, a)));
            });
            j.each(|s, w, p| {
                let c = corners(w, p);
                for _ in 0..600 {
                    let (a, b) = (*s.rng.pick(&c), *s.rng.pick(&c));
                    s.put(w, p, Via::Fp, Call::TruncBy(bin(w, a, b)));
                }
                for &a in &c {
                    for b in [0, 1, -1, a, -(a.max(lo(w) + 1)), hi(w), lo(w)] {
                        s.put(w, p, Via::Fp, Call::TruncBy(bin(w, a, b)));
                    }
                }
            });
            j.random(1_200_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let (a, b) = if s.rng.chance(40) {
                    let b = value(&mut s.rng, w);
                    let q = value(&mut s.rng, w);
                    let d = s.rng.range(-2, 2) as i128;
                    let q = if b == 0 { 0 } else { q % (hi(w) / b.checked_abs().unwrap_or(hi(w)).min(hi(w))).max(1) };
                    (clamp(w, &crate::z::add(&crate::z::mul(&zi(q), &zi(b)), &zi(d))), b)
                } else {
                    (value(&mut s.rng, w), value(&mut s.rng, w))
                };
                s.put(w, p, Via::Fp, Call::TruncBy(bin(w, a, b)));
            });
        }
        "C12" => {
            j.each(|s, w, p| {
                let c = corners(w, p);
                for e in [i32::MIN, i32::MIN + 1, -1000, -129, -128, -39, 11, 12, 20, 38, 39, 127, 128, 256, i32::MAX - 40, i32::MAX].into_iter().chain(-40..=14) {
                    for m in [0, 1, -1, 9, 10, hi(w), lo(w)] {
                        s.put(w, p, Via::Fp, Call::FromDec(Dec { w: w.into(), p: p.into(), m: zi(m), e: e.into() }));
                    }
                    // the largest mantissas that fit
                    if (-(p as i32)..=10).contains(&e) && e + (p as i32) <= max_p(w) as i32 {
                        let k = pow10((e + p as i32) as u32);
                        for d in [-1, 0, 1] {
                            for x in [hi(w) / k, lo(w) / k] {
                                let m = clamp(w, &crate::z::add(&zi(x), &zi(d)));
                                s.put(w, p, Via::Fp, Call::FromDec(Dec { w: w.into(), p: p.into(), m: zi(m), e: e.into() }));
                            }
                        }
                    }
                    for m in &c[..c.len().min(40)] {
                        // it says no to what has too few digits
                        if e >= -(p as i32) || s.rng.chance(10) {
                            s.put(w, p, Via::Fp, Call::ToDec(Dec { w: w.into(), p: p.into(), m: zi(*m), e: e.into() }));
                        }
                    }
                }
                for &a in &c {
                    for e in [-(p as i32), 1 - p as i32, -1, 0, 1, 10, 40] {
                        if e >= -(p as i32) || s.rng.chance(10) {
                            s.put(w, p, Via::Fp, Call::ToDec(Dec { w: w.into(), p: p.into(), m: zi(a), e: e.into() }));
                        }
                    }
                }
            });
            j.random(1_200_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let mut m = value(&mut s.rng, w);
                let e = if s.rng.chance(80) { s.rng.range(-(p as i64) - 1, 11) } else { s.rng.range(-45, 45) };
                if s.rng.chance(50) {
                    let k = e + p as i64;
                    if e <= 10 && k >= 0 && k <= max_p(w) as i64 {
                        m = clamp(w, &zi((if m < 0 { lo(w) } else { hi(w) } / pow10(k as u32)).wrapping_add(s.rng.range(-2, 2) as i128)));
                    }
                    s.put(w, p, Via::Fp, Call::FromDec(Dec { w: w.into(), p: p.into(), m: zi(m), e: zi(e as i128) }));
                } else {
                    let e = if s.rng.chance(2) { -(p as i64) - 1 - s.rng.below(3) as i64 } else { e.max(-(p as i64)) };
                    if s.rng.chance(50) {
                        // strip and add zeros
                        let k = s.rng.below(max_p(w) as u64 + 1) as u32;
                        m = m / pow10(k) * pow10(k);
                    }
                    if let Some(Outcome::Decimal(d)) = s.put(w, p, Via::Fp, Call::ToDec(Dec { w: w.into(), p: p.into(), m: zi(m), e: zi(e as i128) })) {
                        // and back
                        if d.e <= zi(10) {
                            s.put(w, p, Via::Fp, Call::FromDec(Dec { w: w.into(), p: p.into(), m: d.m, e: d.e }));
                        }
                    }
                }
            });
        }
        "C13" => {
            j.all16(|s, p, a| {
                s.put(16, p, Via::I16, Call::FromInt(un(16, p, a)));
                s.put(16, p, Via::U16, Call::FromInt(un(16, p, a + 32768)));
                if (-128..128).contains(&a) {
                    for &(w, p) in &formats() {
                        s.put(w, p, Via::I8, Call::FromInt(un(w, p, a)));
                        s.put(w, p, Via::U8, Call::FromInt(un(w, p, a + 128)));
                    }
                }
            });
            j.each(|s, w, p| {
                for x in [hi(w) / pow10(p), lo(w) / pow10(p)] {
                    for d in -3..=3 {
                        let a = zi(x).to_i128().unwrap().checked_add(d);
                        let Some(a) = a else { continue };
                        for via in [Via::I8, Via::I16, Via::I32, Via::I64, Via::I128, Via::Isize, Via::U8, Via::U16, Via::U32, Via::U64, Via::Usize, Via::U128] {
                            s.put(w, p, via, Call::FromInt(un(w, p, a)));
                        }
                    }
                }
            });
            j.random(1_600_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                int_source(s, w, p);
            });
        }
        "C14" | "C15" => {
            let exact = prop == "C15";
            let call = move |s: &mut Sink, w, p, t: &str| {
                s.put(w, p, Via::Fp, if exact { Call::ParseExact(strc(w, p, t)) } else { Call::Parse(strc(w, p, t)) });
            };
            j.each(move |s, w, p| {
                for a in corners(w, p) {
                    let d = decimal(&zi(a), p);
                    let dot = if p == 0 { "." } else { "" };
                    call(s, w, p, &d);
                    for tail in ["0", "4", "5", "6", "49", "50", "51", "499999999999999999999999999999999999999999", "500000000000000000000000000000000000001", "00000000000000000000000000000000000000000000"] {
                        call(s, w, p, &format!("{d}{dot}{tail}"));
                    }
                    if p > 0 {
                        call(s, w, p, d.trim_end_matches('0'));
                        call(s, w, p, &format!("+{d}"));
                        call(s, w, p, &format!("00{d}"));
                    }
                }
                // much longer than numbers are
                for n in [255, 256, 257, 511, 512, 1024] {
                    for _ in 0..8 {
                        let t = gen::long(&mut s.rng, w, p, n);
                        call(s, w, p, &t);
                    }
                }
                if p == 4 {
                    for n in [65535, 65536, 65537] {
                        let t = gen::long(&mut s.rng, w, p, n);
                        call(s, w, p, &t);
                    }
                }
                // beyond the end of the range, by a little and by a lot
                for e in [hi(w), lo(w)] {
                    for d in -2..=2 {
                        let z = crate::z::add(&zi(e), &zi(d));
                        call(s, w, p, &decimal(&z, p));
                        let ten = crate::z::mul(&z, &zi(10));
                        for f in -9..=9 {
                            call(s, w, p, &decimal(&crate::z::add(&ten, &zi(f)), p + 1));
                        }
                        for k in 1..=p.min(4) {
                            let q = crate::z::div(&Z::from(e.unsigned_abs()), &zi(pow10(k)));
                            let q = crate::z::add(&q, &zi(d));
                            call(s, w, p, &format!("{}{}", if e < 0 { "-" } else { "" }, decimal(&q, p - k)));
                        }
                    }
                }
            });
            if !exact {
                j.all16(move |s, p, a| {
                    let t = decimal(&zi(a), p);
                    call(s, 16, p, &t);
                    if p < 4 {
                        let t = decimal(&crate::z::add(&crate::z::mul(&zi(a), &zi(10)), &zi(s.rng.range(-9, 9) as i128)), p + 1);
                        call(s, 16, p, &t);
                    }
                });
            }
            j.random(700_000, move |s| {
                let (w, p) = any_format(&mut s.rng);
                let t = text(&mut s.rng, w, p);
                call(s, w, p, &t);
            });
        }
        "C16" => {
            let show = |s: &mut Sink, w, p, a| {
                let x = s.put(w, p, Via::Display, Call::Show(un(w, p, a)));
                for via in [Via::Debug, Via::DisplayShort, Via::DebugShort] {
                    s.put(w, p, via, Call::Show(un(w, p, a)));
                }
                let room = s.rng.below(24);
                let via = if s.rng.chance(70) { Via::Display } else { Via::Debug };
                s.put(w, p, via, Call::ShowInto(Limited { w: w.into(), p: p.into(), a: zi(a), room: room.into() }));
                if let Some(Outcome::Text(t)) = x {
                    let c = Str { w: w.into(), p: p.into(), s: t };
                    // the text is read back as the same number
                    s.put(w, p, Via::Fp, Call::Parse(c.clone()));
                    s.put(w, p, Via::Fp, Call::ParseExact(c));
                }
            };
            j.all16(move |s, p, a| show(s, 16, p, a));
            j.each(move |s, w, p| {
                for a in corners(w, p) {
                    show(s, w, p, a);
                }
                for _ in 0..200 {
                    // leading zeros in the fraction
                    let k = s.rng.below(p.min(18) as u64 + 1) as u32;
                    let f = s.rng.below(pow10(k) as u64 + 1) as i128;
                    let i = value(&mut s.rng, w) / pow10(p) * pow10(p);
                    let a = clamp(w, &crate::z::add(&zi(i), &zi(if i < 0 { -f } else { f })));
                    show(s, w, p, a);
                }
            });
            j.random(300_000, move |s| {
                let (w, p) = any_format(&mut s.rng);
                let a = value(&mut s.rng, w);
                show(s, w, p, a);
            });
        }
        "C17" => {
            j.each(|s, w, p| {
                // all exponents
                for e in 0..2048u64 {
                    for m in [0, 1, (1 << 52) - 1, s.rng.u64() >> 12] {
                        let b = s.rng.below(2) << 63 | e << 52 | m;
                        s.put(w, p, Via::Fp, Call::FromF64(R_bits_p_w { w: w.into(), p: p.into(), bits: b.into() }));
                    }
                }
                for a in corners(w, p) {
                    let b = decimal(&zi(a), p).parse::<f64>().unwrap().to_bits();
                    for d in [-1i64, 0, 1] {
                        let b = b.wrapping_add(d as u64);
                        s.put(w, p, Via::Fp, Call::FromF64(R_bits_p_w { w: w.into(), p: p.into(), bits: b.into() }));
                    }
                }
            });
            j.random(700_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let b = float(&mut s.rng, w, p);
                s.put(w, p, Via::Fp, Call::FromF64(R_bits_p_w { w: w.into(), p: p.into(), bits: b.into() }));
            });
        }
        "C18" => {
            let both = |s: &mut Sink, w, p, a| {
                s.put(w, p, Via::Fp, Call::IntoF64(un(w, p, a)));
                s.put(w, p, Via::Fp, Call::ViaF64(un(w, p, a)));
            };
            j.all16(move |s, p, a| both(s, 16, p, a));
            j.each(move |s, w, p| {
                for a in corners(w, p) {
                    both(s, w, p, a);
                }
            });
            j.random(700_000, move |s| {
                let (w, p) = any_format(&mut s.rng);
                let mut a = value(&mut s.rng, w);
                if s.rng.chance(50) {
                    // at most 15 digits
                    let n = 1 + s.rng.below(15) as u32;
                    let k = s.rng.below(max_p(w) as u64 + 1) as u32;
                    let m = s.rng.below(pow10(n) as u64) as i128;
                    let z = crate::z::mul(&zi(m), &zi(pow10(k)));
                    if z <= zi(hi(w)) {
                        a = if s.rng.chance(50) { z.i128() } else { -z.i128() };
                    }
                }
                both(s, w, p, a);
            });
        }
        #[cfg(feature = "codecs")]
        "C20" => serde_plan(&mut j),
        #[cfg(feature = "codecs")]
        "C21" => scale_plan(&mut j),
        #[cfg(feature = "codecs")]
        "C29" => {
            for w in [16, 32, 64, 128] {
                for p in crate::codec::precisions(w) {
                    j.jobs.push(Box::new(move |s| {
                        s.put(w, p, Via::Json, Call::SchemaType);
                        for a in corners(w, p) {
                            s.put(w, p, Via::Json, Call::ShowJson(Opt { w: w.into(), p: p.into(), some: true, a: zi(a) }));
                        }
                        for _ in 0..2000 {
                            let a = value(&mut s.rng, w);
                            s.put(w, p, Via::Json, Call::ShowJson(Opt { w: w.into(), p: p.into(), some: true, a: zi(a) }));
                        }
                    }));
                }
            }
        }
        "C26" => {
            j.each(|s, w, p| {
                for c in [Call::Zero, Call::One, Call::Least, Call::Greatest, Call::Epsilon, Call::Digits, Call::Default] {
                    s.put(w, p, Via::Fp, c(un(w, p, 0)));
                }
                let c = corners(w, p);
                for i in 0..c.len() {
                    s.put(w, p, Via::Fp, Call::Bits(un(w, p, c[i])));
                    for k in [i, (i + 1).min(c.len() - 1), c.len() - 1 - i] {
                        s.put(w, p, Via::Fp, Call::Compare(bin(w, c[i], c[k])));
                        s.put(w, p, Via::Fp, Call::Same(bin(w, c[i], c[k])));
                        s.put(w, p, Via::Fp, Call::SameHash(bin(w, c[i], c[k])));
                    }
                }
            });
            for w in [8, 16, 32, 64, 128] {
                j.jobs.push(Box::new(move |s| {
                    for c in [Call::Zero, Call::One, Call::Least, Call::Greatest] {
                        s.put(w, 0, Via::Int, c(un(w, 0, 0)));
                    }
                }));
            }
            j.all16(|s, p, a| {
                s.put(16, p, Via::Fp, Call::Bits(un(16, p, a)));
                let b = value(&mut s.rng, 16);
                s.put(16, p, Via::Fp, Call::Compare(bin(16, a, b)));
                s.put(16, p, Via::Fp, Call::Same(bin(16, a, b)));
                s.put(16, p, Via::Fp, Call::SameHash(bin(16, a, a)));
            });
            j.random(900_000, |s| {
                let (w, p) = any_format(&mut s.rng);
                let a = value(&mut s.rng, w);
                let b = match s.rng.below(4) {
                    0 => a,
                    1 => clamp(w, &crate::z::add(&zi(a), &zi(s.rng.range(-1, 1) as i128))),
                    2 => clamp(w, &crate::z::neg(&zi(a))),
                    _ => value(&mut s.rng, w),
                };
                let c = bin(w, a, b);
                match s.rng.below(3) {
                    0 => s.put(w, p, Via::Fp, Call::Compare(c)),
                    1 => s.put(w, p, Via::Fp, Call::Same(c)),
                    _ => s.put(w, p, Via::Fp, Call::SameHash(c)),
                };
            });
        }
        "C27" => {
            j.random(1_200_000, |s| {
                thread_local! { static F: Vec<(u32, u32, u32)> = crate::wrap::formats() }
                let (w, p, n) = F.with(|f| *s.rng.pick(f));
                let m = any_mode(&mut s.rng);
                // an integer operand that fits into the narrower type half of the time
                let narrow = |r: &mut crate::rng::Rng, x: i128| if r.chance(50) { clamp(n, &zi(x)) } else { x };
                let c = match s.rng.below(11) {
                    0 => {
                        let (a, b) = pair_add(&mut s.rng, w, false);
                        let b = narrow(&mut s.rng, b);
                        Call::CAdd(bin(w, a, b))
                    }
                    1 => {
                        let (a, b) = pair_add(&mut s.rng, w, true);
                        Call::CSub(bin(w, a, b))
                    }
                    2 => {
                        let (a, b) = pair_mul(&mut s.rng, w);
                        let (a, b) = (narrow(&mut s.rng, a), narrow(&mut s.rng, b));
                        Call::CMul(bin(w, a, b))
                    }
                    3 => {
                        let (a, b) = pair_add(&mut s.rng, w, false);
                        Call::SAdd(bin(w, a, b))
                    }
                    4 => {
                        let (a, b) = pair_add(&mut s.rng, w, true);
                        Call::SSub(bin(w, a, b))
                    }
                    5 => {
                        let (a, b) = pair_mul(&mut s.rng, w);
                        let (a, b) = (narrow(&mut s.rng, a), narrow(&mut s.rng, b));
                        Call::SMul(bin(w, a, b))
                    }
                    6 => {
                        let (a, b) = pair_rmul(&mut s.rng, w, p);
                        if s.rng.chance(50) { Call::RMul(rbin(w, p, a, b, &m)) } else { Call::SRMul(rbin(w, p, a, b, &m)) }
                    }
                    7 => {
                        let (a, b) = pair_rdiv(&mut s.rng, w, p);
                        Call::RDiv(rbin(w, p, a, b, &m))
                    }
                    8 => {
                        let (a, b) = pair_rdiv(&mut s.rng, w, 0);
                        let b = narrow(&mut s.rng, b);
                        Call::RDivInt(rbin(w, p, a, b, &m))
                    }
                    9 => {
                        let (a, b) = pair_rdiv(&mut s.rng, w, 2 * p);
                        let a = narrow(&mut s.rng, a);
                        Call::IntRDiv(rbin(w, p, a, b, &m))
                    }
                    _ => {
                        let (a, b) = pair_rdiv(&mut s.rng, w, p);
                        let (a, b) = if s.rng.chance(50) { (a / pow10(p), b) } else { (narrow(&mut s.rng, a), narrow(&mut s.rng, b)) };
                        Call::IntRatio(rbin(w, p, a, b, &m))
                    }
                };
                s.put(w, p, Via::Wrap, c);
            });
        }
        // everything a program without optional features can call
        "ALL" => {
            for q in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C26", "C27"] {
                j.append(plan(q, scale));
            }
            #[cfg(feature = "codecs")]
            for q in ["C20", "C21"] {
                j.append(plan(q, scale));
            }
        }
        "C24" => {
            j.random(2_000_000, |s| {
                let ws: &[u32] = &[16, 32, 64, 128];
                let w = *s.rng.pick(&ws[..3]);
                let wide = *s.rng.pick(&ws[ws.iter().position(|&x| x == w).unwrap() + 1..]);
                let p = s.rng.below(max_p(w) as u64 + 1) as u32;
                let c = any_call(&mut s.rng, w, p);
                s.put_twice(w, wide, p, c);
            });
        }
        _ => crate::run::harness_error(&format!("no property {prop}")),
    }
    j
}

#[cfg(feature = "codecs")]
fn serde_plan(j: &mut Plan) {
    let show = |s: &mut Sink, w: u32, p: u32, a: i128| {
        let o = |some| Call::ShowJson(Opt { w: w.into(), p: p.into(), some, a: zi(a) });
        for via in [Via::Json, Via::JsonOption, Via::ModStr, Via::ModStrOption, Via::JsonKey, Via::JsonValue] {
            s.put(w, p, via, o(true));
        }
        for (via, b) in [(Via::Bincode, 0), (Via::Bincode, 1), (Via::ModRepr, 0), (Via::ModReprOption, 1)] {
            s.put(w, p, via, Call::Encode(bin(w, a, b)));
        }
        s.put(w, p, Via::JsonRepr, Call::Bits(un(w, p, a)));
        s.put(w, p, Via::JsonReprOption, Call::Bits(un(w, p, a)));
        s.put(w, p, Via::ModFloat, Call::IntoF64(un(w, p, a)));
        s.put(w, p, Via::ModFloatOption, Call::IntoF64(un(w, p, a)));
        for via in [Via::Bincode, Via::Told] {
            s.put(w, p, via, Call::IntoF64(un(w, p, a)));
        }
        s.put(w, p, Via::BinStr, Call::Show(un(w, p, a)));
        s.put(w, p, Via::Told, Call::ViaF64(un(w, p, a)));
        tell(s, w, p, a, true);
    };
    fn tell(s: &mut Sink, w: u32, p: u32, a: i128, some: bool) {
        for via in [Via::Told, Via::ToldWrap] {
            for form in 0..4 {
                for human in [true, false] {
                    for opt in [true, false] {
                        if (form > 0 || via == Via::Told) && (some || opt) {
                            s.put(w, p, via, Call::Tell(crate::spec::Told { w: w.into(), p: p.into(), a: zi(a), form: zi(form), human, opt, some }));
                        }
                    }
                }
            }
        }
    }
    const TEXT: [Via; 17] = [
        Via::SerdeStr, Via::SerdeString, Via::Json, Via::JsonOption, Via::JsonMap, Via::ModStr, Via::ModStrOption, Via::Xml, Via::XmlAttr,
        Via::ModStrOwned, Via::ModStrOptionOwned, Via::ModStrReader, Via::JsonKey, Via::Untagged, Via::JsonValue,
        Via::Told, Via::BinStr,
    ];
    let read = |s: &mut Sink, w: u32, p: u32, via: Via, t: &str| {
        // XML has its own idea of control characters and of white space
        if matches!(via, Via::Xml | Via::XmlAttr) && t.chars().any(|c| c.is_control()) {
            return;
        }
        s.put(w, p, via, Call::Parse(strc(w, p, t)));
    };
    for w in [16, 32, 64, 128] {
        for p in crate::codec::precisions(w) {
            j.jobs.push(Box::new(move |s| {
                for some in [true, false] {
                    for via in [Via::Json, Via::JsonOption, Via::ModStr, Via::ModStrOption] {
                        s.put(w, p, via, Call::ShowJson(Opt { w: w.into(), p: p.into(), some, a: zi(0) }));
                    }
                }
                for via in [Via::JsonOption, Via::ModStrOption, Via::ModStrOptionOwned, Via::ModFloatOption, Via::JsonReprOption] {
                    s.put(w, p, via, Call::Decode(R_bytes_opt_w { w: w.into(), opt: true, bytes: vec![zi(0)] }));
                }
                tell(s, w, p, 0, false);
                for c in ' '..='\u{7f}' {
                    read(s, w, p, Via::Char, c.encode_utf8(&mut [0; 4]));
                }
                for via in [Via::Bool, Via::Unit, Via::Array, Via::Map] {
                    s.put(w, p, via, Call::RejectType(un(w, p, 0)));
                }
                for via in [Via::Json, Via::ModStr, Via::ModRepr, Via::ModFloat] {
                    for a in 0..9 {
                        s.put(w, p, via, Call::RejectType(un(w, p, a)));
                    }
                }
                for a in corners(w, p) {
                    show(s, w, p, a);
                    let t = decimal(&zi(a), p);
                    for via in TEXT {
                        read(s, w, p, via, &t);
                    }
                }
            }));
        }
    }
    j.random(200_000, move |s| {
        let (w, p) = codec_format(&mut s.rng);
        let t = text(&mut s.rng, w, p);
        let via = *s.rng.pick(&TEXT);
        read(s, w, p, via, &t);
    });
    j.random(60_000, move |s| {
        let (w, p) = codec_format(&mut s.rng);
        let a = value(&mut s.rng, w);
        show(s, w, p, a);
    });
    j.random(200_000, move |s| {
        let (w, p) = codec_format(&mut s.rng);
        let (via, bits, sgn) = *s.rng.pick(&[
            (Via::SerdeSmall, 8, true),
            (Via::SerdeSmall, 16, true),
            (Via::SerdeSmall, 32, true),
            (Via::SerdeSmall, 32, false),
            (Via::SerdeI64, 64, true),
            (Via::SerdeU64, 64, false),
            (Via::SerdeI128, 128, true),
            (Via::SerdeU128, 128, false),
            (Via::Json, 64, true),
            (Via::Json, 64, false),
            (Via::JsonValue, 64, true),
            (Via::JsonValue, 64, false),
            (Via::Untagged, 64, true),
            (Via::Untagged, 64, false),
        ]);
        let a = int_operand(&mut s.rng, w, p, bits, sgn);
        s.put(w, p, via, Call::FromInt(Un { w: w.into(), p: p.into(), a }));
    });
    j.random(200_000, move |s| {
        let (w, p) = codec_format(&mut s.rng);
        let b = float(&mut s.rng, w, p);
        let via = *s.rng.pick(&[Via::SerdeF64, Via::ModFloat, Via::ModFloatOption, Via::Untagged, Via::JsonValue, Via::SerdeF32, Via::Told]);
        let b = if via == Via::SerdeF32 { (f64::from_bits(b) as f32 as f64).to_bits() } else { b };
        s.put(w, p, via, Call::FromF64(R_bits_p_w { w: w.into(), p: p.into(), bits: b.into() }));
    });
    j.random(200_000, move |s| {
        let (w, p) = codec_format(&mut s.rng);
        let opt = s.rng.chance(50);
        let b = gen::bytes(&mut s.rng, w, opt);
        let via = *s.rng.pick(&[Via::Bincode, if opt { Via::ModReprOption } else { Via::ModRepr }]);
        if via == Via::Bincode {
            s.put(w, p, via, Call::Consume(R_bytes_compact_opt_w { w: w.into(), opt, compact: false, bytes: b.clone() }));
        }
        s.put(w, p, via, Call::Decode(R_bytes_opt_w { w: w.into(), opt, bytes: b }));
    });
}

#[cfg(feature = "codecs")]
fn scale_plan(j: &mut Plan) {
    let enc = |s: &mut Sink, w: u32, p: u32, a: i128| {
        for (via, b) in [(Via::Scale, 0), (Via::Scale, 1), (Via::ScaleAs, 0), (Via::ScaleVec, 0), (Via::ScaleSize, 0), (Via::ScaleSize, 1)] {
            s.put(w, p, via, Call::Encode(bin(w, a, b)));
        }
        for via in [Via::Scale, Via::ScaleAs] {
            let o = s.put(w, p, via, Call::EncodeCompact(un(w, p, a)));
            if let Some(Outcome::Bytes(bytes)) = o {
                s.put(w, p, Via::Scale, Call::DecodeCompact(R_bytes_w { w: w.into(), bytes }));
            }
        }
    };
    for w in [16, 32, 64, 128] {
        for p in crate::codec::precisions(w) {
            j.jobs.push(Box::new(move |s| {
                for a in corners(w, p) {
                    enc(s, w, p, a);
                }
                if w == 16 {
                    for a in lo(w)..=hi(w) {
                        enc(s, w, p, a);
                    }
                }
            }));
        }
    }
    j.random(200_000, move |s| {
        let (w, p) = codec_format(&mut s.rng);
        let a = compact_value(&mut s.rng, w);
        enc(s, w, p, a);
    });
    j.random(400_000, move |s| {
        let (w, p) = codec_format(&mut s.rng);
        if s.rng.chance(50) {
            let opt = s.rng.chance(40);
            let b = gen::bytes(&mut s.rng, w, opt);
            let via = match s.rng.below(10) {
                0 | 1 => Via::ScaleReader,
                2 | 3 if !opt => Via::ScaleAs,
                4 | 5 if !opt => Via::ScaleVec,
                _ => Via::Scale,
            };
            let how = if s.rng.chance(50) { Via::Scale } else { Via::ScaleSkip };
            s.put(w, p, how, Call::Consume(R_bytes_compact_opt_w { w: w.into(), opt, compact: false, bytes: b.clone() }));
            s.put(w, p, via, Call::Decode(R_bytes_opt_w { w: w.into(), opt, bytes: b }));
        } else {
            let b = compact_bytes(&mut s.rng, w);
            let how = if s.rng.chance(50) { Via::Scale } else { Via::ScaleSkip };
            s.put(w, p, how, Call::Consume(R_bytes_compact_opt_w { w: w.into(), opt: false, compact: true, bytes: b.clone() }));
            s.put(w, p, Via::Scale, Call::DecodeCompact(R_bytes_w { w: w.into(), bytes: b }));
        }
    });
}
