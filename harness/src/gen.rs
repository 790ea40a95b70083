//! Where the calls come from: boundary pools, shapes of numbers that matter to
//! fixed-point algorithms, operands chosen for the result they produce.
//!
//! Everything here is computed with the oracle's integers; nothing is taken
//! from the crate under test.

use crate::rng::Rng;
use crate::spec::Mode;
use crate::z::{self, zi, Z};

pub const MODES: [Mode; 3] = [Mode::Floor, Mode::Nearest, Mode::Ceil];

pub fn hi(w: u32) -> i128 {
    if w == 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 }
}
pub fn lo(w: u32) -> i128 {
    -hi(w) - 1
}
pub fn inside(w: u32, x: i128) -> bool {
    lo(w) <= x && x <= hi(w)
}
pub fn pow10(k: u32) -> i128 {
    10i128.pow(k)
}
pub fn clamp(w: u32, z: &Z) -> i128 {
    if *z < zi(lo(w)) {
        lo(w)
    } else if *z > zi(hi(w)) {
        hi(w)
    } else {
        z.i128()
    }
}
/// 10^k, the largest with 10^k <= hi
pub fn max_p(w: u32) -> u32 {
    match w {
        8 => 2,
        16 => 4,
        32 => 9,
        64 => 18,
        _ => 38,
    }
}
fn floor_div(n: &Z, d: &Z) -> Z {
    let (n, d) = if *d < zi(0) { (z::neg(n), z::neg(d)) } else { (n.clone(), d.clone()) };
    if n >= zi(0) {
        z::div(&n, &d)
    } else {
        z::neg(&z::div(&z::sub(&z::sub(&d, &zi(1)), &n), &d))
    }
}

/// A random magnitude of exactly `bits` bits.
fn magnitude(r: &mut Rng, bits: u32) -> u128 {
    if bits == 0 {
        return 0;
    }
    let x = r.u128() >> (128 - bits);
    x | 1 << (bits - 1)
}
fn signed(r: &mut Rng, w: u32, m: u128) -> i128 {
    let x = m.min(hi(w) as u128) as i128;
    if r.chance(50) { -x } else { x }
}

/// A representation of `w` bits.
pub fn value(r: &mut Rng, w: u32) -> i128 {
    let x = match r.below(100) {
        // around the ends of the range
        0..=9 => {
            let d = if r.chance(70) { r.range(0, 3) } else { r.range(0, 40) } as i128;
            if r.chance(50) { hi(w) - d } else { lo(w) + d }
        }
        // around multiples of powers of ten
        10..=24 => {
            let k = r.below(max_p(w) as u64 + 1) as u32;
            let c = *r.pick(&[1i128, 1, 1, 5, 2, 3, 4, 9, 12, 25, 99, 125]);
            let x = pow10(k).checked_mul(c).unwrap_or(pow10(k));
            let x = x.saturating_add(r.range(-2, 2) as i128);
            if r.chance(50) { -x } else { x }
        }
        // around powers of two
        25..=34 => {
            let k = r.below(w as u64 - 1) as u32;
            let x = (1i128 << k) + r.range(-2, 2) as i128;
            if r.chance(50) { -x } else { x }
        }
        // any length
        35..=54 => {
            let b = r.below(w as u64) as u32;
            let m = magnitude(r, b);
            signed(r, w, m)
        }
        // full length
        55..=62 => (r.u128() as i128) >> (128 - w),
        // short decimals: a few digits followed by zeros
        63..=72 => {
            let k = r.below(max_p(w) as u64 + 1) as u32;
            let n = r.below(5) as u32;
            let m = (r.below(pow10(n + 1) as u64) as i128).checked_mul(pow10(k)).unwrap_or(1);
            if r.chance(50) { -m } else { m }
        }
        // patterns of limbs
        73..=80 => limbs(r, w),
        // quotients of the range: their products come back to the range's end
        81..=86 => {
            let d = match r.below(3) {
                0 => pow10(r.below(max_p(w) as u64 + 1) as u32),
                1 => r.range(2, 12) as i128,
                _ => 1i128 << r.below(w as u64 - 2),
            };
            let x = (hi(w) / d).wrapping_add(r.range(-2, 2) as i128).max(lo(w) + 1);
            if r.chance(50) { -x } else { x }
        }
        // square roots of the range
        87..=89 => {
            let s = isqrt(hi(w) as u128 / pow10(r.below(max_p(w) as u64 + 1) as u32) as u128) as i128;
            let x = s + r.range(-2, 2) as i128;
            if r.chance(50) { -x } else { x }
        }
        // small
        90..=97 => r.range(-20, 20) as i128,
        _ => *r.pick(&[0, 1, -1]),
    };
    clamp(w, &zi(x))
}
/// Bits made of long runs: what carries and borrows have trouble with.
pub fn limbs(r: &mut Rng, w: u32) -> i128 {
    let mut x = 0u128;
    match r.below(3) {
        0 => {
            let unit = *r.pick(&[8u32, 16, 32, 64]);
            let mask = if unit == 64 { u64::MAX } else { (1 << unit) - 1 };
            for _ in 0..w.div_ceil(unit).max(1) {
                let l = match r.below(7) {
                    0 => 0,
                    1 => mask,
                    2 => 1,
                    3 => mask - 1,
                    4 => mask / 2 + 1,
                    5 => mask / 2,
                    _ => r.u64() & mask,
                };
                x = x << unit | l as u128;
            }
        }
        1 => {
            // runs of equal bits
            let (mut left, mut bit) = (w, r.chance(50));
            while left > 0 {
                let n = (1 + r.below(left as u64)) as u32;
                x = if n == 128 { 0 } else { x << n } | if bit { u128::MAX >> (128 - n) } else { 0 };
                bit = !bit;
                left -= n;
            }
        }
        _ => {
            // few bits set
            for _ in 0..r.range(1, 4) {
                x |= 1 << r.below(w as u64);
            }
            if r.chance(30) {
                x = !x;
            }
        }
    }
    ((x << (128 - w)) as i128) >> (128 - w)
}
pub fn isqrt(n: u128) -> u128 {
    let mut x = 0u128;
    for k in (0..64).rev() {
        let t = x | 1 << k;
        if t * t <= n {
            x = t;
        }
    }
    x
}
fn jitter(r: &mut Rng) -> Z {
    zi(match r.below(10) {
        0..=5 => r.range(-1, 1),
        6..=8 => r.range(-4, 4),
        _ => r.range(-60, 60),
    } as i128)
}
/// A result worth aiming at.
fn target(r: &mut Rng, w: u32) -> Z {
    let j = jitter(r);
    let base = match r.below(8) {
        0 | 1 => zi(hi(w)),
        2 | 3 => zi(lo(w)),
        4 => zi(0),
        5 => zi(limbs(r, w)),
        _ => zi(value(r, w)),
    };
    z::add(&base, &j)
}

pub fn pair_add(r: &mut Rng, w: u32, minus: bool) -> (i128, i128) {
    let a = value(r, w);
    if r.chance(50) {
        return (a, value(r, w));
    }
    let t = target(r, w);
    // a + b = t or a - b = t
    let b = if minus { z::sub(&zi(a), &t) } else { z::sub(&t, &zi(a)) };
    (a, clamp(w, &b))
}
pub fn pair_mul(r: &mut Rng, w: u32) -> (i128, i128) {
    let a = value(r, w);
    if a == 0 || r.chance(35) {
        return (a, value(r, w));
    }
    let t = target(r, w);
    let b = z::add(&floor_div(&t, &zi(a)), &jitter(r));
    (a, clamp(w, &b))
}
fn scale_near(r: &mut Rng, coef: i128) -> Z {
    // where within one unit of the result the exact value lies
    match r.below(5) {
        0 => zi(0),
        1 => zi(coef / 2),
        2 => zi(coef - 1),
        3 => zi(1),
        _ => z::rem(&Z::from(r.u128()), &zi(coef)),
    }
}
/// a * b / 10^p close to something
pub fn pair_rmul(r: &mut Rng, w: u32, p: u32) -> (i128, i128) {
    let coef = pow10(p);
    match r.below(100) {
        0..=19 => (value(r, w), value(r, w)),
        20..=59 => {
            let a = value(r, w);
            if a == 0 {
                return (a, value(r, w));
            }
            let near = scale_near(r, coef);
            let t = z::add(&z::mul(&target(r, w), &zi(coef)), &near);
            let b = z::add(&floor_div(&t, &zi(a)), &jitter(r));
            swap(r, (a, clamp(w, &b)))
        }
        _ => {
            // exact multiples of half a unit, and their neighbours
            let (i, j) = (r.below(p as u64 + 1) as u32, r.below(p as u64 + 1) as u32);
            let two = if r.chance(70) && p > 0 { p - 1 } else { p };
            let i = i.min(two);
            let u = 2i128.pow(i) * 5i128.pow(j);
            let v = 2i128.pow(two - i) * 5i128.pow(p - j);
            let s = cofactor(r, w, u);
            let t = cofactor(r, w, v);
            let d = if r.chance(50) { 0 } else { r.range(-1, 1) as i128 };
            let e = if r.chance(70) { 0 } else { r.range(-1, 1) as i128 };
            swap(r, (clamp(w, &z::add(&z::mul(&zi(u), &zi(s)), &zi(d))), clamp(w, &z::add(&z::mul(&zi(v), &zi(t)), &zi(e)))))
        }
    }
}
/// An odd (mostly) number s with |u * s| <= hi, of any length
fn cofactor(r: &mut Rng, w: u32, u: i128) -> i128 {
    let max = hi(w) / u.max(1);
    let bits = 128 - (max as u128).leading_zeros();
    let bits = r.below(bits as u64 + 1) as u32;
    let m = (magnitude(r, bits) as i128).min(max);
    let m = if r.chance(90) { (m | 1).min(max.max(1)) } else { m };
    if r.chance(50) { -m } else { m }
}
fn swap(r: &mut Rng, (a, b): (i128, i128)) -> (i128, i128) {
    if r.chance(50) { (a, b) } else { (b, a) }
}
/// a * 10^k / b close to something.  (k = p: numbers; 0: by an integer; 2p: integer by number)
pub fn pair_rdiv(r: &mut Rng, w: u32, k: u32) -> (i128, i128) {
    let coef = z::pow(&zi(10), &zi(k as i128));
    match r.below(100) {
        0..=19 => (value(r, w), value(r, w)),
        20..=54 => {
            // a = q * b / coef
            let b = if r.chance(30) { limbs(r, w) } else { value(r, w) };
            let q = target(r, w);
            let half = if r.chance(30) { zi(b / 2) } else { zi(0) };
            let a = z::add(&floor_div(&z::add(&z::mul(&q, &zi(b)), &half), &coef), &jitter(r));
            (clamp(w, &a), b)
        }
        55..=69 => {
            // b = a * coef / q: reaches results near the ends of the range
            let a = value(r, w);
            let q = target(r, w);
            if q == zi(0) {
                return (a, value(r, w));
            }
            let b = z::add(&floor_div(&z::mul(&zi(a), &coef), &q), &jitter(r));
            (a, clamp(w, &b))
        }
        70..=89 => {
            // exact halves: a = c * odd, b = 2 c * (divisor of coef)
            let i = r.below(k as u64 + 1) as u32;
            let j = r.below(k as u64 + 1) as u32;
            let div = z::mul(&z::pow(&zi(2), &zi(i as i128)), &z::pow(&zi(5), &zi(j as i128)));
            let b2 = z::mul(&zi(2), &div);
            if b2 > zi(hi(w)) {
                return (value(r, w), value(r, w));
            }
            let c = cofactor(r, w, b2.i128());
            let b = z::mul(&b2, &zi(c));
            let n = cofactor(r, w, c.abs().max(1));
            let d = if r.chance(60) { zi(0) } else { zi(r.range(-1, 1) as i128) };
            (clamp(w, &z::add(&z::mul(&zi(c), &zi(n)), &d)), clamp(w, &b))
        }
        90..=95 => {
            // the divisor is huge: the remainder does not fit twice
            let a = value(r, w);
            let d = r.range(0, 3) as i128;
            let b = match r.below(4) {
                0 => hi(w) - d,
                1 => lo(w) + d,
                2 => hi(w) / 2 + d - 1,
                _ => -(hi(w) / 2) - d + 1,
            };
            (a, b)
        }
        _ => (value(r, w), *r.pick(&[1i128, -1, 2, -2, 3, 0, 5, 10])),
    }
}
/// a * 10^p close to a square or to s * (s + 1)
pub fn radicand(r: &mut Rng, w: u32, p: u32) -> i128 {
    let a = value(r, w);
    match r.below(10) {
        0..=2 => a,
        3 => clamp(w, &z::neg(&zi(a))),
        4 => {
            let m = magnitude(r, w - 1);
            m as i128
        }
        5..=7 => {
            // s such that s^2 / 10^p fits
            let top = z::mul(&zi(hi(w)), &zi(pow10(p)));
            let bits = bit_length(&top);
            let n = 1 + r_below(r, bits / 2 + 1);
            let s = magnitude(r, n.min(127)) as i128;
            let s = zi(s.max(0));
            let sq = z::mul(&s, &z::add(&s, &zi(r.below(2) as i128)));
            clamp(w, &z::add(&z::div(&sq, &zi(pow10(p))), &zi(r.range(-1, 2) as i128)))
        }
        _ => {
            // exact squares
            let t = r_below(r, (w - 1) / 2) + 1;
            let t = magnitude(r, t) as i128;
            let sq = z::mul(&zi(t), &zi(t));
            let odd = if p % 2 == 1 { 10 } else { 1 };
            let d = if r.chance(50) { 0 } else { r.range(-1, 1) };
            clamp(w, &z::add(&z::mul(&sq, &zi(odd)), &zi(d as i128))).max(0)
        }
    }
}
fn r_below(r: &mut Rng, n: u32) -> u32 {
    r.below(n as u64) as u32
}
fn bit_length(z: &Z) -> u32 {
    (0..300).find(|k| *z < z::pow(&zi(2), &zi(*k as i128))).unwrap()
}

// ------------------------------------------------------------------- text
fn digit(r: &mut Rng) -> char {
    *r.pick(&['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '9', '5', '4'])
}
fn digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| digit(r)).collect()
}
const WS: &[char] = &[
    ' ', ' ', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2003}', '\u{200a}',
    '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];
const ALIEN: &[char] = &[
    '.', '.', '-', '+', ' ', '_', ',', 'e', 'E', 'x', '0', '9', 'a', '/', ':', '\0', '\u{200b}', '\u{feff}', '٣', '０',
    '−', '"', '\\', '&', '<', '\u{1f600}', '\t', '\u{1c}', '\u{7f}',
];
/// Decimal text of n / 10^k, written out.
pub fn decimal(n: &Z, k: u32) -> String {
    let s = n.to_string();
    let (sign, d) = match s.strip_prefix('-') {
        Some(d) => ("-", d.to_string()),
        None => ("", s),
    };
    let d = format!("{}{}", "0".repeat((k as usize + 1).saturating_sub(d.len())), d);
    let (i, f) = d.split_at(d.len() - k as usize);
    if k == 0 { format!("{sign}{i}") } else { format!("{sign}{i}.{f}") }
}
/// A literal around a representable number, a half unit, or the end of the range.
pub fn literal(r: &mut Rng, w: u32, p: u32) -> String {
    match r.below(100) {
        // exactly a number
        0..=24 => decimal(&zi(value(r, w)), p),
        // a number with additional digits
        25..=54 => {
            let t = if r.chance(50) { target(r, w) } else { zi(value(r, w)) };
            let n = if r.chance(80) { 4 } else { 40 };
            let extra = 1 + r.below(n) as usize;
            let tail = match r.below(8) {
                0 => "0".repeat(extra),
                1 => format!("5{}", "0".repeat(extra - 1)),
                2 => format!("4{}", "9".repeat(extra - 1)),
                3 => format!("5{}1", "0".repeat(extra - 1)),
                4 => "9".repeat(extra),
                5 => format!("4{}", digits(r, extra - 1)),
                6 => format!("5{}", digits(r, extra - 1)),
                _ => digits(r, extra),
            };
            let n = if r.chance(90) { t } else { z::add(&t, &jitter(r)) };
            let d = decimal(&n, p);
            if p == 0 { format!("{d}.{tail}") } else { format!("{d}{tail}") }
        }
        // fewer digits than the precision
        55..=69 => {
            let k = r.below(p as u64 + 1) as u32;
            let d = z::add(&floor_div(&target(r, w), &zi(pow10(p - k))), &jitter(r));
            decimal(&d, k)
        }
        // digits of any length
        70..=84 => {
            let n = if r.chance(80) { max_p(w) as u64 + 3 } else { 90 };
            let i = 1 + r.below(n) as usize;
            let n = if r.chance(80) { p as u64 + 4 } else { 90 };
            let f = r.below(n) as usize;
            let sign = *r.pick(&["", "", "-", "+"]);
            let zeros = "0".repeat(if r.chance(20) { r.below(60) as usize } else { 0 });
            let (i, f) = (digits(r, i), digits(r, f));
            let frac_zeros = "0".repeat(if r.chance(10) { r.below(30) as usize } else { 0 });
            if f.is_empty() { format!("{sign}{zeros}{i}") } else { format!("{sign}{zeros}{i}.{frac_zeros}{f}") }
        }
        // zero, in many ways
        85..=89 => {
            let a = "0".repeat(1 + r.below(3) as usize);
            let b = "0".repeat(1 + r.below(p as u64 + 3) as usize);
            let sign = *r.pick(&["", "-", "+"]);
            if r.chance(50) { format!("{sign}{a}") } else { format!("{sign}{a}.{b}") }
        }
        // the wrong form
        _ => r
            .pick(&[
                "", ".", "-", "+", "-.", "1.", ".1", "-.5", "+1", "+-1", "--1", "1-", "1.-5", "1.+5", "1..2", "1.2.3", "0x10", "1e3",
                "1e-3", "1_000", "1,5", "NaN", "inf", "-inf", "nan", " ", "- 1", "1 .5", "1. 5", "+.", "١", "0.", "00", "-0", "-0.0", "+0.0", "1.5e0",
                "999999999999999999999999999999999999999999999999", "0.000000000000000000000000000000000000000000000000000001", "1.٣", "1.0x", "x1",
            ])
            .to_string(),
    }
}
/// A text much longer than any number is, by digits or space that change nothing
/// or little.
pub fn long_text(r: &mut Rng, w: u32, p: u32) -> String {
    let n = match r.below(8) {
        0 => 65530 + r.below(12) as usize,
        1 => 4096,
        2..=4 => 250 + r.below(14) as usize,
        _ => 60 + r.below(700) as usize,
    };
    let n = if n > 60000 && r.chance(97) { 1000 } else { n };
    long(r, w, p, n)
}
pub fn long(r: &mut Rng, w: u32, p: u32, n: usize) -> String {
    let d = decimal(&zi(value(r, w)), p);
    let d = if d.contains('.') { d } else { format!("{d}.") };
    match r.below(8) {
        0 => format!("{d}{}", "0".repeat(n)),
        1 => format!("{d}5{}", "0".repeat(n)),
        2 => format!("{d}5{}1", "0".repeat(n)),
        3 => format!("{d}4{}", "9".repeat(n)),
        4 => format!("{d}{}", "9".repeat(n)),
        5 => {
            let (sign, m) = match d.strip_prefix('-') {
                Some(m) => ("-", m),
                None => ("", &d[..]),
            };
            format!("{sign}{}{m}0", "0".repeat(n))
        }
        6 => format!("{}{d}0{}", " ".repeat(n / 2), "\t".repeat(n / 2)),
        _ => format!("1{}{d}", "0".repeat(n)),
    }
}
pub fn text(r: &mut Rng, w: u32, p: u32) -> String {
    if r.chance(1) && r.chance(30) {
        return long_text(r, w, p);
    }
    let mut s: Vec<char> = literal(r, w, p).chars().collect();
    // surround it
    if r.chance(15) {
        for _ in 0..r.range(1, 3) {
            s.insert(0, *r.pick(WS));
        }
    }
    if r.chance(15) {
        for _ in 0..r.range(1, 3) {
            s.push(*r.pick(WS));
        }
    }
    // damage it
    if r.chance(20) {
        for _ in 0..r.range(1, 2) {
            let i = r.below(s.len() as u64 + 1) as usize;
            match r.below(3) {
                0 => s.insert(i, *r.pick(ALIEN)),
                1 if i < s.len() => {
                    s.remove(i);
                }
                _ if i < s.len() => s[i] = *r.pick(ALIEN),
                _ => s.push(*r.pick(WS)),
            }
        }
    }
    s.into_iter().collect()
}

// ------------------------------------------------------------------ floats
pub fn float(r: &mut Rng, w: u32, p: u32) -> u64 {
    let nudge = |r: &mut Rng, b: u64| if r.chance(60) { b } else { b.wrapping_add(r.range(-3, 3) as u64) };
    match r.below(100) {
        // short decimals
        0..=29 => {
            let n = 1 + r.below(15) as u32;
            let m = r.below(pow10(n) as u64);
            let k = if r.chance(80) { r.range(-(p as i64) - 2, 3) } else { r.range(-45, 45) };
            let s = format!("{}{m}e{k}", if r.chance(50) { "-" } else { "" });
            s.parse::<f64>().unwrap().to_bits()
        }
        // representable numbers and half units next to them
        30..=54 => {
            let a = value(r, w);
            let x = if r.chance(60) {
                decimal(&zi(a), p)
            } else {
                decimal(&z::add(&z::mul(&zi(a), &zi(10)), &zi(*r.pick(&[5i128, 4, 6, 3, 9, -5]))), p + 1)
            };
            let b = x.parse::<f64>().unwrap().to_bits();
            nudge(r, b)
        }
        // the end of the range
        55..=64 => {
            let e = if r.chance(50) { hi(w) } else { lo(w) };
            let b = decimal(&zi(e), p).parse::<f64>().unwrap().to_bits();
            b.wrapping_add(r.range(-40, 40) as u64)
        }
        // any significand with an exponent around the range
        65..=84 => {
            let top = (w as i64) - 1 - (p as f64 * 3.3219) as i64;
            let e = r.range(-(p as i64 * 10 / 3) - 4, top + 3) + 1023;
            let m = match r.below(4) {
                0 => 0,
                1 => (1 << 52) - 1,
                2 => 1u64 << r.below(52),
                _ => r.u64() >> 12,
            };
            r.below(2) << 63 | (e as u64 & 0x7ff) << 52 | m
        }
        // integers
        85..=89 => (value(r, w) as f64 / pow10(r.below(p as u64 + 1) as u32) as f64).trunc().to_bits(),
        90..=95 => r.u64(),
        _ => *r.pick(&[
            0,
            1 << 63,
            1,
            (1 << 63) + 1,
            f64::INFINITY.to_bits(),
            f64::NEG_INFINITY.to_bits(),
            f64::NAN.to_bits(),
            f64::MAX.to_bits(),
            f64::MIN.to_bits(),
            f64::MIN_POSITIVE.to_bits(),
            f64::EPSILON.to_bits(),
            (1 << 52) - 1,
            0x7ff0_0000_0000_0001,
            1.0f64.to_bits(),
            (-1.0f64).to_bits(),
            0.5f64.to_bits(),
        ]),
    }
}

// ------------------------------------------------------------------- bytes
pub fn bytes(r: &mut Rng, w: u32, opt: bool) -> Vec<Z> {
    let n = (w / 8) as usize;
    let mut b = vec![];
    if opt {
        b.push(*r.pick(&[1u8, 1, 1, 1, 0, 2, 255]));
    }
    b.extend_from_slice(&value(r, w).to_le_bytes()[..n]);
    match r.below(10) {
        0 => b.truncate(r.below(b.len() as u64 + 1) as usize),
        1 => b.extend((0..r.below(4)).map(|_| r.u64() as u8).collect::<Vec<_>>()),
        2 => {
            let n = r.below(20) as usize;
            b = (0..n).map(|_| r.u64() as u8).collect();
        }
        _ => {}
    }
    b.into_iter().map(Z::from).collect()
}
fn compact(u: u128) -> Vec<u8> {
    if u < 64 {
        vec![(u as u8) << 2]
    } else if u < 1 << 14 {
        ((u as u16) << 2 | 1).to_le_bytes().to_vec()
    } else if u < 1 << 30 {
        ((u as u32) << 2 | 2).to_le_bytes().to_vec()
    } else {
        let n = (16 - u.leading_zeros() as usize / 8).max(4);
        let mut v = vec![((n - 4) << 2 | 3) as u8];
        v.extend_from_slice(&u.to_le_bytes()[..n]);
        v
    }
}
pub fn compact_value(r: &mut Rng, w: u32) -> i128 {
    if r.chance(40) {
        let e = *r.pick(&[6u32, 14, 30, 32, 40, 48, 56, 64, 72, 120]);
        if e < w - 1 {
            return (1i128 << e) + r.range(-2, 2) as i128;
        }
    }
    value(r, w)
}
pub fn compact_bytes(r: &mut Rng, w: u32) -> Vec<Z> {
    let mask = if w == 128 { u128::MAX } else { (1 << w) - 1 };
    let mut b = match r.below(10) {
        // canonical
        0..=5 => compact(compact_value(r, w) as u128 & mask),
        // canonical, maybe too large for the type
        6 => compact(r.u128() >> r.below(128)),
        // not canonical: too long a form
        7 => {
            let u = compact_value(r, w) as u128 & mask;
            match r.below(3) {
                0 => ((u as u16 & 0x3f) << 2 | 1).to_le_bytes().to_vec(),
                1 => ((u as u32 & 0x3fff) << 2 | 2).to_le_bytes().to_vec(),
                _ => {
                    let n = 4 + r.below(13) as usize;
                    let mut v = vec![((n - 4) << 2 | 3) as u8];
                    v.extend_from_slice(&u.to_le_bytes()[..n.min(16)]);
                    v
                }
            }
        }
        _ => {
            let n = r.below(19) as usize;
            (0..n).map(|_| r.u64() as u8).collect()
        }
    };
    match r.below(8) {
        0 => b.truncate(r.below(b.len() as u64 + 1) as usize),
        1 => b.push(r.u64() as u8),
        _ => {}
    }
    b.into_iter().map(Z::from).collect()
}
