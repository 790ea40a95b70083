//! Arbitrary-precision integers for the generated oracle.
//! Shares no code with the crate under test.

use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub enum Z {
    S(i128),
    /// Sign and magnitude, only for values that do not fit into `S`.
    B(bool, Vec<u64>),
}
use Z::*;

fn trim(v: &mut Vec<u64>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}
fn mag_of(x: i128) -> Vec<u64> {
    let u = x.unsigned_abs();
    let mut v = vec![u as u64, (u >> 64) as u64];
    trim(&mut v);
    v
}
fn parts(z: &Z) -> (bool, std::borrow::Cow<'_, [u64]>) {
    match z {
        S(x) => (*x < 0, mag_of(*x).into()),
        B(n, m) => (*n, m.as_slice().into()),
    }
}
fn make(neg: bool, mut m: Vec<u64>) -> Z {
    trim(&mut m);
    if m.len() <= 2 {
        let u = m.first().copied().unwrap_or(0) as u128 | (m.get(1).copied().unwrap_or(0) as u128) << 64;
        if neg {
            if u <= 1 << 127 {
                return S((u as i128).wrapping_neg());
            }
        } else if u < 1 << 127 {
            return S(u as i128);
        }
    }
    B(neg, m)
}
fn cmp_mag(a: &[u64], b: &[u64]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn add_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u128;
    for i in 0..a.len() {
        let s = a[i] as u128 + b.get(i).copied().unwrap_or(0) as u128 + c;
        r.push(s as u64);
        c = s >> 64;
    }
    r.push(c as u64);
    r
}
/// a - b for a >= b
fn sub_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = Vec::with_capacity(a.len());
    let mut borrow = false;
    for i in 0..a.len() {
        let y = b.get(i).copied().unwrap_or(0);
        let (d, b1) = a[i].overflowing_sub(y);
        let (d, b2) = d.overflowing_sub(borrow as u64);
        r.push(d);
        borrow = b1 | b2;
    }
    assert!(!borrow);
    r
}
fn mul_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = vec![0u64; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + b.len()] = c as u64;
    }
    r
}
/// Schoolbook division in base 2^32, one quotient digit at a time.
fn divrem_mag(a: &[u64], b: &[u64]) -> (Vec<u64>, Vec<u64>) {
    assert!(!b.is_empty(), "division by zero in the specification");
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u128;
        let mut q = vec![0; a.len()];
        let mut r = 0u128;
        for i in (0..a.len()).rev() {
            let t = r << 64 | a[i] as u128;
            q[i] = (t / d) as u64;
            r = t % d;
        }
        trim(&mut q);
        let mut r = vec![r as u64];
        trim(&mut r);
        return (q, r);
    }
    let s = b[b.len() - 1].leading_zeros() as usize;
    let v = shl(b, s);
    let mut u = shl(a, s);
    while u.len() <= a.len() {
        u.push(0);
    }
    let n = v.len();
    let m = u.len() - n;
    let mut q = vec![0u64; m];
    for j in (0..m).rev() {
        let num = (u[j + n] as u128) << 64 | u[j + n - 1] as u128;
        let mut qhat = num / v[n - 1] as u128;
        if qhat > u64::MAX as u128 {
            qhat = u64::MAX as u128;
        }
        // The estimate is at most two too large: subtract, add back as needed.
        let mut c = 0u128;
        let mut borrow = false;
        for i in 0..n {
            let p = qhat * v[i] as u128 + c;
            c = p >> 64;
            let (d, b1) = u[i + j].overflowing_sub(p as u64);
            let (d, b2) = d.overflowing_sub(borrow as u64);
            u[i + j] = d;
            borrow = b1 | b2;
        }
        let (d, b1) = u[j + n].overflowing_sub(c as u64);
        let (d, b2) = d.overflowing_sub(borrow as u64);
        u[j + n] = d;
        let mut neg = b1 | b2;
        while neg {
            qhat -= 1;
            let mut c = 0u128;
            for i in 0..n {
                let t = u[i + j] as u128 + v[i] as u128 + c;
                u[i + j] = t as u64;
                c = t >> 64;
            }
            let (d, over) = u[j + n].overflowing_add(c as u64);
            u[j + n] = d;
            neg = !over;
        }
        q[j] = qhat as u64;
    }
    trim(&mut q);
    let mut r = shr(&u[..n], s);
    trim(&mut r);
    (q, r)
}
fn shl(a: &[u64], s: usize) -> Vec<u64> {
    if s == 0 {
        return a.to_vec();
    }
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0;
    for &x in a {
        r.push(x << s | c);
        c = x >> (64 - s);
    }
    if c > 0 {
        r.push(c);
    }
    r
}
fn shr(a: &[u64], s: usize) -> Vec<u64> {
    if s == 0 {
        return a.to_vec();
    }
    (0..a.len()).map(|i| a[i] >> s | a.get(i + 1).copied().unwrap_or(0) << (64 - s)).collect()
}

pub fn zi(x: i128) -> Z {
    S(x)
}
pub fn neg(a: &Z) -> Z {
    sub(&S(0), a)
}
pub fn add(a: &Z, b: &Z) -> Z {
    if let (S(x), S(y)) = (a, b) {
        if let Some(r) = x.checked_add(*y) {
            return S(r);
        }
    }
    let ((na, ma), (nb, mb)) = (parts(a), parts(b));
    add_signed(na, &ma, nb, &mb)
}
fn add_signed(na: bool, ma: &[u64], nb: bool, mb: &[u64]) -> Z {
    if na == nb {
        make(na, add_mag(ma, mb))
    } else {
        match cmp_mag(ma, mb) {
            Ordering::Equal => S(0),
            Ordering::Greater => make(na, sub_mag(ma, mb)),
            Ordering::Less => make(nb, sub_mag(mb, ma)),
        }
    }
}
pub fn sub(a: &Z, b: &Z) -> Z {
    if let (S(x), S(y)) = (a, b) {
        if let Some(r) = x.checked_sub(*y) {
            return S(r);
        }
    }
    let ((na, ma), (nb, mb)) = (parts(a), parts(b));
    add_signed(na, &ma, !nb, &mb)
}
pub fn mul(a: &Z, b: &Z) -> Z {
    if let (S(x), S(y)) = (a, b) {
        // `checked_mul` of i128 is slow; most factors are short
        if let (Ok(x), Ok(y)) = (i64::try_from(*x), i64::try_from(*y)) {
            return S(x as i128 * y as i128);
        }
        if let Some(r) = x.checked_mul(*y) {
            return S(r);
        }
    }
    let ((na, ma), (nb, mb)) = (parts(a), parts(b));
    make(na != nb, mul_mag(&ma, &mb))
}
/// Division is specified for non-negative operands only.
pub fn div(a: &Z, b: &Z) -> Z {
    divrem(a, b).0
}
pub fn rem(a: &Z, b: &Z) -> Z {
    divrem(a, b).1
}
fn divrem(a: &Z, b: &Z) -> (Z, Z) {
    if let (S(x), S(y)) = (a, b) {
        assert!(*x >= 0 && *y > 0, "division {x} / {y} in the specification");
        return (S(x / y), S(x % y));
    }
    let ((na, ma), (nb, mb)) = (parts(a), parts(b));
    assert!(!na && !nb, "division with a negative operand in the specification");
    let (q, r) = divrem_mag(&ma, &mb);
    (make(false, q), make(false, r))
}

impl PartialEq for Z {
    fn eq(&self, o: &Z) -> bool {
        match (self, o) {
            (S(x), S(y)) => x == y,
            (B(n, a), B(m, b)) => n == m && a == b,
            _ => false,
        }
    }
}
impl Eq for Z {}
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Z {
    fn cmp(&self, o: &Z) -> Ordering {
        if let (S(x), S(y)) = (self, o) {
            return x.cmp(y);
        }
        let ((na, ma), (nb, mb)) = (parts(self), parts(o));
        match (na, nb) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&ma, &mb),
            (true, true) => cmp_mag(&mb, &ma),
        }
    }
}
impl std::hash::Hash for Z {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        match self {
            S(x) => x.hash(h),
            B(n, m) => (n, m).hash(h),
        }
    }
}
macro_rules! from {
    ($($t:ty)*) => { $( impl From<$t> for Z { fn from(x: $t) -> Z { S(x as i128) } } )* };
}
from!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 usize);
impl From<u128> for Z {
    fn from(x: u128) -> Z {
        make(false, vec![x as u64, (x >> 64) as u64])
    }
}
impl Z {
    pub fn i128(&self) -> i128 {
        match self {
            S(x) => *x,
            B(..) => panic!("{self:?} does not fit into i128"),
        }
    }
    pub fn to_i128(&self) -> Option<i128> {
        match self {
            S(x) => Some(*x),
            B(..) => None,
        }
    }
    pub fn to_u128(&self) -> Option<u128> {
        match self {
            S(x) => u128::try_from(*x).ok(),
            B(false, m) if m.len() <= 2 => Some(m[0] as u128 | (m.get(1).copied().unwrap_or(0) as u128) << 64),
            _ => None,
        }
    }
    pub fn u64(&self) -> u64 {
        u64::try_from(self.i128()).unwrap()
    }
    pub fn i32(&self) -> i32 {
        i32::try_from(self.i128()).unwrap()
    }
    pub fn usize(&self) -> usize {
        usize::try_from(self.i128()).unwrap()
    }
    pub fn parse(s: &str) -> Option<Z> {
        let (neg_, d) = match s.strip_prefix('-') {
            Some(d) => (true, d),
            None => (false, s),
        };
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let z = d.bytes().fold(S(0), |z, c| add(&mul(&z, &S(10)), &S((c - b'0') as i128)));
        Some(if neg_ { neg(&z) } else { z })
    }
}
impl std::fmt::Display for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            S(x) => write!(f, "{x}"),
            B(n, m) => {
                let mut chunks = vec![];
                let mut m = m.clone();
                while !m.is_empty() {
                    let (q, r) = divrem_mag(&m, &[10_000_000_000_000_000_000]);
                    chunks.push(r.first().copied().unwrap_or(0));
                    m = q;
                }
                let mut s = String::from(if *n { "-" } else { "" });
                for (i, c) in chunks.iter().rev().enumerate() {
                    s += &if i == 0 { format!("{c}") } else { format!("{c:019}") };
                }
                f.write_str(&s)
            }
        }
    }
}

// ---- lists, as the generated code uses them
pub fn nth<'a, T>(l: &'a [T], i: &Z) -> &'a T {
    &l[i.usize()]
}
pub fn length<T>(l: &[T]) -> Z {
    zi(l.len() as i128)
}
pub fn append<T>(mut l: Vec<T>, x: T) -> Vec<T> {
    l.push(x);
    l
}
pub fn concat<T: Clone>(mut l: Vec<T>, r: &[T]) -> Vec<T> {
    l.extend_from_slice(r);
    l
}
pub fn replace<T>(mut l: Vec<T>, i: &Z, x: T) -> Vec<T> {
    l[i.usize()] = x;
    l
}
pub fn slice<T: Clone>(l: &[T], a: &Z, b: &Z) -> Vec<T> {
    l[a.usize()..b.usize()].to_vec()
}
pub fn fold<T, A>(l: &[T], init: A, f: impl Fn(A, &T) -> A) -> A {
    l.iter().fold(init, f)
}
pub fn fold_range<A>(a: &Z, b: &Z, init: A, f: impl Fn(A, Z) -> A) -> A {
    (a.i128()..b.i128()).fold(init, |x, i| f(x, zi(i)))
}

pub fn pow(b: &Z, k: &Z) -> Z {
    use std::sync::OnceLock;
    static P10: OnceLock<Vec<Z>> = OnceLock::new();
    static P2: OnceLock<Vec<Z>> = OnceLock::new();
    let k = k.usize();
    let table = match b {
        S(10) => P10.get_or_init(|| powers(10, 420)),
        S(2) => P2.get_or_init(|| powers(2, 2200)),
        _ => return (0..k).fold(S(1), |p, _| mul(&p, b)),
    };
    if k < table.len() {
        return table[k].clone();
    }
    // texts that long are rare
    let h = pow(b, &zi(k as i128 / 2));
    let h2 = mul(&h, &h);
    if k % 2 == 0 { h2 } else { mul(&h2, b) }
}
fn powers(b: i128, n: usize) -> Vec<Z> {
    let mut v = vec![S(1)];
    for i in 0..n {
        let next = mul(&v[i], &S(b));
        v.push(next);
    }
    v
}
