// -*- mode: Bluespec; -*-
/// IEEE-754 binary64, given by its bit pattern, as an exact rational number.
module float {
  import num.* from "./num"

  /// sign * m * 2^e
  type Binary64 = { finite: bool, neg: bool, m: int, e: int }
  pure def decode(bits: int): Binary64 = {
    val neg = bits >= pow2(63)
    val rest = bits % pow2(63)
    val be = rest / pow2(52)
    val frac = rest % pow2(52)
    if (be == 2047) { finite: false, neg: neg, m: frac, e: 0 }
    else if (be == 0) { finite: true, neg: neg, m: frac, e: -1074 }
    else { finite: true, neg: neg, m: frac + pow2(52), e: be - 1075 }
  }

  /// |x| * 10^p as a fraction num / den.
  type Ratio = { num: int, den: int }
  pure def scaled(f: Binary64, p: int): Ratio =
    if (f.e >= 0) { num: f.m * pow2(f.e) * pow10(p), den: 1 }
    else { num: f.m * pow10(p), den: pow2(0 - f.e) }

  /// The conversion is allowed to be off by slightly more than half a unit of
  /// the last place (it rounds up from 0.444...), plus the rounding of the
  /// significand to at least 4.5e14 (15 to 16 decimal digits).
  /// |r - x| <= 0.5556 + 1.2e-15 * |x|, multiplied out by 10^19 * den.
  pure def slack(x: Ratio): int = 5556 * pow10(15) * x.den + 12000 * x.num
  pure def near(r: int, x: Ratio): bool =
    pow10(19) * iabs(r * x.den - x.num) <= slack(x)

  /// A conversion result outside of [.., bound] is allowed only if the exact
  /// value, within the same tolerance, reaches beyond the bound.
  pure def mayExceed(bound: int, x: Ratio): bool =
    pow10(19) * ((bound + 1) * x.den - x.num) <= slack(x)

  /// x is the binary64 nearest to c / 10^p: |c/10^p - x| < ulp(x) / 2, normal x
  /// with a significand that is not a power of two (a stricter case).
  pure def rendersAs(c: int, f: Binary64, p: int): bool = {
    val x = scaled(f, p)
    f.m > pow2(52) and 2 * f.m * iabs(c * x.den - x.num) < x.num
  }

  /// The unique candidate: |x| * 10^p rounded to an integer and then to 15
  /// significant digits.
  pure def digitCount(x: int): int = range(0, 400).foldl(0, (k, i) => if (x >= pow10(i)) i + 1 else k)
  pure def candidate(x: Ratio): int = {
    val c = roundDiv(x.num, x.den, Nearest)
    val k = digitCount(c)
    if (k <= 15) c else roundDiv(c, pow10(k - 15), Nearest) * pow10(k - 15)
  }
  /// The decimal that x stands for, if it has at most 15 digits and at most p
  /// of them after the point; -1 otherwise.
  pure def shortDecimal(f: Binary64, p: int): int = {
    val c = candidate(scaled(f, p))
    if (c > 0 and rendersAs(c, f, p)) c else -1
  }

  /// From 2^53 on every binary64 is an integer, and its exact value is as good
  /// a result as the shortest decimal that renders as it.
  pure def isLarge(x: Ratio, p: int): bool = x.num >= pow2(53) * pow10(p) * x.den

  /// y is a / 10^p up to a relative error of 2^-51, or of 2^-52 (less than one
  /// unit of the last place) if both a and 10^p are binary64 numbers.
  pure def isDirect(a: int, p: int): bool = p <= 22 and iabs(a) <= pow2(53)
  pure def closeTo(y: Binary64, a: int, p: int): bool = {
    val x = scaled(y, p)
    and {
      y.finite,
      if (a == 0) y.m == 0 else y.neg == (a < 0),
      iabs(iabs(a) * x.den - x.num) * (if (isDirect(a, p)) pow2(52) else pow2(51)) <= iabs(a) * x.den
    }
  }
}
