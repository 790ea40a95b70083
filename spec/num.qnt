// -*- mode: Bluespec; -*-
/// Powers, two's complement ranges and the executable (computing) counterparts
/// of the relations in `rounding`.
module num {
  import rounding.* from "./rounding"
  export rounding.*

  pure def pow10(k: int): int = 10^k
  pure def pow2(k: int): int = 2^k

  /// The range of a signed two's complement integer with `w` bits.
  pure def hi(w: int): int = pow2(w - 1) - 1
  pure def lo(w: int): int = 0 - pow2(w - 1)
  pure def inRange(w: int, x: int): bool = lo(w) <= x and x <= hi(w)
  pure def clamp(w: int, x: int): int = if (x < lo(w)) lo(w) else if (x > hi(w)) hi(w) else x

  /// Floor of the square root, one bit at a time (n < 4^k).
  pure def isqrtBits(n: int, k: int): int =
    range(0, k).foldl(0, (acc, i) => {
      val t = acc + pow2(k - 1 - i)
      if (t * t <= n) t else acc
    })
  pure def roundSqrt(n: int, m: Mode): int = {
    val s = isqrtBits(n, 130)
    match m {
      | Floor => s
      | Ceil => if (s * s == n) s else s + 1
      | Nearest => if (n - s * s > s) s + 1 else s
    }
  }

  /// Number of decimal digits of |x|, and the exponent of 10 dividing x.
  pure def trailingZeros10(x: int): int =
    range(0, 60).foldl({ v: x, k: 0, go: true }, (s, _) =>
      if (s.go and s.v != 0 and iabs(s.v) % 10 == 0)
        { v: sgn(s.v) * (iabs(s.v) / 10), k: s.k + 1, go: true }
      else { v: s.v, k: s.k, go: false }).k

  /// The smallest power of ten that is >= x (x >= 0).
  pure def ceilPow10(x: int): int =
    range(0, 45).foldl(1, (acc, _) => if (acc < x) acc * 10 else acc)
}
