// -*- mode: Bluespec; -*-
/// Rounding of exact quotients and square roots, stated without tables and
/// without sizes, so that the same text is used by the Quint simulator, by the
/// Rust oracle generated from the specification, by TLC (small widths) and by
/// Apalache (full widths).
///
/// `/` and `%` are only ever applied to non-negative operands.
module rounding {
  type Mode = Floor | Nearest | Ceil

  pure def iabs(x: int): int = if (x < 0) (0 - x) else x
  pure def sgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0
  pure def imin(x: int, y: int): int = if (x < y) x else y
  pure def imax(x: int, y: int): int = if (x < y) y else x

  /// `r` is the rounding of `n / d` (d > 0) according to `m`.  Nearest breaks
  /// ties away from zero.  Stated by cross-multiplication, without dividing.
  pure def isRounded(r: int, n: int, d: int, m: Mode): bool =
    match m {
      | Floor => r * d <= n and n < (r + 1) * d
      | Ceil => (r - 1) * d < n and n <= r * d
      | Nearest => {
          val e = 2 * iabs(n - r * d)
          e < d or (e == d and iabs(r * d) > iabs(n))
        }
    }

  /// The rounding of `n / d` lies outside of [l, h], again without dividing.
  pure def roundsOutside(l: int, h: int, n: int, d: int, m: Mode): bool =
    match m {
      | Floor => n >= (h + 1) * d or n < l * d
      | Ceil => n > h * d or n <= (l - 1) * d
      | Nearest =>
          // |n / d| >= bound + 1/2 goes away from zero
          2 * n >= (2 * h + 1) * d or 2 * n <= (2 * l - 1) * d
    }

  /// Quotients of non-negative numbers, and the rounding function itself.
  pure def floorDiv(n: int, d: int): int =
    if (n >= 0) n / d else 0 - ((d - 1 - n) / d)
  pure def truncDiv(n: int, d: int): int =
    sgn(n) * sgn(d) * (iabs(n) / iabs(d))
  pure def roundDiv(n: int, d: int, m: Mode): int =
    match m {
      | Floor => floorDiv(n, d)
      | Ceil => 0 - floorDiv(0 - n, d)
      | Nearest => sgn(n) * ((2 * iabs(n) + d) / (2 * d))
    }

  /// `s` is the rounded square root of the non-negative number `n`.
  pure def isRoundedSqrt(s: int, n: int, m: Mode): bool =
    s >= 0 and match m {
      | Floor => s * s <= n and n < (s + 1) * (s + 1)
      | Ceil => n <= s * s and (s == 0 or (s - 1) * (s - 1) < n)
      // |s - sqrt(n)| < 1/2; equality would need an odd square equal to 4n
      | Nearest => 4 * n < (2 * s + 1) * (2 * s + 1) and (s == 0 or (2 * s - 1) * (2 * s - 1) < 4 * n)
    }
}
