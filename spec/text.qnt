// -*- mode: Bluespec; -*-
/// Decimal text.  A string is the list of its Unicode code points.
module text {
  import num.* from "./num"

  // '+' 43, '-' 45, '.' 46, '0'..'9' 48..57, '"' 34
  pure def isDigit(c: int): bool = 48 <= c and c <= 57
  pure def allDigits(s: List[int]): bool = s.foldl(true, (b, c) => b and isDigit(c))
  pure def digitsValue(s: List[int]): int = s.foldl(0, (v, c) => v * 10 + (c - 48))

  /// Unicode White_Space.
  pure def isWs(c: int): bool = or {
    9 <= c and c <= 13, c == 32, c == 133, c == 160, c == 5760,
    8192 <= c and c <= 8202, c == 8232, c == 8233, c == 8239, c == 8287, c == 12288
  }

  pure def trim(s: List[int]): List[int] = {
    val n = s.length()
    val first = range(0, n).foldl(n, (acc, i) => if (acc == n and not(isWs(s[i]))) i else acc)
    val last = range(0, n).foldl(0, (acc, i) => if (isWs(s[i])) acc else i + 1)
    if (first >= last) List() else s.slice(first, last)
  }

  /// Position of the first '.', or -1.
  pure def point(s: List[int]): int =
    range(0, s.length()).foldl(-1, (acc, i) => if (acc == -1 and s[i] == 46) i else acc)

  pure def hasSign(s: List[int]): bool = s.length() > 0 and (s[0] == 43 or s[0] == 45)
  pure def isNegative(s: List[int]): bool = s.length() > 0 and s[0] == 45
  pure def unsigned(s: List[int]): List[int] = if (hasSign(s)) s.slice(1, s.length()) else s

  /// A decimal literal denotes n / 10^k.
  type Lit = { ok: bool, n: int, k: int }
  pure val BAD: Lit = { ok: false, n: 0, k: 0 }

  /// sign? digits ('.' digits)?  -- both groups of digits must be non-empty.
  pure def literal(s: List[int]): Lit = {
    val d = point(s)
    val ip = if (d < 0) s else s.slice(0, d)
    val fp = if (d < 0) List() else s.slice(d + 1, s.length())
    val digits = unsigned(ip)
    if (digits.length() == 0 or not(allDigits(digits)) or not(allDigits(fp)) or (d >= 0 and fp.length() == 0))
      BAD
    else {
      val m = digitsValue(digits.concat(fp))
      { ok: true, n: if (isNegative(ip)) 0 - m else m, k: fp.length() }
    }
  }

  /// Decimal digits of x >= 0.
  pure def digits(x: int): List[int] =
    range(0, 45).foldl({ v: x, l: List() }, (s, _) =>
      if (s.v == 0 and s.l.length() > 0) s
      else { v: s.v / 10, l: [48 + s.v % 10].concat(s.l) }).l

  /// The `p` fractional digits of 0 <= x < 10^p without trailing zeros, or "0".
  pure def fraction(x: int, p: int): List[int] = {
    val z = trailingZeros10(x)
    if (x == 0) [48]
    else {
      val d = digits(x / pow10(z))
      range(0, p - z - d.length()).foldl(List(), (l, _) => l.append(48)).concat(d)
    }
  }

  /// Canonical text of a / 10^p: minus sign, integral digits, '.', shortest
  /// non-empty fraction.
  pure def render(a: int, p: int): List[int] = {
    val m = iabs(a)
    val body = digits(m / pow10(p)).append(46).concat(fraction(m % pow10(p), p))
    if (a < 0) [45].concat(body) else body
  }
  pure def quoted(s: List[int]): List[int] = [34].concat(s).append(34)

  /// Decimal digits of any integer.
  pure def signed(x: int): List[int] = if (x < 0) [45].concat(digits(iabs(x))) else digits(x)

  /// What a serializer of serde is told about the number a / 10^p stored in w
  /// bits: text, or the representation, or nothing; `some` goes in front of what an
  /// option holds.  ("str 1.5", "i64 1500", "some str 1.5", "none")
  pure def toldText(a: int, p: int): List[int] = [115, 116, 114, 32].concat(render(a, p))
  pure def toldBits(w: int, a: int): List[int] = [105].concat(digits(w)).append(32).concat(signed(a))
  pure def toldSome(t: List[int]): List[int] = [115, 111, 109, 101, 32].concat(t)
  pure val TOLD_FLOAT: List[int] = [102, 54, 52]
  pure val TOLD_NONE: List[int] = [110, 111, 110, 101]
}
