// -*- mode: Bluespec; -*-
/// How the library computes what the rest of the specification only relates:
/// truncating division with a correction, halves without the sum, square roots
/// bit by bit and by Newton's iteration, long division in a small base.
module algorithms {
  import num.* from "./num"
  export num.*

  pure val MODES: Set[Mode] = Set(Floor, Nearest, Ceil)
  /// The sign towards which a mode rounds what is not zero.
  pure def direction(m: Mode): int =
    match m { | Floor => -1 | Nearest => 0 | Ceil => 1 }

  /// Truncate, look at what is lost, and at the sign.  `2 * |loss|` is avoided.
  pure def corrected(n: int, d: int, m: Mode): int = {
    val r = truncDiv(n, d)
    val loss = n - r * d
    val sign = sgn(n) * sgn(d)
    val more = if (m == Nearest) loss != 0 and iabs(loss) >= iabs(d) - iabs(loss)
               else loss != 0 and direction(m) == sign
    if (more) r + sign else r
  }

  /// Half of a sum that may not fit into w bits: every intermediate result does.
  type Halves = { r: int, parts: Set[int] }
  pure def halves(a: int, b: int, m: Mode): Halves =
    if (sgn(a) != sgn(b)) { r: corrected(a + b, 2, m), parts: Set(a + b) }
    else {
      val rest = (a - 2 * truncDiv(a, 2)) + (b - 2 * truncDiv(b, 2))
      val s = truncDiv(a, 2) + truncDiv(b, 2)
      val h = corrected(rest, 2, m)
      { r: s + h, parts: Set(rest, s, h, s + h) }
    }

  /// The square root of x from that of x / 4.
  pure def root4(x: int, quarter: int): int = {
    val lo = 2 * quarter
    val hi = lo + 1
    if (hi * hi <= x) hi else lo
  }

  /// Newton's iteration from any guess: up while it rises, then down while it falls.
  pure def newton(x: int, guess: int): int = {
    def better = (s) => (x / s + s) / 2
    val up = range(0, 200).foldl(guess, (s, _) => if (s < better(s)) better(s) else s)
    range(0, 200).foldl(up, (s, _) => if (s > better(s)) better(s) else s)
  }

  /// The mode is applied to a square root that has been rounded down.
  pure def rootInMode(x: int, lo: int, m: Mode): int = {
    val up = match m {
      | Floor => false
      | Nearest => x - lo * lo >= (lo * lo + lo + lo + 1) - x
      | Ceil => lo * lo != x
    }
    if (up) lo + 1 else lo
  }

  /// The next power of ten by the number of leading zeros: the first candidate
  /// is the least power that is not below every number with as many.
  pure def bitLength(w: int, x: int): int = range(0, w).foldl(0, (n, k) => if (pow2(k) <= x) k + 1 else n)
  pure def powerFrom(w: int, bound: int): int = {
    val c = ceilPow10(bound)
    if (c <= hi(w)) c else 0
  }
  pure def tableEntry(w: int, bits: int): int =
    powerFrom(w, if (bits == 0) 1 else pow2(bits - 1))
  pure def nextPower(w: int, x: int): int = {
    val bits = bitLength(w, x)
    val first = tableEntry(w, bits)
    if (x > first) tableEntry(w, bits + 1) else first
  }

  /// A pair of mantissa and exponent: as many zeros as allowed are taken off.
  type Decimal = { m: int, e: int }
  pure def stripped(x: int, p: int, most: int): Decimal =
    if (x == 0) { m: 0, e: imin(0, most) }
    else range(0, 60).foldl({ m: x, e: 0 - p }, (s, _) =>
      if (s.e < most and iabs(s.m) % 10 == 0) { m: truncDiv(s.m, 10), e: s.e + 1 } else s)
}

/// Knuth's algorithm D with digits of two bits, on numbers of four digits, with
/// a record of the corrections that were needed.
module division {
  import num.* from "./num"

  pure val B = 4
  pure val N = 4
  type Trace = { u: List[int], q: List[int], estimates: int, capped: int, addedBack: int }
  type Quotient = { q: int, r: int, estimates: int, capped: int, addedBack: int }

  pure def digits(x: int, n: int): List[int] =
    range(0, n).foldl({ l: List(), x: x }, (s, _) => { l: s.l.append(s.x % B), x: s.x / B }).l
  pure def number(l: List[int]): int =
    range(0, l.length()).foldl(0, (s, i) => s + l[i] * B^i)
  pure def length_(x: int): int = range(0, N + 1).foldl(0, (n, k) => if (B^k <= x) k + 1 else n)

  /// One digit of the quotient.  v has n >= 2 digits, the highest at least B/2.
  pure def step(t: Trace, v: List[int], n: int, j: int): Trace = {
    val top = t.u[j + n]
    val v1 = v[n - 1]
    val v2 = v[n - 2]
    val capped = top >= v1
    val two = top * B + t.u[j + n - 1]
    val first = if (capped) { q: B - 1, r: 0, k: 0, go: false } else { q: two / v1, r: two % v1, k: 0, go: true }
    // too large by the second digit of the divisor? stops when the remainder overflows
    val est = range(0, 3).foldl(first, (s, _) =>
      if (s.go and s.q * v2 > s.r * B + t.u[j + n - 2])
        { q: s.q - 1, r: s.r + v1, k: s.k + 1, go: s.r + v1 < B }
      else { q: s.q, r: s.r, k: s.k, go: false })
    // subtract from the digits j to j + n, as if there were nothing else
    val part = number(t.u.slice(j, j + n + 1))
    val whole = B^(n + 1)
    val diff = part - est.q * number(v.slice(0, n))
    val borrow = diff < 0
    val rest = if (borrow) diff + whole else diff
    val fixed = if (borrow) (rest + number(v.slice(0, n))) % whole else rest
    val q = if (borrow) est.q - 1 else est.q
    val ds = digits(fixed, n + 1)
    val u = range(0, t.u.length()).foldl(List(), (l, i) => l.append(if (j <= i and i <= j + n) ds[i - j] else t.u[i]))
    { u: u, q: t.q.replaceAt(j, q), estimates: t.estimates + est.k,
      capped: t.capped + (if (capped) 1 else 0), addedBack: t.addedBack + (if (borrow) 1 else 0) }
  }

  pure def divide(x: int, y: int): Quotient = {
    val n = length_(y)
    val m = length_(x) - n
    // shift by bits until the highest digit is at least half the base
    val top = y / B^(n - 1)
    val k = if (top >= B / 2) 1 else B / 2
    val v = digits(y * k, N + 1)
    val t = range(0, m + 1).foldl({ u: digits(x * k, N + 1), q: digits(0, N), estimates: 0, capped: 0, addedBack: 0 },
      (t, i) => step(t, v, n, m - i))
    { q: number(t.q), r: number(t.u) / k, estimates: t.estimates, capped: t.capped, addedBack: t.addedBack }
  }

  /// Long multiplication with the carry handled as the library does: the carry of
  /// a row is one bit, what does not fit goes straight into the digit above.
  type Row = { ret: List[int], carry: int, lost: bool }
  pure def multiply(x: int, y: int): Row = {
    val a = digits(x, N)
    val b = digits(y, N)
    range(0, N).foldl({ ret: digits(0, 2 * N), carry: 0, lost: false }, (rows, i) =>
      range(0, N).foldl({ ret: rows.ret, carry: 0, lost: rows.lost }, (s, j) => {
        val p = a[j] * b[i]
        val low = p % B + s.ret[i + j]
        val high = p / B + low / B
        val total = high + s.carry + s.ret[i + j + 1]
        { ret: s.ret.replaceAt(i + j, low % B).replaceAt(i + j + 1, total % B), carry: total / B,
          // the high digit of a product has room for a carry; two carries do not come together
          lost: s.lost or high >= B or total / B > 1 }
      }))
  }
}

/// The algorithms meet the relations, tried on all small numbers.
module algorithmsTest {
  import algorithms.*
  import division as D

  pure def between(l: int, h: int): Set[int] = l.to(h)

  run correctedTest = assert(between(-130, 130).forall(n => between(-13, 13).forall(d => MODES.forall(m =>
    d != 0 implies isRounded(corrected(n, d, m), n * sgn(d), iabs(d), m)))))

  run halvesTest = assert(between(-32, 31).forall(a => between(-32, 31).forall(b => MODES.forall(m => {
    val h = halves(a, b, m)
    isRounded(h.r, a + b, 2, m) and h.parts.forall(x => -32 <= x and x <= 31)
  }))))

  run root4Test = assert(between(4, 3000).forall(x => isRoundedSqrt(root4(x, isqrtBits(x / 4, 8)), x, Floor)))

  run newtonTest = assert(between(4, 300).forall(x => between(1, 40).forall(g => isRoundedSqrt(newton(x, g), x, Floor))))

  run rootInModeTest = assert(between(0, 3000).forall(x => MODES.forall(m => isRoundedSqrt(rootInMode(x, isqrtBits(x, 8), m), x, m))))

  run nextPowerTest = assert(between(0, 32767).forall(x => {
    val c = ceilPow10(x)
    nextPower(16, x) == (if (c <= 32767) c else 0)
  }))

  run strippedTest = assert(between(-2100, 2100).forall(x => between(-2, 4).forall(most => {
    val d = stripped(x, 2, most)
    and {
      d.m * pow10(d.e + 2) == x,
      d.e <= most,
      x != 0 implies (d.e == most or iabs(d.m) % 10 != 0),
    }
  })))

  run divisionTest = assert(between(4, 255).forall(y => between(0, 255).forall(x => y <= x implies {
    val d = D::divide(x, y)
    d.q == x / y and d.r == x % y and d.estimates <= 2 * D::N
  })))

  /// Each of the corrections is needed by some numbers.
  run correctionsTest = all {
    assert(between(64, 255).exists(y => between(128, 255).exists(x => y <= x and D::divide(x, y).addedBack > 0)) or
           between(16, 63).exists(y => between(64, 255).exists(x => D::divide(x, y).addedBack > 0))),
    assert(between(4, 63).exists(y => between(16, 255).exists(x => y <= x and D::divide(x, y).capped > 0))),
    assert(between(4, 63).exists(y => between(16, 255).exists(x => y <= x and D::divide(x, y).estimates > 0))),
  }

  run multiplyTest = assert(between(0, 255).forall(x => between(0, 255).forall(y => y % 3 == 0 implies {
    val m = D::multiply(x, y)
    D::number(m.ret) == x * y and not(m.lost)
  })))
}

/// The same for all numbers of the widths of the library, to be verified
/// symbolically.  There is a single state of arbitrary numbers.
module arithmeticProof {
  import algorithms.*
  const W: int
  const P: int

  var n: int
  var a: int
  var b: int

  action anywhere = {
    // products and scaled numbers have twice the width
    nondet x = oneOf((0 - 2^(2 * W)).to(2^(2 * W)))
    nondet y = oneOf((0 - 2^(W - 1)).to(2^(W - 1) - 1))
    nondet z = oneOf((0 - 2^(W - 1)).to(2^(W - 1) - 1))
    all { n' = x, a' = y, b' = z }
  }
  action init = anywhere
  action step = all { n' = n, a' = a, b' = b }

  val rounded = MODES.forall(m => isRounded(corrected(n, 10^P, m), n, 10^P, m))
  val unique = MODES.forall(m => roundDiv(n, 10^P, m) == corrected(n, 10^P, m))
  val halved = MODES.forall(m => {
    val h = halves(a, b, m)
    isRounded(h.r, a + b, 2, m) and h.parts.forall(x => inRange(W, x))
  })
  val inv = rounded and unique and halved
}
module arithmetic16 { import arithmeticProof(W = 16, P = 2).* }
module arithmetic64 { import arithmeticProof(W = 64, P = 9).* }
module arithmetic64most { import arithmeticProof(W = 64, P = 18).* }
module arithmetic128 { import arithmeticProof(W = 128, P = 38).* }

module rootProof {
  import algorithms.*
  const W: int

  var x: int
  var q: int

  /// q is the root of x / 4, and r that of x.
  action anywhere = {
    nondet y = oneOf(0.to(2^W - 1))
    nondet s = oneOf(0.to(2^W - 1))
    all {
      isRoundedSqrt(s, y / 4, Floor),
      x' = y,
      q' = s,
    }
  }
  action init = anywhere
  action step = all { x' = x, q' = q }
  val r = root4(x, q)
  val root = isRoundedSqrt(r, x, Floor)
  val modes = MODES.forall(m => isRoundedSqrt(rootInMode(x, r, m), x, m))
  val inv = root and modes
}
module root32 { import rootProof(W = 32).* }
module root255 { import rootProof(W = 255).* }
