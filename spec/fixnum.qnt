// -*- mode: Bluespec; -*-
/// What every call of the library may answer.
///
/// A number of layout `w` (bits of the integer that stores it) and precision
/// `p` is the integer `a`, standing for a / 10^p.  `accept(call, outcome)` is
/// the acceptance relation: it is what recorded executions are judged by.
/// `answer(call)` is one outcome the relation accepts, computed; the state
/// machines use it to produce behaviours.
module fixnum {
  import num.* from "./num"
  export num.*
  import text.* from "./text"
  export text.*
  import float.* from "./float"
  export float.*
  import codec.* from "./codec"
  export codec.*

  type Un = { w: int, p: int, a: int }
  type Bin = { w: int, a: int, b: int }
  type RUn = { w: int, p: int, a: int, mode: Mode }
  type RBin = { w: int, p: int, a: int, b: int, mode: Mode }
  type Dec = { w: int, p: int, m: int, e: int }
  type Str = { w: int, p: int, s: List[int] }
  type Limited = { w: int, p: int, a: int, room: int }
  type Opt = { w: int, p: int, some: bool, a: int }
  /// form: 0 the type itself, 1 the module `repr`, 2 `str`, 3 `float`
  type Told = { w: int, p: int, a: int, form: int, human: bool, opt: bool, some: bool }

  type Call =
    // exact arithmetic on the representation, checked and saturating
    | CAdd(Bin) | SAdd(Bin) | CSub(Bin) | SSub(Bin) | CMul(Bin) | SMul(Bin)
    | CNeg(Un) | Abs(Un) | Signum(Un)
    // rounding arithmetic
    | RMul(RBin) | SRMul(RBin) | RDiv(RBin) | Recip(RUn)
    | RDivInt(RBin)       // a / 10^p by the integer b; p = 0: integer by integer
    | IntRDiv(RBin)       // the integer a by b / 10^p
    | IntRatio(RBin)      // the integer a by the integer b, giving a number of precision p
    | Sqrt(RUn)
    // rounding to coarser grids
    | Integral(RUn)       // an integer
    | RoundTo(RUn)        // floor, round, ceil
    | HalfSum(RBin) | NextPow10(Un) | TruncBy(Bin)
    // conversions
    | FromDec(Dec) | ToDec(Dec)     // ToDec: m is the number, e the largest exponent wanted
    | FromInt(Un)                   // a is any integer
    | Parse(Str) | ParseExact(Str) | Literal(Str)
    | Show(Un) | ShowJson(Opt)
    | Tell(Told)                       // to any serializer of serde
    | ShowInto(Limited)                // to a writer that takes only so many characters
    | FromF64({ w: int, p: int, bits: int }) | IntoF64(Un) | ViaF64(Un)
    | Encode(Bin)                   // b: 0 plain, 1 a tag byte in front (Option)
    | Decode({ w: int, opt: bool, bytes: List[int] })
    | EncodeCompact(Un) | DecodeCompact({ w: int, bytes: List[int] })
    | Consume({ w: int, opt: bool, compact: bool, bytes: List[int] })  // how many bytes decoding reads
    | RejectType(Un)                // deserialize from a value of a wrong type
    // values
    | Compare(Bin) | Same(Bin) | SameHash(Bin)
    | Zero(Un) | One(Un) | Least(Un) | Greatest(Un) | Epsilon(Un) | Digits(Un) | Default(Un)
    | Bits(Un)
    | SchemaType

  type Outcome =
    | Ret(int)
    | Overflow | DivisionByZero | DomainViolation
    | Reject                        // a conversion or decoding error
    | Panic
    | Text(List[int])
    | Bytes(List[int])
    | Decimal({ m: int, e: int })
    | Truth(bool)
    | F64(int)
    | Absent                        // None
    | Cut(List[int])                // the writer's error, and what it got before

  // ---------------------------------------------------------------- helpers
  pure def exactly(w: int, x: int): Outcome = if (inRange(w, x)) Ret(x) else Overflow
  pure def convert(w: int, x: int): Outcome = if (inRange(w, x)) Ret(x) else Reject

  /// n / d rounded; d may be negative but not zero.
  pure def rounded(w: int, n: int, d: int, m: Mode): Outcome =
    exactly(w, roundDiv(n * sgn(d), iabs(d), m))

  /// The relational counterpart of `rounded`, which does not divide.
  pure def acceptRounded(w: int, n: int, d: int, m: Mode, o: Outcome): bool = {
    val nn = n * sgn(d)
    val dd = iabs(d)
    match o {
      | Ret(r) => inRange(w, r) and isRounded(r, nn, dd, m)
      | Overflow => roundsOutside(lo(w), hi(w), nn, dd, m)
      | _ => false
    }
  }

  /// The rounding of n / d clamped to the range.
  pure def acceptClamped(w: int, n: int, d: int, m: Mode, o: Outcome): bool =
    match o {
      | Ret(r) => or {
          inRange(w, r) and isRounded(r, n, d, m),
          n > 0 and r == hi(w) and roundsOutside(lo(w), hi(w), n, d, m),
          n < 0 and r == lo(w) and roundsOutside(lo(w), hi(w), n, d, m)
        }
      | _ => false
    }

  pure def sqrtOutcome(c: RUn): Outcome =
    if (c.a < 0) DomainViolation else Ret(roundSqrt(c.a * pow10(c.p), c.mode))
  pure def acceptSqrt(c: RUn, o: Outcome): bool =
    if (c.a < 0) o == DomainViolation
    else match o {
      | Ret(r) => inRange(c.w, r) and isRoundedSqrt(r, c.a * pow10(c.p), c.mode)
      | _ => false
    }

  /// An integer operand that itself is not representable as a number of the
  /// result type may also be refused.
  pure def acceptPromoted(c: RBin, d: int, o: Outcome): bool = {
    val n = c.a * pow10(c.p) * (if (d == 0) 1 else d)
    val refused = not(inRange(c.w, c.a * pow10(c.p))) and o == Overflow
    if (c.b == 0) o == DivisionByZero or refused
    else refused or acceptRounded(c.w, n, c.b, c.mode, o)
  }

  /// `floor`, `ceil` and `round` return a number, so that they have no way to
  /// report a result that does not fit: they must panic then, and only then.
  pure def roundTo(c: RUn): Outcome = {
    val r = roundDiv(c.a, pow10(c.p), c.mode) * pow10(c.p)
    if (inRange(c.w, r)) Ret(r) else Panic
  }

  pure def nextPow10(c: Un): Outcome = {
    val k = ceilPow10(iabs(c.a))
    if (k > hi(c.w)) Overflow else Ret(if (c.a < 0) 0 - k else k)
  }

  pure def truncBy(c: Bin): Outcome =
    Ret(if (c.b == 0) c.a else truncDiv(c.a, c.b) * c.b)

  // ------------------------------------------------------------ conversions
  pure val MAX_EXPONENT: int = 10
  pure def fromDec(c: Dec): Outcome =
    if (c.e < 0 - c.p or c.e > MAX_EXPONENT) Reject
    else convert(c.w, c.m * pow10(c.e + c.p))
  /// Zero may be refused together with an exponent no other mantissa could have.
  pure def acceptFromDec(c: Dec, o: Outcome): bool =
    o == fromDec(c)
      or (c.m == 0 and c.e >= 0 - c.p and c.e <= MAX_EXPONENT and not(inRange(c.w, pow10(c.e + c.p))) and o == Reject)

  pure def toDec(c: Dec): Outcome =
    if (c.e < 0 - c.p) Panic
    else if (c.m == 0) Decimal({ m: 0, e: imin(0, c.e) })
    else {
      val z = imin(trailingZeros10(c.m), c.e + c.p)
      Decimal({ m: sgn(c.m) * (iabs(c.m) / pow10(z)), e: z - c.p })
    }

  pure def parse(c: Str): Outcome = {
    val l = literal(trim(c.s))
    if (not(l.ok)) Reject
    else if (l.k <= c.p) convert(c.w, l.n * pow10(c.p - l.k))
    else convert(c.w, roundDiv(l.n, pow10(l.k - c.p), Nearest))
  }

  /// Parsing without rounding.  More fractional digits than the precision may
  /// be refused even if they are zeros.
  pure def parseExact(c: Str): Outcome = {
    val l = literal(trim(c.s))
    if (not(l.ok)) Reject
    else if (l.k <= c.p) convert(c.w, l.n * pow10(c.p - l.k))
    else if (iabs(l.n) % pow10(l.k - c.p) != 0) Reject
    else parse(c)
  }
  pure def acceptExact(c: Str, o: Outcome): bool =
    o == parseExact(c) or (o == Reject and literal(trim(c.s)).k > c.p)

  /// A literal in source code; `Reject` is "does not compile" (in `fixnum!`,
  /// which does not know the type of its result, it may be a panic).  "1." is a
  /// literal of the host language.  Literals may be refused if they have too
  /// many digits, or denote the least number.
  pure def literalText(s: List[int]): List[int] =
    if (s.length() > 1 and s[s.length() - 1] == 46) s.slice(0, s.length() - 1) else s
  pure def acceptLiteral(c: Str, o: Outcome): bool = {
    val x = { w: c.w, p: c.p, s: literalText(c.s) }
    val r = parseExact(x)
    or {
      o == r,
      o == Reject and (c.s.length() > 38 or literal(x.s).k > c.p or r == Ret(lo(c.w)))
    }
  }

  pure def acceptFromF64(w: int, p: int, bits: int, o: Outcome): bool = {
    val f = decode(bits)
    if (not(f.finite)) o == Reject
    else if (f.m == 0) o == Ret(0)
    else {
      val x = scaled(f, p)
      val bound = if (f.neg) 0 - lo(w) else hi(w)
      // far outside: no need to look closer
      if (x.num > 4 * bound * x.den) o == Reject
      else {
        val short = shortDecimal(f, p)
        match o {
          | Ret(r) => and {
              inRange(w, r),
              if (f.neg) r <= 0 else r >= 0,
              near(iabs(r), x),
              isLarge(x, p) implies (iabs(r) * x.den == x.num or iabs(r) == short),
              short > 0 implies (iabs(r) == short or (isLarge(x, p) and iabs(r) * x.den == x.num))
            }
          | Reject => mayExceed(bound, x)
              and (isLarge(x, p) implies (x.num > bound * x.den or short > bound))
              and (short > 0 implies (short > bound or (isLarge(x, p) and x.num > bound * x.den)))
          | _ => false
        }
      }
    }
  }

  /// To binary64 and back gives the same number if it has at most 15 digits.
  pure def acceptViaF64(c: Un, o: Outcome): bool =
    if (iabs(c.a) < pow10(15) and c.p <= 22) o == Ret(c.a)
    else match o {
      | Ret(r) => inRange(c.w, r) and pow10(19) * iabs(r - c.a) <= 5556 * pow10(15) + 20000 * iabs(c.a)
      | Reject => pow10(19) * (hi(c.w) - iabs(c.a)) <= 5556 * pow10(15) + 20000 * iabs(c.a)
      | _ => false
    }

  pure val NULL: List[int] = [110, 117, 108, 108]
  pure def showJson(c: Opt): Outcome =
    Text(if (c.some) quoted(render(c.a, c.p)) else NULL)

  /// Formats for people get text, others the representation, unless a module
  /// says which.  (Which binary64 it is, is another call: `IntoF64`.)
  pure def tell(c: Told): Outcome = {
    val t = if (c.form == 3) TOLD_FLOAT
      else if (c.form == 2 or (c.form == 0 and c.human)) toldText(c.a, c.p)
      else toldBits(c.w, c.a)
    Text(if (not(c.opt)) t else if (c.some) toldSome(t) else TOLD_NONE)
  }

  /// A writer that is full makes the whole call fail; what it has got until then
  /// is the beginning of the text.
  pure def showInto(c: Limited): Outcome = {
    val t = render(c.a, c.p)
    if (t.length() <= c.room) Text(t) else Cut(t.slice(0, c.room))
  }
  pure def acceptInto(c: Limited, o: Outcome): bool = {
    val t = render(c.a, c.p)
    if (t.length() <= c.room) o == Text(t)
    else match o {
      | Cut(s) => s.length() <= c.room and t.slice(0, s.length()) == s
      | _ => false
    }
  }

  pure def decoded(w: int, opt: bool, b: List[int]): Outcome = {
    val n = w / 8
    if (not(opt)) if (b.length() < n) Reject else Ret(untwos(w, leValue(b.slice(0, n))))
    else if (b.length() == 0) Reject
    else if (b[0] == 0) Absent
    else if (b[0] != 1 or b.length() < n + 1) Reject
    else Ret(untwos(w, leValue(b.slice(1, n + 1))))
  }

  pure def compactSize(b: List[int]): int = {
    val mode = b[0] % 4
    if (mode == 0) 1 else if (mode == 1) 2 else if (mode == 2) 4 else b[0] / 4 + 5
  }
  /// A compact value is accepted only in its canonical form and only if it
  /// fits; the number it stands for is unique.
  pure def decodedCompact(w: int, b: List[int]): Outcome =
    if (b.length() == 0) Reject
    else {
      val mode = b[0] % 4
      val n = compactSize(b)
      if (b.length() < n) Reject
      else {
        val u = if (mode == 3) leValue(b.slice(1, n)) else leValue(b.slice(0, n)) / 4
        if (u < pow2(w) and compact(u) == b.slice(0, n)) Ret(untwos(w, u)) else Reject
      }
    }

  // ------------------------------------------------------------- the answer
  pure def answer(c: Call): Outcome =
    match c {
      | CAdd(x) => exactly(x.w, x.a + x.b)
      | SAdd(x) => Ret(clamp(x.w, x.a + x.b))
      | CSub(x) => exactly(x.w, x.a - x.b)
      | SSub(x) => Ret(clamp(x.w, x.a - x.b))
      | CMul(x) => exactly(x.w, x.a * x.b)
      | SMul(x) => Ret(clamp(x.w, x.a * x.b))
      | CNeg(x) => exactly(x.w, 0 - x.a)
      | Abs(x) => exactly(x.w, iabs(x.a))
      | Signum(x) => Ret(sgn(x.a))
      | RMul(x) => rounded(x.w, x.a * x.b, pow10(x.p), x.mode)
      | SRMul(x) => Ret(clamp(x.w, roundDiv(x.a * x.b, pow10(x.p), x.mode)))
      | RDiv(x) => if (x.b == 0) DivisionByZero else rounded(x.w, x.a * pow10(x.p), x.b, x.mode)
      | Recip(x) => if (x.a == 0) DivisionByZero else rounded(x.w, pow10(2 * x.p), x.a, x.mode)
      | RDivInt(x) => if (x.b == 0) DivisionByZero else rounded(x.w, x.a, x.b, x.mode)
      | IntRDiv(x) =>
          if (not(inRange(x.w, x.a * pow10(x.p)))) Overflow
          else if (x.b == 0) DivisionByZero
          else rounded(x.w, x.a * pow10(2 * x.p), x.b, x.mode)
      | IntRatio(x) =>
          if (not(inRange(x.w, x.a * pow10(x.p)))) Overflow
          else if (x.b == 0) DivisionByZero
          else rounded(x.w, x.a * pow10(x.p), x.b, x.mode)
      | Sqrt(x) => sqrtOutcome(x)
      | Integral(x) => Ret(roundDiv(x.a, pow10(x.p), x.mode))
      | RoundTo(x) => roundTo(x)
      | HalfSum(x) => Ret(roundDiv(x.a + x.b, 2, x.mode))
      | NextPow10(x) => nextPow10(x)
      | TruncBy(x) => truncBy(x)
      | FromDec(x) => fromDec(x)
      | ToDec(x) => toDec(x)
      | FromInt(x) => convert(x.w, x.a * pow10(x.p))
      | Parse(x) => parse(x)
      | ParseExact(x) => parseExact(x)
      | Literal(x) => parseExact({ w: x.w, p: x.p, s: literalText(x.s) })
      | Show(x) => Text(render(x.a, x.p))
      | ShowJson(x) => showJson(x)
      | Tell(x) => tell(x)
      | ShowInto(x) => showInto(x)
      | FromF64(x) => {
          val f = decode(x.bits)
          if (not(f.finite)) Reject
          else {
            val short = if (f.m == 0) 0 else shortDecimal(f, x.p)
            val r = if (short > 0) short else { val q = scaled(f, x.p) { roundDiv(q.num, q.den, Nearest) } }
            convert(x.w, if (f.neg) 0 - r else r)
          }
        }
      | IntoF64(_) => F64(0)        // not computed: see accept
      | ViaF64(x) => Ret(x.a)
      | Encode(x) => Bytes(if (x.b == 0) encode(x.w, x.a) else [1].concat(encode(x.w, x.a)))
      | Decode(x) => decoded(x.w, x.opt, x.bytes)
      | EncodeCompact(x) => Bytes(compact(twos(x.w, x.a)))
      | DecodeCompact(x) => decodedCompact(x.w, x.bytes)
      | Consume(x) => {
          val o = if (x.compact) decodedCompact(x.w, x.bytes) else decoded(x.w, x.opt, x.bytes)
          match o {
            | Reject => Reject
            | Absent => Ret(1)
            | _ => Ret(if (x.compact) compactSize(x.bytes) else x.w / 8 + (if (x.opt) 1 else 0))
          }
        }
      | RejectType(_) => Reject
      | Compare(x) => Ret(sgn(x.a - x.b))
      | Same(x) => Truth(x.a == x.b)
      | SameHash(x) => Truth(x.a == x.b)
      | Zero(_) => Ret(0)
      | One(x) => Ret(pow10(x.p))
      | Least(x) => Ret(lo(x.w))
      | Greatest(x) => Ret(hi(x.w))
      | Epsilon(_) => Ret(1)
      | Digits(x) => Ret(x.p)
      | Default(_) => Ret(0)
      | Bits(x) => Ret(x.a)
      | SchemaType => Text([115, 116, 114, 105, 110, 103])
    }

  // ----------------------------------------------------------- the relation
  pure def accept(c: Call, o: Outcome): bool =
    match c {
      | RMul(x) => acceptRounded(x.w, x.a * x.b, pow10(x.p), x.mode, o)
      | SRMul(x) => acceptClamped(x.w, x.a * x.b, pow10(x.p), x.mode, o)
      | RDiv(x) => if (x.b == 0) o == DivisionByZero else acceptRounded(x.w, x.a * pow10(x.p), x.b, x.mode, o)
      | Recip(x) => if (x.a == 0) o == DivisionByZero else acceptRounded(x.w, pow10(2 * x.p), x.a, x.mode, o)
      | RDivInt(x) => if (x.b == 0) o == DivisionByZero else acceptRounded(x.w, x.a, x.b, x.mode, o)
      | IntRDiv(x) => acceptPromoted(x, pow10(x.p), o)
      | IntRatio(x) => acceptPromoted(x, 1, o)
      | Sqrt(x) => acceptSqrt(x, o)
      | Integral(x) => acceptRounded(x.w, x.a, pow10(x.p), x.mode, o)
      | HalfSum(x) => acceptRounded(x.w, x.a + x.b, 2, x.mode, o)
      | FromDec(x) => acceptFromDec(x, o)
      | ParseExact(x) => acceptExact(x, o)
      | Literal(x) => acceptLiteral(x, o)
      | ShowInto(x) => acceptInto(x, o)
      | FromF64(x) => acceptFromF64(x.w, x.p, x.bits, o)
      | IntoF64(x) => match o { | F64(b) => closeTo(decode(b), x.a, x.p) | _ => false }
      | ViaF64(x) => acceptViaF64(x, o)
      // equal numbers must have equal hashes; different ones may collide
      | SameHash(x) => o == Truth(true) or (x.a != x.b and o == Truth(false))
      | _ => o == answer(c)
    }

  // ------------------------------------------------------- relating outcomes
  /// The same call on a layout of w bits answers `n`, on a wider one `x`.
  pure def widens(w: int, n: Outcome, x: Outcome): bool =
    match n {
      | Overflow => match x { | Ret(r) => not(inRange(w, r)) | Overflow => true | _ => false }
      | Reject => match x { | Ret(r) => not(inRange(w, r)) | Reject => true | _ => false }
      | Panic => match x { | Ret(r) => not(inRange(w, r)) | Panic => true | _ => false }
      | _ => n == x
    }
}
