// -*- mode: Bluespec; -*-
/// What the documentation says, as tests of the specification; and the laws a
/// user expects of the relation, so that the relation itself is not wrong.
module examples {
  import fixnum.* from "./fixnum"
  import schema.* from "./schema"
  import typing.* from "./typing"

  // the documentation's numbers have 64 bits and precision 9
  pure val W = 64
  pure val P = 9
  pure val GIGA = 10^9
  pure def says(c: Call, o: Outcome): bool = answer(c) == o and accept(c, o)
  pure def un(a: int): Un = { w: W, p: P, a: a }
  pure def bin(a: int, b: int): Bin = { w: W, a: a, b: b }
  pure def run_(a: int, m: Mode): RUn = { w: W, p: P, a: a, mode: m }
  pure def rbin(a: int, b: int, m: Mode): RBin = { w: W, p: P, a: a, b: b, mode: m }
  pure def dec(m: int, e: int): Dec = { w: W, p: P, m: m, e: e }
  pure def parsed(s: List[int]): Call = Parse({ w: W, p: P, s: s })
  // "0.1", "8273.519", "-0.0", "1.", ".5", "0.0000000015", "1e5"
  pure val TENTH = [48, 46, 49]
  pure val TOO_FINE = [48, 46, 48, 48, 48, 48, 48, 48, 48, 48, 49, 53]

  run cratesFrontPageTest = all {
    assert(says(parsed(TENTH), Ret(GIGA / 10))),
    assert(says(CAdd(bin(GIGA / 10, GIGA / 5)), Ret(3 * GIGA / 10))),
    assert(says(RMul(rbin(1, 1, Floor)), Ret(0))),
    assert(says(RMul(rbin(1, 1, Ceil)), Ret(1))),
    assert(says(Greatest(un(0)), Ret(9223372036854775807))),
    // Size(4) * Price(4.25) = Amount(17); 4.25 * 0.5 = 2.125
    assert(says(CMul(bin(4, 425 * 10^7)), Ret(17 * GIGA))),
    assert(says(RMul(rbin(425 * 10^7, 5 * 10^8, Ceil)), Ret(2125 * 10^6))),
  }

  run saturatingTest = all {
    assert(says(SAdd(bin(100000002 * 10^4, 9222 * 10^15)), Ret(922200100000002 * 10^4))),
    assert(says(SAdd(bin(922200100000002 * 10^4, 922200100000002 * 10^4)), Ret(hi(W)))),
    assert(says(SAdd(bin(0 - 9222 * 10^15, 0 - 9222 * 10^15)), Ret(lo(W)))),
    assert(says(SSub(bin(922200100000002 * 10^4, 9222 * 10^15)), Ret(100000002 * 10^4))),
    assert(says(SSub(bin(9222 * 10^15, 0 - 9222 * 10^15)), Ret(hi(W)))),
    assert(says(SSub(bin(0 - 9222 * 10^15, 9222 * 10^15)), Ret(lo(W)))),
    assert(says(SMul(bin(1, 12)), Ret(12))),
    assert(says(SMul(bin(12, 1)), Ret(12))),
    assert(says(SMul(bin(1, hi(W))), Ret(hi(W)))),
    assert(says(SMul(bin(0 - 1000000001, hi(W))), Ret(lo(W)))),
    assert(says(CMul(bin(hi(W), 2)), Overflow)),
    assert(says(CNeg(un(lo(W))), Overflow)),
    assert(says(CSub(bin(3 * GIGA / 10, GIGA / 10)), Ret(GIGA / 5))),
  }

  run integralTest = all {
    assert(says(Integral(run_(8273519 * 10^6, Floor)), Ret(8273))),
    assert(says(Integral(run_(8273519 * 10^6, Nearest)), Ret(8274))),
    assert(says(Integral(run_(8273519 * 10^6, Ceil)), Ret(8274))),
    assert(says(Integral(run_(0 - 8273519 * 10^6, Floor)), Ret(0 - 8274))),
    assert(says(Integral(run_(0 - 8273519 * 10^6, Nearest)), Ret(0 - 8274))),
    assert(says(Integral(run_(0 - 8273519 * 10^6, Ceil)), Ret(0 - 8273))),
    // round half-way cases away from zero
    assert(says(RoundTo(run_(5 * 10^8, Nearest)), Ret(GIGA))),
    assert(says(RoundTo(run_(0 - 5 * 10^8, Nearest)), Ret(0 - GIGA))),
    assert(says(NextPow10(un(0 - 2 * GIGA)), Ret(0 - 10 * GIGA))),
    assert(says(Signum(un(-5)), Ret(-1))),
  }

  run rootTest = all {
    assert(says(Sqrt(run_(81 * GIGA, Floor)), Ret(9 * GIGA))),
    assert(says(Sqrt(run_(2 * GIGA, Floor)), Ret(1414213562))),
    assert(says(Sqrt(run_(2 * GIGA, Ceil)), Ret(1414213563))),
    assert(says(Sqrt(run_(0 - 100 * GIGA, Floor)), DomainViolation)),
  }

  run decimalTest = all {
    assert(says(ToDec(dec(55 * 10^8, 0)), Decimal({ m: 55, e: -1 }))),
    assert(says(ToDec(dec(55 * 10^8, -1)), Decimal({ m: 55, e: -1 }))),
    assert(says(ToDec(dec(55 * 10^8, -2)), Decimal({ m: 550, e: -2 }))),
    assert(says(ToDec(dec(50 * GIGA, 0)), Decimal({ m: 50, e: 0 }))),
    assert(says(ToDec(dec(50 * GIGA, 2147483647)), Decimal({ m: 5, e: 1 }))),
    assert(says(ToDec(dec(50 * GIGA, -10)), Panic)),
    assert(says(FromDec(dec(55, -1)), Ret(55 * 10^8))),
    assert(says(FromDec(dec(1, 10)), Reject)),
  }

  run textTest = all {
    assert(says(parsed(TOO_FINE), Ret(2))),
    assert(says(ParseExact({ w: W, p: P, s: TOO_FINE }), Reject)),
    assert(says(parsed([46, 53]), Reject)),
    assert(says(parsed([49, 46]), Reject)),
    assert(says(parsed([]), Reject)),
    assert(says(parsed([32, 43, 49, 32]), Ret(GIGA))),
    assert(says(Show(un(GIGA)), Text([49, 46, 48]))),
    assert(says(Show(un(-1)), Text([45, 48, 46, 48, 48, 48, 48, 48, 48, 48, 48, 49]))),
    assert(says(ShowJson({ w: W, p: P, some: true, a: GIGA / 10 }), Text([34, 48, 46, 49, 34]))),
    assert(says(ShowJson({ w: W, p: P, some: false, a: 0 }), Text([110, 117, 108, 108]))),
    // "str 0.1", "i64 100000000", "some i64 100000000", "none"
    assert(says(Tell({ w: W, p: P, a: GIGA / 10, form: 0, human: true, opt: false, some: true }), Text([115, 116, 114, 32, 48, 46, 49]))),
    assert(says(Tell({ w: W, p: P, a: GIGA / 10, form: 0, human: false, opt: false, some: true }),
      Text([105, 54, 52, 32, 49, 48, 48, 48, 48, 48, 48, 48, 48]))),
    assert(says(Tell({ w: W, p: P, a: GIGA / 10, form: 2, human: false, opt: false, some: true }), Text([115, 116, 114, 32, 48, 46, 49]))),
    assert(says(Tell({ w: W, p: P, a: GIGA / 10, form: 1, human: true, opt: true, some: true }),
      Text([115, 111, 109, 101, 32, 105, 54, 52, 32, 49, 48, 48, 48, 48, 48, 48, 48, 48]))),
    assert(says(Tell({ w: W, p: P, a: 0, form: 2, human: false, opt: true, some: false }), Text([110, 111, 110, 101]))),
  }

  // 0.1 and 10^18 as binary64
  run doubleTest = all {
    assert(says(FromF64({ w: W, p: P, bits: 4591870180066957722 }), Ret(GIGA / 10))),
    assert(accept(IntoF64(un(GIGA / 10)), F64(4591870180066957722))),
    assert(says(FromF64({ w: W, p: P, bits: 4876203697187506176 }), Reject)),
    assert(says(FromF64({ w: W, p: P, bits: 2047 * 2^52 }), Reject)),
    assert(says(FromF64({ w: W, p: P, bits: 2047 * 2^52 + 1 }), Reject)),
    assert(says(FromF64({ w: W, p: P, bits: 2^63 }), Ret(0))),
  }

  run scaleTest = all {
    assert(says(Encode(bin(1, 0)), Bytes([1, 0, 0, 0, 0, 0, 0, 0]))),
    assert(says(Encode(bin(-1, 1)), Bytes([1, 255, 255, 255, 255, 255, 255, 255, 255]))),
    assert(says(EncodeCompact(un(63)), Bytes([252]))),
    assert(says(EncodeCompact(un(64)), Bytes([1, 1]))),
    assert(says(DecodeCompact({ w: W, bytes: [1, 0] }), Reject)),
  }

  run typesTest = all {
    assert(typeOf("cadd", Number({ w: 64, p: 9 }), Number({ w: 64, p: 9 })) == Of(Number({ w: 64, p: 9 }))),
    assert(typeOf("cadd", Number({ w: 64, p: 9 }), Number({ w: 64, p: 8 })) == Illtyped),
    assert(typeOf("cmul", Number({ w: 64, p: 9 }), Number({ w: 64, p: 9 })) == Illtyped),
    assert(typeOf("+", Number({ w: 64, p: 9 }), Number({ w: 64, p: 9 })) == Illtyped),
    assert(typeOf("into", Double, Number({ w: 64, p: 9 })) == Illtyped),
    assert(existing(64, 18) and not(existing(64, 19)) and existing(16, 4) and not(existing(16, 5))),
  }

  // ------------------------------------------------------------------- laws
  // numbers of eight bits stand for all others: nothing in the relation looks
  // at how many there are
  pure val B = 8
  pure val ALL = (-128).to(127)
  pure val SOME = Set(-128, -127, -101, -64, -13, -2, -1, 0, 1, 2, 5, 10, 37, 99, 126, 127)
  pure val MODES = Set(Floor, Nearest, Ceil)
  pure val OUTCOMES = (-130).to(130).map(r => Ret(r)).union(Set(Overflow, DivisionByZero, DomainViolation, Reject, Panic))
  pure def one(c: Call): bool = OUTCOMES.filter(o => accept(c, o)) == Set(answer(c))

  /// The relation allows exactly one outcome, the one computed.
  run functionalTest = assert(SOME.forall(a => SOME.forall(b => and {
    one(CAdd({ w: B, a: a, b: b })), one(SSub({ w: B, a: a, b: b })), one(CMul({ w: B, a: a, b: b })),
    MODES.forall(m => and {
      one(RMul({ w: B, p: 1, a: a, b: b, mode: m })), one(SRMul({ w: B, p: 1, a: a, b: b, mode: m })),
      one(RDiv({ w: B, p: 1, a: a, b: b, mode: m })), one(RDivInt({ w: B, p: 1, a: a, b: b, mode: m })),
      one(HalfSum({ w: B, p: 1, a: a, b: b, mode: m })),
    })
  })))
  run functionalUnTest = assert(SOME.forall(a => and {
    one(CNeg({ w: B, p: 1, a: a })), one(Abs({ w: B, p: 1, a: a })), one(NextPow10({ w: B, p: 1, a: a })),
    MODES.forall(m => and {
      one(Sqrt({ w: B, p: 1, a: a, mode: m })), one(Recip({ w: B, p: 1, a: a, mode: m })),
      one(Integral({ w: B, p: 1, a: a, mode: m })), one(RoundTo({ w: B, p: 1, a: a, mode: m })),
    })
  }))

  pure def value(o: Outcome): int = match o { | Ret(r) => r | _ => 1000 }
  pure def isValue(o: Outcome): bool = match o { | Ret(_) => true | _ => false }
  /// Two outcomes in order, where they exist.
  pure def ordered(x: Outcome, y: Outcome): bool = isValue(x) and isValue(y) implies value(x) <= value(y)

  run orderOfModesTest = assert(ALL.forall(a => SOME.forall(b => and {
    def go(f) = ordered(f(Floor), f(Nearest)) and ordered(f(Nearest), f(Ceil))
      and (isValue(f(Floor)) and isValue(f(Ceil)) implies value(f(Ceil)) - value(f(Floor)) <= 1)
    and {
      go(m => answer(RMul({ w: B, p: 1, a: a, b: b, mode: m }))),
      go(m => answer(RDiv({ w: B, p: 1, a: a, b: b, mode: m }))),
      go(m => answer(HalfSum({ w: B, p: 1, a: a, b: b, mode: m }))),
      go(m => answer(Sqrt({ w: B, p: 1, a: a, mode: m }))),
      go(m => answer(Integral({ w: B, p: 1, a: a, mode: m }))),
    }
  })))

  run monotoneTest = assert(ALL.forall(a => a == 127 or SOME.forall(b => MODES.forall(m => and {
    b >= 0 implies ordered(answer(RMul({ w: B, p: 1, a: a, b: b, mode: m })), answer(RMul({ w: B, p: 1, a: a + 1, b: b, mode: m }))),
    b > 0 implies ordered(answer(RDiv({ w: B, p: 1, a: a, b: b, mode: m })), answer(RDiv({ w: B, p: 1, a: a + 1, b: b, mode: m }))),
    ordered(answer(HalfSum({ w: B, p: 1, a: a, b: b, mode: m })), answer(HalfSum({ w: B, p: 1, a: a + 1, b: b, mode: m }))),
    ordered(answer(Sqrt({ w: B, p: 1, a: a, mode: m })), answer(Sqrt({ w: B, p: 1, a: a + 1, mode: m }))),
    ordered(answer(NextPow10({ w: B, p: 1, a: a })), answer(NextPow10({ w: B, p: 1, a: a + 1 }))),
  }))))

  pure def against(m: Mode): Mode = match m { | Floor => Ceil | Nearest => Nearest | Ceil => Floor }
  pure def negated(o: Outcome): Outcome = match o { | Ret(r) => if (r == -128) Overflow else Ret(0 - r) | _ => o }
  /// -(a op b) in one mode is (-a) op b in the opposite one, but at the end of the range.
  run symmetryTest = assert(ALL.forall(a => a == -128 or SOME.forall(b => MODES.forall(m => and {
    def like(x, y) = negated(x) == y or x == Overflow and y == Ret(-128)
    and {
      like(answer(RMul({ w: B, p: 1, a: a, b: b, mode: m })), answer(RMul({ w: B, p: 1, a: 0 - a, b: b, mode: against(m) }))),
      like(answer(RDiv({ w: B, p: 1, a: a, b: b, mode: m })), answer(RDiv({ w: B, p: 1, a: 0 - a, b: b, mode: against(m) }))),
      like(answer(Integral({ w: B, p: 1, a: a, mode: m })), answer(Integral({ w: B, p: 1, a: 0 - a, mode: against(m) }))),
    }
  }))))

  /// There and back.
  run inverseTest = assert((-1300).to(1300).forall(a => and {
    answer(ParseExact({ w: 16, p: 3, s: render(a, 3) })) == Ret(a),
    answer(Parse({ w: 16, p: 3, s: render(a, 3) })) == Ret(a),
    answer(Parse({ w: 16, p: 2, s: render(a, 3) })) == Ret(roundDiv(a, 10, Nearest)),
    answer(Decode({ w: 16, opt: false, bytes: encode(16, a) })) == Ret(a),
    answer(DecodeCompact({ w: 16, bytes: compact(twos(16, a)) })) == Ret(a),
    match answer(ToDec({ w: 16, p: 3, m: a, e: 9 })) {
      | Decimal(d) => answer(FromDec({ w: 16, p: 3, m: d.m, e: d.e })) == Ret(a)
      | _ => false
    }
  }))
}
