// -*- mode: Bluespec; -*-
/// Histories: sequences of calls over registers.
module history {
  import fixnum.* from "./fixnum"
  export fixnum.*

  /// A call whose result, if it is a number, is stored in register `dst`
  /// (-1: nowhere).
  type Step = { dst: int, call: Call, outcome: Outcome }

  pure def after(regs: List[int], dst: int, o: Outcome): List[int] =
    if (dst < 0) regs
    else match o {
      | Ret(r) => regs.replaceAt(dst, r)
      | _ => regs
    }

  /// What a step may do to the registers: the outcome is one that the
  /// acceptance relation allows, and nothing else changes.
  pure def validStep(before: List[int], s: Step, now: List[int]): bool =
    accept(s.call, s.outcome) and now == after(before, s.dst, s.outcome)

  /// A whole history: `states` has one element more than `steps`.
  pure def validHistory(states: List[List[int]], steps: List[Step]): bool = and {
    states.length() == steps.length() + 1,
    range(0, steps.length()).foldl(true, (b, i) => b and validStep(states[i], steps[i], states[i + 1]))
  }

  /// Where the relation leaves a choice, the library still has to make the same
  /// one every time: outcomes are a function of the call.
  pure def consistent(a: Step, b: Step): bool = a.call == b.call implies a.outcome == b.outcome

  /// The calls of which the relation accepts one outcome only, so that it can
  /// be foretold.
  pure def settled(c: Call): bool =
    match c {
      | FromDec(x) => x.m != 0 or fromDec(x) == Reject
      | ParseExact(x) => literal(trim(x.s)).k <= x.p
      | IntRDiv(x) => inRange(x.w, x.a * pow10(x.p))
      | IntRatio(x) => inRange(x.w, x.a * pow10(x.p))
      | Literal(_) => false
      | FromF64(x) => not(decode(x.bits).finite) or decode(x.bits).m == 0
      | IntoF64(_) => false
      | ViaF64(x) => iabs(x.a) < pow10(15) and x.p <= 22
      | SameHash(x) => x.a == x.b
      | _ => true
    }
}
