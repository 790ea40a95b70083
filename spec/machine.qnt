// -*- mode: Bluespec; -*-
/// The library at work: threads with registers of their own make calls in any
/// order, on numbers of all types.  A register holds a raw representation; a
/// call takes its operands as numbers of the type it is made for.
///
/// There is no other state: neither one shared by the threads nor one that
/// outlives a call.  Behaviours of this machine are replayed on the library by
/// real threads, step by step and freely.
module machine {
  import history.* from "./history"

  type Made = { via: str, w: int, p: int, call: Call, outcome: Outcome, dst: int }

  pure val THREADS = Set(0, 1, 2)
  pure val SIZE = 4
  pure val REGS = 0.to(SIZE - 1)
  pure val WIDTHS = Set(16, 32, 64, 128)
  pure val MODES: Set[Mode] = Set(Floor, Nearest, Ceil)
  pure def maxPrecision(w: int): int = if (w == 16) 4 else if (w == 32) 9 else if (w == 64) 18 else 38

  var regs: int -> List[int]
  /// the calls of the last step
  var script: List[Made]
  var tid: int

  /// The w low bits of x as a number.
  pure def wrap(w: int, x: int): int = {
    val m = pow2(w)
    val r = if (x >= 0) x % m else (m - 1) - (0 - x - 1) % m
    untwos(w, r)
  }

  pure def made(via: str, w: int, p: int, dst: int, call: Call): Made =
    { via: via, w: w, p: p, call: call, outcome: answer(call), dst: dst }

  pure def applied(r: List[int], s: List[Made]): List[int] =
    s.foldl(r, (acc, m) => after(acc, m.dst, m.outcome))

  action perform(t: int, s: List[Made]): bool = all {
    s.foldl(true, (b, m) => b and settled(m.call)),
    regs' = regs.setBy(t, r => applied(r, s)),
    script' = s,
    tid' = t,
  }

  action init = all {
    regs' = THREADS.mapBy(_ => List(0, 1, -1, 7)),
    script' = List(),
    tid' = 0,
  }

  // numbers where answers change
  pure def special(w: int, kind: int, e: int, d: int): int =
    if (kind == 0) hi(w) - iabs(d)
    else if (kind == 1) lo(w) + iabs(d)
    else if (kind == 2) d
    else if (kind == 3) pow10(e) + d
    else if (kind == 4) d - pow10(e)
    else if (kind == 5) pow2(3 * e) + d
    else if (kind == 6) 5 * pow10(e) + d
    else hi(w) / pow10(e) + d

  action load = {
    nondet t = oneOf(THREADS)
    nondet w = oneOf(WIDTHS)
    nondet kind = oneOf(0.to(7))
    nondet e = oneOf(0.to(38))
    nondet d = oneOf((0 - 9).to(9))
    nondet dst = oneOf(REGS)
    perform(t, List(made("Fp", w, 0, dst, Bits({ w: w, p: 0, a: wrap(w, special(w, kind, e, d)) }))))
  }

  action scatter = {
    nondet t = oneOf(THREADS)
    nondet w = oneOf(WIDTHS)
    nondet x = oneOf(0.to(2^128 - 1))
    nondet k = oneOf(0.to(120))
    nondet dst = oneOf(REGS)
    perform(t, List(made("Fp", w, 0, dst, Bits({ w: w, p: 0, a: wrap(w, x / pow2(k)) }))))
  }

  action exact = {
    nondet t = oneOf(THREADS)
    nondet w = oneOf(WIDTHS)
    nondet k = oneOf(0.to(38))
    nondet i = oneOf(REGS)
    nondet j = oneOf(REGS)
    nondet dst = oneOf(REGS)
    nondet op = oneOf(0.to(10))
    val p = k % (maxPrecision(w) + 1)
    val x = { w: w, a: wrap(w, regs.get(t)[i]), b: wrap(w, regs.get(t)[j]) }
    val u = { w: w, p: p, a: x.a }
    val call = if (op == 0) CAdd(x) else if (op == 1) SAdd(x) else if (op == 2) CSub(x) else if (op == 3) SSub(x)
      else if (op == 4) CMul(x) else if (op == 5) SMul(x) else if (op == 6) CNeg(u) else if (op == 7) Abs(u)
      else if (op == 8) Signum(u) else if (op == 9) Compare(x) else Same(x)
    perform(t, List(made("Fp", w, p, dst, call)))
  }

  action rounding = {
    nondet t = oneOf(THREADS)
    nondet w = oneOf(WIDTHS)
    nondet k = oneOf(0.to(38))
    nondet i = oneOf(REGS)
    nondet j = oneOf(REGS)
    nondet dst = oneOf(REGS)
    nondet mode = oneOf(MODES)
    nondet op = oneOf(0.to(6))
    val p = k % (maxPrecision(w) + 1)
    val x = { w: w, p: p, a: wrap(w, regs.get(t)[i]), b: wrap(w, regs.get(t)[j]), mode: mode }
    val u = { w: w, p: p, a: x.a, mode: mode }
    val call = if (op == 0) RMul(x) else if (op == 1) SRMul(x) else if (op == 2) RDiv(x) else if (op == 3) Recip(u)
      else if (op == 4) RDivInt(x) else if (op == 5) IntRDiv(x) else Sqrt(u)
    perform(t, List(made("Fp", w, p, dst, call)))
  }

  action coarse = {
    nondet t = oneOf(THREADS)
    nondet w = oneOf(WIDTHS)
    nondet k = oneOf(0.to(38))
    nondet i = oneOf(REGS)
    nondet j = oneOf(REGS)
    nondet dst = oneOf(REGS)
    nondet mode = oneOf(MODES)
    nondet op = oneOf(0.to(4))
    val p = k % (maxPrecision(w) + 1)
    val x = { w: w, p: p, a: wrap(w, regs.get(t)[i]), b: wrap(w, regs.get(t)[j]), mode: mode }
    val u = { w: w, p: p, a: x.a, mode: mode }
    val call = if (op == 0) Integral(u) else if (op == 1) RoundTo(u) else if (op == 2) HalfSum(x)
      else if (op == 3) NextPow10({ w: w, p: p, a: x.a }) else TruncBy({ w: w, a: x.a, b: x.b })
    perform(t, List(made("Fp", w, p, dst, call)))
  }

  /// Square, then the root of the square or of a neighbour.
  action root = {
    nondet t = oneOf(THREADS)
    nondet w = oneOf(WIDTHS)
    nondet i = oneOf(REGS)
    nondet d = oneOf((0 - 1).to(1))
    nondet mode = oneOf(MODES)
    nondet dst = oneOf(REGS)
    val s = wrap(w / 2, regs.get(t)[i])
    val a = imax(0, imin(hi(w), s * s + d))
    perform(t, List(made("Fp", w, 0, dst, Bits({ w: w, p: 0, a: a })), made("Fp", w, 0, dst, Sqrt({ w: w, p: 0, a: a, mode: mode }))))
  }

  action decimal = {
    nondet t = oneOf(THREADS)
    nondet w = oneOf(WIDTHS)
    nondet k = oneOf(0.to(38))
    nondet i = oneOf(REGS)
    nondet dst = oneOf(REGS)
    nondet e = oneOf(0.to(12))
    nondet op = oneOf(0.to(2))
    val p = k % (maxPrecision(w) + 1)
    val a = wrap(w, regs.get(t)[i])
    val there = ToDec({ w: w, p: p, m: a, e: e - 4 })
    perform(t,
      if (op == 0) List(made("Fp", w, p, dst, FromDec({ w: w, p: p, m: a, e: e - p })))
      else if (op == 1) List(made("I128", w, p, dst, FromInt({ w: w, p: p, a: regs.get(t)[i] })))
      else match answer(there) {
        | Decimal(r) => List(made("Fp", w, p, -1, there), made("Fp", w, p, dst, FromDec({ w: w, p: p, m: r.m, e: r.e })))
        | _ => List(made("Fp", w, p, -1, there))
      })
  }

  /// Show a number, change the text (or not), read it, maybe as another type.
  action words = {
    nondet t = oneOf(THREADS)
    nondet w = oneOf(WIDTHS)
    nondet v = oneOf(WIDTHS)
    nondet k = oneOf(0.to(38))
    nondet l = oneOf(0.to(38))
    nondet i = oneOf(REGS)
    nondet dst = oneOf(REGS)
    nondet digit = oneOf(43.to(60))
    nondet op = oneOf(0.to(5))
    val p = k % (maxPrecision(w) + 1)
    val q = l % (maxPrecision(v) + 1)
    val a = wrap(w, regs.get(t)[i])
    val s = render(a, p)
    val changed = if (op == 0 or op == 1) s
      else if (op == 2) s.append(digit)
      else if (op == 3) s.slice(0, s.length() - 1)
      else if (op == 4) List(32).concat(s).append(10)
      else s.replaceAt(digit % s.length(), digit)
    val x = { w: v, p: q, s: changed }
    perform(t, List(made("Display", w, p, -1, Show({ w: w, p: p, a: a })), made("Fp", v, q, dst, if (op == 0) ParseExact(x) else Parse(x))))
  }

  action floats = {
    nondet t = oneOf(THREADS)
    nondet w = oneOf(WIDTHS)
    nondet k = oneOf(0.to(22))
    nondet z = oneOf(1.to(18))
    nondet i = oneOf(REGS)
    nondet dst = oneOf(REGS)
    val p = imin(k, maxPrecision(w))
    val a = wrap(w, regs.get(t)[i])
    // the leading digits
    val b = truncDiv(a, pow10(z * (w / 8)  / 16))
    perform(t, List(made("Fp", w, p, dst, ViaF64({ w: w, p: p, a: b }))))
  }

  action constants = {
    nondet t = oneOf(THREADS)
    nondet w = oneOf(WIDTHS)
    nondet k = oneOf(0.to(38))
    nondet dst = oneOf(REGS)
    nondet op = oneOf(0.to(6))
    val p = k % (maxPrecision(w) + 1)
    val u = { w: w, p: p, a: 0 }
    val call = if (op == 0) Zero(u) else if (op == 1) One(u) else if (op == 2) Least(u) else if (op == 3) Greatest(u)
      else if (op == 4) Epsilon(u) else if (op == 5) Digits(u) else Default(u)
    perform(t, List(made("Fp", w, p, dst, call)))
  }

  action bytes = {
    nondet t = oneOf(THREADS)
    nondet w = oneOf(WIDTHS)
    nondet k = oneOf(0.to(1))
    nondet i = oneOf(REGS)
    nondet dst = oneOf(REGS)
    nondet cut = oneOf(0.to(3))
    nondet op = oneOf(0.to(2))
    val p = k * maxPrecision(w)
    val a = wrap(w, regs.get(t)[i])
    val s = if (op == 2) compact(twos(w, a)) else encode(w, a)
    val b = if (cut == 3) s.slice(0, s.length() - 1) else s
    val via = if (op == 0) "Bincode" else "Scale"
    perform(t,
      if (op == 2) List(made(via, w, p, -1, EncodeCompact({ w: w, p: p, a: a })), made(via, w, p, dst, DecodeCompact({ w: w, bytes: b })))
      else List(made(via, w, p, -1, Encode({ w: w, a: a, b: 0 })), made(via, w, p, dst, Decode({ w: w, opt: false, bytes: b }))))
  }

  action step = any { load, scatter, exact, rounding, coarse, root, decimal, words, floats, constants, bytes }

  // -------------------------------------------------------------- invariants
  /// The computed answer is one that the relation accepts.
  val answersAccepted = script.foldl(true, (b, m) => b and accept(m.call, m.outcome))
  /// Whatever a call returns is a number of its type.
  val typed = script.foldl(true, (b, m) => b and match m.outcome {
    | Ret(r) => match m.call { | Signum(_) => true | Compare(_) => true | Digits(_) => true | _ => inRange(m.w, r) }
    | _ => true
  })
  val held = THREADS.forall(t => regs.get(t).length() == SIZE and regs.get(t).foldl(true, (b, r) => b and inRange(128, r)))
  val ok = answersAccepted and typed and held
}
