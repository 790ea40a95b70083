// -*- mode: Bluespec; -*-
/// The bank of bank.qnt, kept with the library: every operation is a script of
/// calls, and what the calls return decides what happens next.  Each thread
/// keeps books of its own, in a format of its own.  Registers 0..3 are the
/// accounts, register 4 is for intermediate results.
///
/// The invariants say that the scripts do what the bank does, and so that money
/// is neither made nor lost by the library's rounding and overflow.
module ledger {
  import history.* from "./history"
  import bank.move from "./bank"
  import bank.deposit from "./bank"
  import bank.withdraw from "./bank"
  import bank.transfer from "./bank"
  import bank.fee from "./bank"
  import bank.split from "./bank"
  import bank.level from "./bank"
  import bank.chop from "./bank"

  type Made = { via: str, w: int, p: int, call: Call, outcome: Outcome, dst: int }
  type Format = { w: int, p: int }
  pure val THREADS = Set(0, 1, 2)
  pure val TMP = 4
  pure def maxPrecision(w: int): int = if (w == 16) 4 else if (w == 32) 9 else if (w == 64) 18 else 38

  var regs: int -> List[int]
  var formats: int -> Format
  var script: List[Made]
  var tid: int
  /// what the bank makes of the last operation, and the balance of deposits and
  /// withdrawals of every thread
  var expected: List[int]
  var issued: int -> int

  /// Calls made so far and what they leave in the registers.
  type Work = { f: Format, r: List[int], s: List[Made] }
  pure def call(k: Work, via: str, dst: int, c: Call): Work = {
    val o = answer(c)
    { f: k.f, r: after(k.r, dst, o), s: k.s.append({ via: via, w: k.f.w, p: k.f.p, call: c, outcome: o, dst: dst }) }
  }
  pure def last(k: Work): Outcome = k.s[k.s.length() - 1].outcome
  pure def add(k: Work, dst: int, a: int, b: int): Work = call(k, "Fp", dst, CAdd({ w: k.f.w, a: a, b: b }))
  pure def sub(k: Work, dst: int, a: int, b: int): Work = call(k, "Fp", dst, CSub({ w: k.f.w, a: a, b: b }))
  /// Moves a part of account i to account j.
  pure def moved(k: Work, i: int, j: int, x: int): Work = {
    val k1 = sub(k, i, k.r[i], x)
    add(k1, j, k1.r[j], x)
  }
  /// The amounts may be compared before they are moved.
  pure def enough(k: Work, i: int, x: int): Work =
    call(call(k, "Fp", -1, Compare({ w: k.f.w, a: x, b: 0 })), "Fp", -1, Compare({ w: k.f.w, a: k.r[i], b: x }))
  pure def isEnough(k: Work): bool = {
    val n = k.s.length()
    k.s[n - 2].outcome != Ret(-1) and k.s[n - 1].outcome != Ret(-1)
  }
  pure def total(k: Work): Work = {
    val k1 = add(k, TMP, k.r[0], k.r[1])
    val k2 = add(k1, TMP, k1.r[TMP], k1.r[2])
    add(k2, TMP, k2.r[TMP], k2.r[3])
  }

  pure def depositing(k: Work, i: int, x: int): Work = {
    val k1 = total(call(k, "Fp", -1, Compare({ w: k.f.w, a: x, b: 0 })))
    val k2 = add(k1, -1, k1.r[TMP], x)
    if (k1.s[k.s.length()].outcome == Ret(-1) or last(k2) == Overflow) k2
    else add(k2, i, k2.r[i], x)
  }
  pure def withdrawing(k: Work, i: int, x: int): Work = {
    val k1 = enough(k, i, x)
    if (isEnough(k1)) sub(k1, i, k1.r[i], x) else k1
  }
  pure def transferring(k: Work, i: int, j: int, x: int): Work = {
    val k1 = enough(k, i, x)
    if (isEnough(k1)) moved(k1, i, j, x) else k1
  }
  pure def charging(k: Work, i: int, r: int): Work = {
    val k1 = call(k, "Fp", TMP, RMul({ w: k.f.w, p: k.f.p, a: k.r[i], b: r, mode: Ceil }))
    moved(k1, i, 3, k1.r[TMP])
  }
  pure def splitting(k: Work, i: int): Work = {
    val v = k.r[i]
    val k1 = call(k, "Fp", TMP, RDivInt({ w: k.f.w, p: k.f.p, a: v, b: 3, mode: Floor }))
    val s = k1.r[TMP]
    val k2 = sub(k1, i, v, v)
    val k3 = add(k2, 0, k2.r[0], s)
    val k4 = add(k3, 1, k3.r[1], s)
    val k5 = add(k4, 2, k4.r[2], s)
    val k6 = call(k5, "Fp", TMP, CMul({ w: k.f.w, a: s, b: 3 }))
    val k7 = sub(k6, TMP, v, k6.r[TMP])
    add(k7, 3, k7.r[3], k7.r[TMP])
  }
  pure def levelling(k: Work, i: int, j: int): Work =
    if (i == j) call(k, "Fp", -1, Same({ w: k.f.w, a: k.r[i], b: k.r[j] }))
    else {
      val x = k.r[i]
      val y = k.r[j]
      val k1 = add(k, TMP, x, y)
      val k2 = call(k1, "Fp", i, HalfSum({ w: k.f.w, p: k.f.p, a: x, b: y, mode: Floor }))
      sub(k2, j, k2.r[TMP], k2.r[i])
    }
  pure def trimming(k: Work, i: int): Work = {
    val v = k.r[i]
    val k1 = call(k, "Fp", i, RoundTo({ w: k.f.w, p: k.f.p, a: v, mode: Floor }))
    val k2 = sub(k1, TMP, v, k1.r[i])
    add(k2, 3, k2.r[3], k2.r[TMP])
  }
  /// An account is printed and read, written and read, taken apart and put together.
  pure def printing(k: Work, i: int): Work = {
    val s = render(k.r[i], k.f.p)
    call(call(k, "Display", -1, Show({ w: k.f.w, p: k.f.p, a: k.r[i] })), "Fp", i, ParseExact({ w: k.f.w, p: k.f.p, s: s }))
  }
  pure def storing(k: Work, i: int, via: str): Work =
    if (k.f.p != 0 and k.f.p != maxPrecision(k.f.w)) printing(k, i)
    else call(call(k, via, -1, Encode({ w: k.f.w, a: k.r[i], b: 0 })), via, i, Decode({ w: k.f.w, opt: false, bytes: encode(k.f.w, k.r[i]) }))
  pure def wiring(k: Work, i: int, e: int): Work = {
    val k1 = call(k, "Fp", -1, ToDec({ w: k.f.w, p: k.f.p, m: k.r[i], e: e }))
    match last(k1) {
      | Decimal(d) => call(k1, "Fp", i, FromDec({ w: k.f.w, p: k.f.p, m: d.m, e: d.e }))
      | _ => k1
    }
  }

  pure def book(r: List[int]): int -> int = Map(0 -> r[0], 1 -> r[1], 2 -> r[2], 3 -> r[3])
  pure def accounts(b: int -> int): List[int] = List(b.get(0), b.get(1), b.get(2), b.get(3))
  pure def sumOf(r: List[int]): int = r[0] + r[1] + r[2] + r[3]

  action init = {
    nondet w0 = oneOf(Set(16, 32, 64, 128))
    nondet w1 = oneOf(Set(16, 32, 64, 128))
    nondet w2 = oneOf(Set(16, 32, 64, 128))
    nondet k = oneOf(0.to(2))
    nondet q = oneOf(0.to(38))
    pure def at(w: int, i: int): Format =
      { w: w, p: if ((k + i) % 3 == 0) maxPrecision(w) else if ((k + i) % 3 == 1) q % (maxPrecision(w) + 1) else 0 }
    all {
      regs' = THREADS.mapBy(_ => List(0, 0, 0, 0, 0)),
      formats' = Map(0 -> at(w0, 0), 1 -> at(w1, 1), 2 -> at(w2, 2)),
      script' = List(),
      tid' = 0,
      expected' = List(0, 0, 0, 0),
      issued' = THREADS.mapBy(_ => 0),
    }
  }

  def start(t: int): Work = { f: formats.get(t), r: regs.get(t), s: List() }
  action perform(t: int, k: Work, b: int -> int, paid: int): bool = all {
    k.s.foldl(true, (ok, m) => ok and settled(m.call)),
    regs' = regs.set(t, k.r),
    formats' = formats,
    script' = k.s,
    tid' = t,
    expected' = accounts(b),
    issued' = issued.setBy(t, n => n + paid),
  }

  pure def amount(w: int, x: int, k: int): int = if (k < 4) hi(w) - x % 100 else x % pow2(w - 1) / pow2(k % w)

  action deposits = {
    nondet t = oneOf(THREADS)
    nondet i = oneOf(0.to(2))
    nondet n = oneOf(0.to(2^127 - 1))
    nondet h = oneOf(0.to(130))
    val f = formats.get(t)
    val x = amount(f.w, n, h)
    val was = book(regs.get(t))
    val b = deposit(f.w, was, i, x)
    perform(t, depositing(start(t), i, x), b, sumOf(accounts(b)) - sumOf(accounts(was)))
  }
  action withdraws = {
    nondet t = oneOf(THREADS)
    nondet i = oneOf(0.to(2))
    nondet n = oneOf(0.to(2^127 - 1))
    nondet h = oneOf(0.to(130))
    val v = regs.get(t)[i]
    val x = if (h % 3 == 0) amount(formats.get(t).w, n, h) else if (h % 3 == 1) imin(hi(formats.get(t).w), v + h % 2) else n % (v + 1)
    val was = book(regs.get(t))
    val b = withdraw(was, i, x)
    perform(t, withdrawing(start(t), i, x), b, sumOf(accounts(b)) - sumOf(accounts(was)))
  }
  action transfers = {
    nondet t = oneOf(THREADS)
    nondet i = oneOf(0.to(2))
    nondet j = oneOf(0.to(3))
    nondet n = oneOf(0.to(2^127 - 1))
    nondet h = oneOf(0.to(130))
    val v = regs.get(t)[i]
    val x = if (h % 3 == 0) amount(formats.get(t).w, n, h) else n % (v + 1)
    perform(t, transferring(start(t), i, j, x), transfer(book(regs.get(t)), i, j, x), 0)
  }
  action charges = {
    nondet t = oneOf(THREADS)
    nondet i = oneOf(0.to(2))
    nondet n = oneOf(0.to(2^127 - 1))
    nondet h = oneOf(0.to(40))
    val f = formats.get(t)
    val r = n % (pow10(f.p) + 1) / pow10(imin(h, f.p))
    perform(t, charging(start(t), i, r), fee(f.p, book(regs.get(t)), i, r), 0)
  }
  action splits = {
    nondet t = oneOf(THREADS)
    nondet i = oneOf(0.to(2))
    perform(t, splitting(start(t), i), split(book(regs.get(t)), i), 0)
  }
  action levels = {
    nondet t = oneOf(THREADS)
    nondet i = oneOf(0.to(2))
    nondet j = oneOf(0.to(3))
    perform(t, levelling(start(t), i, j), level(book(regs.get(t)), i, j), 0)
  }
  action trims = {
    nondet t = oneOf(THREADS)
    nondet i = oneOf(0.to(2))
    perform(t, trimming(start(t), i), chop(formats.get(t).p, book(regs.get(t)), i), 0)
  }
  action keeps = {
    nondet t = oneOf(THREADS)
    nondet i = oneOf(0.to(3))
    nondet e = oneOf((0 - 40).to(40))
    nondet op = oneOf(0.to(3))
    perform(t,
      if (op == 0) printing(start(t), i) else if (op == 1) storing(start(t), i, "Bincode")
      else if (op == 2) storing(start(t), i, "Scale") else wiring(start(t), i, imin(e, 0)),
      book(regs.get(t)), 0)
  }
  action step = any { deposits, deposits, withdraws, transfers, charges, splits, levels, trims, keeps }

  // -------------------------------------------------------------- invariants
  val answersAccepted = script.foldl(true, (b, m) => b and accept(m.call, m.outcome))
  /// The calls do what the bank does.
  val refines = script == List() or regs.get(tid).slice(0, 4) == expected
  val conserved = THREADS.forall(t => sumOf(regs.get(t)) == issued.get(t) and inRange(formats.get(t).w, issued.get(t)))
  val solvent = THREADS.forall(t => regs.get(t).foldl(true, (b, x) => b and x >= 0))
  /// Nothing overflows but a deposit.
  val noSurprise = script.foldl(true, (b, m) => b and match m.outcome {
    | Overflow => match m.call { | CAdd(_) => true | _ => false }
    | Reject => false
    | _ => true
  })
  val ok = answersAccepted and refines and conserved and solvent and noSurprise
}
