// -*- mode: Bluespec; -*-
/// What a bank does with fixed-point amounts: every operation on money is exact
/// or rounds in a stated direction, and what rounding leaves goes somewhere.
/// Accounts 0..2 belong to customers, account 3 to the bank.
module bank {
  import num.* from "./num"
  export num.*

  pure val ACCOUNTS = Set(0, 1, 2, 3)
  pure val BANK = 3
  type Book = int -> int

  pure def sum(b: Book): int = b.get(0) + b.get(1) + b.get(2) + b.get(3)
  pure def move(b: Book, i: int, j: int, x: int): Book =
    b.setBy(i, v => v - x).setBy(j, v => v + x)

  pure def deposit(w: int, b: Book, i: int, x: int): Book =
    if (x < 0 or sum(b) + x > hi(w)) b else b.setBy(i, v => v + x)
  pure def withdraw(b: Book, i: int, x: int): Book =
    if (x < 0 or b.get(i) < x) b else b.setBy(i, v => v - x)
  pure def transfer(b: Book, i: int, j: int, x: int): Book =
    if (x < 0 or b.get(i) < x) b else move(b, i, j, x)

  /// A share r / 10^p <= 1 of an account, rounded up, goes to the bank.
  pure def share(p: int, v: int, r: int): int = roundDiv(v * r, pow10(p), Ceil)
  pure def fee(p: int, b: Book, i: int, r: int): Book = move(b, i, BANK, share(p, b.get(i), r))

  /// An account is split into three equal parts; the bank gets the remainder.
  pure def third(v: int): int = roundDiv(v, 3, Floor)
  pure def split(b: Book, i: int): Book = {
    val s = third(b.get(i))
    Map(0 -> (if (i == 0) 0 else b.get(0)) + s,
        1 -> (if (i == 1) 0 else b.get(1)) + s,
        2 -> (if (i == 2) 0 else b.get(2)) + s,
        3 -> b.get(3) + b.get(i) - 3 * s)
  }

  /// Two customers share what they have; the second one gets the odd unit.
  pure def half(x: int, y: int): int = roundDiv(x + y, 2, Floor)
  pure def level(b: Book, i: int, j: int): Book =
    if (i == j) b
    else {
      val m = half(b.get(i), b.get(j))
      b.set(i, m).set(j, b.get(i) + b.get(j) - m)
    }

  /// Fractions of the unit go to the bank.
  pure def chop(p: int, b: Book, i: int): Book = {
    val k = pow10(p)
    move(b, i, BANK, b.get(i) - roundDiv(b.get(i), k, Floor) * k)
  }
}

/// The invariants of the bank, to be proved for all amounts.  `issued` is the
/// exact balance of deposits and withdrawals.
module bankProof {
  import bank.*
  const W: int
  const P: int

  var book: Book
  var issued: int

  action init = all {
    book' = ACCOUNTS.mapBy(_ => 0),
    issued' = 0,
  }
  /// Any state in which the invariant holds.
  action anywhere = {
    nondet a = oneOf(0.to(2^(W - 1) - 1))
    nondet b = oneOf(0.to(2^(W - 1) - 1))
    nondet c = oneOf(0.to(2^(W - 1) - 1))
    nondet d = oneOf(0.to(2^(W - 1) - 1))
    all {
      a + b + c + d <= hi(W),
      book' = Map(0 -> a, 1 -> b, 2 -> c, 3 -> d),
      issued' = a + b + c + d,
    }
  }

  action goes(b: Book, n: int): bool = all { book' = b, issued' = n }
  action step = {
    nondet i = oneOf(Set(0, 1, 2))
    nondet j = oneOf(Set(0, 1, 2))
    nondet x = oneOf(0.to(2^(W - 1) - 1))
    nondet r = oneOf(0.to(10^P))
    any {
      goes(deposit(W, book, i, x), if (sum(book) + x > hi(W)) issued else issued + x),
      goes(withdraw(book, i, x), if (book.get(i) < x) issued else issued - x),
      goes(transfer(book, i, j, x), issued),
      goes(fee(P, book, i, r), issued),
      goes(split(book, i), issued),
      goes(level(book, i, j), issued),
      goes(chop(P, book, i), issued),
    }
  }

  val conserved = sum(book) == issued
  val solvent = ACCOUNTS.forall(i => book.get(i) >= 0)
  val representable = inRange(W, issued)
  val inv = conserved and solvent and representable
}
module bank8 { import bankProof(W = 6, P = 1).* }
module bank64 { import bankProof(W = 64, P = 9).* }
module bank128 { import bankProof(W = 128, P = 18).* }
