// -*- mode: Bluespec; -*-
/// The machines that programs run on, and what of them can be seen.
///
/// A machine has words of some size and stores the bytes of a number in one
/// order or the other.  What an operation answers depends on neither.  Two
/// things can be seen all the same: the integers of a machine's word are there
/// only as far as they fit it, and a number in memory is its raw integer as the
/// machine stores it.
module platform {
  import fixnum.* from "./fixnum"
  import codec.* from "./codec"

  type Platform = { word: int, big: bool }

  /// What is seen of a call: whether the machine has its operands, what it
  /// answers, and what another machine answers, where the call has been made.
  type Seen = { made: bool, answer: Outcome, known: bool, other: Outcome }

  /// Entry points that take an integer of a machine's word.
  pure val WORDS: Set[str] = Set("Usize", "Isize")
  pure def fits(m: Platform, entry: str, a: int): bool =
    if (entry == "Usize") 0 <= a and a < 2 ^ m.word else -(2 ^ (m.word - 1)) <= a and a < 2 ^ (m.word - 1)
  pure def exists_on(m: Platform, entry: str, c: Call): bool = match c {
    | FromInt(x) => WORDS.contains(entry) implies fits(m, entry, x.a)
    | _ => true
  }

  pure def acceptOn(m: Platform, entry: str, c: Call, s: Seen): bool = and {
    s.made == exists_on(m, entry, c),
    s.made implies accept(c, s.answer),
    (s.made and s.known) implies s.answer == s.other,
  }

  /// A number in memory, and memory as a number.
  pure def stored(m: Platform, w: int, a: int): List[int] = {
    val b = encode(w, a)
    if (m.big) b.foldl([], (l, x) => [x].concat(l)) else b
  }
  pure def acceptStored(m: Platform, w: int, a: int, memory: List[int], back: int): bool =
    memory == stored(m, w, a) and back == a

  /// Sizes and alignments of a number and of its integer.
  pure def acceptExtents(w: int, number: List[int], integer: List[int]): bool =
    number == integer and number[0] == w / 8

  pure val PLATFORMS: Set[Platform] = tuples(Set(16, 32, 64), Set(true, false)).map(((word, big)) => { word: word, big: big })

  /// Wider words have more integers, and what both have both answer alike.
  run widerTest = all {
    assert(PLATFORMS.forall(m => PLATFORMS.forall(n => Set(-(2 ^ 31) - 1, -(2 ^ 15), -1, 0, 2 ^ 15, 2 ^ 31 - 1, 2 ^ 32 - 1, 2 ^ 32, 2 ^ 64).forall(a =>
      WORDS.forall(e => (m.word <= n.word and fits(m, e, a)) implies fits(n, e, a)))))),
    assert(not(fits({ word: 32, big: false }, "Isize", 2 ^ 31)) and fits({ word: 32, big: false }, "Usize", 2 ^ 31)),
    assert(PLATFORMS.forall(m => not(acceptOn(m, "I64", FromInt({ w: 64, p: 9, a: 5 }), { made: false, answer: Reject, known: false, other: Reject })))),
    assert(PLATFORMS.forall(m => acceptOn(m, "I64", FromInt({ w: 64, p: 9, a: 5 }), { made: true, answer: Ret(5000000000), known: true, other: Ret(5000000000) }))),
  }
  /// The order of the bytes makes no difference to those of which there is one.
  run storedTest = all {
    assert(stored({ word: 32, big: true }, 16, -2) == [255, 254]),
    assert(stored({ word: 32, big: false }, 16, -2) == [254, 255]),
    assert(Set(0, -1, 257).forall(a => stored({ word: 64, big: true }, 16, a) == stored({ word: 64, big: false }, 16, a))),
  }
}
