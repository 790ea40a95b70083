// -*- mode: Bluespec; -*-
/// What kind of things numbers, errors and rounding modes are.
///
/// They are values, nothing else: copies are as good as the original, in this
/// thread or another, now or later.  A number is its raw integer in memory.
/// It is changed by being replaced, never in place, and there is no arithmetic
/// on it other than the operations that say what they do when it does not fit.
module values {
  import num.* from "./num"
  import codec.* from "./codec"

  type Thing = Number({ w: int, p: int }) | RoundingMode | ArithmeticFailure | ConversionFailure

  /// Everything that can be asked of a type here.
  pure val SHARED: Set[str] = Set("Send", "Sync", "Unpin", "UnwindSafe", "RefUnwindSafe", "Eternal")
  pure val VALUE: Set[str] = SHARED.union(Set("Clone", "Debug", "PartialEq", "Eq"))
  pure val SCALAR: Set[str] = VALUE.union(Set("Copy", "Default", "PartialOrd", "Ord", "Hash", "Display", "FromStr"))
  pure val ERROR: Set[str] = VALUE.union(Set("Display", "Error"))
  pure val OPERATORS: Set[str] = Set("Add", "Sub", "Mul", "Div", "Rem", "Neg", "Not", "Shl", "Shr", "BitAnd", "BitOr", "BitXor", "Sum", "Product")
  pure val CHANGES: Set[str] = Set("AddAssign", "SubAssign", "MulAssign", "DivAssign", "RemAssign", "ShlAssign", "DerefMut", "AsMut", "Drop")

  /// The traits it has to have, and the ones it must not have.
  pure def has(t: Thing): Set[str] = match t {
    | Number(_) => SCALAR
    | RoundingMode(_) => VALUE.union(Set("Copy"))
    | ArithmeticFailure(_) => ERROR
    | ConversionFailure(_) => ERROR
  }
  pure def lacks(t: Thing): Set[str] = OPERATORS.union(CHANGES)

  pure def acceptTrait(t: Thing, trait_: str, found: bool): bool = and {
    has(t).contains(trait_) implies found,
    lacks(t).contains(trait_) implies not(found),
  }

  /// Size and alignment of a number, or of something made of numbers, and of
  /// the same made of integers.
  type Extent = { size: int, align: int }
  pure def acceptExtent(w: int, made: str, numbers: Extent, integers: Extent): bool = and {
    numbers == integers,
    made == "one" implies numbers.size == w / 8,
  }

  /// A number seen as memory, and memory seen as a number.
  pure def acceptMemory(w: int, a: int, memory: List[int], back: int): bool =
    memory == encode(w, a) and back == a

  /// Constants, which the compiler has to be able to evaluate.
  pure def constant(w: int, p: int, name: str, a: int): int =
    if (name == "ZERO") 0 else if (name == "ONE") pow10(p)
    else if (name == "MIN") lo(w) else if (name == "MAX") hi(w)
    else if (name == "EPSILON") 1 else if (name == "PRECISION") p
    else a // from_bits and as_bits, the one undone by the other
  pure def acceptConstant(w: int, p: int, name: str, a: int, x: int): bool = x == constant(w, p, name, a)

  /// What an error says, by itself and where it is displayed.
  type Said = { text: str, shown: str, boxed: str }
  pure val MEANING: str -> str = Map("Overflow" -> "overflow", "DivisionByZero" -> "division by zero", "DomainViolation" -> "domain violation")
  /// Conversions say why they fail in words of their own.
  pure def acceptSaid(error: str, s: Said): bool = and {
    s.shown == s.text, s.boxed == s.text, s.text != "",
    MEANING.keys().contains(error) implies s.text == MEANING.get(error),
  }

  run apartTest = all {
    assert(Set(Number({ w: 64, p: 9 }), RoundingMode, ArithmeticFailure, ConversionFailure).forall(t => has(t).intersect(lacks(t)) == Set())),
    assert(MEANING.keys().forall(a => MEANING.keys().forall(b => MEANING.get(a) == MEANING.get(b) implies a == b))),
  }
  run memoryTest = all {
    assert(acceptMemory(16, -2, [254, 255], -2)),
    assert(not(acceptMemory(16, -2, [255, 254], -2))),
    assert(0.to(38).forall(p => constant(128, p, "ONE", 0) == pow10(p))),
  }
}
