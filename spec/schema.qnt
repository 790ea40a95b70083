// -*- mode: Bluespec; -*-
/// What a JSON schema says of a value that was written.
module schema {
  import text.* from "./text"

  /// A schema: the types it allows (none: all of them), bounds of the length of
  /// a string (-1: none), the strings it enumerates (none: all of them), and
  /// whether an evaluator of JSON schemas finds that the value obeys the rest.
  type Schema = { types: List[str], shortest: int, longest: int, only: List[List[int]] }
  type Value = { kind: str, text: List[int] }

  pure def among(l, x) = l.length() == 0 or l.select(y => y == x).length() > 0

  pure def describes(s: Schema, v: Value): bool = and {
    among(s.types, v.kind),
    v.kind == "string" implies and {
      s.shortest <= v.text.length(),
      s.longest < 0 or v.text.length() <= s.longest,
      among(s.only, v.text)
    }
  }

  /// The number a / 10^p was written as v, and its type is described by s;
  /// `obeys` is the verdict of an evaluator of JSON schemas on the whole schema.
  pure def acceptDescribed(s: Schema, a: int, p: int, v: Value, obeys: bool): bool = and {
    obeys, describes(s, v), v == { kind: "string", text: render(a, p) },
    // it says something at all
    s.types.length() == 1 or s.only.length() > 0
  }
}
