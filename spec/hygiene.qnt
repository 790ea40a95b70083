// -*- mode: Bluespec; -*-
/// What the macros mean, wherever they are used.
///
/// A macro is put into a scope the library knows nothing of: it has its own
/// name for the library, an edition, the standard library or not, and items of
/// its own, which may have the names of those the macro speaks of.  None of it
/// makes a difference.  (But for constants and methods: a variable that a macro
/// binds is a comparison where there is a constant of that name, and a method
/// that two traits have needs to be told which.)
module hygiene {
  import fixnum.* from "./fixnum"

  type Scope = {
    library: str,       // the name it is imported under
    edition: int,
    std: bool,
    kind: str,          // of the item next to the macro, or of what the macro is in
    name: str,          // its name
    wrapper: bool,      // it is the wrapper type itself that has the name
  }
  /// What becomes of a use of a macro.
  type Seen = Compiled(Outcome) | Refused

  /// As if there were no scope.  What cannot be answered does not compile.
  pure def acceptIn(s: Scope, c: Call, seen: Seen): bool =
    match seen {
      | Compiled(o) => accept(c, o)
      | Refused => accept(c, Reject)
    }

  pure val PLAIN: Scope = { library: "fixnum", edition: 2021, std: true, kind: "none", name: "", wrapper: false }
  run scopeTest = {
    val c = Literal({ w: 16, p: 2, s: [49, 46, 53] })
    all {
      assert(acceptIn(PLAIN, c, Compiled(Ret(150)))),
      assert(acceptIn({ ...PLAIN, kind: "alias", name: "Result" }, c, Compiled(Ret(150)))),
      assert(not(acceptIn({ ...PLAIN, kind: "alias", name: "Result" }, c, Refused))),
      assert(acceptIn(PLAIN, Literal({ w: 16, p: 3, s: [57, 57] }), Refused)),
    }
  }
}
