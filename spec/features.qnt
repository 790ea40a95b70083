// -*- mode: Bluespec; -*-
/// What a choice of the library's features offers.
module features {
  /// A number type of a layout (`w` bits), or something else (`w` = 0).
  type Item = { name: str, w: int }

  pure val LAYOUTS: Set[int] = Set(16, 32, 64, 128)
  pure def nameOf(w: int): str =
    if (w == 16) "i16" else if (w == 32) "i32" else if (w == 64) "i64" else "i128"

  pure def chosen(features: Set[str]): Set[int] = LAYOUTS.filter(w => features.contains(nameOf(w)))
  /// There is no library without a layout, and one for every choice of other features.
  pure def exists_(features: Set[str]): bool = chosen(features) != Set()

  pure def offers(features: Set[str]): Set[Item] = {
    val ws = chosen(features)
    def each = (name) => ws.map(w => { name: name, w: w })
    def if_ = (f, s) => if (features.contains(f)) s else Set()
    each("number").union(each("literal"))
      .union(if_("serde", each("serialize").union(each("with"))))
      .union(if_("parity", each("encode").union(each("compact"))))
      .union(if_("schemars", each("schema")))
      .union(if_("std", Set({ name: "error", w: 0 })))
      // schemars needs the standard library, with or without the feature
      .union(if (features.contains("std") or features.contains("schemars")) Set() else Set({ name: "freestanding", w: 0 }))
  }

  /// A literal is the bits of a number, which there is no harm in writing down
  /// for a layout that has not been chosen.
  pure def harmless(features: Set[str]): Set[Item] =
    LAYOUTS.exclude(chosen(features)).map(w => { name: "literal", w: w })

  /// The compiler's verdict on the library with the features, and on the items.
  pure def acceptBuild(features: Set[str], built: bool, found: Set[Item]): bool =
    built == exists_(features) and (built implies found.exclude(harmless(features)) == offers(features))

  /// More features never offer less, but for being without the standard library.
  pure def additive(fs: Set[str], gs: Set[str]): bool =
    fs.subseteq(gs) implies offers(fs).filter(i => i.name != "freestanding").subseteq(offers(gs))
  pure val FEATURES: Set[str] = Set("std", "i16", "i32", "i64", "i128", "serde", "schemars", "parity", "quick-xml")

  run additiveTest = assert(FEATURES.powerset().forall(fs => FEATURES.forall(f => additive(fs, fs.union(Set(f))))))
}
