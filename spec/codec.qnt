// -*- mode: Bluespec; -*-
/// Binary encodings as lists of bytes.
module codec {
  import num.* from "./num"

  pure def twos(w: int, x: int): int = if (x < 0) x + pow2(w) else x
  pure def untwos(w: int, u: int): int = if (u >= pow2(w - 1)) u - pow2(w) else u

  /// The n low bytes of u >= 0, little endian, and back.
  pure def leBytes(u: int, n: int): List[int] =
    range(0, n).foldl({ v: u, l: List() }, (s, _) => { v: s.v / 256, l: s.l.append(s.v % 256) }).l
  pure def leValue(b: List[int]): int =
    b.foldl({ v: 0, k: 1 }, (s, x) => { v: s.v + x * s.k, k: s.k * 256 }).v

  pure def encode(w: int, a: int): List[int] = leBytes(twos(w, a), w / 8)

  /// SCALE compact encoding of an unsigned integer.
  pure def byteLen(u: int): int = range(0, 20).foldl(0, (n, i) => if (u >= pow2(8 * i)) i + 1 else n)
  pure def compact(u: int): List[int] =
    if (u < 64) [u * 4]
    else if (u < pow2(14)) leBytes(u * 4 + 1, 2)
    else if (u < pow2(30)) leBytes(u * 4 + 2, 4)
    else {
      val n = imax(4, byteLen(u))
      List((n - 4) * 4 + 3).concat(leBytes(u, n))
    }
}
