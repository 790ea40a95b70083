// -*- mode: Bluespec; -*-
/// Which expressions over numbers are programs at all, and of what type.
///
/// Numbers of different layouts or precisions are different types.  Nothing
/// converts one into the other behind the programmer's back, there is no
/// arithmetic without a choice between checked, saturating and rounding, and a
/// precision at which the layout cannot hold 1.0 does not exist.
module typing {
  import num.* from "./num"

  type Type =
    | Number({ w: int, p: int })
    | Signed(int)
    | Unsigned(int)
    | Double
    | Boolean

  type Typed = Of(Type) | Illtyped

  /// 10^p must be a number of the layout.
  pure def existing(w: int, p: int): bool = pow10(p) <= hi(w)

  pure def isNumber(t: Type): bool = match t { | Number(_) => true | _ => false }
  /// The integers that have the operations themselves.
  pure def isOperand(t: Type): bool = match t { | Signed(w) => w >= 8 and w <= 128 | _ => false }

  pure def same(l: Type, r: Type): Typed = if (l == r and (isNumber(l) or isOperand(l))) Of(l) else Illtyped
  pure def numbers(l: Type, r: Type): Typed = if (l == r and isNumber(l)) Of(l) else Illtyped

  /// The number of a pair of a number and an integer of its layout.
  pure def mixed(l: Type, r: Type): Typed = match l {
    | Number(n) => if (r == Signed(n.w)) Of(l) else Illtyped
    | Signed(w) => match r { | Number(n) => if (n.w == w) Of(r) else Illtyped | _ => Illtyped }
    | _ => Illtyped
  }
  pure def or_(a: Typed, b: Typed): Typed = if (a == Illtyped) b else a
  pure def integers(l: Type, r: Type): Typed = if (isNumber(l)) Illtyped else same(l, r)

  /// `Result<_, ArithmeticError>` is left out of the types of checked operations.
  pure def typeOf(op: str, l: Type, r: Type): Typed =
    if (op == "cadd" or op == "csub" or op == "saturating_add" or op == "saturating_sub") same(l, r)
    else if (op == "cmul" or op == "saturating_mul") or_(mixed(l, r), integers(l, r))
    else if (op == "rmul" or op == "saturating_rmul") numbers(l, r)
    else if (op == "rdiv") or_(same(l, r), mixed(l, r))
    else if (op == "half_sum" or op == "round_towards_zero_by") numbers(l, r)
    else if (op == "==" or op == "<") (if (isNumber(l) and l == r) Of(Boolean) else Illtyped)
    // conversion of l to the type r
    else if (op == "into") (if (l == r or (isNumber(l) and r == Double)) Of(r) else Illtyped)
    else if (op == "try_into") (
      if (not(isNumber(r))) typeOfTryInto(l, r)
      else if (isNumber(l)) (if (l == r) Of(r) else Illtyped)
      else if (l == Boolean) Illtyped
      else Of(r))
    else Illtyped // + - * /
  pure def typeOfTryInto(l: Type, r: Type): Typed = if (isNumber(l) and r == Double) Of(r) else Illtyped

  /// Does an expression that claims a type compile?  It may claim none (`Illtyped`).
  pure def acceptTyping(op: str, l: Type, r: Type, claim: Typed, compiles: bool): bool =
    val t = typeOf(op, l, r)
    compiles == (t != Illtyped and (claim == Illtyped or claim == t))

  pure def acceptPrecision(w: int, p: int, compiles: bool, one: int): bool =
    compiles == existing(w, p) and (compiles implies one == pow10(p))
}
