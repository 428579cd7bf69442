------------------------------- MODULE Prims -------------------------------
(***************************************************************************)
(* The primitive types of April: their ranges, the result types of the     *)
(* operators, the operators themselves, conversions and text forms.        *)
(* A primitive value is a record [t |-> type name, w |-> word], where w is *)
(* the value sign- or zero-extended to 64 bits (bool: 0 or 1).             *)
(***************************************************************************)
EXTENDS Words, TLC

IntTypes == {"sbyte", "byte", "short", "ushort", "int", "uint", "long", "ulong"}
PrimTypes == IntTypes \cup {"char", "bool"}

SignedType(t) == t \in {"sbyte", "short", "int", "long"}

Width(t) == CASE t \in {"sbyte", "byte"} -> 8
              [] t \in {"short", "ushort"} -> 16
              [] t \in {"int", "uint", "char"} -> 32
              [] t \in {"long", "ulong"} -> 64

\* Reduce a word to the range of type t (wrap-around).
Wrap(t, w) ==
    CASE t = "int" -> IF w[2] >= 32768 THEN <<w[1], w[2], 65535, 65535>>
                                       ELSE <<w[1], w[2], 0, 0>>
      [] t \in {"long", "ulong"} -> w
      [] t = "uint" -> <<w[1], w[2], 0, 0>>
      [] t = "byte" -> <<w[1] % 256, 0, 0, 0>>
      [] t = "sbyte" -> LET b == w[1] % 256
                        IN  IF b >= 128 THEN <<65280 + b, 65535, 65535, 65535>>
                                        ELSE <<b, 0, 0, 0>>
      [] t = "short" -> IF w[1] >= 32768 THEN <<w[1], 65535, 65535, 65535>>
                                         ELSE <<w[1], 0, 0, 0>>
      [] t = "ushort" -> <<w[1], 0, 0, 0>>
      [] t = "char" -> <<w[1], w[2], 0, 0>>
      [] t = "bool" -> w

Val(t, w) == [t |-> t, w |-> Wrap(t, w)]
Bool(b) == [t |-> "bool", w |-> IF b THEN W1 ELSE W0]
IsTrue(v) == v.w # W0
IntVal(i) == Val("int", WOfInt(i))

\* Every value of a primitive type is in its canonical form.
CanonicalPrim(v) == /\ v.t \in PrimTypes
                    /\ v.w = Wrap(v.t, v.w)
                    /\ v.t = "bool" => v.w \in {W0, W1}

(*------------------------------- types ----------------------------------*)

\* An implicit conversion exists from s to t iff t is wider and of the same signedness.
Widens(s, t) ==
    \/ s = t
    \/ /\ s \in IntTypes /\ t \in IntTypes
       /\ SignedType(s) = SignedType(t)
       /\ Width(s) < Width(t)

\* Result type of the binary arithmetic and bit operators.
Promote2(s, t) ==
    IF s = "ulong" \/ t = "ulong" THEN "ulong"
    ELSE IF s = "long" \/ t = "long" THEN "long"
    ELSE IF s = "uint" THEN (IF SignedType(t) THEN "long" ELSE "uint")
    ELSE IF t = "uint" THEN (IF SignedType(s) THEN "long" ELSE "uint")
    ELSE "int"

\* Result type of unary +, ~ and of the left operand of a shift.
Promote1(s) == IF Width(s) < 32 THEN "int" ELSE s
\* Result type of unary minus.
PromoteNeg(s) == IF s = "uint" THEN "long" ELSE Promote1(s)

(*----------------------------- operators --------------------------------*)

ArithOps == {"+", "-", "*", "/", "%", "&", "|", "^"}
ShiftOps == {"<<", ">>"}
CmpOps   == {"<", "<=", ">", ">=", "==", "!="}

\* Division by zero, and the one quotient that does not fit, have no value here.
DivUndefined(op, a, b) ==
    LET t == Promote2(a.t, b.t)
    IN  op \in {"/", "%"} /\
        \/ Wrap(t, b.w) = W0
        \/ SignedType(t) /\ Wrap(t, b.w) = WM1 /\ Wrap(t, a.w) = Wrap(t, WShl(W1, Width(t) - 1))

Arith(op, a, b) ==
    LET t == Promote2(a.t, b.t)
        x == Wrap(t, a.w)
        y == Wrap(t, b.w)
    IN  CASE op = "+" -> Val(t, WAdd(x, y))
          [] op = "-" -> Val(t, WSub(x, y))
          [] op = "*" -> Val(t, WMul(x, y))
          [] op = "/" -> Val(t, IF SignedType(t) THEN WDivS(x, y) ELSE WDivModU(x, y).q)
          [] op = "%" -> Val(t, IF SignedType(t) THEN WModS(x, y) ELSE WDivModU(x, y).r)
          [] op = "&" -> Val(t, WAnd(x, y))
          [] op = "|" -> Val(t, WOr(x, y))
          [] op = "^" -> Val(t, WXor(x, y))

\* A shift whose count is outside 0 .. width-1 has no value here.
ShiftUndefined(a, b) ==
    \/ WIsNeg(b.w) /\ b.t # "ulong"
    \/ ~ WLtU(b.w, WOfInt(Width(Promote1(a.t))))

\* The shift is done in the promoted type of its left operand.
Shift(op, a, b) ==
    LET t == Promote1(a.t)
        n == b.w[1]
        r == IF op = "<<" THEN WShl(a.w, n)
             ELSE IF SignedType(t) THEN WShrS(a.w, n) ELSE WShrU(a.w, n)
    IN  Val(Promote2(a.t, b.t), Val(t, r).w)

\* Comparison is done in the promoted type.
Less(a, b) ==
    IF a.t \in IntTypes /\ b.t \in IntTypes
    THEN LET t == Promote2(a.t, b.t)
         IN  IF SignedType(t) THEN WLtS(Wrap(t, a.w), Wrap(t, b.w))
                              ELSE WLtU(Wrap(t, a.w), Wrap(t, b.w))
    ELSE WLtU(a.w, b.w)                                \* char

SamePrim(a, b) ==
    IF a.t \in IntTypes /\ b.t \in IntTypes
    THEN LET t == Promote2(a.t, b.t) IN Wrap(t, a.w) = Wrap(t, b.w)
    ELSE a.w = b.w

Compare(op, a, b) ==
    Bool(CASE op = "<" -> Less(a, b)
           [] op = ">" -> Less(b, a)
           [] op = "<=" -> ~ Less(b, a)
           [] op = ">=" -> ~ Less(a, b)
           [] op = "==" -> SamePrim(a, b)
           [] op = "!=" -> ~ SamePrim(a, b))

Unary(op, a) ==
    CASE op = "-" -> Val(PromoteNeg(a.t), WNeg(a.w))
      [] op = "+" -> Val(Promote1(a.t), a.w)
      [] op = "~" -> Val(Promote1(a.t), WNot(a.w))
      [] op = "!" -> Bool(~ IsTrue(a))

(*--------------------------- literals, text ------------------------------*)

\* The word written by the given digits (most significant first) in a base up to 16.
WOfDigits(base, ds) ==
    FoldLeft(LAMBDA acc, d : WAdd(WMul(acc, WOfInt(base)), WOfInt(d)), W0, ds)

\* The type of an integer literal: the first type that holds it, among those its suffix and
\* base allow; hexadecimal literals are unsigned.
LiteralType(base, suf, w) ==
    LET fitsInt  == WLtU(w, WOfInt(1073741824)) \/ WLtU(WShrU(w, 1), WOfInt(1073741824))
        fitsUInt == w[3] = 0 /\ w[4] = 0
        fitsLong == ~ WIsNeg(w)
    IN  CASE base = 16 -> IF suf \in {"", "U"} /\ fitsUInt THEN "uint" ELSE "ulong"
          [] suf = "" -> IF fitsInt THEN "int"
                         ELSE IF base # 10 /\ fitsUInt THEN "uint"
                         ELSE IF fitsLong THEN "long" ELSE "ulong"
          [] suf = "U" -> IF fitsUInt THEN "uint" ELSE "ulong"
          [] suf = "L" -> IF fitsLong THEN "long" ELSE "ulong"
          [] suf = "UL" -> "ulong"

Literal(base, suf, ds) ==
    LET w == WOfDigits(base, ds) IN [t |-> LiteralType(base, suf, w), w |-> w]

Pad4(n) == IF n < 10 THEN "000" \o ToString(n)
           ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)

RECURSIVE DecU(_)
DecU(w) ==
    IF WFits31(w) /\ ~ WIsNeg(w) THEN ToString(WToInt(w))
    ELSE LET d == WDivSmall(w, 10000)
         IN  DecU(d.q) \o Pad4(d.r[1])

DecS(w) == IF WIsNeg(w) THEN "-" \o DecU(WNeg(w)) ELSE DecU(w)

AsciiChars ==
  << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
     "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
     "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
     "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
     "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
     "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>

Text(v) ==
    CASE v.t = "bool" -> IF IsTrue(v) THEN "True" ELSE "False"
      [] v.t = "char" -> AsciiChars[v.w[1] - 31]
      [] v.t = "string" -> v.s
      [] v.t = "ulong" -> DecU(v.w)
      [] OTHER -> DecS(v.w)
=============================================================================
