------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* The grammar of JSON texts (RFC 8259), over sequences of code points.    *)
(* Every operator takes the text and the position from which to read and   *)
(* returns the position after what it recognises, or 0 if it is not there. *)
(***************************************************************************)
EXTENDS Naturals, Sequences

At(c, i) == IF i <= Len(c) THEN c[i] ELSE 0
IsDigit(x) == x \in 48..57
IsHex(x) == IsDigit(x) \/ x \in 65..70 \/ x \in 97..102
IsSpace(x) == x \in {32, 9, 10, 13}

RECURSIVE Ws(_, _), Digits(_, _), StrRest(_, _), JVal(_, _), Elems(_, _), Members(_, _), Word(_, _, _)
Ws(c, i) == IF i <= Len(c) /\ IsSpace(c[i]) THEN Ws(c, i + 1) ELSE i
Digits(c, i) == IF IsDigit(At(c, i)) THEN Digits(c, i + 1) ELSE i
Word(c, i, w) == IF w = <<>> THEN i ELSE IF At(c, i) = Head(w) THEN Word(c, i + 1, Tail(w)) ELSE 0

\* the four digits of an escape \uXXXX starting at i, as a number (or 0)
HexVal(x) == IF IsDigit(x) THEN x - 48 ELSE IF x \in 65..70 THEN x - 55 ELSE x - 87
Hex4(c, i) == \A k \in 0..3 : IsHex(At(c, i + k))
Hex4Val(c, i) == ((HexVal(c[i]) * 16 + HexVal(c[i + 1])) * 16 + HexVal(c[i + 2])) * 16 + HexVal(c[i + 3])

\* after the opening quote; unpaired surrogate escapes denote no text
StrRest(c, i) ==
  LET x == At(c, i) IN
  CASE x = 34 -> i + 1
    [] x = 92 -> LET y == At(c, i + 1) IN
                 IF y \in {34, 92, 47, 98, 102, 110, 114, 116} THEN StrRest(c, i + 2)
                 ELSE IF y = 117 /\ Hex4(c, i + 2)
                 THEN LET n == Hex4Val(c, i + 2) IN
                      IF n \in 56320..57343 THEN 0
                      ELSE IF n \in 55296..56319
                      THEN IF At(c, i + 6) = 92 /\ At(c, i + 7) = 117 /\ Hex4(c, i + 8) /\ Hex4Val(c, i + 8) \in 56320..57343
                           THEN StrRest(c, i + 12) ELSE 0
                      ELSE StrRest(c, i + 6)
                 ELSE 0
    [] x >= 32 /\ x # 34 /\ x # 92 -> StrRest(c, i + 1)
    [] x < 32 -> 0

Str(c, i) == IF At(c, i) = 34 THEN StrRest(c, i + 1) ELSE 0

Num(c, i) ==
  LET a == IF At(c, i) = 45 THEN i + 1 ELSE i
      b == IF At(c, a) = 48 THEN a + 1 ELSE IF IsDigit(At(c, a)) THEN Digits(c, a) ELSE 0
      f == IF b = 0 THEN 0
           ELSE IF At(c, b) = 46 THEN (IF IsDigit(At(c, b + 1)) THEN Digits(c, b + 1) ELSE 0) ELSE b
      e == IF f = 0 THEN 0
           ELSE IF At(c, f) \in {69, 101}
           THEN LET s == IF At(c, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
                IN IF IsDigit(At(c, s)) THEN Digits(c, s) ELSE 0
           ELSE f
  IN e

Elems(c, i) ==        \* one element, then either a comma and more or the closing bracket
  LET v == JVal(c, Ws(c, i)) IN
  IF v = 0 THEN 0
  ELSE LET j == Ws(c, v) IN
       IF At(c, j) = 44 THEN Elems(c, j + 1) ELSE IF At(c, j) = 93 THEN j + 1 ELSE 0
Members(c, i) ==
  LET k == Str(c, Ws(c, i)) IN
  IF k = 0 THEN 0
  ELSE LET n == Ws(c, k) IN
       IF At(c, n) # 58 THEN 0
       ELSE LET v == JVal(c, Ws(c, n + 1)) IN
            IF v = 0 THEN 0
            ELSE LET j == Ws(c, v) IN
                 IF At(c, j) = 44 THEN Members(c, j + 1) ELSE IF At(c, j) = 125 THEN j + 1 ELSE 0
JVal(c, i) ==
  LET x == At(c, i) IN
  CASE x = 110 -> Word(c, i, <<110, 117, 108, 108>>)
    [] x = 116 -> Word(c, i, <<116, 114, 117, 101>>)
    [] x = 102 -> Word(c, i, <<102, 97, 108, 115, 101>>)
    [] x = 34  -> Str(c, i)
    [] x = 91  -> LET j == Ws(c, i + 1) IN IF At(c, j) = 93 THEN j + 1 ELSE Elems(c, i + 1)
    [] x = 123 -> LET j == Ws(c, i + 1) IN IF At(c, j) = 125 THEN j + 1 ELSE Members(c, i + 1)
    [] x = 45 \/ IsDigit(x) -> Num(c, i)
    [] OTHER -> 0

ValidJson(c) == LET v == JVal(c, Ws(c, 1)) IN v # 0 /\ Ws(c, v) = Len(c) + 1
=============================================================================
