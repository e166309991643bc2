-------------------------------- MODULE Ids --------------------------------
(***************************************************************************)
(* Vertex ids as 16-digit numbers to the base 256 (sequences, most         *)
(* significant digit first), and their order.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Lt(a, b)   == \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..k - 1 : a[j] = b[j]
\* <<>> for the largest id, and <<the successor>> otherwise
Succ(a, B) ==
  LET small == {k \in 1..Len(a) : a[k] # B - 1} IN
  IF small = {} THEN <<>>
  ELSE LET k == CHOOSE x \in small : \A y \in small : y <= x IN
       <<[j \in 1..Len(a) |-> IF j < k THEN a[j] ELSE IF j = k THEN a[j] + 1 ELSE 0]>>
=============================================================================
