------------------------------- MODULE MCIds -------------------------------
(***************************************************************************)
(* Succ is the immediate successor in the order of ids, and only the       *)
(* largest id has none: for every id of a smaller id space.                *)
(***************************************************************************)
EXTENDS Ids
CONSTANTS Base, Digits
All == [1..Digits -> 0..Base - 1]
VARIABLE a
Init == a \in All
Next == UNCHANGED a
Spec == Init /\ [][Next]_a
Immediate ==
  LET s == Succ(a, Base) IN
  IF s = <<>> THEN \A b \in All : ~Lt(a, b)
  ELSE /\ s[1] \in All /\ Lt(a, s[1])
       /\ \A b \in All : Lt(a, b) => (b = s[1] \/ Lt(s[1], b))
Total == \A b \in All : Cardinality({x \in {1, 2, 3} : (x = 1 /\ a = b) \/ (x = 2 /\ Lt(a, b)) \/ (x = 3 /\ Lt(b, a))}) = 1
=============================================================================
