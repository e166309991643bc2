------------------------------- MODULE IdGen -------------------------------
(***************************************************************************)
(* The design behind generated ids: a generation reads the clock and then  *)
(* takes the next number of a counter that wraps around after M numbers;   *)
(* the id is made of both.                                                 *)
(*   Design = "shared"   one counter of the process (the code)             *)
(*            "own"      a fresh counter for every id                      *)
(*            "thread"   one counter per thread                            *)
(*            "counter"  the counter alone                                 *)
(* Ids are unique as long as fewer than M numbers are taken between the    *)
(* beginning of the clock's tick that a generation reads and the moment it *)
(* takes its own number (Calm); the code has M = 16384 and ticks of 100    *)
(* ns. Without that limit they are not: Calm = FALSE is refuted.           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, M, Ticks, Design, Calm, Each
VARIABLES clock, cnt, began, own, pc, read, done, ids, dup
vars == <<clock, cnt, began, own, pc, read, done, ids, dup>>
Init == /\ clock = 0 /\ cnt = 0 /\ began = [k \in 0..Ticks |-> 0] /\ own = [t \in Threads |-> 0] /\ pc = [t \in Threads |-> "idle"]
        /\ read = [t \in Threads |-> 0] /\ done = [t \in Threads |-> 0]
        /\ ids = {} /\ dup = FALSE
Tick == clock < Ticks /\ clock' = clock + 1 /\ began' = [began EXCEPT ![clock + 1] = cnt] /\ UNCHANGED <<cnt, own, pc, read, done, ids, dup>>
Read(t) == /\ pc[t] = "idle" /\ done[t] < Each
           /\ read' = [read EXCEPT ![t] = clock] /\ pc' = [pc EXCEPT ![t] = "read"]
           /\ UNCHANGED <<clock, cnt, began, own, done, ids, dup>>
Take(t) == /\ pc[t] = "read"
           /\ Calm => cnt - began[read[t]] < M
           /\ LET n == CASE Design = "shared"  -> cnt % M
                         [] Design = "own"     -> 0
                         [] Design = "thread"  -> own[t] % M
                         [] Design = "counter" -> cnt % M
                  i == IF Design = "counter" THEN <<0, n>> ELSE <<read[t], n>> IN
              ids' = ids \cup {i} /\ dup' = (dup \/ i \in ids)
           /\ cnt' = cnt + 1 /\ own' = [own EXCEPT ![t] = @ + 1]
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ done' = [done EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<clock, began, read>>
Next == Tick \/ \E t \in Threads : Read(t) \/ Take(t)
Spec == Init /\ [][Next]_vars
Unique == ~dup
=============================================================================
