----------------------------- MODULE VertexMap -----------------------------
(***************************************************************************)
(* What mapping an operation over the vertices of a graph may do, as the   *)
(* sequence of the starts and ends of its calls and its return.            *)
(*   state m : called, running (sets of ids), failed (ids whose call       *)
(*             failed), panicked (their number), ret, bad                  *)
(*   events  : [e |-> "begin", v |-> <<id, type>>]                         *)
(*             [e |-> "end", id, r |-> "ok" | "err" | "panic"]             *)
(*             [e |-> "return", res]                                       *)
(* res: [k |-> "ok"], [k |-> "err", v |-> <<id>> or <<>>], [k |-> "panic"] *)
(* Population: a function from id to type.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

MapInit == [called |-> {}, running |-> {}, failed |-> {}, panicked |-> 0, ret |-> FALSE, bad |-> ""]

MapBegin(P, m, v) ==
  IF m.ret THEN [m EXCEPT !.bad = "a call started after the return"]
  ELSE IF v[1] \notin DOMAIN P \/ P[v[1]] # v[2] THEN [m EXCEPT !.bad = "a call for no existing vertex"]
  ELSE IF v[1] \in m.called THEN [m EXCEPT !.bad = "two calls for one vertex"]
  ELSE [m EXCEPT !.called = @ \cup {v[1]}, !.running = @ \cup {v[1]}]
MapEnd(m, i, r) ==
  IF m.ret THEN [m EXCEPT !.bad = "a call ended after the return"]
  ELSE [m EXCEPT !.running = @ \ {i}, !.failed = IF r = "err" THEN @ \cup {i} ELSE @,
                 !.panicked = IF r = "panic" THEN @ + 1 ELSE @]
\* exactly once for every vertex if nothing failed; a failure may end the mapping early
MapReturn(P, m, res) ==
  LET m1 == [m EXCEPT !.ret = TRUE] IN
  IF m.running # {} THEN [m1 EXCEPT !.bad = "returned while calls were running"]
  ELSE IF m.failed = {} /\ m.panicked = 0
       THEN IF res.k # "ok" THEN [m1 EXCEPT !.bad = "no success although every call succeeded"]
            ELSE IF m.called # DOMAIN P THEN [m1 EXCEPT !.bad = "a vertex without a call"] ELSE m1
  ELSE IF res.k = "ok" THEN [m1 EXCEPT !.bad = "success although a call failed"]
  ELSE IF m.panicked = 0 /\ (res.k # "err" \/ Len(res.v) # 1 \/ res.v[1] \notin m.failed)
       THEN [m1 EXCEPT !.bad = "not one of the errors that occurred"]
  ELSE m1
MapStep(P, m, x) ==
  IF m.bad # "" THEN m
  ELSE CASE x.e = "begin"  -> MapBegin(P, m, x.v)
         [] x.e = "end"    -> MapEnd(m, x.id, x.r)
         [] x.e = "return" -> MapReturn(P, m, x.res)
\* the whole of a recorded mapping; "" or what is wrong with it
MapVerdict(P, log) ==
  LET m == FoldLeft(LAMBDA a, x : MapStep(P, a, x), MapInit, log) IN
  IF m.bad # "" THEN m.bad ELSE IF ~m.ret THEN "did not return" ELSE ""
=============================================================================
