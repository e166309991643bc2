------------------------------ MODULE MapPool ------------------------------
(***************************************************************************)
(* The design of the vertex map: a producer walks the vertices and hands   *)
(* each to a pool of threads; every Check vertices it stops early if an    *)
(* error has been noted; at the end it waits for the pool and reports.     *)
(* Every behaviour must be one that VertexMap allows (Allowed), and the    *)
(* map must come to its end (Terminates). Known-wrong designs, which TLC   *)
(* must refute: not waiting, waiting for the queue only, as many threads   *)
(* as asked for even if none, forgetting panics, a success after an early  *)
(* stop.                                                                   *)
(***************************************************************************)
EXTENDS VertexMap, TLC
CONSTANTS N, Threads, Check, Design
Ids == 1..N
P == [i \in Ids |-> "t"]
VARIABLES next, stopped, queue, work, err, outcome, res, m
vars == <<next, stopped, queue, work, err, outcome, res, m>>
Pool == 1..(IF Design = "zero" THEN Threads ELSE IF Threads = 0 THEN 1 ELSE Threads)

Init == /\ next = 1 /\ stopped = FALSE /\ queue = <<>> /\ work = [t \in Pool |-> 0]
        /\ err = 0 /\ res = "" /\ m = MapInit
        /\ outcome \in [Ids -> {"ok", "err", "panic"}]
Walked == stopped \/ next > N
Stop   == /\ ~Walked /\ res = "" /\ next % Check = 0 /\ err # 0
          /\ stopped' = TRUE /\ UNCHANGED <<next, queue, work, err, outcome, res, m>>
Go     == /\ ~Walked /\ res = "" /\ ~(next % Check = 0 /\ err # 0)
          /\ queue' = Append(queue, next) /\ next' = next + 1
          /\ UNCHANGED <<stopped, work, err, outcome, res, m>>
Start(t) == /\ work[t] = 0 /\ queue # <<>>
            /\ work' = [work EXCEPT ![t] = Head(queue)] /\ queue' = Tail(queue)
            /\ m' = MapStep(P, m, [e |-> "begin", v |-> <<Head(queue), "t">>])
            /\ UNCHANGED <<next, stopped, err, outcome, res>>
End(t)   == /\ work[t] # 0
            /\ work' = [work EXCEPT ![t] = 0]
            /\ err' = IF outcome[work[t]] = "err" /\ err = 0 THEN work[t] ELSE err
            /\ m' = MapStep(P, m, [e |-> "end", id |-> work[t], r |-> outcome[work[t]]])
            /\ UNCHANGED <<next, stopped, queue, outcome, res>>
Idle  == CASE Design = "nojoin"    -> TRUE
           [] Design = "queueonly" -> queue = <<>>
           [] OTHER                -> queue = <<>> /\ \A t \in Pool : work[t] = 0
Result == IF err # 0 /\ ~(Design = "stopok" /\ stopped) THEN [k |-> "err", v |-> <<err>>]
          ELSE IF m.panicked > 0 /\ Design # "forgetpanics" THEN [k |-> "err", v |-> <<>>]
          ELSE [k |-> "ok"]
Return == /\ Walked /\ Idle /\ res = ""
          /\ res' = Result.k
          /\ m' = MapStep(P, m, [e |-> "return", res |-> Result])
          /\ UNCHANGED <<next, stopped, queue, work, err, outcome>>
Next == Stop \/ Go \/ Return \/ \E t \in Pool : Start(t) \/ End(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Allowed    == m.bad = ""
Terminates == <>(res # "")
=============================================================================
