------------------------------ MODULE Linear ------------------------------
(***************************************************************************)
(* Linearizability of recorded concurrent histories against IndraGraph.    *)
(* Every line after the header is one history:                             *)
(*   pre   : operations executed before the threads start, in order        *)
(*   calls : the operations of the threads, with result, position of the   *)
(*           call (c) and of the return (r) in the order of all calls and  *)
(*           returns                                                       *)
(*   post  : observations made after all threads have finished             *)
(* TLC searches for an order of the calls that respects real time (a call  *)
(* that returned before another began comes first) and of which all        *)
(* results are the sequential ones. A call marked free is a read whose     *)
(* result is not required to fit (RocksDB readers): it must only succeed.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Hdr   == Trace[1]
TypeRankOf == [t \in {Hdr.types[n] : n \in 1..Len(Hdr.types)} |-> CHOOSE n \in 1..Len(Hdr.types) : Hdr.types[n] = t]
TRank(t) == TypeRankOf[t]
Plugs == IF "plugins" \in DOMAIN Hdr THEN {Hdr.plugins[n] : n \in 1..Len(Hdr.plugins)} ELSE {}
INSTANCE Plugins WITH TypeRank <- TRank, Registered <- Plugs

VARIABLES h, st, done
vars == <<h, st, done>>

\* executes a sequence of operations; the state afterwards, or <<>> if some result does not match
RECURSIVE Play(_, _)
Play(S, ops) ==
  IF ops = <<>> THEN <<S>>
  ELSE LET x == Run(S, EmptyFcn, Head(ops)) IN
       IF Fits(Head(ops), x.res, Head(ops).res) THEN Play(x.st, Tail(ops)) ELSE <<>>
Start(n) == IF n > Len(Trace) THEN <<EmptyGraph>> ELSE Play(EmptyGraph, Trace[n].pre)

H == Trace[h]
N == Len(H.calls)
Free(c) == "free" \in DOMAIN c
Ready(i) == i \notin done /\ \A j \in (1..N) \ (done \cup {i}) : H.calls[j].r > H.calls[i].c

Init == h = 2 /\ Start(2) # <<>> /\ st = Start(2)[1] /\ done = {}
Lin(i) == /\ Ready(i)
          /\ LET c == H.calls[i] IN
             IF Free(c) THEN c.res.k # "panic" /\ st' = st
             ELSE LET x == Run(st, EmptyFcn, c) IN Fits(c, x.res, c.res) /\ st' = x.st
          /\ done' = done \cup {i} /\ h' = h
Finish == /\ done = 1..N
          /\ Play(st, H.post) # <<>>
          /\ PrintT(<<"DONE", h>>)
          /\ h' = h + 1 /\ done' = {}
          /\ Start(h + 1) # <<>> /\ st' = Start(h + 1)[1]
Next == h <= Len(Trace) /\ ((\E i \in 1..N : Lin(i)) \/ Finish)
Spec == Init /\ [][Next]_vars

\* at every point of every linearization
NoDangling == NoDanglingEdges(st)
=============================================================================
