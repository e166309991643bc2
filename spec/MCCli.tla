------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* Sessions with a server program and the command-line client over a small *)
(* universe: every command, well formed or with one bad argument, and the  *)
(* restarts of the server.  Durable = TRUE: every acknowledged command     *)
(* survives a restart (RocksDB); FALSE: a restart returns to the last      *)
(* synced image.  Every command is printed and run against the real        *)
(* programs.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Durable
Rank(t) == 0
ToksM(v) == IF v = "1" THEN <<"n:1">> ELSE <<>>
INSTANCE Cli WITH TypeRank <- Rank, Registered <- {}, Toks <- ToksM

U0 == {[f |-> "hyphen", u |-> i] : i \in {0, 1}}
UBad == [f |-> "bad"]
T   == [s |-> "a", len |-> 1, cls |-> <<"letter">>]
P   == [s |-> "p", len |-> 1, cls |-> <<"letter">>]
TBad == {[s |-> "BAD", len |-> 3, cls |-> <<"letter", "other">>], [s |-> "LONG", len |-> 256, cls |-> <<"letter">>]}
Vals == {[cs |-> <<49>>, v |-> "1"], [cs |-> <<91, 93>>, v |-> "[]"]}
VBad == [cs |-> <<91>>, v |-> ""]
Us  == U0 \cup {UBad}
Ts  == {T} \cup TBad
Ns  == {P} \cup TBad
Vs  == Vals \cup {VBad}
\* with one end only, to keep the number of edges small
EdgeArgs == {[o |-> o, t |-> t, i |-> i] : o \in {[f |-> "hyphen", u |-> 0], UBad}, t \in Ts, i \in Us}
Cmds == {[c |-> c] : c \in {"ping", "cntV", "cntE", "usage"}}
        \cup {[c |-> "setV", t |-> t, id |-> d] : t \in Ts, d \in {<<u>> : u \in Us}}
        \cup {[c |-> c, u |-> u] : c \in {"getV", "delV"}, u \in Us}
        \cup {[c |-> "setVP", u |-> u, n |-> n, v |-> v] : u \in Us, n \in Ns, v \in Vs}
        \cup {[c |-> "getVP", u |-> u, n |-> n] : u \in Us, n \in {<<>>} \cup {<<x>> : x \in Ns}}
        \cup {[c |-> "delVP", u |-> u, n |-> n] : u \in Us, n \in Ns}
        \cup {[c |-> c] @@ e : c \in {"setE", "getE", "delE"}, e \in EdgeArgs}
        \cup {[c |-> "setEP", n |-> n, v |-> v] @@ e : e \in EdgeArgs, n \in {P, CHOOSE x \in TBad : TRUE}, v \in Vs}
        \cup {[c |-> "getEP", n |-> n] @@ e : e \in EdgeArgs, n \in {<<>>, <<P>>} \cup {<<x>> : x \in TBad}}
        \cup {[c |-> "delEP", n |-> n] @@ e : e \in EdgeArgs, n \in {P, CHOOSE x \in TBad : TRUE}}
ASSUME \A x \in Cmds : PrintT("MSG " \o ToJson(x))

VARIABLES st, disk, last
vars == <<st, disk, last>>
Init == st = EmptyGraph /\ disk = EmptyGraph /\ last = [c |-> "start"]
Do(x) == LET y == CliStep(st, x, 9) IN st' = y.st /\ last' = [c |-> x.c, cmd |-> x, fine |-> y.fine, ok |-> CliOk(x)] /\ disk' = (IF Durable THEN y.st ELSE disk)
Sync  == ~Durable /\ disk' = st /\ UNCHANGED st /\ last' = [c |-> "sync"]
Kill  == st' = disk /\ UNCHANGED disk /\ last' = [c |-> "kill"]
Next == Kill \/ Sync \/ \E x \in Cmds : Do(x)
Spec == Init /\ [][Next]_vars
View == <<st, disk>>

\* bad arguments and failed creations leave everything as it was, and are not fine
BadInert   == [][(last'.c \notin {"kill", "sync", "start"} /\ ~last'.fine) => st' = st]_vars
BadVisible == [][(last'.c \notin {"kill", "sync", "start"} /\ ~last'.ok) => ~last'.fine]_vars
Created    == [][(last'.c \in {"setV", "setE"} /\ last'.fine) => st' # st \/ last'.c = "setE"]_vars
\* a command changes only the item it names
Others(S, x) ==
  CASE x.c \in {"setV", "delV", "setVP", "delVP"} ->
         LET i == IF x.c = "setV" THEN x.id[1].u ELSE x.u.u IN
         <<Drop(S.V, {i}), {e \in S.E : e[1] # i /\ e[3] # i}, Drop(S.VP, {k \in DOMAIN S.VP : k[1] = i}),
           Drop(S.EP, {k \in DOMAIN S.EP : k[1][1] = i \/ k[1][3] = i})>>
    [] x.c \in {"setE", "delE", "setEP", "delEP"} ->
         <<S.V, S.E \ {TheEdge(x)}, S.VP, Drop(S.EP, {k \in DOMAIN S.EP : k[1] = TheEdge(x)})>>
    [] OTHER -> <<S>>
Local      == [][(last'.c \notin {"kill", "sync", "start"} /\ last'.ok) => Others(st', last'.cmd) = Others(st, last'.cmd)]_vars
Restored   == [][last'.c = "kill" => st' = disk]_vars
NothingLost == Durable => disk = st
Sane       == NoDanglingEdges(st) /\ NoOrphanProps(st)
=============================================================================
