----------------------------- MODULE RdbStore -----------------------------
(***************************************************************************)
(* The RocksDB datastore at the level of its column families. Every write  *)
(* operation reads what it needs, builds one batch, and commits it         *)
(* atomically; a batch survives a crash once it is committed. Threads run  *)
(* operations concurrently; with Locked the reading and the commit of a    *)
(* write are one critical section (as implemented since the repair of      *)
(* defect 10), without it they interleave freely.                          *)
(*                                                                         *)
(* Checked with TLC:                                                       *)
(*  - Refines: every commit is exactly the operation of IndraGraph on the  *)
(*    abstracted state (hence sequential equivalence in commit order, and  *)
(*    atomicity across crashes: a crash keeps a prefix of the commits);    *)
(*  - Consistent: both adjacency directions agree, index rows match the    *)
(*    properties, nothing dangles.                                         *)
(* With Locked = FALSE TLC finds the violations that real threads showed.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

CONSTANTS Threads, Locked, MaxOps

Idx == [a |-> 1, b |-> 2]
TRank(t) == IF t = "a" THEN 1 ELSE 2
INSTANCE IndraGraph WITH TypeRank <- TRank

Ids == {0, 1}
EdgesU == {<<0, "a", 1>>, <<1, "a", 0>>, <<0, "a", 0>>}
Vals == {"1", "2"}
Hash(v) == "h" \o v

VARIABLES phys,    \* <<column family, key>> -> value
          run,     \* thread -> its operation in progress: [op, batch, ok] or none
          count    \* operations started
vars == <<phys, run, count>>

NoRun == [op |-> "none"]
Has(k) == k \in DOMAIN phys
Get(k) == phys[k]

(***************************************************************************)
(* Batches: sequences of [k, v, del]                                       *)
(***************************************************************************)
P(k, v) == [k |-> k, v |-> v, del |-> FALSE]
D(k)    == [k |-> k, v |-> "", del |-> TRUE]
RECURSIVE Apply(_, _)
Apply(p, b) == IF b = <<>> THEN p
               ELSE Apply(IF Head(b).del THEN Drop(p, {Head(b).k}) ELSE Put(p, Head(b).k, Head(b).v), Tail(b))
Indexed(p, n) == <<"meta", n>> \in DOMAIN p

DelVPropB(p, i) == IF <<"vp", <<i, "p">>>> \in DOMAIN p
                   THEN <<D(<<"vp", <<i, "p">>>>)>> \o (IF Indexed(p, "p") THEN <<D(<<"vix", <<"p", Hash(p[<<"vp", <<i, "p">>>>]), i>>>>)>> ELSE <<>>)
                   ELSE <<>>
DelEPropB(p, e) == IF <<"ep", <<e, "p">>>> \in DOMAIN p
                   THEN <<D(<<"ep", <<e, "p">>>>)>> \o (IF Indexed(p, "p") THEN <<D(<<"eix", <<"p", Hash(p[<<"ep", <<e, "p">>>>]), e>>>>)>> ELSE <<>>)
                   ELSE <<>>
DelEdgeB(p, e)  == IF <<"fwd", e>> \in DOMAIN p
                   THEN <<D(<<"fwd", e>>), D(<<"rev", Rev(e)>>)>> \o DelEPropB(p, e) ELSE <<>>
SetVB(p, i, v)  == DelVPropB(p, i) \o <<P(<<"vp", <<i, "p">>>>, v)>> \o (IF Indexed(p, "p") THEN <<P(<<"vix", <<"p", Hash(v), i>>>>, "")>> ELSE <<>>)
SetEB(p, e, v)  == DelEPropB(p, e) \o <<P(<<"ep", <<e, "p">>>>, v)>> \o (IF Indexed(p, "p") THEN <<P(<<"eix", <<"p", Hash(v), e>>>>, "")>> ELSE <<>>)
SetOf(S, F(_))  == FlattenSeq(SetToSeq({F(x) : x \in S}))

\* the batch an operation builds from what it reads in p
Batch(p, op) ==
  CASE op.op = "cv" -> IF <<"v", op.id>> \in DOMAIN p THEN <<>> ELSE <<P(<<"v", op.id>>, op.t)>>
    [] op.op = "ce" -> IF <<"v", op.e[1]>> \in DOMAIN p /\ <<"v", op.e[3]>> \in DOMAIN p
                       THEN <<P(<<"fwd", op.e>>, ""), P(<<"rev", Rev(op.e)>>, "")>> ELSE <<>>
    [] op.op = "index" -> IF Indexed(p, op.n) THEN <<>>
         ELSE <<P(<<"meta", op.n>>, "")>>
              \o SetOf({k \in DOMAIN p : k[1] = "vp"}, LAMBDA k : <<P(<<"vix", <<"p", Hash(p[k]), k[2][1]>>>>, "")>>)
              \o SetOf({k \in DOMAIN p : k[1] = "ep"}, LAMBDA k : <<P(<<"eix", <<"p", Hash(p[k]), k[2][1]>>>>, "")>>)
    [] op.op = "del" /\ op.q.q = "SpecV" ->
         LET i == op.q.ids[1] IN
         IF <<"v", i>> \notin DOMAIN p THEN <<>>
         ELSE <<D(<<"v", i>>)>> \o DelVPropB(p, i)
              \o SetOf({k[2] : k \in {x \in DOMAIN p : x[1] = "fwd" /\ x[2][1] = i}}, LAMBDA e : DelEdgeB(p, e))
              \o SetOf({Rev(k[2]) : k \in {x \in DOMAIN p : x[1] = "rev" /\ x[2][1] = i}}, LAMBDA e : DelEdgeB(p, e))
    [] op.op = "del" /\ op.q.q = "SpecE" -> DelEdgeB(p, op.q.es[1])
    [] op.op = "del" /\ op.q.q = "PProp" ->
         IF op.q.in.q = "SpecV" THEN DelVPropB(p, op.q.in.ids[1]) ELSE DelEPropB(p, op.q.in.es[1])
    [] op.op = "set" /\ op.q.q = "SpecV" -> IF <<"v", op.q.ids[1]>> \in DOMAIN p THEN SetVB(p, op.q.ids[1], op.v) ELSE <<>>
    [] op.op = "set" /\ op.q.q = "SpecE" -> IF <<"fwd", op.q.es[1]>> \in DOMAIN p THEN SetEB(p, op.q.es[1], op.v) ELSE <<>>

SV(i) == [q |-> "SpecV", ids |-> <<i>>]
SE(e) == [q |-> "SpecE", es |-> <<e>>]
PP(q) == [q |-> "PProp", in |-> q, n |-> <<"p">>]
Ops == {[op |-> "cv", id |-> i, t |-> "a"] : i \in Ids} \cup {[op |-> "ce", e |-> e] : e \in EdgesU}
       \cup {[op |-> "index", n |-> "p"]}
       \cup {[op |-> "del", q |-> SV(i)] : i \in Ids} \cup {[op |-> "del", q |-> SE(e)] : e \in EdgesU}
       \cup {[op |-> "del", q |-> PP(SV(i))] : i \in Ids} \cup {[op |-> "del", q |-> PP(SE(e))] : e \in EdgesU}
       \cup {[op |-> "set", q |-> SV(i), n |-> "p", v |-> v] : i \in Ids, v \in Vals}
       \cup {[op |-> "set", q |-> SE(e), n |-> "p", v |-> v] : e \in EdgesU, v \in Vals}

(***************************************************************************)
(* The abstraction                                                         *)
(***************************************************************************)
Sel(p, cf) == {k[2] : k \in {x \in DOMAIN p : x[1] = cf}}
Abs(p) == [V  |-> [i \in Sel(p, "v") |-> p[<<"v", i>>]], E |-> Sel(p, "fwd"),
           VP |-> [k \in Sel(p, "vp") |-> p[<<"vp", k>>]], EP |-> [k \in Sel(p, "ep") |-> p[<<"ep", k>>]],
           IX |-> Sel(p, "meta")]

Init == phys = EmptyFcn /\ run = [t \in Threads |-> NoRun] /\ count = 0
Start(t) == /\ run[t] = NoRun /\ count < MaxOps
            /\ Locked => \A u \in Threads : run[u] = NoRun
            /\ \E op \in Ops : run' = [run EXCEPT ![t] = [op |-> "busy", arg |-> op, batch |-> Batch(phys, op)]]
            /\ count' = count + 1 /\ UNCHANGED phys
Commit(t) == /\ run[t] # NoRun
             /\ phys' = Apply(phys, run[t].batch)
             /\ run' = [run EXCEPT ![t] = NoRun] /\ UNCHANGED count
\* the process is killed: operations in progress are gone, commits stay
Crash == /\ \E t \in Threads : run[t] # NoRun
         /\ run' = [t \in Threads |-> NoRun] /\ UNCHANGED <<phys, count>>
Next == Crash \/ \E t \in Threads : Start(t) \/ Commit(t)
Spec == Init /\ [][Next]_vars
View == <<phys, run>>

Consistent ==
  /\ Sel(phys, "rev") = {Rev(e) : e \in Sel(phys, "fwd")}
  /\ WellFormed(Abs(phys))
  /\ Sel(phys, "vix") = (IF Indexed(phys, "p") THEN {<<"p", Hash(phys[<<"vp", k>>]), k[1]>> : k \in Sel(phys, "vp")} ELSE {})
  /\ Sel(phys, "eix") = (IF Indexed(phys, "p") THEN {<<"p", Hash(phys[<<"ep", k>>]), k[1]>> : k \in Sel(phys, "ep")} ELSE {})
Refines == [][\A t \in Threads : run[t] # NoRun /\ phys' # phys /\ run'[t] = NoRun =>
                Abs(phys') = Step(Abs(phys), run[t].arg).st]_vars
\* a commit that changes nothing is an operation that changes nothing
RefinesIdle == [][\A t \in Threads : run[t] # NoRun /\ run'[t] = NoRun /\ phys' = phys /\ ENABLED Commit(t)
                   /\ (\A u \in Threads \ {t} : run'[u] = run[u]) /\ run[t].batch = <<>> /\ Locked =>
                Abs(phys) = Step(Abs(phys), run[t].arg).st]_vars
=============================================================================
