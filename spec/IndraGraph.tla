----------------------------- MODULE IndraGraph -----------------------------
(***************************************************************************)
(* The abstract semantics of an IndraDB database: its state, the effect    *)
(* and the result of every operation of the public interface, and a full   *)
(* evaluator of the recursive query language.                              *)
(*                                                                         *)
(* A graph state is a record                                               *)
(*   V   : vertex id -> type                                               *)
(*   E   : set of edges, an edge being <<outbound id, type, inbound id>>   *)
(*   VP  : <<vertex id, name>> -> value                                    *)
(*   EP  : <<edge, name>> -> value                                         *)
(*   IX  : set of indexed property names                                   *)
(* ids are naturals in id order; types, names and values are strings (a    *)
(* value is its canonical JSON text: two values are the same JSON value    *)
(* exactly when the texts are equal).                                      *)
(*                                                                         *)
(* Every operation is a pure operator from state and argument to           *)
(* [res |-> expected result, st |-> next state], so that the same text is  *)
(* used by the exhaustive model (MCGraph), by the physical refinements     *)
(* (RdbStore, MemImage), by the behaviour generator (Gen) and by the       *)
(* validation of recorded traces (Conform, Linear).                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

CONSTANT TypeRank(_)        \* position of an edge type in the datastore's fixed type order

EmptyFcn == [x \in {} |-> ""]
EmptyGraph == [V |-> EmptyFcn, E |-> {}, VP |-> EmptyFcn, EP |-> EmptyFcn, IX |-> {}]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, ks)  == [x \in DOMAIN f \ ks |-> f[x]]
RangeOf(s)       == {s[i] : i \in 1..Len(s)}
MinNat(a, b)   == IF a < b THEN a ELSE b

(***************************************************************************)
(* Orders                                                                  *)
(***************************************************************************)
EdgeLt(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ TypeRank(a[2]) < TypeRank(b[2])
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Rev(e)        == <<e[3], e[2], e[1]>>
SortIds(s)    == SetToSortSeq(s, LAMBDA a, b : a < b)
SortEdges(s)  == SetToSortSeq(s, EdgeLt)
Vtx(S, i)     == <<i, S.V[i]>>
VtxSeq(S, is) == [k \in 1..Len(is) |-> Vtx(S, is[k])]

(***************************************************************************)
(* Query evaluation.  A query is a record with a tag q.  The result is     *)
(*   [err, outs, val]                                                      *)
(* err  : "" or the name of the error                                      *)
(* outs : explicitly included intermediate outputs, innermost first        *)
(* val  : the final output                                                 *)
(* An output is [k, s, ord, cap]: kind "V","E","VP","EP","C"; s the        *)
(* sequence (or the number for "C").  ord says whether the order is        *)
(* defined (index lookups return sets: order undefined).  cap < 0: all of  *)
(* s is returned; cap >= 0: any cap of the members of s are (a limit       *)
(* applied to something of undefined order).                               *)
(***************************************************************************)
Out(k, s, ord)  == [k |-> k, s |-> s, ord |-> ord, cap |-> -1]
CountOut(n)     == [k |-> "C", s |-> n, ord |-> TRUE, cap |-> -1]
OutLen(o)       == IF o.cap >= 0 THEN o.cap ELSE Len(o.s)
NoOut           == [k |-> "none", s |-> <<>>, ord |-> TRUE, cap |-> -1]
Ok(outs, v)     == [err |-> "", outs |-> outs, val |-> v]
Fail(e)         == [err |-> e, outs |-> <<>>, val |-> NoOut]

Limited(o, lim) ==
  IF o.ord THEN [o EXCEPT !.s = SubSeq(@, 1, MinNat(lim, Len(@)))]
  ELSE IF OutLen(o) <= lim THEN o ELSE [o EXCEPT !.cap = lim]

TypeOk(t, filter) == filter = <<>> \/ t = filter[1]
HasKey(f, k)      == k \in DOMAIN f

VWith(S, n)       == {i \in DOMAIN S.V : HasKey(S.VP, <<i, n>>)}
VWithVal(S, n, v) == {i \in DOMAIN S.V : HasKey(S.VP, <<i, n>>) /\ S.VP[<<i, n>>] = v}
EWith(S, n)       == {e \in S.E : HasKey(S.EP, <<e, n>>)}
EWithVal(S, n, v) == {e \in S.E : HasKey(S.EP, <<e, n>>) /\ S.EP[<<e, n>>] = v}

\* outgoing / incoming edges of vertex i, true orientation, in scan order
OutEdges(S, i, t) == SortEdges({e \in S.E : e[1] = i /\ TypeOk(e[2], t)})
InEdges(S, i, t)  == LET r == SortEdges({Rev(e) : e \in {x \in S.E : x[3] = i /\ TypeOk(x[2], t)}})
                     IN [k \in 1..Len(r) |-> Rev(r[k])]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* name/value pairs of an owner, as a set (their order is not defined)
VProps(S, i)  == {<<k[2], S.VP[k]>> : k \in {x \in DOMAIN S.VP : x[1] = i}}
EProps(S, e)  == {<<k[2], S.EP[k]>> : k \in {x \in DOMAIN S.EP : x[1] = e}}
NameOk(ps, f) == {p \in ps : f = <<>> \/ p[1] = f[1]}

\* static type of a query: "V","E","VP","EP","C" or "bad" if its steps do not fit together
RECURSIVE QType(_)
QType(q) ==
  CASE q.q \in {"AllV", "RangeV", "SpecV", "VProp", "VPropVal"} -> "V"
    [] q.q \in {"AllE", "SpecE", "EProp", "EPropVal"} -> "E"
    [] q.q = "Pipe"  -> LET t == QType(q.in) IN IF t = "V" THEN "E" ELSE IF t = "E" THEN "V" ELSE "bad"
    [] q.q = "PProp" -> LET t == QType(q.in) IN IF t = "V" THEN "VP" ELSE IF t = "E" THEN "EP" ELSE "bad"
    [] q.q \in {"PHas", "PVal"} -> LET t == QType(q.in) IN IF t \in {"V", "E"} THEN t ELSE "bad"
    [] q.q = "Inc"   -> QType(q.in)
    [] q.q = "Cnt"   -> IF QType(q.in) \in {"V", "E", "VP", "EP"} THEN "C" ELSE "bad"

RECURSIVE Eval(_, _)
\* the outputs kept from the inner query r of a step whose inner query is q.in
Kept(q, r) == IF q.in.q = "Inc" THEN Append(r.outs, r.val) ELSE r.outs

EvalPipe(S, q, r) ==
  LET o == r.val
      items == IF o.k = "V"
               THEN Flat([n \in 1..Len(o.s) |-> IF q.d = "out" THEN OutEdges(S, o.s[n][1], q.t)
                                                               ELSE InEdges(S, o.s[n][1], q.t)])
               ELSE LET ends == [n \in 1..Len(o.s) |-> IF q.d = "out" THEN o.s[n][1] ELSE o.s[n][3]]
                    IN SelectSeq(VtxSeq(S, SelectSeq(ends, LAMBDA i : i \in DOMAIN S.V)),
                                 LAMBDA v : TypeOk(v[2], q.t))
  IN Ok(Kept(q, r), Limited(Out(IF o.k = "V" THEN "E" ELSE "V", items, o.ord), q.lim))

EvalPProp(S, q, r) ==
  LET o == r.val
      all == [n \in 1..Len(o.s) |->
                [it |-> o.s[n],
                 ps |-> NameOk(IF o.k = "V" THEN VProps(S, o.s[n][1]) ELSE EProps(S, o.s[n]), q.n)]]
  IN Ok(Kept(q, r), Out(IF o.k = "V" THEN "VP" ELSE "EP", SelectSeq(all, LAMBDA x : x.ps # {}), o.ord))

EvalFilter(S, q, r, vs, es, positive) ==
  LET o == r.val
      keep(x) == IF o.k = "V" THEN x[1] \in vs ELSE x \in es
  IN IF q.n \notin S.IX THEN Fail("NotIndexed")
     ELSE Ok(Kept(q, r), Out(o.k, SelectSeq(o.s, LAMBDA x : keep(x) = positive), o.ord))

Eval(S, q) ==
  CASE q.q = "AllV"   -> Ok(<<>>, Out("V", VtxSeq(S, SortIds(DOMAIN S.V)), TRUE))
    [] q.q = "RangeV" ->
         LET ids == {i \in DOMAIN S.V : (q.s = <<>> \/ i >= q.s[1]) /\ TypeOk(S.V[i], q.t)}
         IN Ok(<<>>, Limited(Out("V", VtxSeq(S, SortIds(ids)), TRUE), q.lim))
    [] q.q = "SpecV"  -> Ok(<<>>, Out("V", VtxSeq(S, SelectSeq(q.ids, LAMBDA i : i \in DOMAIN S.V)), TRUE))
    [] q.q = "AllE"   -> Ok(<<>>, Out("E", SortEdges(S.E), TRUE))
    [] q.q = "SpecE"  -> Ok(<<>>, Out("E", SelectSeq(q.es, LAMBDA e : e \in S.E), TRUE))
    [] q.q = "VProp"  -> IF q.n \in S.IX THEN Ok(<<>>, Out("V", VtxSeq(S, SortIds(VWith(S, q.n))), FALSE))
                         ELSE Fail("NotIndexed")
    [] q.q = "VPropVal" -> IF q.n \in S.IX
                           THEN Ok(<<>>, Out("V", VtxSeq(S, SortIds(VWithVal(S, q.n, q.v))), FALSE))
                           ELSE Fail("NotIndexed")
    [] q.q = "EProp"  -> IF q.n \in S.IX THEN Ok(<<>>, Out("E", SortEdges(EWith(S, q.n)), FALSE))
                         ELSE Fail("NotIndexed")
    [] q.q = "EPropVal" -> IF q.n \in S.IX THEN Ok(<<>>, Out("E", SortEdges(EWithVal(S, q.n, q.v)), FALSE))
                           ELSE Fail("NotIndexed")
    [] q.q = "Pipe"   -> LET r == Eval(S, q.in) IN
                         IF r.err # "" THEN r
                         ELSE IF r.val.k \notin {"V", "E"} THEN Fail("OpOnQuery") ELSE EvalPipe(S, q, r)
    [] q.q = "PProp"  -> LET r == Eval(S, q.in) IN
                         IF r.err # "" THEN r
                         ELSE IF r.val.k \notin {"V", "E"} THEN Fail("OpOnQuery") ELSE EvalPProp(S, q, r)
    [] q.q = "PHas"   -> LET r == Eval(S, q.in) IN
                         IF r.err # "" THEN r
                         ELSE IF r.val.k \notin {"V", "E"} THEN Fail("OpOnQuery")
                         ELSE EvalFilter(S, q, r, VWith(S, q.n), EWith(S, q.n), q.x)
    [] q.q = "PVal"   -> LET r == Eval(S, q.in) IN
                         IF r.err # "" THEN r
                         ELSE IF r.val.k \notin {"V", "E"} THEN Fail("OpOnQuery")
                         ELSE EvalFilter(S, q, r, VWithVal(S, q.n, q.v), EWithVal(S, q.n, q.v), q.eq)
    [] q.q = "Inc"    -> Eval(S, q.in)
    [] q.q = "Cnt"    -> LET r == Eval(S, q.in) IN
                         IF r.err # "" THEN r
                         ELSE IF r.val.k = "C" THEN Fail("OpOnQuery")
                         ELSE Ok(Kept(q, r), CountOut(OutLen(r.val)))

(***************************************************************************)
(* State changes                                                           *)
(***************************************************************************)
DelEdges(S, es)    == [S EXCEPT !.E = @ \ es, !.EP = Drop(@, {k \in DOMAIN @ : k[1] \in es})]
DelVertices(S, is) ==
  LET es == {e \in S.E : e[1] \in is \/ e[3] \in is}
      S1 == DelEdges(S, es)
  IN [S1 EXCEPT !.V = Drop(@, is), !.VP = Drop(@, {k \in DOMAIN @ : k[1] \in is})]
DelVProps(S, ks)   == [S EXCEPT !.VP = Drop(@, ks)]
DelEProps(S, ks)   == [S EXCEPT !.EP = Drop(@, ks)]
SetVProps(S, is, n, v) == [S EXCEPT !.VP = [k \in DOMAIN @ \cup {<<i, n>> : i \in is} |->
                                              IF k[2] = n /\ k[1] \in is THEN v ELSE @[k]]]
SetEProps(S, es, n, v) == [S EXCEPT !.EP = [k \in DOMAIN @ \cup {<<e, n>> : e \in es} |->
                                              IF k[2] = n /\ k[1] \in es THEN v ELSE @[k]]]

CreateV(S, i, t) == IF i \in DOMAIN S.V THEN S ELSE [S EXCEPT !.V = Put(@, i, t)]
CanEdge(S, e)    == e[1] \in DOMAIN S.V /\ e[3] \in DOMAIN S.V
CreateE(S, e)    == IF CanEdge(S, e) THEN [S EXCEPT !.E = @ \cup {e}] ELSE S

BulkItem(S, it) ==
  CASE it.i = "v"  -> CreateV(S, it.id, it.t)
    [] it.i = "e"  -> CreateE(S, it.e)
    [] it.i = "vp" -> SetVProps(S, {it.id}, it.n, it.v)
    [] it.i = "ep" -> SetEProps(S, {it.e}, it.n, it.v)
Bulk(S, items) == FoldLeft(BulkItem, S, items)

\* what a delete / set through query output o does
DeleteBy(S, o) ==
  CASE o.k = "V"  -> DelVertices(S, {o.s[n][1] : n \in 1..Len(o.s)})
    [] o.k = "E"  -> DelEdges(S, RangeOf(o.s))
    [] o.k = "VP" -> DelVProps(S, UNION {{<<o.s[n].it[1], p[1]>> : p \in o.s[n].ps} : n \in 1..Len(o.s)})
    [] o.k = "EP" -> DelEProps(S, UNION {{<<o.s[n].it, p[1]>> : p \in o.s[n].ps} : n \in 1..Len(o.s)})
SetBy(S, o, n, v) ==
  IF o.k = "V" THEN SetVProps(S, {o.s[m][1] : m \in 1..Len(o.s)}, n, v) ELSE SetEProps(S, RangeOf(o.s), n, v)

(***************************************************************************)
(* Operations: Step(S, op) = [res, st].  Results:                          *)
(*   [k |-> "bool", b], [k |-> "ok"], [k |-> "err", e],                    *)
(*   [k |-> "out", o] with o a sequence of outputs                         *)
(***************************************************************************)
RBool(b, S) == [res |-> [k |-> "bool", b |-> b], st |-> S]
ROk(S)      == [res |-> [k |-> "ok"], st |-> S]
RErr(e, S)  == [res |-> [k |-> "err", e |-> e], st |-> S]
ROut(o, S)  == [res |-> [k |-> "out", o |-> o], st |-> S]

DoGet(S, q) == LET r == Eval(S, q) IN IF r.err # "" THEN RErr(r.err, S) ELSE ROut(Append(r.outs, r.val), S)
DoDelete(S, q) ==
  LET r == Eval(S, q) IN
  IF r.err # "" THEN RErr(r.err, S)
  ELSE IF r.val.k = "C" THEN RErr("OpOnQuery", S)
  ELSE ROk(DeleteBy(S, r.val))
DoSet(S, q, n, v) ==
  LET r == Eval(S, q) IN
  IF r.err # "" THEN RErr(r.err, S)
  ELSE IF r.val.k \notin {"V", "E"} THEN RErr("OpOnQuery", S)
  ELSE ROk(SetBy(S, r.val, n, v))

\* the transaction interface (what plugins see)
TxOrNone(S, n, o) == IF n \in S.IX THEN ROut(<<o>>, S) ELSE [res |-> [k |-> "none"], st |-> S]
EdgeGe(e, off) == ~EdgeLt(e, off)
DoTx(S, op) ==
  CASE op.m = "vertex_count"  -> ROut(<<CountOut(Cardinality(DOMAIN S.V))>>, S)
    [] op.m = "edge_count"    -> ROut(<<CountOut(Cardinality(S.E))>>, S)
    [] op.m = "all_vertices"  -> ROut(<<Out("V", VtxSeq(S, SortIds(DOMAIN S.V)), TRUE)>>, S)
    [] op.m = "range_vertices" -> ROut(<<Out("V", VtxSeq(S, SortIds({i \in DOMAIN S.V : i >= op.id})), TRUE)>>, S)
    [] op.m = "specific_vertices" -> ROut(<<Out("V", VtxSeq(S, SelectSeq(op.ids, LAMBDA i : i \in DOMAIN S.V)), TRUE)>>, S)
    [] op.m = "all_edges"     -> ROut(<<Out("E", SortEdges(S.E), TRUE)>>, S)
    [] op.m = "range_edges"   -> ROut(<<Out("E", SortEdges({e \in S.E : EdgeGe(e, op.e)}), TRUE)>>, S)
    [] op.m = "range_reversed_edges" ->
         ROut(<<Out("E", SortEdges({e \in {Rev(x) : x \in S.E} : EdgeGe(e, op.e)}), TRUE)>>, S)
    [] op.m = "specific_edges" -> ROut(<<Out("E", SelectSeq(op.es, LAMBDA e : e \in S.E), TRUE)>>, S)
    [] op.m = "vertex_ids_with_property" -> TxOrNone(S, op.n, Out("I", SortIds(VWith(S, op.n)), FALSE))
    [] op.m = "vertex_ids_with_property_value" -> TxOrNone(S, op.n, Out("I", SortIds(VWithVal(S, op.n, op.v)), FALSE))
    [] op.m = "edges_with_property" -> TxOrNone(S, op.n, Out("E", SortEdges(EWith(S, op.n)), FALSE))
    [] op.m = "edges_with_property_value" -> TxOrNone(S, op.n, Out("E", SortEdges(EWithVal(S, op.n, op.v)), FALSE))
    [] op.m = "vertex_property" -> ROut(<<Out("P", SetToSeq(NameOk(VProps(S, op.id), <<op.n>>)), FALSE)>>, S)
    [] op.m = "edge_property"   -> ROut(<<Out("P", SetToSeq(NameOk(EProps(S, op.e), <<op.n>>)), FALSE)>>, S)
    [] op.m = "all_vertex_properties_for_vertex" -> ROut(<<Out("P", SetToSeq(VProps(S, op.id)), FALSE)>>, S)
    [] op.m = "all_edge_properties_for_edge"     -> ROut(<<Out("P", SetToSeq(EProps(S, op.e)), FALSE)>>, S)
    [] op.m = "delete_vertices"  -> ROk(DelVertices(S, RangeOf(op.ids)))
    [] op.m = "delete_edges"     -> ROk(DelEdges(S, RangeOf(op.es)))
    [] op.m = "delete_vertex_properties" -> ROk(DelVProps(S, RangeOf(op.ks)))
    [] op.m = "delete_edge_properties"   -> ROk(DelEProps(S, RangeOf(op.ks)))
    [] op.m = "set_vertex_properties"    -> ROk(SetVProps(S, RangeOf(op.ids), op.n, op.v))
    [] op.m = "set_edge_properties"      -> ROk(SetEProps(S, RangeOf(op.es), op.n, op.v))
    [] op.m = "create_vertex"    -> RBool(op.id \notin DOMAIN S.V, CreateV(S, op.id, op.t))
    [] op.m = "create_edge"      -> RBool(CanEdge(S, op.e), CreateE(S, op.e))
    [] op.m = "index_property"   -> ROk([S EXCEPT !.IX = @ \cup {op.n}])
    [] op.m = "bulk_insert"      -> ROk(Bulk(S, op.items))

Step(S, op) ==
  CASE op.op = "cv"    -> RBool(op.id \notin DOMAIN S.V, CreateV(S, op.id, op.t))
    \* the database chooses the id (observed in the result): any id not in use
    [] op.op = "cvt"   -> [res |-> [k |-> "id", free |-> DOMAIN S.V],
                           st |-> IF op.res.k = "id" THEN CreateV(S, op.res.id, op.t) ELSE S]
    [] op.op = "ce"    -> RBool(CanEdge(S, op.e), CreateE(S, op.e))
    [] op.op = "get"   -> DoGet(S, op.q)
    [] op.op = "del"   -> DoDelete(S, op.q)
    [] op.op = "set"   -> DoSet(S, op.q, op.n, op.v)
    [] op.op = "bulk"  -> ROk(Bulk(S, op.items))
    [] op.op = "index" -> ROk([S EXCEPT !.IX = @ \cup {op.n}])
    [] op.op = "tx"    -> DoTx(S, op)
    [] op.op = "sync"  -> ROk(S)

(***************************************************************************)
(* Matching an observed result against the expected one.                   *)
(***************************************************************************)
MultiSet(s)     == [x \in RangeOf(s) |-> Cardinality({n \in 1..Len(s) : s[n] = x})]
MultiSub(a, b) == DOMAIN a \subseteq DOMAIN b /\ \A x \in DOMAIN a : a[x] <= b[x]

\* observed property outputs carry the name/value pairs as a sequence
NormP(x) == [it |-> x.it, ps |-> RangeOf(x.ps)]
NoDupP(x) == Cardinality(RangeOf(x.ps)) = Len(x.ps)
NormOut(o) == IF o.k \in {"VP", "EP"} THEN [n \in 1..Len(o.s) |-> NormP(o.s[n])] ELSE o.s

MatchOut(x, o) ==
  /\ x.k = o.k
  /\ IF x.k = "C" THEN x.s = o.s
     ELSE LET s == NormOut(o) IN
          /\ o.k \in {"VP", "EP"} => \A n \in 1..Len(o.s) : NoDupP(o.s[n])
          /\ Len(s) = OutLen(x)
          /\ IF x.ord THEN s = x.s
             ELSE IF x.cap < 0 THEN MultiSet(s) = MultiSet(x.s) ELSE MultiSub(MultiSet(s), MultiSet(x.s))

\* ill-typed queries must fail; which error is reported first is not fixed
IllTyped(op) == \/ op.op \in {"get", "del", "set"} /\ QType(op.q) = "bad"
                \/ op.op = "del" /\ QType(op.q) = "C"
                \/ op.op = "set" /\ QType(op.q) \notin {"V", "E"}

Matches(op, x, r) ==
  CASE x.k = "err"  -> r.k = "err" /\ (IF IllTyped(op) THEN r.e \in {"OpOnQuery", "NotIndexed", "Invalid"} ELSE r.e = x.e)
    [] x.k = "bool" -> r.k = "bool" /\ r.b = x.b
    [] x.k = "id"   -> r.k = "id" /\ r.id \notin x.free
    [] x.k = "ok"   -> r.k = "ok"
    [] x.k = "none" -> r.k = "none"
    [] x.k = "out"  -> /\ r.k = "out"
                       /\ Len(r.o) = Len(x.o)
                       /\ \A n \in 1..Len(x.o) : MatchOut(x.o[n], r.o[n])

(***************************************************************************)
(* Invariants of the graph                                                 *)
(***************************************************************************)
NoDanglingEdges(S) == \A e \in S.E : e[1] \in DOMAIN S.V /\ e[3] \in DOMAIN S.V
NoOrphanProps(S)   == /\ \A k \in DOMAIN S.VP : k[1] \in DOMAIN S.V
                      /\ \A k \in DOMAIN S.EP : k[1] \in S.E
WellFormed(S)      == NoDanglingEdges(S) /\ NoOrphanProps(S)
=============================================================================
