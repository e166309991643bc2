------------------------------ MODULE MCGraph ------------------------------
(***************************************************************************)
(* Exhaustive exploration of IndraGraph with small constants, one          *)
(* instance per property (constant Prop selects the operations):           *)
(*  - TLC visits every reachable state and checks the invariants and       *)
(*    action properties below, which state the listed properties in their  *)
(*    own terms, independently of the definition of Step;                  *)
(*  - when Emit is TRUE the complete labelled state graph is printed, and  *)
(*    the harness walks the real datastores along every one of its         *)
(*    transitions (model -> code), observing the whole state after each.   *)
(* Ids are 0..NIds-1.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC, Json

CONSTANTS Prop, Emit, Deep

TRank(t) == CASE t = "a" -> 1 [] t = "b" -> 2 [] OTHER -> 3
INSTANCE IndraGraph WITH TypeRank <- TRank

VARIABLES st, last
vars == <<st, last>>

NIds == CASE Prop = "C01" -> 3 [] Prop = "C02" -> IF Deep THEN 6 ELSE 5 [] Prop = "C07" -> 1
          [] Prop = "C03" -> 2 [] OTHER -> 2
Ids  == 0..(NIds - 1)
VT   == IF Prop \in {"C01", "C02"} \/ (Prop = "C08" /\ Deep) THEN <<"a", "b">> ELSE <<"a">>
ET   == IF Prop \in {"C03", "C08"} THEN <<"a", "b">> ELSE <<"a">>
EdgesU ==
  CASE Prop = "C02" -> {}
    [] Prop = "C07" -> {<<0, "a", 0>>}
    [] Prop \in {"C05", "C06", "C10", "C23", "C16", "C11", "C13"} /\ ~Deep -> {<<0, "a", 1>>, <<1, "a", 0>>}
    [] Prop = "C08" /\ ~Deep -> {<<0, "a", 1>>, <<1, "b", 0>>}
    [] Prop \in {"C08", "C09"} -> {<<0, "a", 1>>, <<1, "b", 0>>, <<0, "a", 0>>}
    [] OTHER -> {<<i, t, j>> : i \in Ids, t \in RangeOf(ET), j \in Ids}
Names == CASE Prop \in {"C05", "C09"} -> <<"p", "q">> [] Prop \in {"C01", "C02", "C03"} -> <<>> [] OTHER -> <<"p">>
Vals == CASE Prop = "C07" -> <<"1", "1.0", "\"1\"", "[1]", "[[1],2]", "[[1,2]]", "{\"a\":{\"b\":1},\"c\":2}", "{\"a\":{\"b\":1,\"c\":2}}",
                               "0.0", "-0.0", "null", "[1,[2]]", "9007199254740993", "9007199254740992.0">>
          [] Prop \in {"C06", "C11", "C13"} \/ Deep -> <<"1", "2">>
          [] OTHER -> <<"1">>

Seq2(S) == SetToSeq(S)
IdS == [n \in 1..NIds |-> n - 1]
EdS == SortEdges(EdgesU)
PairSeq(a, b, F(_, _)) == FlattenSeq([m \in 1..Len(a) |-> [n \in 1..Len(b) |-> F(a[m], b[n])]])
MapS(a, F(_)) == [m \in 1..Len(a) |-> F(a[m])]
G(q) == [op |-> "get", q |-> q]
AllV == [q |-> "AllV"]
AllE == [q |-> "AllE"]
SV(i) == [q |-> "SpecV", ids |-> <<i>>]
SE(e) == [q |-> "SpecE", es |-> <<e>>]
Lim == 2000000000
PipeQ(in, d, lim, t) == [q |-> "Pipe", in |-> in, d |-> d, lim |-> lim, t |-> t]
Cnt(q) == [q |-> "Cnt", in |-> q]
Inc(q) == [q |-> "Inc", in |-> q]
PP(q, n) == [q |-> "PProp", in |-> q, n |-> n]
Opt(s) == <<<<>>>> \o MapS(s, LAMBDA x : <<x>>)

(***************************************************************************)
(* Mutations                                                               *)
(***************************************************************************)
MCreate  == PairSeq(IdS, VT, LAMBDA i, t : [op |-> "cv", id |-> i, t |-> t])
MEdge    == MapS(EdS, LAMBDA e : [op |-> "ce", e |-> e])
MDelV    == MapS(IdS, LAMBDA i : [op |-> "del", q |-> SV(i)])
MDelE    == MapS(EdS, LAMBDA e : [op |-> "del", q |-> SE(e)])
MSetV    == FlattenSeq(PairSeq(IdS, Names, LAMBDA i, n : MapS(Vals, LAMBDA v : [op |-> "set", q |-> SV(i), n |-> n, v |-> v])))
MSetE    == FlattenSeq(PairSeq(EdS, Names, LAMBDA e, n : MapS(Vals, LAMBDA v : [op |-> "set", q |-> SE(e), n |-> n, v |-> v])))
MDelVP   == PairSeq(IdS, Names, LAMBDA i, n : [op |-> "del", q |-> PP(SV(i), <<n>>)])
MDelEP   == PairSeq(EdS, Names, LAMBDA e, n : [op |-> "del", q |-> PP(SE(e), <<n>>)])
MIndex   == MapS(Names, LAMBDA n : [op |-> "index", n |-> n])
MMany    == <<[op |-> "del", q |-> AllV], [op |-> "del", q |-> AllE],
              [op |-> "del", q |-> PipeQ(SV(0), "in", Lim, <<>>)],
              [op |-> "del", q |-> PipeQ(PipeQ(SV(0), "out", Lim, <<>>), "in", Lim, <<>>)]>>
MManyP   == <<[op |-> "set", q |-> AllV, n |-> "p", v |-> "1"], [op |-> "set", q |-> AllE, n |-> "p", v |-> "1"],
              [op |-> "del", q |-> PP(AllV, <<>>)], [op |-> "del", q |-> PP(AllE, <<>>)]>>
MProps   == MSetV \o MSetE \o MDelVP \o MDelEP
MStruct  == MCreate \o MEdge \o MDelV \o MDelE

\* bulk items that may be inserted in state-independent order (their owners come first)
BItems == <<[i |-> "v", id |-> 0, t |-> "a"], [i |-> "v", id |-> 1, t |-> "a"],
            [i |-> "e", e |-> <<0, "a", 1>>],
            [i |-> "vp", id |-> 0, n |-> "p", v |-> "1"], [i |-> "vp", id |-> 0, n |-> "p", v |-> "2"],
            [i |-> "ep", e |-> <<0, "a", 1>>, n |-> "p", v |-> "1"], [i |-> "ep", e |-> <<0, "a", 1>>, n |-> "p", v |-> "2"]>>
BulkOk(s) == \* every item refers to vertices/edges created earlier in the request
  \A m \in 1..Len(s) :
    LET has(x) == \E k \in 1..(m - 1) : s[k] = x IN
    CASE s[m].i = "v"  -> TRUE
      [] s[m].i = "e"  -> has(BItems[1]) /\ has(BItems[2])
      [] s[m].i = "vp" -> has(BItems[1])
      [] s[m].i = "ep" -> has(BItems[3])
Prefix == <<BItems[1], BItems[2], BItems[3]>>
BTails == <<<<>>>> \o MapS(BItems, LAMBDA x : <<x>>) \o PairSeq(BItems, BItems, LAMBDA x, y : <<x, y>>)
          \o (IF Deep THEN FlattenSeq(PairSeq(BItems, BItems, LAMBDA x, y : MapS(BItems, LAMBDA z : <<x, y, z>>))) ELSE <<>>)
Bulks == SelectSeq(BTails, BulkOk) \o MapS(BTails, LAMBDA t : Prefix \o t)
MBulk == MapS(Bulks, LAMBDA b : [op |-> "bulk", items |-> b])
MBulkFew == <<[op |-> "bulk", items |-> Prefix \o <<BItems[4], BItems[7]>>],
              [op |-> "bulk", items |-> <<BItems[1], BItems[5], BItems[4]>>]>>

(***************************************************************************)
(* Reads                                                                   *)
(***************************************************************************)
RLookup == MapS(<<AllV, AllE, Cnt(AllV), Cnt(AllE), [q |-> "SpecV", ids |-> Reverse(IdS) \o <<0>>],
                  [q |-> "SpecE", es |-> Reverse(EdS) \o <<EdS[1]>>]>>, G)
RRange  == FlattenSeq(PairSeq(Opt(IdS), Opt(VT), LAMBDA s, t :
             MapS(<<0, 1, 2, 3, NIds, Lim>>, LAMBDA l : G([q |-> "RangeV", lim |-> l, t |-> t, s |-> s]))))
RPipeV  == FlattenSeq(PairSeq(<<AllV, [q |-> "SpecV", ids |-> <<1, 0, 1>>]>> \o MapS(IdS, SV), <<"out", "in">>, LAMBDA q, d :
             PairSeq(Opt(ET), <<0, 1, 2, 3, 5, Lim>>, LAMBDA t, l : G(PipeQ(q, d, l, t)))))
RPipeE  == FlattenSeq(PairSeq(<<AllE, PipeQ(AllV, "in", 3, <<>>)>>, <<"out", "in">>, LAMBDA q, d :
             PairSeq(Opt(VT), <<0, 1, 2, Lim>>, LAMBDA t, l : G(PipeQ(q, d, l, t)))))
RProps  == MapS(Opt(Names), LAMBDA n : G(PP(AllV, n))) \o MapS(Opt(Names), LAMBDA n : G(PP(AllE, n)))
IxQ(n, v) == <<[q |-> "VProp", n |-> n], [q |-> "EProp", n |-> n], [q |-> "VPropVal", n |-> n, v |-> v], [q |-> "EPropVal", n |-> n, v |-> v],
               [q |-> "PHas", in |-> AllV, n |-> n, x |-> TRUE], [q |-> "PHas", in |-> AllV, n |-> n, x |-> FALSE],
               [q |-> "PHas", in |-> AllE, n |-> n, x |-> TRUE], [q |-> "PHas", in |-> AllE, n |-> n, x |-> FALSE],
               [q |-> "PVal", in |-> AllV, n |-> n, v |-> v, eq |-> TRUE], [q |-> "PVal", in |-> AllV, n |-> n, v |-> v, eq |-> FALSE],
               [q |-> "PVal", in |-> AllE, n |-> n, v |-> v, eq |-> TRUE], [q |-> "PVal", in |-> AllE, n |-> n, v |-> v, eq |-> FALSE]>>
RIndex  == MapS(FlattenSeq(FlattenSeq(PairSeq(Names, Vals, LAMBDA n, v : <<IxQ(n, v)>>))), G)
\* compound queries: a small grammar closed under every step
QV0 == <<AllV, SV(0), [q |-> "RangeV", lim |-> 1, t |-> <<>>, s |-> <<>>], [q |-> "VProp", n |-> "p"]>>
QE0 == <<AllE, SE(EdS[1]), [q |-> "EPropVal", n |-> "p", v |-> "1"]>>
Filt(q) == <<[q |-> "PHas", in |-> q, n |-> "p", x |-> TRUE], [q |-> "PVal", in |-> q, n |-> "p", v |-> "1", eq |-> FALSE]>>
StepV(q) == <<PipeQ(q, "out", Lim, <<>>), PipeQ(q, "in", 1, <<"a">>)>>
WithInc(qs) == qs \o MapS(qs, Inc)
QV1 == QV0 \o FlattenSeq(MapS(WithInc(QV0), Filt)) \o FlattenSeq(MapS(WithInc(QE0), StepV))
QE1 == QE0 \o FlattenSeq(MapS(WithInc(QE0), Filt)) \o FlattenSeq(MapS(WithInc(QV0), StepV))
QV2 == QV1 \o FlattenSeq(MapS(MapS(QE1, Inc), StepV))
QE2 == QE1 \o FlattenSeq(MapS(MapS(QV1, Inc), StepV))
Finish(q) == <<q, Inc(q), Cnt(q), Cnt(Inc(q)), PP(q, <<>>), PP(Inc(q), <<"p">>), Cnt(PP(q, <<>>)), Inc(Inc(q)), Inc(Cnt(Inc(q))), Cnt(Inc(PP(Inc(q), <<>>)))>>
\* a limit on items in no defined order leaves open which items a further step would see
RECURSIVE Unord(_), Capped(_), Open(_)
Unord(q)  == IF "in" \in DOMAIN q THEN Unord(q.in) ELSE q.q \in {"VProp", "VPropVal", "EProp", "EPropVal"}
Capped(q) == IF q.q \in {"Inc", "Cnt"} THEN Capped(q.in) ELSE q.q = "Pipe" /\ q.lim < Lim /\ Unord(q.in)
Open(q)   == "in" \in DOMAIN q /\ (Open(q.in) \/ (q.q \notin {"Inc", "Cnt"} /\ Capped(q.in)))
Compound == SelectSeq(FlattenSeq(MapS(IF Deep THEN QV2 \o QE2 ELSE QV1 \o QE1, Finish)), LAMBDA q : ~Open(q))
RCompound == MapS(Compound, G)
\* operations that must fail and change nothing
BadQ == <<Cnt(Cnt(AllV)), PipeQ(Cnt(AllV), "out", 1, <<>>), PipeQ(PP(AllV, <<>>), "out", 1, <<>>), PP(PP(AllV, <<>>), <<>>), PP(Cnt(AllE), <<>>),
          [q |-> "PHas", in |-> Cnt(AllV), n |-> "p", x |-> TRUE], [q |-> "PVal", in |-> PP(AllE, <<>>), n |-> "p", v |-> "1", eq |-> TRUE]>>
ErrOps == MapS(BadQ, G) \o MapS(BadQ, LAMBDA q : [op |-> "del", q |-> q])
          \o MapS(BadQ \o <<Cnt(AllV), PP(AllV, <<>>), PP(AllE, <<"p">>)>>, LAMBDA q : [op |-> "set", q |-> q, n |-> "q", v |-> "1"])
          \o <<[op |-> "del", q |-> Cnt(AllV)], [op |-> "del", q |-> Cnt(PP(AllE, <<>>))]>>
          \o MapS(IxQ("q", "1"), G) \o MapS(IxQ("q", "1"), LAMBDA q : [op |-> "del", q |-> q])
          \o MapS(IxQ("q", "1"), LAMBDA q : [op |-> "set", q |-> q, n |-> "p", v |-> "1"])
\* the transaction interface
Tx(m) == [op |-> "tx", m |-> m]
RTx == <<Tx("vertex_count"), Tx("edge_count"), Tx("all_vertices"), Tx("all_edges"),
         [op |-> "tx", m |-> "specific_vertices", ids |-> <<1, 0, 1>>],
         [op |-> "tx", m |-> "specific_edges", es |-> Reverse(EdS) \o <<EdS[1]>>],
         [op |-> "tx", m |-> "vertex_ids_with_property", n |-> "p"], [op |-> "tx", m |-> "edges_with_property", n |-> "p"],
         [op |-> "tx", m |-> "vertex_ids_with_property_value", n |-> "p", v |-> "1"],
         [op |-> "tx", m |-> "edges_with_property_value", n |-> "p", v |-> "1"]>>
       \o MapS(IdS, LAMBDA i : [op |-> "tx", m |-> "range_vertices", id |-> i])
       \o MapS(IdS, LAMBDA i : [op |-> "tx", m |-> "vertex_property", id |-> i, n |-> "p"])
       \o MapS(IdS, LAMBDA i : [op |-> "tx", m |-> "all_vertex_properties_for_vertex", id |-> i])
       \o FlattenSeq(MapS(EdS, LAMBDA e : <<[op |-> "tx", m |-> "range_edges", e |-> e], [op |-> "tx", m |-> "range_reversed_edges", e |-> e],
              [op |-> "tx", m |-> "range_reversed_edges", e |-> Rev(e)], [op |-> "tx", m |-> "edge_property", e |-> e, n |-> "p"],
              [op |-> "tx", m |-> "all_edge_properties_for_edge", e |-> e]>>))
MTx == MapS(MCreate, LAMBDA o : [op |-> "tx", m |-> "create_vertex", id |-> o.id, t |-> o.t])
       \o FlattenSeq(MapS(EdS, LAMBDA e : <<[op |-> "tx", m |-> "create_edge", e |-> e], [op |-> "tx", m |-> "delete_edges", es |-> <<e>>],
              [op |-> "tx", m |-> "delete_edge_properties", ks |-> <<<<e, "p">>>>]>>))
       \o FlattenSeq(MapS(IdS, LAMBDA i : <<[op |-> "tx", m |-> "delete_vertices", ids |-> <<i>>],
              [op |-> "tx", m |-> "delete_vertex_properties", ks |-> <<<<i, "p">>>>]>>))
       \o <<[op |-> "tx", m |-> "index_property", n |-> "p"], [op |-> "tx", m |-> "delete_vertices", ids |-> <<1, 0>>],
            [op |-> "tx", m |-> "delete_edges", es |-> EdS]>>
       \o MapS(MBulkFew, LAMBDA o : [op |-> "tx", m |-> "bulk_insert", items |-> o.items])

(***************************************************************************)
(* Per property: all operations, and the observations made after each      *)
(* mutation when the real datastores are walked along the graph            *)
(***************************************************************************)
Ops ==
  CASE Prop = "C01" -> MCreate \o MEdge \o MDelV \o MDelE \o RLookup
    [] Prop = "C02" -> MCreate \o MDelV \o RRange
    [] Prop = "C03" -> MCreate \o MEdge \o MDelE \o RPipeV \o RPipeE
    [] Prop = "C04" -> MStruct \o MMany \o MProps \o MIndex
    [] Prop = "C05" -> MCreate \o MEdge \o MDelV \o MDelE \o MProps \o MManyP \o RProps
    [] Prop = "C06" -> MStruct \o MProps \o MIndex \o MManyP \o RIndex \o MBulkFew
    [] Prop = "C07" -> MCreate \o MEdge \o MSetV \o MSetE \o MIndex \o RIndex \o RProps
    [] Prop = "C08" -> MCreate \o MEdge \o MSetV \o MSetE \o MIndex \o RCompound
    [] Prop = "C09" -> MStruct \o MSetV \o MSetE \o ErrOps
    [] Prop = "C10" -> MBulk \o MDelV \o MDelE \o MIndex
    [] Prop = "C23" -> MTx \o MSetV \o MSetE \o RTx
    [] Prop \in {"C11", "C13"} -> MStruct \o MProps \o MIndex \o MBulkFew
    [] Prop = "C16" -> MStruct \o MProps \o MIndex \o MBulkFew \o RIndex \o RLookup \o RProps
Whole == MapS(<<AllV, AllE, PipeQ(AllV, "out", Lim, <<>>), PipeQ(AllV, "in", Lim, <<>>)>>, G)
WholeP == Whole \o MapS(<<PP(AllV, <<>>), PP(AllE, <<>>)>>, G)
WholeI == WholeP \o MapS(<<[q |-> "VProp", n |-> "p"], [q |-> "EProp", n |-> "p"], [q |-> "VPropVal", n |-> "p", v |-> "1"],
                           [q |-> "EPropVal", n |-> "p", v |-> "1"]>>, G)
Obs ==
  CASE Prop \in {"C01"} -> RLookup
    [] Prop = "C02" -> <<G(AllV)>>
    [] Prop \in {"C03"} -> <<G(AllE)>>
    [] Prop = "C05" -> WholeP
    [] Prop \in {"C08", "C07"} -> <<>>
    [] OTHER -> WholeI

(***************************************************************************)
(* The graph                                                               *)
(***************************************************************************)
Init == st = EmptyGraph /\ last = 0
OpsC == Ops       \* evaluated once
Next == \E k \in 1..Len(OpsC) : st' = Step(st, OpsC[k]).st /\ last' = k
Spec == Init /\ [][Next]_vars
View == st

Canon(S) ==
  LET v(i)  == IF i \in DOMAIN S.V THEN <<S.V[i]>> \o [n \in 1..Len(Names) |-> IF <<i, Names[n]>> \in DOMAIN S.VP THEN S.VP[<<i, Names[n]>>] ELSE "."] ELSE <<"-">>
      e(x)  == IF x \in S.E THEN <<"+">> \o [n \in 1..Len(Names) |-> IF <<x, Names[n]>> \in DOMAIN S.EP THEN S.EP[<<x, Names[n]>>] ELSE "."] ELSE <<"-">>
  IN ToJson(<<MapS(IdS, v), MapS(EdS, e), [n \in 1..Len(Names) |-> IF Names[n] \in S.IX THEN 1 ELSE 0]>>)

Dump == Emit =>
  /\ (TLCGet("level") = 1 => PrintT("OPS " \o ToJson(OpsC)) /\ PrintT("OBS " \o ToJson(Obs)))
  /\ PrintT("STATE " \o ToJson([s |-> Canon(st), n |-> [k \in 1..Len(OpsC) |-> LET t == Step(st, OpsC[k]).st IN IF t = st THEN "" ELSE Canon(t)]]))

(***************************************************************************)
(* The properties, stated on the state graph                               *)
(***************************************************************************)
InvWellFormed == WellFormed(st)

Evals(q) == Eval(st, q).val.s
\* C01: scans and counts agree, each item once, lookups in asked order
InvScans == /\ Cardinality(RangeOf(Evals(AllV))) = Len(Evals(AllV))
            /\ {v[1] : v \in RangeOf(Evals(AllV))} = DOMAIN st.V
            /\ RangeOf(Evals(AllE)) = st.E /\ Len(Evals(AllE)) = Cardinality(st.E)
            /\ Evals(Cnt(AllV)) = Cardinality(DOMAIN st.V) /\ Evals(Cnt(AllE)) = Cardinality(st.E)
TypesFixed == [][\A i \in DOMAIN st.V \cap DOMAIN st'.V : st.V[i] = st'.V[i]]_vars
\* C02: paging with any page size visits every matching vertex once, in id order
RECURSIVE Pages(_, _, _)
Pages(from, lim, t) ==
  IF from >= NIds THEN <<>>
  ELSE LET p == Evals([q |-> "RangeV", lim |-> lim, t |-> t, s |-> <<from>>]) IN
       IF p = <<>> THEN <<>> ELSE p \o Pages(Last(p)[1] + 1, lim, t)
InvPaging == \A lim \in 1..3, t \in RangeOf(Opt(VT)) :
               LET p == Pages(0, lim, t) IN
               /\ {x[1] : x \in RangeOf(p)} = {i \in DOMAIN st.V : TypeOk(st.V[i], t)}
               /\ \A m \in 1..(Len(p) - 1) : p[m][1] < p[m + 1][1]
\* C03: both directions of traversal are the same set of edges; limits are prefixes
InvTraversal ==
  /\ MultiSet(Evals(PipeQ(AllV, "out", Lim, <<>>))) = MultiSet(Evals(AllE))
  /\ MultiSet(Evals(PipeQ(AllV, "in", Lim, <<>>))) = MultiSet(Evals(AllE))
  /\ \A d \in {"out", "in"}, l \in 0..3 :
       Evals(PipeQ(AllV, d, l, <<>>)) = SubSeq(Evals(PipeQ(AllV, d, Lim, <<>>)), 1, MinNat(l, Cardinality(st.E)))
\* C04: a delete removes what it selects and what depends on it, and nothing else
DelExact == [][last' # 0 /\ OpsC[last'].op = "del" =>
    /\ DOMAIN st'.V \subseteq DOMAIN st.V /\ st'.E \subseteq st.E
    /\ DOMAIN st'.VP \subseteq DOMAIN st.VP /\ DOMAIN st'.EP \subseteq DOMAIN st.EP
    /\ \A k \in DOMAIN st'.VP : st'.VP[k] = st.VP[k]
    /\ \A k \in DOMAIN st'.EP : st'.EP[k] = st.EP[k]
    /\ st'.IX = st.IX
    /\ \A e \in st.E \ st'.E : \/ e[1] \notin DOMAIN st'.V \/ e[3] \notin DOMAIN st'.V
                               \/ QType(OpsC[last'].q) = "E" /\ e \in RangeOf(Eval(st, OpsC[last'].q).val.s)
    /\ \A k \in DOMAIN st.VP \ DOMAIN st'.VP : k[1] \notin DOMAIN st'.V \/ QType(OpsC[last'].q) = "VP"
    /\ \A k \in DOMAIN st.EP \ DOMAIN st'.EP : k[1] \notin st'.E \/ QType(OpsC[last'].q) = "EP"
    /\ QType(OpsC[last'].q) \in {"V", "E"} => LET r == Eval(st, OpsC[last'].q) IN
         r.err = "" => \A x \in RangeOf(r.val.s) : IF r.val.k = "V" THEN x[1] \notin DOMAIN st'.V ELSE x \notin st'.E]_vars
NoResurrection == [][\A i \in DOMAIN st'.V \ DOMAIN st.V : last' # 0 /\ OpsC[last'].op # "bulk" =>
                        /\ \A k \in DOMAIN st'.VP : k[1] # i
                        /\ \A e \in st'.E : e[1] # i /\ e[3] # i]_vars
\* C05: a set changes exactly the named property of the selected items
SetExact == [][last' # 0 /\ OpsC[last'].op = "set" => LET o == OpsC[last'] IN
    /\ st'.V = st.V /\ st'.E = st.E /\ st'.IX = st.IX
    /\ \A k \in DOMAIN st'.VP : (k \in DOMAIN st.VP /\ st'.VP[k] = st.VP[k])
         \/ (k[2] = o.n /\ st'.VP[k] = o.v /\ QType(o.q) = "V" /\ k[1] \in {x[1] : x \in RangeOf(Eval(st, o.q).val.s)})
    /\ \A k \in DOMAIN st'.EP : (k \in DOMAIN st.EP /\ st'.EP[k] = st.EP[k])
         \/ (k[2] = o.n /\ st'.EP[k] = o.v /\ QType(o.q) = "E" /\ k[1] \in RangeOf(Eval(st, o.q).val.s))
    /\ DOMAIN st.VP \subseteq DOMAIN st'.VP /\ DOMAIN st.EP \subseteq DOMAIN st'.EP]_vars
\* C06: presence/value queries and their negations partition the items
InvIndex == \A m \in 1..Len(Names), v \in RangeOf(Vals) : LET n == Names[m] IN n \in st.IX =>
    /\ {x[1] : x \in RangeOf(Evals([q |-> "VProp", n |-> n]))} = {i \in DOMAIN st.V : <<i, n>> \in DOMAIN st.VP}
    /\ RangeOf(Evals([q |-> "EPropVal", n |-> n, v |-> v])) = {e \in st.E : <<e, n>> \in DOMAIN st.EP /\ st.EP[<<e, n>>] = v}
    /\ MultiSet(Evals([q |-> "PHas", in |-> AllV, n |-> n, x |-> TRUE]) \o Evals([q |-> "PHas", in |-> AllV, n |-> n, x |-> FALSE])) = MultiSet(Evals(AllV))
    /\ MultiSet(Evals([q |-> "PVal", in |-> AllE, n |-> n, v |-> v, eq |-> TRUE]) \o Evals([q |-> "PVal", in |-> AllE, n |-> n, v |-> v, eq |-> FALSE])) = MultiSet(Evals(AllE))
InvUnindexed == \A m \in 1..Len(Names) : Names[m] \notin st.IX =>
    \A q \in RangeOf(IxQ(Names[m], "1")) : Eval(st, q).err = "NotIndexed"
\* C07: an item matches exactly one of the values
InvOneValue == \A k \in DOMAIN st.VP : k[2] \in st.IX =>
    Cardinality({v \in RangeOf(Vals) : k[1] \in {x[1] : x \in RangeOf(Evals([q |-> "VPropVal", n |-> k[2], v |-> v]))}}) = 1
\* C08: includes never change other outputs; counts are lengths
RECURSIVE Strip(_)
Strip(q) == IF q.q = "Inc" THEN Strip(q.in) ELSE IF "in" \in DOMAIN q THEN [q EXCEPT !.in = Strip(@)] ELSE q
RECURSIVE NInc(_)
NInc(q) == IF "in" \notin DOMAIN q THEN 0 ELSE NInc(q.in) + (IF q.q # "Inc" /\ q.in.q = "Inc" THEN 1 ELSE 0)
InvCompound == \A q \in RangeOf(Compound) : LET r == Eval(st, q) IN
    /\ r.err = Eval(st, Strip(q)).err
    /\ r.err = "" => /\ r.val = Eval(st, Strip(q)).val
                     /\ Len(r.outs) = NInc(q)
                     /\ q.q = "Cnt" /\ q.in.q # "Cnt" => r.val.s = OutLen(Eval(st, q.in).val)
\* C09: what fails changes nothing
ErrorsInert == [][last' # 0 /\ Step(st, OpsC[last']).res.k = "err" => st' = st]_vars
InvIllTypedFail == \A k \in 1..Len(OpsC) : (OpsC[k].op \in {"get", "del", "set"} /\ IllTyped(OpsC[k])) => Step(st, OpsC[k]).res.k = "err"
\* C10: a bulk insert is the sequence of its items
Single(it) == CASE it.i = "v"  -> [op |-> "cv", id |-> it.id, t |-> it.t]
                [] it.i = "e"  -> [op |-> "ce", e |-> it.e]
                [] it.i = "vp" -> [op |-> "set", q |-> SV(it.id), n |-> it.n, v |-> it.v]
                [] it.i = "ep" -> [op |-> "set", q |-> SE(it.e), n |-> it.n, v |-> it.v]
RECURSIVE OneByOne(_, _)
OneByOne(S, items) == IF items = <<>> THEN S ELSE OneByOne(Step(S, Single(Head(items))).st, Tail(items))
InvBulk == \A k \in 1..Len(OpsC) : OpsC[k].op = "bulk" => Step(st, OpsC[k]).st = OneByOne(st, OpsC[k].items)
\* C23: the transaction interface shows what queries show
InvTx == /\ Step(st, Tx("all_vertices")).res.o[1].s = Evals(AllV)
         /\ Step(st, Tx("all_edges")).res.o[1].s = Evals(AllE)
         /\ \A e \in EdgesU : /\ IsSuffix(Step(st, [op |-> "tx", m |-> "range_edges", e |-> e]).res.o[1].s, Evals(AllE))
                              /\ e \in st.E => Head(Step(st, [op |-> "tx", m |-> "range_edges", e |-> e]).res.o[1].s) = e
=============================================================================
