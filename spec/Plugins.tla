------------------------------ MODULE Plugins ------------------------------
(***************************************************************************)
(* Plugins: the operations a server executes by name. The graph semantics  *)
(* is IndraGraph's; a plugin is a named operation on the same graph.       *)
(*   vh_echo  returns its argument       vh2_wrap  returns it in an array  *)
(*   vh_fail  fails with a given message vh_tick   counts its calls by key *)
(*   vh_ops   performs transaction operations one after another            *)
(*   vh_same  compares vertex types with identifiers the plugin made       *)
(*   vh_map   maps over the vertices     vh2_count counts the vertices     *)
(*   hello_world, naive_vertex_count: the example plugins of the repository*)
(***************************************************************************)
EXTENDS IndraGraph, VertexMap
CONSTANT Registered

FailMsg(k, m) == CASE k = "json" -> "json error: " \o m
                   [] k = "notindexed" -> "IndraDB error: query attempted on a property that isn't indexed"
                   [] OTHER -> m
\* each operation of a transaction in turn
RECURSIVE TxSeq(_, _, _)
TxSeq(S, ops, rs) ==
  IF ops = <<>> THEN [rs |-> rs, st |-> S]
  ELSE LET x == DoTx(S, Head(ops)) IN TxSeq(x.st, Tail(ops), Append(rs, x.res))
RJson(v, S) == [res |-> [k |-> "json", v |-> v], st |-> S]
PluginStep(S, ticks, op) ==
  IF op.name \notin Registered THEN RErr("NotFound", S)
  ELSE CASE op.name = "vh_echo"   -> RJson(op.arg, S)
         [] op.name = "vh2_wrap"  -> RJson("[" \o op.arg \o "]", S)
         [] op.name = "vh2_count" -> RJson(ToString(Cardinality(DOMAIN S.V)), S)
         [] op.name = "vh_fail"   -> [res |-> [k |-> "pluginerr", m |-> FailMsg(op.pa.kind, op.pa.msg)], st |-> S]
         [] op.name = "vh_tick"   -> RJson(ToString((IF op.pa.key \in DOMAIN ticks THEN ticks[op.pa.key] ELSE 0) + 1), S)
         [] op.name = "vh_ops"    -> LET x == TxSeq(S, op.pa.ops, <<>>) IN [res |-> [k |-> "seq", rs |-> x.rs], st |-> x.st]
         [] op.name = "vh_same"   -> [res |-> [k |-> "same", s |-> SortIds({i \in DOMAIN S.V : S.V[i] = op.pa.t})], st |-> S]
         [] op.name = "vh_map"    -> [res |-> [k |-> "map", P |-> S.V], st |-> S]
         [] op.name = "hello_world" -> RJson("\"hello, " \o op.arg \o "\"", S)
         [] op.name = "naive_vertex_count" -> RJson(ToString(Cardinality(DOMAIN S.V)), S)
Ticked(ticks, op) ==
  IF op.op # "plugin" \/ op.name # "vh_tick" \/ op.name \notin Registered THEN ticks
  ELSE Put(ticks, op.pa.key, (IF op.pa.key \in DOMAIN ticks THEN ticks[op.pa.key] ELSE 0) + 1)

\* any operation: of the database, or a plugin call, or a mapping over the vertices outside a server
Run(S, ticks, op) ==
  CASE op.op = "plugin" -> PluginStep(S, ticks, op)
    [] op.op = "map"    -> [res |-> [k |-> "map", P |-> S.V], st |-> S]
    [] OTHER            -> Step(S, op)
Fits(op, x, r) ==
  CASE x.k = "json" -> r.k = "json" /\ r.v = x.v
    [] x.k = "pluginerr" -> r.k = "err" /\ r.e # "NotFound" /\ r.m = x.m
    [] x.k = "seq"  -> /\ r.k = "seq" /\ Len(r.rs) = Len(x.rs)
                       /\ \A n \in 1..Len(x.rs) : Matches(op.pa.ops[n], x.rs[n], r.rs[n])
    [] x.k = "same" -> r.k = "same" /\ r.a = x.s /\ r.b = x.s
    [] x.k = "map"  -> r.k = "map" /\ MapVerdict(x.P, r.log) = ""
    [] OTHER        -> Matches(op, x, r)
\* what is printed when a result does not fit
Expected(x, r) == IF x.k = "map" THEN (IF r.k = "map" THEN MapVerdict(x.P, r.log) ELSE "a map") ELSE x
=============================================================================
