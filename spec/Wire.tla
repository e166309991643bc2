-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* Which requests on the wire are well-formed operations, and which        *)
(* operation (of IndraGraph) each of those denotes.                        *)
(*                                                                         *)
(* A field that may be absent is a sequence of length 0 or 1.              *)
(*   id         : [len |-> number of bytes, u |-> the id if len = 16]      *)
(*   identifier : [s |-> text, len |-> length in bytes,                    *)
(*                 cls |-> classes of its characters]                      *)
(*   JSON value : [cs |-> code points of the text, v |-> canonical text]   *)
(*   edge       : [o, t, i] absent-able id, identifier, id                 *)
(*   query      : as in IndraGraph with wire fields; [q |-> "none"] if the *)
(*                message has no variant                                   *)
(*   bulk item  : likewise with tag i                                      *)
(* Decode gives <<>> for a malformed request and <<op>> otherwise.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, JsonText

Elements(s) == {s[n] : n \in 1..Len(s)}
UOk(u)      == u.len = 16
IdentOk(x)  == x.len <= 255 /\ Elements(x.cls) \subseteq {"letter", "digit", "dash", "underscore"}
JsonOk(x)   == ValidJson(x.cs)

\* a required and an optional field: Dec(x) for the content
Req(f, Good(_))  == f # <<>> /\ Good(f[1])
Opt(f, Good(_))  == f = <<>> \/ Good(f[1])

EdgeOk(e)   == Req(e.o, UOk) /\ Req(e.t, IdentOk) /\ Req(e.i, UOk)
DEdge(e)    == <<e.o[1].u, e.t[1].s, e.i[1].u>>
DOptId(f)   == IF f = <<>> THEN <<>> ELSE <<f[1].s>>

RECURSIVE QueryOk(_), DQuery(_)
QueryOk(q) ==
  CASE q.q \in {"AllV", "AllE"} -> TRUE
    [] q.q = "RangeV" -> Opt(q.t, IdentOk) /\ Opt(q.s, UOk)
    [] q.q = "SpecV"  -> \A n \in 1..Len(q.ids) : UOk(q.ids[n])
    [] q.q = "SpecE"  -> \A n \in 1..Len(q.es) : EdgeOk(q.es[n])
    [] q.q \in {"VProp", "EProp"} -> Req(q.n, IdentOk)
    [] q.q \in {"VPropVal", "EPropVal"} -> Req(q.n, IdentOk) /\ Req(q.v, JsonOk)
    [] q.q = "Pipe"   -> Req(q.in, QueryOk) /\ Opt(q.t, IdentOk) /\ q.d \in {"out", "in"}
    [] q.q = "PProp"  -> Req(q.in, QueryOk) /\ Opt(q.n, IdentOk)
    [] q.q = "PHas"   -> Req(q.in, QueryOk) /\ Req(q.n, IdentOk)
    [] q.q = "PVal"   -> Req(q.in, QueryOk) /\ Req(q.n, IdentOk) /\ Req(q.v, JsonOk)
    [] q.q \in {"Inc", "Cnt"} -> Req(q.in, QueryOk)
    [] q.q = "none"   -> FALSE
DQuery(q) ==
  CASE q.q \in {"AllV", "AllE"} -> [q |-> q.q]
    [] q.q = "RangeV" -> [q |-> q.q, lim |-> q.lim, t |-> DOptId(q.t), s |-> IF q.s = <<>> THEN <<>> ELSE <<q.s[1].u>>]
    [] q.q = "SpecV"  -> [q |-> q.q, ids |-> [n \in 1..Len(q.ids) |-> q.ids[n].u]]
    [] q.q = "SpecE"  -> [q |-> q.q, es |-> [n \in 1..Len(q.es) |-> DEdge(q.es[n])]]
    [] q.q \in {"VProp", "EProp"} -> [q |-> q.q, n |-> q.n[1].s]
    [] q.q \in {"VPropVal", "EPropVal"} -> [q |-> q.q, n |-> q.n[1].s, v |-> q.v[1].v]
    [] q.q = "Pipe"   -> [q |-> q.q, in |-> DQuery(q.in[1]), d |-> q.d, lim |-> q.lim, t |-> DOptId(q.t)]
    [] q.q = "PProp"  -> [q |-> q.q, in |-> DQuery(q.in[1]), n |-> DOptId(q.n)]
    [] q.q = "PHas"   -> [q |-> q.q, in |-> DQuery(q.in[1]), n |-> q.n[1].s, x |-> q.x]
    [] q.q = "PVal"   -> [q |-> q.q, in |-> DQuery(q.in[1]), n |-> q.n[1].s, v |-> q.v[1].v, eq |-> q.eq]
    [] q.q \in {"Inc", "Cnt"} -> [q |-> q.q, in |-> DQuery(q.in[1])]

ItemOk(x) ==
  CASE x.i = "v"  -> Req(x.id, UOk) /\ Req(x.t, IdentOk)
    [] x.i = "e"  -> EdgeOk(x.e)
    [] x.i = "vp" -> Req(x.id, UOk) /\ Req(x.n, IdentOk) /\ Req(x.v, JsonOk)
    [] x.i = "ep" -> Req(x.e, EdgeOk) /\ Req(x.n, IdentOk) /\ Req(x.v, JsonOk)
    [] x.i = "none" -> FALSE
DItem(x) ==
  CASE x.i = "v"  -> [i |-> "v", id |-> x.id[1].u, t |-> x.t[1].s]
    [] x.i = "e"  -> [i |-> "e", e |-> DEdge(x.e)]
    [] x.i = "vp" -> [i |-> "vp", id |-> x.id[1].u, n |-> x.n[1].s, v |-> x.v[1].v]
    [] x.i = "ep" -> [i |-> "ep", e |-> DEdge(x.e[1]), n |-> x.n[1].s, v |-> x.v[1].v]

\* the items of a bulk request; of a long one: some of them again and again, then a few more
Items(m) ==
  IF "times" \notin DOMAIN m THEN m.items
  ELSE [n \in 1..(Len(m.items) * m.times + Len(m.tail)) |->
          IF n <= Len(m.items) * m.times THEN m.items[((n - 1) % Len(m.items)) + 1] ELSE m.tail[n - Len(m.items) * m.times]]
ItemsOk(m) == /\ \A n \in 1..Len(m.items) : ItemOk(m.items[n])
              /\ "times" \in DOMAIN m => \A n \in 1..Len(m.tail) : ItemOk(m.tail[n])

WellFormedRequest(m) ==
  CASE m.m = "cv"     -> Req(m.id, UOk) /\ Req(m.t, IdentOk)
    [] m.m = "cvt"    -> IdentOk(m.t)
    [] m.m = "ce"     -> EdgeOk(m.e)
    [] m.m \in {"get", "del"} -> QueryOk(m.q)
    [] m.m = "set"    -> Req(m.q, QueryOk) /\ Req(m.n, IdentOk) /\ Req(m.v, JsonOk)
    [] m.m = "bulk"   -> ItemsOk(m)
    [] m.m = "index"  -> Req(m.n, IdentOk)
    [] m.m = "plugin" -> Opt(m.arg, JsonOk)
Decode(m) ==
  IF ~WellFormedRequest(m) THEN <<>>
  ELSE <<CASE m.m = "cv"    -> [op |-> "cv", id |-> m.id[1].u, t |-> m.t[1].s]
           [] m.m = "cvt"   -> [op |-> "cvt", t |-> m.t.s]
           [] m.m = "ce"    -> [op |-> "ce", e |-> DEdge(m.e)]
           [] m.m \in {"get", "del"} -> [op |-> m.m, q |-> DQuery(m.q)]
           [] m.m = "set"   -> [op |-> "set", q |-> DQuery(m.q[1]), n |-> m.n[1].s, v |-> m.v[1].v]
           [] m.m = "bulk"  -> [op |-> "bulk", items |-> LET s == Items(m) IN [n \in 1..Len(s) |-> DItem(s[n])]]
           [] m.m = "index" -> [op |-> "index", n |-> m.n[1].s]
           [] m.m = "plugin" -> [op |-> "plugin", name |-> m.name, arg |-> IF m.arg = <<>> THEN "null" ELSE m.arg[1].v]>>
=============================================================================
