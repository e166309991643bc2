------------------------------- MODULE MCWire -------------------------------
(***************************************************************************)
(* The wire encoding of operations, and all ways in which one field of a   *)
(* request can be wrong.  Checked: decoding an encoded operation gives the *)
(* operation back; a request with a damaged field is malformed, except     *)
(* that an absent optional field means the operation without it.  Every    *)
(* request is printed ("MSG ...") and sent to the real server.             *)
(***************************************************************************)
EXTENDS Wire, Json

CONSTANT Depth        \* nesting of queries

Ids == {0, 1}
Int == [a |-> [s |-> "a", len |-> 1, cls |-> <<"letter">>], b |-> [s |-> "b", len |-> 1, cls |-> <<"letter">>],
        p |-> [s |-> "p", len |-> 1, cls |-> <<"letter">>]]
Long == [s |-> "LONG", len |-> 256, cls |-> <<"letter">>]
Bad  == [s |-> "BAD", len |-> 3, cls |-> <<"letter", "other">>]
U(i) == [len |-> 16, u |-> i]
Text == [one |-> [cs |-> <<49>>, v |-> "1"], lst |-> [cs |-> <<91, 32, 93>>, v |-> "[]"]]
BadJson == {[cs |-> c, v |-> ""] : c \in {<<>>, <<91>>, <<49, 44>>, <<123, 97, 125>>, <<34, 10, 34>>, <<48, 49>>}}

\* operations, in the terms of IndraGraph
Es == {<<0, "b", 1>>, <<1, "b", 1>>}
Lim == 3
BaseQ == {[q |-> "AllV"], [q |-> "AllE"]}
         \cup {[q |-> "RangeV", lim |-> Lim, t |-> t, s |-> s] : t \in {<<>>, <<"a">>}, s \in {<<>>, <<1>>}}
         \cup {[q |-> "SpecV", ids |-> x] : x \in {<<>>, <<0>>, <<1, 0>>}}
         \cup {[q |-> "SpecE", es |-> x] : x \in {<<>>, <<<<0, "b", 1>>>>, <<<<0, "b", 1>>, <<1, "b", 1>>>>}}
         \cup {[q |-> k, n |-> "p"] : k \in {"VProp", "EProp"}}
         \cup {[q |-> k, n |-> "p", v |-> v] : k \in {"VPropVal", "EPropVal"}, v \in {"1", "[]"}}
Over(Q) == {[q |-> "Pipe", in |-> x, d |-> d, lim |-> Lim, t |-> t] : x \in Q, d \in {"out", "in"}, t \in {<<>>, <<"b">>}}
           \cup {[q |-> "PProp", in |-> x, n |-> n] : x \in Q, n \in {<<>>, <<"p">>}}
           \cup {[q |-> "PHas", in |-> x, n |-> "p", x |-> e] : x \in Q, e \in BOOLEAN}
           \cup {[q |-> "PVal", in |-> x, n |-> "p", v |-> "1", eq |-> e] : x \in Q, e \in BOOLEAN}
           \cup {[q |-> k, in |-> x] : x \in Q, k \in {"Inc", "Cnt"}}
\* deeper nestings over a few of the simple queries
Few == {[q |-> "AllV"], [q |-> "SpecE", es |-> <<<<0, "b", 1>>>>], [q |-> "VPropVal", n |-> "p", v |-> "1"]}
RECURSIVE Nest(_)
Nest(n) == IF n = 0 THEN Few ELSE Over(Nest(n - 1))
Queries == BaseQ \cup UNION {Nest(n) : n \in 1..Depth}
SomeItems == {[i |-> "e", e |-> <<0, "b", 1>>], [i |-> "vp", id |-> 0, n |-> "p", v |-> "1"], [i |-> "ep", e |-> <<0, "b", 1>>, n |-> "p", v |-> "[]"],
          [i |-> "v", id |-> 1, t |-> "a"]}
\* every bulk request begins with the vertices it is about
Bulks == {<<>>} \cup {<<[i |-> "v", id |-> 0, t |-> "a"], [i |-> "v", id |-> 1, t |-> "a"], [i |-> "e", e |-> <<0, "b", 1>>]>> \o x : x \in {<<y>> : y \in SomeItems} \cup {<<y, z>> : y, z \in SomeItems}}
Ops == {[op |-> "cv", id |-> i, t |-> "a"] : i \in Ids}
       \cup {[op |-> "cvt", t |-> "a"]}
       \cup {[op |-> "ce", e |-> e] : e \in Es}
       \cup {[op |-> "get", q |-> q] : q \in Queries}
       \cup {[op |-> "del", q |-> q] : q \in BaseQ \cup Over(Few)}
       \cup {[op |-> "set", q |-> q, n |-> "p", v |-> "1"] : q \in BaseQ \cup Over(Few)}
       \cup {[op |-> "bulk", items |-> b] : b \in Bulks}
       \cup {[op |-> "index", n |-> "p"]}
       \cup {[op |-> "plugin", name |-> n, arg |-> "1"] : n \in {"nobody", "vh_echo"}}

EncJ(v)  == IF v = "1" THEN Text.one ELSE Text.lst
EncE(e)  == [o |-> <<U(e[1])>>, t |-> <<Int[e[2]]>>, i |-> <<U(e[3])>>]
EncS(f, G(_)) == [n \in 1..Len(f) |-> G(f[n])]
I(x) == Int[x]
RECURSIVE EncQ(_)
EncQ(q) ==
  CASE q.q \in {"AllV", "AllE"} -> q
    [] q.q = "RangeV" -> [q EXCEPT !.t = EncS(@, I), !.s = EncS(@, U)]
    [] q.q = "SpecV"  -> [q EXCEPT !.ids = EncS(@, U)]
    [] q.q = "SpecE"  -> [q EXCEPT !.es = EncS(@, EncE)]
    [] q.q \in {"VProp", "EProp"} -> [q EXCEPT !.n = <<Int[@]>>]
    [] q.q \in {"VPropVal", "EPropVal"} -> [q EXCEPT !.n = <<Int[@]>>, !.v = <<EncJ(@)>>]
    [] q.q = "Pipe"   -> [q EXCEPT !.in = <<EncQ(@)>>, !.t = EncS(@, I)]
    [] q.q = "PProp"  -> [q EXCEPT !.in = <<EncQ(@)>>, !.n = EncS(@, I)]
    [] q.q = "PHas"   -> [q EXCEPT !.in = <<EncQ(@)>>, !.n = <<Int[@]>>]
    [] q.q = "PVal"   -> [q EXCEPT !.in = <<EncQ(@)>>, !.n = <<Int[@]>>, !.v = <<EncJ(@)>>]
    [] q.q \in {"Inc", "Cnt"} -> [q EXCEPT !.in = <<EncQ(@)>>]
EncI(x) ==
  CASE x.i = "v"  -> [x EXCEPT !.id = <<U(@)>>, !.t = <<Int[@]>>]
    [] x.i = "e"  -> [x EXCEPT !.e = EncE(@)]
    [] x.i = "vp" -> [x EXCEPT !.id = <<U(@)>>, !.n = <<Int[@]>>, !.v = <<EncJ(@)>>]
    [] x.i = "ep" -> [x EXCEPT !.e = <<EncE(@)>>, !.n = <<Int[@]>>, !.v = <<EncJ(@)>>]
Enc(o) ==
  CASE o.op = "cv"    -> [op |-> "wire", m |-> "cv", id |-> <<U(o.id)>>, t |-> <<Int[o.t]>>]
    [] o.op = "cvt"   -> [op |-> "wire", m |-> "cvt", t |-> Int[o.t]]
    [] o.op = "ce"    -> [op |-> "wire", m |-> "ce", e |-> EncE(o.e)]
    [] o.op \in {"get", "del"} -> [op |-> "wire", m |-> o.op, q |-> EncQ(o.q)]
    [] o.op = "set"   -> [op |-> "wire", m |-> "set", q |-> <<EncQ(o.q)>>, n |-> <<Int[o.n]>>, v |-> <<EncJ(o.v)>>]
    [] o.op = "bulk"  -> [op |-> "wire", m |-> "bulk", items |-> [n \in 1..Len(o.items) |-> EncI(o.items[n])]]
    [] o.op = "index" -> [op |-> "wire", m |-> "index", n |-> <<Int[o.n]>>]
    [] o.op = "plugin" -> [op |-> "wire", m |-> "plugin", name |-> o.name, arg |-> <<EncJ(o.arg)>>]

(***************************************************************************)
(* Damage: pairs <<damaged, must be refused>> of one field.                *)
(***************************************************************************)
BadU(u) == {[len |-> n] : n \in {0, 15, 17}}
BadI(x) == {Long, Bad}
\* a field that may be absent; content is damaged by D
DReq(f, D(_)) == {<<>>} \cup UNION {{<<y>> : y \in D(f[n])} : n \in 1..Len(f)}
DOpt(f, D(_)) == UNION {{<<y>> : y \in D(f[n])} : n \in 1..Len(f)}
DSeq(f, D(_)) == UNION {{[f EXCEPT ![n] = y] : y \in D(f[n])} : n \in 1..Len(f)}
BadJ(x) == BadJson
BadE(e) == {[e EXCEPT !.o = y] : y \in DReq(e.o, BadU)} \cup {[e EXCEPT !.t = y] : y \in DReq(e.t, BadI)} \cup {[e EXCEPT !.i = y] : y \in DReq(e.i, BadU)}
RECURSIVE BadQ(_)
BadQ(q) ==
  {[q |-> "none"]} \cup
  CASE q.q \in {"AllV", "AllE", "none"} -> {}
    [] q.q = "RangeV" -> {[q EXCEPT !.t = y] : y \in DOpt(q.t, BadI)} \cup {[q EXCEPT !.s = y] : y \in DOpt(q.s, BadU)}
    [] q.q = "SpecV"  -> {[q EXCEPT !.ids = y] : y \in DSeq(q.ids, BadU)}
    [] q.q = "SpecE"  -> {[q EXCEPT !.es = y] : y \in DSeq(q.es, BadE)}
    [] q.q \in {"VProp", "EProp"} -> {[q EXCEPT !.n = y] : y \in DReq(q.n, BadI)}
    [] q.q \in {"VPropVal", "EPropVal"} -> {[q EXCEPT !.n = y] : y \in DReq(q.n, BadI)} \cup {[q EXCEPT !.v = y] : y \in DReq(q.v, BadJ)}
    [] q.q = "Pipe"   -> {[q EXCEPT !.in = y] : y \in DReq(q.in, BadQ)} \cup {[q EXCEPT !.t = y] : y \in DOpt(q.t, BadI)} \cup {[q EXCEPT !.d = y] : y \in {"2", "-1"}}
    [] q.q = "PProp"  -> {[q EXCEPT !.in = y] : y \in DReq(q.in, BadQ)} \cup {[q EXCEPT !.n = y] : y \in DOpt(q.n, BadI)}
    [] q.q = "PHas"   -> {[q EXCEPT !.in = y] : y \in DReq(q.in, BadQ)} \cup {[q EXCEPT !.n = y] : y \in DReq(q.n, BadI)}
    [] q.q = "PVal"   -> {[q EXCEPT !.in = y] : y \in DReq(q.in, BadQ)} \cup {[q EXCEPT !.n = y] : y \in DReq(q.n, BadI)} \cup {[q EXCEPT !.v = y] : y \in DReq(q.v, BadJ)}
    [] q.q \in {"Inc", "Cnt"} -> {[q EXCEPT !.in = y] : y \in DReq(q.in, BadQ)}
BadItem(x) ==
  {[i |-> "none"]} \cup
  CASE x.i = "v"  -> {[x EXCEPT !.id = y] : y \in DReq(x.id, BadU)} \cup {[x EXCEPT !.t = y] : y \in DReq(x.t, BadI)}
    [] x.i = "e"  -> {[x EXCEPT !.e = y] : y \in BadE(x.e)}
    [] x.i = "vp" -> {[x EXCEPT !.id = y] : y \in DReq(x.id, BadU)} \cup {[x EXCEPT !.n = y] : y \in DReq(x.n, BadI)} \cup {[x EXCEPT !.v = y] : y \in DReq(x.v, BadJ)}
    [] x.i = "ep" -> {[x EXCEPT !.e = y] : y \in DReq(x.e, BadE)} \cup {[x EXCEPT !.n = y] : y \in DReq(x.n, BadI)} \cup {[x EXCEPT !.v = y] : y \in DReq(x.v, BadJ)}
Damaged(m) ==
  CASE m.m = "cv"    -> {[m EXCEPT !.id = y] : y \in DReq(m.id, BadU)} \cup {[m EXCEPT !.t = y] : y \in DReq(m.t, BadI)}
    [] m.m = "cvt"   -> {[m EXCEPT !.t = y] : y \in BadI(m.t)}
    [] m.m = "ce"    -> {[m EXCEPT !.e = y] : y \in BadE(m.e)}
    [] m.m \in {"get", "del"} -> {[m EXCEPT !.q = y] : y \in BadQ(m.q)}
    [] m.m = "set"   -> {[m EXCEPT !.q = y] : y \in DReq(m.q, BadQ)} \cup {[m EXCEPT !.n = y] : y \in DReq(m.n, BadI)} \cup {[m EXCEPT !.v = y] : y \in DReq(m.v, BadJ)}
    [] m.m = "bulk"  -> {[m EXCEPT !.items = y] : y \in DSeq(m.items, BadItem)}
    [] m.m = "index" -> {[m EXCEPT !.n = y] : y \in DReq(m.n, BadI)}
    [] m.m = "plugin" -> {[m EXCEPT !.arg = y] : y \in DOpt(m.arg, BadJ)}

VARIABLES of, bad, msg        \* the operation, whether the request has been damaged, the request
Init == \E o \in Ops : of = o /\ msg = Enc(o) /\ bad = FALSE
Next == ~bad /\ bad' = TRUE /\ of' = of /\ msg' \in Damaged(msg)
Spec == Init /\ [][Next]_<<of, bad, msg>>

Emitted   == PrintT("MSG " \o ToJson(msg))
RoundTrip == ~bad => Decode(msg) = <<of>>
Refused   == bad => Decode(msg) = <<>>
=============================================================================
