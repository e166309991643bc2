------------------------------- MODULE IdTrace -------------------------------
(***************************************************************************)
(* Validation of recorded uses of identifiers and ids (code -> model).     *)
(*   chars  texts made of one kind of character, by ranges of characters   *)
(*   ident  one text offered to one entry point                            *)
(*   same   two accepted identifiers compared                              *)
(*   gen    ids generated, at the same time by several threads             *)
(*   born   vertices created without an id, and their types                *)
(*   seen   the vertices of the database                                   *)
(*   next   the id after an id                                             *)
(* issued: every id ever generated; made: the vertices of the database.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Wire, Ids

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, issued, made
vars == <<l, issued, made>>
Init == l = 1 /\ issued = {} /\ made = {}
ev == Trace[l + 1]
Say(b, x) == IF b THEN TRUE ELSE PrintT(ToJson([mismatch |-> l + 1, expected |-> x])) /\ FALSE

ToSet(s)  == {s[n] : n \in 1..Len(s)}
Chars == /\ ev.op = "chars"
         /\ LET bad == {n \in 1..Len(ev.runs) : ev.runs[n].ok # IdentOk(ev.runs[n])} IN
            Say(bad = {}, "accepted exactly if well formed; wrong for: " \o ToString({ev.runs[n] : n \in bad}))
         /\ UNCHANGED <<issued, made>>
Ident == /\ ev.op = "ident"
         /\ Say(ev.ok = IdentOk(ev), [accepted |-> IdentOk(ev)])
         /\ Say(ev.ok => ev.out = ev.s, [out |-> ev.s])
         /\ UNCHANGED <<issued, made>>
Same  == /\ ev.op = "same"
         /\ LET e == ev.a = ev.b IN
            Say(ev.eq = e /\ ev.set = e /\ ev.cmp = e /\ (e => ev.hash), [equal |-> e])
         /\ UNCHANGED <<issued, made>>
Gen   == /\ ev.op = "gen"
         /\ LET s == ToSet(ev.ids) IN
            /\ Say(Cardinality(s) = Len(ev.ids) /\ s \cap issued = {}, "ids never generated before")
            /\ issued' = issued \cup s
         /\ UNCHANGED made
\* vertices with ids chosen by the caller
Put   == ev.op = "put" /\ made' = made \cup {<<ev.vs[n][1], ev.vs[n][2]>> : n \in 1..Len(ev.vs)} /\ UNCHANGED issued
Born  == /\ ev.op = "born"
         /\ Say(ev.failed = 0, "every creation succeeds")
         /\ LET s == {ev.vs[n][1] : n \in 1..Len(ev.vs)} IN
            /\ Say(Cardinality(s) = Len(ev.vs) /\ s \cap issued = {} /\ s \cap {x[1] : x \in made} = {}, "ids never generated before")
            /\ issued' = issued \cup s
         /\ made' = made \cup {<<ev.vs[n][1], ev.vs[n][2]>> : n \in 1..Len(ev.vs)}
Seen  == /\ ev.op = "seen"
         /\ Say({<<ev.vs[n][1], ev.vs[n][2]>> : n \in 1..Len(ev.vs)} = made /\ Len(ev.vs) = Cardinality(made), "the created vertices with their types")
         /\ UNCHANGED <<issued, made>>
Clear == ev.op = "reset" /\ made' = {} /\ UNCHANGED issued
Nxt   == ev.op = "next" /\ Say(ev.r = Succ(ev.a, 256), Succ(ev.a, 256)) /\ UNCHANGED <<issued, made>>

Next == l < Len(Trace) /\ l' = l + 1 /\ (Chars \/ Ident \/ Same \/ Gen \/ Put \/ Born \/ Seen \/ Clear \/ Nxt)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
