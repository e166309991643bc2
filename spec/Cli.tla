-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command-line client: which command lines are well formed, what each *)
(* does to the graph (IndraGraph), how it ends and what it prints.         *)
(*   c : setV setE setVP setEP cntV cntE getV getE getVP getEP             *)
(*       delV delE delVP delEP ping usage (no command of the client)       *)
(*   ids are texts in one of several notations: [f |-> notation, u |-> id],*)
(*       f = "bad" if it is no id; identifiers and JSON texts as in Wire;  *)
(*       optional arguments are sequences of length 0 or 1                 *)
(* What is printed is observed as the ids (in order) and the other values  *)
(* (strings, numbers, true, false, null; in any order) in the output.      *)
(***************************************************************************)
EXTENDS Plugins, Wire
CONSTANT Toks(_)       \* the values inside a JSON value

TextOk(u) == u.f # "bad"
OwnerOk(x) == CASE x.c \in {"setV", "cntV", "cntE", "ping"} -> TRUE
                [] x.c \in {"getV", "delV", "setVP", "getVP", "delVP"} -> TextOk(x.u)
                [] x.c \in {"setE", "getE", "delE", "setEP", "getEP", "delEP"} -> TextOk(x.o) /\ IdentOk(x.t) /\ TextOk(x.i)
CliOk(x) ==
  /\ x.c # "usage" /\ OwnerOk(x)
  /\ CASE x.c = "setV" -> IdentOk(x.t) /\ \A n \in 1..Len(x.id) : TextOk(x.id[n])
       [] x.c \in {"setVP", "setEP"} -> IdentOk(x.n) /\ JsonOk(x.v)
       [] x.c \in {"getVP", "getEP"} -> \A n \in 1..Len(x.n) : IdentOk(x.n[n])
       [] x.c \in {"delVP", "delEP"} -> IdentOk(x.n)
       [] OTHER -> TRUE

TheEdge(x) == <<x.o.u, x.t.s, x.i.u>>
IsStr(s)   == "s:" \o s
Owner(x)   == IF x.c \in {"getV", "delV", "setVP", "getVP", "delVP"} THEN [q |-> "SpecV", ids |-> <<x.u.u>>]
              ELSE [q |-> "SpecE", es |-> <<TheEdge(x)>>]
NameOf(x)  == IF Len(x.n) = 0 THEN <<>> ELSE <<x.n[1].s>>

\* what the printed form of one result item must contain
RECURSIVE PropToks(_)
PropToks(ps) == IF ps = {} THEN <<>>
                ELSE LET p == CHOOSE y \in ps : TRUE IN <<IsStr(p[1])>> \o Toks(p[2]) \o PropToks(ps \ {p})
Shown(S, out) ==
  CASE out.k = "V"  -> [ids |-> [n \in 1..Len(out.s) |-> out.s[n][1]], toks |-> [n \in 1..Len(out.s) |-> IsStr(out.s[n][2])]]
    [] out.k = "E"  -> [ids |-> Flat([n \in 1..Len(out.s) |-> <<out.s[n][1], out.s[n][3]>>]), toks |-> [n \in 1..Len(out.s) |-> IsStr(out.s[n][2])]]
    [] out.k = "VP" -> [ids |-> [n \in 1..Len(out.s) |-> out.s[n].it[1]],
                        toks |-> Flat([n \in 1..Len(out.s) |-> <<IsStr(out.s[n].it[2])>> \o PropToks(out.s[n].ps)])]
    [] out.k = "EP" -> [ids |-> Flat([n \in 1..Len(out.s) |-> <<out.s[n].it[1], out.s[n].it[3]>>]),
                        toks |-> Flat([n \in 1..Len(out.s) |-> <<IsStr(out.s[n].it[2])>> \o PropToks(out.s[n].ps)])]
    [] out.k = "C"  -> [ids |-> <<>>, toks |-> <<"n:" \o ToString(out.s)>>]

Good(S, sh) == [fine |-> TRUE, st |-> S, show |-> <<sh>>]
Quiet(S)    == [fine |-> TRUE, st |-> S, show |-> <<>>]
Bad(S)      == [fine |-> FALSE, st |-> S, show |-> <<>>]
\* the effect of a well-formed command; gen is the id of a vertex created without one
CliDo(S, x, gen) ==
  CASE x.c = "ping" -> Quiet(S)
    [] x.c = "setV" -> LET i == IF x.id = <<>> THEN gen ELSE x.id[1].u IN
                       IF i \in DOMAIN S.V THEN Bad(S)
                       ELSE Good(CreateV(S, i, x.t.s), [ids |-> <<i>>, toks |-> <<IsStr(x.t.s)>>])
    [] x.c = "setE" -> IF CanEdge(S, TheEdge(x)) THEN Good(CreateE(S, TheEdge(x)), [ids |-> <<x.o.u, x.i.u>>, toks |-> <<IsStr(x.t.s)>>])
                       ELSE Bad(S)
    [] x.c \in {"setVP", "setEP"} -> Quiet(DoSet(S, Owner(x), x.n.s, x.v.v).st)
    [] x.c \in {"delV", "delE"}   -> Quiet(DoDelete(S, Owner(x)).st)
    [] x.c \in {"delVP", "delEP"} -> Quiet(DoDelete(S, [q |-> "PProp", in |-> Owner(x), n |-> <<x.n.s>>]).st)
    [] OTHER -> LET q == CASE x.c = "cntV" -> [q |-> "Cnt", in |-> [q |-> "AllV"]]
                           [] x.c = "cntE" -> [q |-> "Cnt", in |-> [q |-> "AllE"]]
                           [] x.c \in {"getV", "getE"} -> Owner(x)
                           [] OTHER -> [q |-> "PProp", in |-> Owner(x), n |-> NameOf(x)]
                    r == DoGet(S, q) IN
                Good(S, Shown(S, r.res.o[1]))
CliStep(S, x, gen) == IF CliOk(x) THEN CliDo(S, x, gen) ELSE Bad(S)

\* an observed end of a command: its exit code, whether it printed anything, and the ids
\* and other values it printed
CliFits(y, r) == /\ (r.rc = 0) = y.fine
                 /\ ~y.fine => r.said
                 /\ y.show # <<>> => r.ids = y.show[1].ids /\ MultiSet(r.toks) = MultiSet(y.show[1].toks)
=============================================================================
