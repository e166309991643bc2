------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Validation of recorded executions of the real code (code -> model).     *)
(* The trace file is ndjson; its first line is a header                    *)
(*   {"types": [...edge types in the datastore's order...]}                *)
(* and every further line one completed operation with its result.         *)
(* Each line must be explained by the operation of IndraGraph; "reset"     *)
(* starts a new history on an empty database.                              *)
(* Persistence: disk is the last synced image (in-memory datastore).       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Hdr   == Trace[1]
TypeRankOf == [t \in {Hdr.types[n] : n \in 1..Len(Hdr.types)} |-> CHOOSE n \in 1..Len(Hdr.types) : Hdr.types[n] = t]

TRank(t) == TypeRankOf[t]
Plugs == IF "plugins" \in DOMAIN Hdr THEN {Hdr.plugins[n] : n \in 1..Len(Hdr.plugins)} ELSE {}
\* what printed values consist of: Hdr.toks (value text -> texts)
ToksOf(v) == Hdr.toks[v]
INSTANCE Cli WITH TypeRank <- TRank, Registered <- Plugs, Toks <- ToksOf

\* ticks: how often the counting plugin was called, by key
VARIABLES l, st, disk, ticks
vars == <<l, st, disk, ticks>>

NoImage == [V |-> EmptyFcn, E |-> {}, VP |-> EmptyFcn, EP |-> EmptyFcn, IX |-> {"<no image>"}]

Init == l = 1 /\ st = EmptyGraph /\ disk = NoImage /\ ticks = EmptyFcn

ev == Trace[l + 1]

Explain(x) ==
  PrintT(ToJson([mismatch |-> l + 1, expected |-> x]))

Reset  == ev.op = "reset" /\ st' = EmptyGraph /\ disk' = NoImage
\* Say(b, x): b, and if b is false print what was expected instead
Say(b, x) == IF b THEN TRUE ELSE Explain(x) /\ FALSE
Faulty == "fault" \in DOMAIN ev
\* a sync of a database with a persist path stores the current state; one during which the system
\* failed calls may report an error, and has then stored all or nothing
Sync   == /\ ev.op = "msync" /\ st' = st
          /\ Say(ev.res.k = "ok" \/ (Faulty /\ ev.res.k = "err"), "ok")
          /\ \/ disk' = st
             \/ ev.res.k = "err" /\ disk' = disk
\* the process ends and the persisted image is loaded again
Reload == ev.op = "reload" /\ Say(ev.res.k = "ok", "ok")
          /\ st' = (IF disk = NoImage THEN EmptyGraph ELSE disk) /\ disk' = disk
\* a durable database is opened again, or repaired offline
Reopen == ev.op \in {"reopen", "repair"} /\ Say(ev.res.k = "ok", "ok") /\ UNCHANGED <<st, disk>>
\* the process ends by itself after its last operation
Exit   == ev.op = "exit" /\ UNCHANGED <<st, disk>>
\* the process is killed; ev.fly has the operation in progress, if any: it happened or it did not
Crash  == ev.op = "crash" /\
          \/ UNCHANGED <<st, disk>>
          \/ /\ ev.fly # <<>>
             /\ IF ev.fly[1].op = "msync" THEN disk' = st /\ st' = st
                ELSE ev.fly[1].op \notin {"repair"} /\ st' = Step(st, ev.fly[1]).st /\ disk' = disk
\* a request on the wire: a malformed one is refused and has no effect
OnWire == /\ ev.op = "wire" /\ disk' = disk
          /\ LET d == Decode(ev) IN
             IF d = <<>> THEN Say(ev.res.k = "err" /\ ev.res.e = "InvalidArgument", "InvalidArgument") /\ st' = st
             ELSE LET op == d[1] @@ [res |-> ev.res]
                      x  == Run(st, ticks, op) IN
                  Say(Fits(op, x.res, ev.res), Expected(x.res, ev.res)) /\ st' = x.st
\* bytes that are no message at all are refused; a bulk stream that never ends has no effect
Junk   == ev.op = "junk" /\ Say(ev.res.k = "err", "an error") /\ UNCHANGED <<st, disk>>
CutOff == ev.op = "cutoff" /\ UNCHANGED <<st, disk>>
\* a command of the command-line client; a vertex created without an id has one that is printed
NoId    == 2000000001
Command == /\ ev.op = "cli" /\ disk' = disk
           /\ LET gen == IF ev.c = "setV" /\ ev.id = <<>> /\ ev.res.ids # <<>> THEN ev.res.ids[1] ELSE NoId
                  y   == CliStep(st, ev, gen) IN
              Say(CliFits(y, ev.res), y) /\ st' = y.st
\* a server on a path that is in use or holds no readable data does not start
BadStart == ev.op = "badstart" /\ Say(ev.res.rc # 0 /\ ~ev.res.served, "a failure") /\ UNCHANGED <<st, disk>>
Special == {"cli", "badstart", "reset", "msync", "reload", "reopen", "repair", "exit", "crash", "died", "wire", "junk", "cutoff"}
Do     == /\ ev.op \notin Special
          /\ LET x == Run(st, ticks, ev) IN
               /\ IF Fits(ev, x.res, ev.res) THEN TRUE ELSE Explain(Expected(x.res, ev.res)) /\ FALSE
               /\ st' = x.st
          /\ disk' = disk

Next == l < Len(Trace) /\ l' = l + 1 /\ ticks' = Ticked(ticks, ev) /\ (Reset \/ Sync \/ Reload \/ Reopen \/ Exit \/ Crash \/ OnWire \/ Junk \/ CutOff \/ Command \/ BadStart \/ Do)
Spec == Init /\ [][Next]_vars

\* invariants evaluated at every step of every recorded execution
NoDangling == NoDanglingEdges(st)
NoOrphans  == NoOrphanProps(st)

Accepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
