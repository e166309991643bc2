----------------------------- MODULE MemImage -----------------------------
(***************************************************************************)
(* How the in-memory datastore stores its image: a sync writes the current *)
(* contents, in several writes, to a temporary file beside the image,      *)
(* flushes what is buffered, and renames it over the image. Any call may   *)
(* fail or do only part of its work, and the process may be killed between *)
(* any two steps. Contents are abstract version numbers; an image consists *)
(* of Chunks pieces and can be loaded when it is complete.                 *)
(*                                                                         *)
(* Design selects the protocol: "rename" is the implemented one, the       *)
(* others are protocols with realistic defects, for which TLC must find a  *)
(* violation (they show that the properties below can fail).               *)
(* The module refines ImageAbs, the behaviour against which the recorded   *)
(* syncs, kills and faults of the real code are validated (module Conform: *)
(* actions Sync, Crash, Reload).                                           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Versions, Chunks, Design

None == [ver |-> 0, len |-> 0, there |-> FALSE]

VARIABLES cur,    \* contents in memory
          image,  \* the file at the persist path
          temp,   \* the temporary file
          buf,    \* chunks buffered in the process, not yet written
          pc,     \* "idle", "open", "write", "flush", "rename", "fail", "dead"
          res,    \* result of the last sync: "none", "ok", "err"
          disk    \* history variable: what a load must yield (ImageAbs)
vars == <<cur, image, temp, buf, pc, res, disk>>

Empty == 0     \* the empty database is version 0
Absent == 100
Damaged == 101
Init == cur = Empty /\ image = None /\ temp = None /\ buf = 0 /\ pc = "idle" /\ res = "none" /\ disk = Absent

Complete(f) == f.there /\ f.len = Chunks

Mutate == pc = "idle" /\ cur' \in Versions /\ cur' # cur /\ UNCHANGED <<image, temp, buf, pc, res, disk>>
Begin  == pc = "idle" /\ pc' = "open" /\ res' = "none" /\ UNCHANGED <<cur, image, temp, buf, disk>>

Target == IF Design = "inplace" THEN image ELSE temp
Open   == /\ pc = "open" /\ pc' = "write" /\ buf' = Chunks
          /\ LET f == [ver |-> cur, len |-> 0, there |-> TRUE] IN
             IF Design = "inplace" THEN image' = f /\ temp' = temp ELSE temp' = f /\ image' = image
          /\ UNCHANGED <<cur, res, disk>>
\* a write stores one or more of the remaining chunks; the last ones stay buffered until the flush
Write(n) == /\ pc = "write" /\ n \in 1..buf
            /\ LET f == [Target EXCEPT !.len = @ + n] IN
               IF Design = "inplace" THEN image' = f /\ temp' = temp ELSE temp' = f /\ image' = image
            /\ buf' = buf - n
            /\ pc' = IF buf' <= 1 THEN "flush" ELSE "write"
            /\ UNCHANGED <<cur, res, disk>>
Flush == /\ pc = "flush"
         /\ LET f == [Target EXCEPT !.len = @ + buf] IN
            IF Design = "inplace" THEN image' = f /\ temp' = temp ELSE temp' = f /\ image' = image
         /\ buf' = 0 /\ pc' = "rename" /\ UNCHANGED <<cur, res, disk>>
\* a call fails; part of a write may have been done
Fail == /\ pc \in {"open", "write", "flush", "rename"}
        /\ \E n \in 0..buf : LET f == [Target EXCEPT !.len = @ + n] IN
             IF pc \in {"open", "rename"} THEN UNCHANGED <<image, temp>>
             ELSE IF Design = "inplace" THEN image' = f /\ temp' = temp ELSE temp' = f /\ image' = image
        /\ IF Design = "noflushcheck" /\ pc = "flush" THEN pc' = "rename" /\ res' = res ELSE pc' = "fail" /\ res' = res
        /\ buf' = 0 /\ UNCHANGED <<cur, disk>>
Cleanup == /\ pc = "fail" /\ temp' = None /\ pc' = "idle" /\ res' = "err" /\ UNCHANGED <<cur, image, buf, disk>>
Rename == /\ pc = "rename"
          /\ IF Design = "inplace" THEN image' = image
             ELSE IF Design = "removefirst" THEN image' = None
             ELSE image' = temp
          /\ IF Design = "removefirst" THEN pc' = "rename2" /\ UNCHANGED <<temp, res, disk>>
             ELSE pc' = "idle" /\ res' = "ok" /\ temp' = None /\ disk' = cur
          /\ UNCHANGED <<cur, buf>>
Rename2 == /\ pc = "rename2" /\ image' = temp /\ temp' = None /\ pc' = "idle" /\ res' = "ok" /\ disk' = cur /\ UNCHANGED <<cur, buf>>

\* the process is killed: memory is gone, files stay
Kill == pc # "dead" /\ pc' = "dead" /\ buf' = 0 /\ res' = "none" /\ cur' = Empty /\ UNCHANGED <<image, temp>>
        /\ disk' = disk
\* a new process loads the image (there is none before the first sync)
Load == /\ pc = "dead" /\ (image.there => Complete(image))
        /\ cur' = IF image.there THEN image.ver ELSE Empty
        /\ pc' = "idle" /\ temp' = None /\ UNCHANGED <<image, buf, res, disk>>

Next == Mutate \/ Begin \/ Open \/ (\E n \in 1..Chunks : Write(n)) \/ Flush \/ Fail \/ Cleanup \/ Rename \/ Rename2 \/ Kill \/ Load
Spec == Init /\ [][Next]_vars

\* what a load would find
Found == IF ~image.there THEN Absent ELSE IF Complete(image) THEN image.ver ELSE Damaged

\* C12: the image is always absent (before the first sync) or complete, and the last one stored
NeverDamaged == Found # Damaged
LastGood     == Found = disk
\* a sync that reports success has stored the complete contents
OkIsStored   == pc = "idle" /\ res = "ok" => Found # Absent
=============================================================================
