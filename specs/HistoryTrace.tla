---------------------------- MODULE HistoryTrace ----------------------------
(* Recorded histories of multiplications, checked step by step against        *)
(* Workspace.                                                                 *)
EXTENDS Workspace, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, objs, phase
vars == <<rec, at, objs, phase>>

Init == /\ rec \in 1..Len(Recs) /\ at = 0 /\ objs = Recs[rec].init
        /\ phase = IF Recs[rec].status = "ok" THEN "run" ELSE "rejected"
Advance ==
  /\ phase = "run"
  /\ at < Len(Recs[rec].steps)
  /\ LET s == Recs[rec].steps[at + 1] IN
       IF Step(objs, s.objs, s) THEN objs' = s.objs /\ phase' = "run"
       ELSE objs' = objs /\ phase' = "rejected"
  /\ at' = at + 1
  /\ UNCHANGED rec
(* All objects are gone: nothing the multiplications obtained is left.         *)
Destroy ==
  /\ phase = "run" /\ at = Len(Recs[rec].steps)
  /\ phase' = IF Recs[rec].left = 0 THEN "done" ELSE "rejected"
  /\ UNCHANGED <<rec, at, objs>>
Next == Advance \/ Destroy
Spec == Init /\ [][Next]_vars
NotRejected == phase = "rejected" =>
   (PrintT(<<"REJECTED", Recs[rec].id, at, Recs[rec].types, Recs[rec].status, IF at > 0 THEN Recs[rec].steps[at].alg ELSE "-",
             IF at > 0 THEN <<Recs[rec].steps[at].a, Recs[rec].steps[at].b, Recs[rec].steps[at].m, Recs[rec].steps[at].c>> ELSE <<>> >>) /\ FALSE)
=============================================================================
