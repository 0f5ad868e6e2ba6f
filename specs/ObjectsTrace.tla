---------------------------- MODULE ObjectsTrace ----------------------------
(* Recorded histories of matrix objects, checked operation by operation.      *)
EXTENDS ObjectOps, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, objs, phase
vars == <<rec, at, objs, phase>>
R == Recs[rec]
Init == rec \in 1..Len(Recs) /\ at = 0 /\ objs = Recs[rec].init /\ phase = IF Recs[rec].status = "ok" THEN "run" ELSE "rejected"
(* After the last object is gone no array is left: ObjectLife's NoLeak.        *)
Destroy == /\ phase = "run" /\ at = Len(R.steps)
           /\ phase' = (IF R.left = 0 THEN "done" ELSE "rejected") /\ UNCHANGED <<rec, at, objs>>
Operate ==
        /\ phase = "run" /\ at < Len(R.steps)
        /\ LET s == R.steps[at + 1]
               post == s.objs IN
             IF Step(R.tol, objs, post, s) THEN objs' = post /\ phase' = "run" ELSE objs' = objs /\ phase' = "rejected"
        /\ at' = at + 1 /\ UNCHANGED rec
Next == Operate \/ Destroy
NotRejected == phase = "rejected" =>
  (PrintT(<<"REJECTED", R.id, at, R.status, R.kind, IF at > 0 THEN <<R.steps[at].op, R.steps[at].k, R.steps[at].i, R.steps[at].j, R.steps[at].arg>> ELSE <<>> >>) /\ FALSE)
=============================================================================
