----------------------------- MODULE SortTrace -----------------------------
(* Recorded calls of the repository's sorting routines.                       *)
EXTENDS Sorting, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, phase
Good(r) == r.crash = "" /\ r.live = 0 /\ Sorts(r.tagged, r.stable, r.cmp, r.keys, r.out)
Init == rec \in 1..Len(Recs) /\ phase = "call"
Next == phase = "call" /\ rec' = rec /\ phase' = (IF Good(Recs[rec]) THEN "accepted" ELSE "rejected")
NotRejected == phase = "rejected" =>
   LET r == Recs[rec]
   IN PrintT(<<"REJECTED", r.id, r.sort, r.type, r.box, IF r.crash # "" THEN r.crash ELSE IF r.live # 0 THEN "objects created and destroyed do not match"
               ELSE IF r.tagged /\ ~Permutes(r.keys, r.out) THEN "not a permutation" ELSE "not ordered (or not stable, or keys changed)", Len(r.keys)>>) /\ FALSE
=============================================================================
