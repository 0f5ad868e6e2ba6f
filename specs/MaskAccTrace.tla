---------------------------- MODULE MaskAccTrace ----------------------------
(* Recorded histories of the real accumulators, checked against MaskAcc.      *)
EXTENDS MaskAcc, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, st, phase
vars == <<rec, at, st, phase>>
Init == rec \in 1..Len(Recs) /\ at = 0 /\ st = Fresh(Recs[rec].kind, Recs[rec].n)
        /\ phase = IF Recs[rec].status = "ok" THEN "run" ELSE "rejected"
OutOk(s, x) ==
  LET exp == Output(s, x.o) out == x.out IN
  /\ Len(out) = Cardinality(exp)
  /\ {<<out[i][1], out[i][2]>> : i \in 1..Len(out)} = exp
  /\ x.o[1] = "gathersorted" => \A i \in 1..(Len(out) - 1) : out[i][1] < out[i + 1][1]
StateOk(s, x, valued) ==
  \A k \in Keys(s) : /\ x.s[k + 1] = s.s[k]
                     /\ (valued /\ s.s[k] = "I") => x.v[k + 1] = s.v[k]
StepOk(kind, valued, s, x) ==
  /\ Result(kind, s, x.o) \in {-1, x.res}
  /\ OutOk(s, x)
  /\ StateOk(After(kind, s, x.o), x, valued)
Advance ==
  /\ phase = "run" /\ at < Len(Recs[rec].steps)
  /\ at' = at + 1 /\ UNCHANGED rec
  /\ LET x == Recs[rec].steps[at + 1] kind == Recs[rec].kind IN
       IF Pre(kind, st, x.o) /\ StepOk(kind, Recs[rec].valued, st, x) THEN st' = After(kind, st, x.o) /\ phase' = "run"
       ELSE st' = st /\ phase' = IF Pre(kind, st, x.o) THEN "rejected" ELSE "unfair"
Next == Advance
Spec == Init /\ [][Next]_vars
Fair == phase # "unfair"
NotRejected == phase = "rejected" =>
   (PrintT(<<"REJECTED", Recs[rec].id, Recs[rec].types, Recs[rec].status, at, IF at > 0 THEN Recs[rec].steps[at] ELSE <<>> >>) /\ FALSE)
=============================================================================
