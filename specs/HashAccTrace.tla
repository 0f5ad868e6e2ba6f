---------------------------- MODULE HashAccTrace ----------------------------
(* Recorded histories of the real accumulator, checked against HashAcc.       *)
(* A step is [o |-> <<op,key,value,flag>>, res, out (sequence of <<key,value>>), *)
(* dump: TRUE if found is the full look-up of the universe after the step].   *)
EXTENDS HashAcc, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, st, phase
vars == <<rec, at, st, phase>>
Init == rec \in 1..Len(Recs) /\ at = 0 /\ st = Fresh
        /\ phase = IF Recs[rec].status = "ok" THEN "run" ELSE "rejected"
Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
SameEntry(spec, got) == spec[1] = ANY \/ spec[1] = got
OutOk(s, o, out) ==
  LET exp == Output(s, o) IN
  /\ Len(out) = Cardinality(exp)
  /\ {<<out[i][1], out[i][2]>> : i \in 1..Len(out)} = exp
FoundOk(s, found) ==
  /\ {found[i][1] : i \in 1..Len(found)} = DOMAIN s.map
  /\ \A i \in 1..Len(found) : /\ s.map[found[i][1]][1] \in {ANY, found[i][2]}
                              /\ s.map[found[i][1]][2] = found[i][3]
StepOk(s, x) ==
  /\ x.res = Result(s, x.o)
  /\ OutOk(s, x.o, x.out)
  /\ x.asc
  /\ x.dump => FoundOk(After(s, x.o), x.found)
Advance ==
  /\ phase = "run" /\ at < Len(Recs[rec].steps)
  /\ at' = at + 1 /\ UNCHANGED rec
  /\ LET x == Recs[rec].steps[at + 1] IN
       IF Pre(st, x.o) /\ StepOk(st, x) THEN st' = After(st, x.o) /\ phase' = "run"
       ELSE st' = st /\ phase' = IF Pre(st, x.o) THEN "rejected" ELSE "unfair"
Next == Advance
Spec == Init /\ [][Next]_vars
Fair == phase # "unfair"       \* the harness only issues allowed operations
NotRejected == phase = "rejected" =>
   (PrintT(<<"REJECTED", Recs[rec].id, Recs[rec].types, Recs[rec].status, at, IF at > 0 THEN Recs[rec].steps[at] ELSE <<>> >>) /\ FALSE)
=============================================================================
