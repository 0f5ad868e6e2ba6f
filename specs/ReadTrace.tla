------------------------------ MODULE ReadTrace ------------------------------
(* Recorded runs of the readers: the reader state machine consumes the lines  *)
(* of the file, then the matrix delivered is compared slice by slice.         *)
EXTENDS Compressed, ReadFile, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, s, phase
vars == <<rec, at, s, phase>>
C == Cases[rec]
ByRow == C.kind = "csr"
Maj == IF ByRow THEN s.m ELSE s.n
Min == IF ByRow THEN s.n ELSE s.m
NoVals(list) == [p \in DOMAIN list |-> <<list[p][1], list[p][2], 0>>]
Want == IF C.anyval THEN NoVals(s.list) ELSE s.list
TLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
\* triples are delivered in any order
TriplesOk == /\ C.tm = s.m /\ C.tn = s.n
             /\ Len(C.list) = Len(Want)
             /\ SortSeq(C.list, TLess) = SortSeq(Want, TLess)
SliceOk(i) == LET t == Slice(C.out, i + 1) IN
              SameBag(t, EntriesOf(s.list, ByRow, i)) /\ (C.kind # "csr" => AscendingIds(t))
Init == rec \in 1..Len(Cases) /\ at = 0 /\ s = Start(Cases[rec].one) /\ phase = IF Cases[rec].status = "ok" THEN "lines" ELSE "rejected"
Read == /\ phase = "lines" /\ at < Len(C.lines)
        /\ s' = Line(s, C.lines[at + 1], C.nodiag) /\ at' = at + 1 /\ UNCHANGED <<rec, phase>>
Compare == /\ phase = "lines" /\ at = Len(C.lines)
           /\ phase' = (IF s.st # "done" THEN "rejected"
                        ELSE IF C.kind = "triples" THEN (IF TriplesOk THEN "accepted" ELSE "rejected")
                        ELSE IF WF(C.out, Maj, Min) THEN "slices" ELSE "rejected")
           /\ at' = 0 /\ UNCHANGED <<rec, s>>
(* of a large matrix the slices with something in them, in one step            *)
Large == Maj > 2000
Used == {MajorOf(s.list[p], ByRow) : p \in 1..Len(s.list)} \cup {i \in 0..(Maj - 1) : C.out.ptr[i + 1] # C.out.ptr[i + 2]}
Step == /\ phase = "slices" /\ at < Maj
        /\ phase' = (IF \A i \in (IF Large THEN Used ELSE {at}) : SliceOk(i) THEN "slices" ELSE "rejected")
        /\ at' = (IF Large THEN Maj ELSE at + 1) /\ UNCHANGED <<rec, s>>
Next == Read \/ Compare \/ Step
NotRejected == phase = "rejected" => (PrintT(<<"REJECTED", C.id, at, C.kind, C.status, s.st, C.format>>) /\ FALSE)
=============================================================================
