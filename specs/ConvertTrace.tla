---------------------------- MODULE ConvertTrace ----------------------------
(* Recorded conversions.  in: the entries handed in (row, column, value);     *)
(* out: the compressed object that came out, by rows or by columns; dup says  *)
(* what the interface does with repeated entries.  One slice is checked per   *)
(* step.                                                                      *)
EXTENDS Compressed, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, phase
vars == <<rec, at, phase>>
C == Cases[rec]
Maj(c) == IF c.byrow THEN c.m ELSE c.n
Min(c) == IF c.byrow THEN c.n ELSE c.m
Expected(c, i) ==
  LET e == EntriesOf(c.in, c.byrow, i)
  IN IF c.dup = "keep" THEN e ELSE Merge(c.dup, Sorted(e))
SliceOk(c, i) ==
  LET s == Slice(c.out, i + 1) IN
  /\ SameBag(s, Expected(c, i))
  /\ c.order => AscendingIds(s)
(* Of a large object only the slices with something in them are looked at, in *)
(* one step: a slice that no entry belongs to and that is empty is right.     *)
Used(c) == {MajorOf(c.in[p], c.byrow) : p \in 1..Len(c.in)} \cup {i \in 0..(Maj(c) - 1) : c.out.ptr[i + 1] # c.out.ptr[i + 2]}
Large(c) == Maj(c) > 2000
Init == rec \in 1..Len(Cases) /\ at = 0 /\ phase = "start"
Start == /\ phase = "start"
         /\ phase' = (IF C.status = "ok" /\ C.intact /\ WF(C.out, Maj(C), Min(C)) THEN "slices" ELSE "rejected")
         /\ UNCHANGED <<rec, at>>
Step == /\ phase = "slices" /\ at < Maj(C)
        /\ phase' = (IF \A i \in (IF Large(C) THEN Used(C) ELSE {at}) : SliceOk(C, i) THEN "slices" ELSE "rejected")
        /\ at' = (IF Large(C) THEN Maj(C) ELSE at + 1) /\ UNCHANGED rec
Finish == phase = "slices" /\ at = Maj(C) /\ phase' = "accepted" /\ UNCHANGED <<rec, at>>
Next == Start \/ Step \/ Finish
NotRejected == phase = "rejected" => (PrintT(<<"REJECTED", C.id, at, C.how, C.status, C.intact>>) /\ FALSE)
=============================================================================
