---------------------------- MODULE ProductTrace ----------------------------
(* Validates recorded multiplications.  Every record is its own behaviour:    *)
(* Start (arrays fit together, inputs untouched), then one step per row (per  *)
(* 1000 rows of a tall matrix), each of which recomputes the row from the     *)
(* inputs with the definitions of SpGEMM and compares it with the stored row.   A record that does not match moves   *)
(* to phase "rejected", which the invariant forbids.                          *)
EXTENDS SpGEMM, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, row, phase
vars == <<rec, row, phase>>

C(r) == Cases[r]
MaskRow(c, i) == IF c.mode = "full" THEN {} ELSE {c.M[i][p] : p \in 1..Len(c.M[i])}
Slice(s, a, b) == SubSeq(s, a + 1, b)

StartOk(c) == c.status = "ok" /\ WellFormed(c, c.m, c.n) /\ c.intact

RowOk(c, i) ==
  LET cs == Slice(c.colids, c.rowptr[i], c.rowptr[i + 1])
      vs == Slice(c.values, c.rowptr[i], c.rowptr[i + 1])
      acc == ProductRow(c.mode, c.sr, c.swap, c.A[i], c.B, MaskRow(c, i), c.n)
  IN RowIs(cs, vs, acc) /\ (c.sorted => Ascending(cs))

Stride(c) == IF c.m > 5000 THEN 1000 ELSE 1
Min2(a, b) == IF a < b THEN a ELSE b

Init == rec \in 1..Len(Cases) /\ row = 0 /\ phase = "start"

Start ==
  /\ phase = "start"
  /\ phase' = IF StartOk(C(rec)) THEN "rows" ELSE "rejected"
  /\ row' = 1
  /\ UNCHANGED rec

RowStep ==
  /\ phase = "rows"
  /\ row <= C(rec).m
  /\ LET last == Min2(C(rec).m, row + Stride(C(rec)) - 1) IN
     /\ phase' = IF \A i \in row..last : RowOk(C(rec), i) THEN "rows" ELSE "rejected"
     /\ row' = last + 1
  /\ UNCHANGED rec

Finish == phase = "rows" /\ row = C(rec).m + 1 /\ phase' = "accepted" /\ UNCHANGED <<rec, row>>

Next == Start \/ RowStep \/ Finish
Spec == Init /\ [][Next]_vars

Brief(c) == [id |-> c.id, algs |-> c.algs, sr |-> c.sr, types |-> c.types, status |-> c.status]
NotRejected == phase = "rejected" => (PrintT(<<"REJECTED", Cases[rec].id, row - 1, Cases[rec].algs, Cases[rec].types, Cases[rec].sr, Cases[rec].status>>) /\ FALSE)
=============================================================================
