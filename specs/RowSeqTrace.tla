---------------------------- MODULE RowSeqTrace ----------------------------
(* One row-algorithm object driven over a sequence of rows and phases with a  *)
(* single work buffer.  Each step is a symbolic row (its count), a numeric    *)
(* row (its entries) or a change of phase; every row must be exactly the row  *)
(* of the (mask-restricted / complemented) product, whatever came before.     *)
EXTENDS SpGEMM, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, phase
vars == <<rec, at, phase>>
Init == rec \in 1..Len(Recs) /\ at = 0 /\ phase = IF Recs[rec].status = "ok" THEN "run" ELSE "rejected"
Mask(c, i) == {c.M[i][p] : p \in 1..Len(c.M[i])}
RowOk(c, x) ==
  LET want == ProductRow(c.mode, c.sr, FALSE, c.A[x.row], c.B, Mask(c, x.row), c.n)
  IN IF x.op = "symbolic" THEN x.count = Cardinality(EntriesOf(want))
     ELSE RowIs(x.cols, x.vals, want) /\ (c.sorted => Ascending(x.cols))
Advance ==
  /\ phase = "run" /\ at < Len(Recs[rec].steps)
  /\ at' = at + 1 /\ UNCHANGED rec
  /\ phase' = IF Recs[rec].steps[at + 1].op = "phase" \/ RowOk(Recs[rec], Recs[rec].steps[at + 1]) THEN "run" ELSE "rejected"
Next == Advance
Spec == Init /\ [][Next]_vars
NotRejected == phase = "rejected" =>
   (PrintT(<<"REJECTED", Recs[rec].id, Recs[rec].types, Recs[rec].status, at, IF at > 0 THEN Recs[rec].steps[at] ELSE <<>> >>) /\ FALSE)
=============================================================================
