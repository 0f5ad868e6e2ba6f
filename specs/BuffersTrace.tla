---------------------------- MODULE BuffersTrace ----------------------------
(* Recorded carvings of real buffers.  Bytes are reported as runs of garbage  *)
(* [start, length].                                                           *)
(*  "carve"   splitMemory/getCleanMemory: offsets, reported dirty, bytes after *)
(*  "give"    an accumulator handed the buffer back: reported dirty, bytes     *)
(*  "alloc"   a batch of aligned allocations: [addr mod align, start, size]    *)
EXTENDS Buffers, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, phase
vars == <<rec, at, phase>>
Init == rec \in 1..Len(Recs) /\ at = 0 /\ phase = IF Recs[rec].status = "ok" THEN "run" ELSE "rejected"
RunsBelow(runs, d) == \A i \in 1..Len(runs) : runs[i][1] + runs[i][2] <= d
NoRunIn(runs, a, len) == \A i \in 1..Len(runs) : runs[i][1] >= a + len \/ runs[i][1] + runs[i][2] <= a
CarvedOk(n, x) ==
  LET dl == x.ds * x.dn cl == x.cs * x.cn IN
  /\ x.cn > 0 => x.coff % x.cs = 0 /\ x.coff >= 0 /\ x.coff + cl <= n
  /\ x.dn > 0 => x.doff % x.ds = 0 /\ x.doff >= 0 /\ x.doff + dl <= n
  /\ (x.dn > 0 /\ x.cn > 0) => (x.doff + dl <= x.coff \/ x.coff + cl <= x.doff)
  /\ NoRunIn(x.runs, x.coff, cl)
  /\ 0 <= x.dirty /\ x.dirty <= n
  /\ RunsBelow(x.runs, x.dirty)
GivenOk(n, x) == 0 <= x.dirty /\ x.dirty <= n /\ RunsBelow(x.runs, x.dirty)
AllocOk(x) ==
  /\ \A i \in 1..Len(x.blocks) : x.blocks[i][1] = 0 /\ x.blocks[i][4] = 1
  /\ \A i, j \in 1..Len(x.blocks) : i < j =>
        \/ x.blocks[i][2] + x.blocks[i][3] <= x.blocks[j][2]
        \/ x.blocks[j][2] + x.blocks[j][3] <= x.blocks[i][2]
StepOk(n, x) == CASE x.op = "carve" -> Fits(n, x.ds, x.dn, x.cs, x.cn) => CarvedOk(n, x)
                  [] x.op = "give" -> GivenOk(n, x)
                  [] x.op = "alloc" -> AllocOk(x)
Advance == /\ phase = "run" /\ at < Len(Recs[rec].steps)
           /\ at' = at + 1 /\ UNCHANGED rec
           /\ phase' = IF StepOk(Recs[rec].n, Recs[rec].steps[at + 1]) THEN "run" ELSE "rejected"
Next == Advance
Spec == Init /\ [][Next]_vars
NotRejected == phase = "rejected" =>
   (PrintT(<<"REJECTED", Recs[rec].id, Recs[rec].status, Recs[rec].n, at, IF at > 0 THEN Recs[rec].steps[at] ELSE <<>> >>) /\ FALSE)
=============================================================================
