----------------------------- MODULE CountTrace -----------------------------
(* Recorded counts.  a: the columns of A's rows (of the rows of the operand   *)
(* that drives the count); bl: the lengths of B's rows; al: the lengths of    *)
(* A's columns ("inner" only); m: the mask's rows ("work": their columns).    *)
(* per: the per-row counts that came out (or empty).  Totals can exceed TLC's *)
(* integers, so they are recorded modulo three primes (tot) together with     *)
(* whether they lie between 0 and the product of the primes (sane).           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
P == <<32749, 32719, 32717>>
VARIABLES rec, at, acc, phase
vars == <<rec, at, acc, phase>>
C == Cases[rec]
RECURSIVE SumLen(_, _, _)
SumLen(row, bl, k) == IF k > Len(row) THEN 0 ELSE bl[row[k] + 1] + SumLen(row, bl, k + 1)
RECURSIVE WorkOf(_, _, _, _)
WorkOf(cols, la, bl, k) ==
  IF k > Len(cols) THEN 0
  ELSE (IF la # 0 /\ bl[cols[k] + 1] # 0 THEN la + bl[cols[k] + 1] ELSE 0) + WorkOf(cols, la, bl, k + 1)
Units(c) == IF c.kind = "inner" THEN Len(c.bl) ELSE Len(c.a)
RowNeed(c, i) ==
  CASE c.kind = "rows" -> SumLen(c.a[i], c.bl, 1)
    [] c.kind = "masked" -> IF c.m[i] = <<>> THEN 0 ELSE SumLen(c.a[i], c.bl, 1)
    [] c.kind = "work" -> WorkOf(c.m[i], Len(c.a[i]), c.bl, 1)
\* the same modulo p, for rows whose need is itself beyond TLC's integers (c.giant)
RECURSIVE LenMod(_, _, _, _)
LenMod(row, bl, k, p) == IF k > Len(row) THEN 0 ELSE ((bl[row[k] + 1] % p) + LenMod(row, bl, k + 1, p)) % p
RECURSIVE WorkMod(_, _, _, _, _)
WorkMod(cols, la, bl, k, p) ==
  IF k > Len(cols) THEN 0
  ELSE ((IF la # 0 /\ bl[cols[k] + 1] # 0 THEN la + (bl[cols[k] + 1] % p) ELSE 0) + WorkMod(cols, la, bl, k + 1, p)) % p
RowMod(c, i, p) ==
  CASE c.kind = "rows" -> LenMod(c.a[i], c.bl, 1, p)
    [] c.kind = "masked" -> IF c.m[i] = <<>> THEN 0 ELSE LenMod(c.a[i], c.bl, 1, p)
    [] c.kind = "work" -> WorkMod(c.m[i], Len(c.a[i]), c.bl, 1, p)
NeedMod(c, i) == [p \in 1..3 |-> IF c.kind = "inner" THEN ((c.al[i] % P[p]) * (c.bl[i] % P[p])) % P[p] ELSE IF c.giant THEN RowMod(c, i, P[p]) ELSE RowNeed(c, i) % P[p]]
PerOk(c, i) == c.per = <<>> \/ c.kind = "inner" \/ c.per[i] = (IF c.giant THEN RowMod(c, i, P[1]) ELSE RowNeed(c, i))
Init == rec \in 1..Len(Cases) /\ at = 0 /\ acc = <<0, 0, 0>> /\ phase = "start"
Start == /\ phase = "start"
         /\ phase' = (IF C.status = "ok" /\ C.intact /\ C.sane THEN "rows" ELSE "rejected")
         /\ UNCHANGED <<rec, at, acc>>
Step == /\ phase = "rows" /\ at < Units(C)
        /\ LET n == NeedMod(C, at + 1) IN acc' = [p \in 1..3 |-> (acc[p] + n[p]) % P[p]]
        /\ phase' = (IF PerOk(C, at + 1) THEN "rows" ELSE "rejected")
        /\ at' = at + 1 /\ UNCHANGED rec
Finish == /\ phase = "rows" /\ at = Units(C)
          /\ phase' = (IF \A p \in 1..3 : C.tot[p] = (C.factor * acc[p]) % P[p] THEN "accepted" ELSE "rejected")
          /\ UNCHANGED <<rec, at, acc>>
Next == Start \/ Step \/ Finish
NotRejected == phase = "rejected" => (PrintT(<<"REJECTED", C.id, at, C.kind, C.status, C.intact, C.tot>>) /\ FALSE)
=============================================================================
