---------------------------- MODULE WorkDistTrace ----------------------------
(* Validates recorded work distributions (see harness/workdist.cpp).          *)
EXTENDS WorkDist, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, phase
vars == <<rec, phase>>

\* the bounds a thread computed cover rows b .. e-1
BoundsOk(c, b, e, ub, ma, mm, mf) ==
  /\ ub >= UpperSize(c.comp, c.f, c.m, b, e)
  /\ ma >= MaxIn(c.a, b, e) /\ mm >= MaxIn(c.m, b, e) /\ mf >= MaxIn(c.f, b, e)
DirectOk(c) == /\ Partition(c.ranges, c.n)
               /\ \A t \in 1..Len(c.bounds) :
                    LET x == c.bounds[t] IN BoundsOk(c, c.ranges[t][1], c.ranges[t][2], x[1], x[2], x[3], x[4])

\* a multiplication with a row algorithm that only records what it is asked to do
RECURSIVE Concat(_, _)
Concat(s, k) == IF k = 0 THEN << >> ELSE Concat(s, k - 1) \o s[k]
RowsOk(c, lists) ==       \* every row with work once, ranges of the threads in order
  LET all == Concat(lists, Len(lists)) IN
  /\ \A i \in 1..(Len(all) - 1) : all[i] < all[i + 1]
  /\ \A i \in 1..Len(all) : all[i] >= 0 /\ all[i] < c.n
  /\ \A r \in 0..(c.n - 1) : c.f[r + 1] > 0 => \E i \in 1..Len(all) : all[i] = r
Emitted(c, r) == IF c.comp THEN c.f[r] ELSE Min(c.f[r], c.m[r])
DriverOk(c) ==
  /\ RowsOk(c, c.numeric)
  /\ c.phases = 2 => RowsOk(c, c.symbolic)
  /\ \A t \in 1..Len(c.ctor) : LET x == c.ctor[t] IN     \* <<columns, maxA, maxM, maxFlops>>, -1 where not asked for
       \A i \in 1..Len(c.numeric[t]) : LET r == c.numeric[t][i] + 1 IN
          /\ x[1] >= c.cols
          /\ x[2] >= 0 => x[2] >= c.a[r]
          /\ x[3] >= 0 => x[3] >= c.m[r]
          /\ x[4] >= 0 => x[4] >= c.f[r]
  /\ c.rowptr[1] = 0 /\ \A r \in 1..c.n : c.rowptr[r + 1] = c.rowptr[r] + Emitted(c, r)
  /\ \A r \in 1..c.n : \A p \in (c.rowptr[r] + 1)..c.rowptr[r + 1] : c.values[p] = r - 1

\* binning: f = work per row (capped by the columns when tables are sized)
RECURSIVE Shl(_, _)
Shl(x, k) == IF k = 0 THEN x ELSE 2 * Shl(x, k - 1)
BinOk(c) ==
  LET off == c.offsets IN
  /\ Len(off) = c.threads + 1
  /\ Partition([t \in 1..c.threads |-> <<off[t], off[t + 1]>>], c.n)
  /\ c.rownz = c.f                                  \* products per row
  /\ c.total = SumUpto(c.f, c.n)
  /\ \A r \in 1..c.n : LET need == Min(c.f[r], c.cols) IN
        IF need = 0 THEN c.bin[r] = 0 ELSE c.bin[r] >= 1 /\ Shl(c.min, c.bin[r] - 1) >= need
  /\ \A t \in 1..c.threads : \A r \in (off[t] + 1)..off[t + 1] :
        c.bin[r] > 0 => c.table[t] >= Shl(c.min, c.bin[r] - 1)
  \* after the true row sizes are known the bins may only shrink
  /\ \A r \in 1..c.n : IF c.nz2[r] = 0 THEN c.bin2[r] = 0
        ELSE c.bin2[r] >= 1 /\ Shl(c.min, c.bin2[r] - 1) >= Min(c.nz2[r], c.cols) /\ c.bin2[r] <= c.bin[r]
Ok(c) == /\ c.status = "ok"
         /\ CASE c.kind = "direct" -> DirectOk(c) [] c.kind = "driver" -> DriverOk(c) [] c.kind = "bin" -> BinOk(c)
Init == rec \in 1..Len(Cases) /\ phase = "start"
Next == phase = "start" /\ phase' = (IF Ok(Cases[rec]) THEN "accepted" ELSE "rejected") /\ UNCHANGED rec
NotRejected == phase = "rejected" => (PrintT(<<"REJECTED", Cases[rec].id, Cases[rec].kind, Cases[rec].threads, Cases[rec].status>>) /\ FALSE)
=============================================================================
