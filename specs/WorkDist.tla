------------------------------ MODULE WorkDist ------------------------------
(* Work distribution: what must hold of the row ranges handed to threads, and *)
(* of the size bounds computed for a range.  Rows are 0 .. n-1; sequences are *)
(* indexed from 1, so row r is element r+1.                                   *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumUpto(_, _)
SumUpto(s, n) == IF n = 0 THEN 0 ELSE SumUpto(s, n - 1) + s[n]
RECURSIVE MaxIn(_, _, _)
MaxIn(s, b, e) == IF e <= b THEN 0 ELSE LET x == MaxIn(s, b, e - 1) IN IF s[e] > x THEN s[e] ELSE x   \* rows b .. e-1
Min(a, b) == IF a < b THEN a ELSE b

\* ranges: a sequence of <<begin, end>>, one per thread
Partition(ranges, n) ==
  /\ Len(ranges) > 0
  /\ ranges[1][1] = 0 /\ ranges[Len(ranges)][2] = n
  /\ \A t \in 1..Len(ranges) : ranges[t][1] <= ranges[t][2]
  /\ \A t \in 1..(Len(ranges) - 1) : ranges[t][2] = ranges[t + 1][1]

RECURSIVE UpperSize(_, _, _, _, _)
UpperSize(comp, f, m, b, e) ==
  IF e <= b THEN 0 ELSE UpperSize(comp, f, m, b, e - 1) + (IF comp THEN f[e] ELSE Min(f[e], m[e]))

(* -------------------- the algorithms of the code, for exploration --------- *)
Cum(w) == [i \in 1..(Len(w) + 1) |-> SumUpto(w, i - 1)]        \* exclusive sums, total at the end
LowerBound(s, n, x) == IF \E i \in 1..n : s[i] >= x THEN (CHOOSE i \in 1..n : s[i] >= x /\ \A j \in 1..(i - 1) : s[j] < x) - 1 ELSE n
DriverRange(w, T, t) ==
  LET n == Len(w)  c == Cum(w)  per == SumUpto(w, n) \div T IN
  <<IF t = 0 THEN 0 ELSE LowerBound(c, n, per * t), IF t = T - 1 THEN n ELSE LowerBound(c, n, per * (t + 1))>>
BinOffset(w, T, t, lastFixed) ==
  LET n == Len(w)  c == Cum(w)  avg == (SumUpto(w, n) + T - 1) \div T IN
  IF t = 0 THEN 0 ELSE IF t = T /\ lastFixed THEN n ELSE Min(LowerBound(c, n + 1, avg * t), n)
=============================================================================
