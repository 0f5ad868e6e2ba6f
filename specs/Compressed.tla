----------------------------- MODULE Compressed -----------------------------
(* A compressed matrix as raw arrays, o = [maj, min, nnz, ptr, ids, vals]:    *)
(* maj is the number of rows of a CSR matrix or columns of a CSC matrix, min  *)
(* the other dimension, and a list of entries <<major, minor, value>> it      *)
(* stands for.                                                                *)
EXTENDS Integers, Sequences, TLC

WF(o, maj, min) ==
  /\ o.maj = maj /\ o.min = min
  /\ Len(o.ptr) = maj + 1
  /\ o.ptr[1] = 0
  /\ \A i \in 1..maj : o.ptr[i] <= o.ptr[i + 1]
  /\ o.ptr[maj + 1] = o.nnz
  /\ Len(o.ids) = o.nnz /\ Len(o.vals) = o.nnz
  /\ \A p \in 1..o.nnz : o.ids[p] \in 0..(min - 1)

Slice(o, i) == [p \in 1..(o.ptr[i + 1] - o.ptr[i]) |-> <<o.ids[o.ptr[i] + p], o.vals[o.ptr[i] + p]>>]
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Sorted(s) == SortSeq(s, Less)
SameBag(s, t) == Len(s) = Len(t) /\ (s = t \/ Sorted(s) = Sorted(t))
AscendingIds(s) == \A p \in 1..(Len(s) - 1) : s[p][1] <= s[p + 1][1]
StrictIds(s) == \A p \in 1..(Len(s) - 1) : s[p][1] < s[p + 1][1]

Combine(op, x, y) ==
  CASE op = "plus" -> x + y
    [] op = "max"  -> IF x >= y THEN x ELSE y
    [] op = "min"  -> IF x <= y THEN x ELSE y
    [] op = "second" -> y
    [] op = "first"  -> x
RECURSIVE Merge(_, _)
Merge(op, s) ==          \* s sorted by index: equal indices are combined left to right
  IF Len(s) <= 1 THEN s
  ELSE IF s[1][1] = s[2][1] THEN Merge(op, <<<<s[1][1], Combine(op, s[1][2], s[2][2])>>>> \o SubSeq(s, 3, Len(s)))
  ELSE <<s[1]>> \o Merge(op, Tail(s))

(* the entries of major slice i (0-based) in a list of <<row, col, value>>    *)
MajorOf(t, byrow) == IF byrow THEN t[1] ELSE t[2]
MinorOf(t, byrow) == IF byrow THEN t[2] ELSE t[1]
EntriesOf(list, byrow, i) ==
  LET sel == SelectSeq(list, LAMBDA t : MajorOf(t, byrow) = i)
  IN [p \in 1..Len(sel) |-> <<MinorOf(sel[p], byrow), sel[p][3]>>]
=============================================================================
