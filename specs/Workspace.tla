------------------------------ MODULE Workspace ------------------------------
(* A pool of matrix objects and the masked multiplications performed on them. *)
(* State: the raw arrays of every object.  A multiplication may name the same *)
(* object as several of A, B, M and C; it reads the old contents and replaces *)
(* the object C, nothing else changes.                                        *)
EXTENDS SpGEMM

RowOf(o, i) == [p \in 1..(o.rowptr[i + 1] - o.rowptr[i]) |-> <<o.colids[o.rowptr[i] + p], o.values[o.rowptr[i] + p]>>]
RowsOf(o) == [i \in 1..o.rows |-> RowOf(o, i)]
ColsOfRow(o, i) == {o.colids[p] : p \in (o.rowptr[i] + 1)..o.rowptr[i + 1]}

(* What the object of the product may look like: any order inside a row       *)
(* unless sorted output was promised.                                         *)
IsProduct(mode, sr, A, B, M, sorted, R) ==
  /\ WellFormed(R, A.rows, B.cols)
  /\ LET Brows == RowsOf(B) IN
     \A i \in 1..A.rows :
        LET cs == SubSeq(R.colids, R.rowptr[i] + 1, R.rowptr[i + 1])
            vs == SubSeq(R.values, R.rowptr[i] + 1, R.rowptr[i + 1])
        IN /\ RowIs(cs, vs, ProductRow(mode, sr, FALSE, RowOf(A, i), Brows, ColsOfRow(M, i), B.cols))
           /\ sorted => Ascending(cs)
  /\ R.zb

(* The relation between the pool before and after one call.                   *)
MultiplyStep(pre, post, s) ==
  /\ \A x \in DOMAIN pre : x # s.c => post[x] = pre[x]
  /\ IsProduct(s.mode, s.sr, pre[s.a], pre[s.b], pre[s.m], s.sorted, post[s.c])

(* The environment replaces one object (not a step of the library).           *)
FreshStep(pre, post, s) == \A x \in DOMAIN pre : x # s.c => post[x] = pre[x]

Step(pre, post, s) == IF s.op = "mul" THEN MultiplyStep(pre, post, s) ELSE FreshStep(pre, post, s)
=============================================================================
