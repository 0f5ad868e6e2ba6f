------------------------------ MODULE ObjectOps ------------------------------
(* What every operation on matrix objects does to a pool of objects (raw      *)
(* arrays, see Compressed; zb: zero-based).  Step relates the pool before and *)
(* after one operation s = [op, k, i, j, arg, res].                           *)
EXTENDS Compressed
Close(tol, x, y) ==          \* 1: must count as equal, -1: must not, 0: borderline
  LET d == IF x >= y THEN x - y ELSE y - x
      ax == IF x >= 0 THEN x ELSE -x
      ay == IF y >= 0 THEN y ELSE -y
      top == IF ax >= ay THEN ax ELSE ay
  IN IF d = 0 THEN 1
     ELSE IF tol = 0 THEN -1
     ELSE IF d * 1000 < tol \/ d * 1000 < top THEN 1
     ELSE IF d * 1000 > tol /\ d * 1000 > top THEN -1 ELSE 0
Base(x) == IF x.zb THEN 0 ELSE 1
Norm(x) == [maj |-> x.maj, min |-> x.min, nnz |-> x.nnz, ptr |-> [p \in DOMAIN x.ptr |-> x.ptr[p] - Base(x)],
            ids |-> [p \in DOMAIN x.ids |-> x.ids[p] - Base(x)], vals |-> x.vals]
Shape(x) == <<x.maj, x.min, x.nnz>>
\* a valid object: one without slices has nothing to check
Valid(x) == IF x.maj = 0 THEN x.nnz = 0 ELSE WF(Norm(x), x.maj, x.min)
SameArrays(x, y) == x = y
Rows(x) == 1..x.maj
IdsOf(s) == [p \in DOMAIN s |-> s[p][1]]

EqualOk(tol, x, y, res) ==
  IF Shape(x) # Shape(y) THEN ~res
  ELSE IF x.maj = 0 THEN res
  ELSE LET a == Norm(x) b == Norm(y)
       IN IF a.ptr = b.ptr /\ a.ids = b.ids
          THEN LET cl == {Close(tol, a.vals[p], b.vals[p]) : p \in DOMAIN a.vals}
               IN (-1 \in cl => ~res \/ \E i \in Rows(a) : ~StrictIds(Slice(a, i)) ) /\ (cl \subseteq {1} => res)
          ELSE \* the same entries stored in another order may or may not count as equal
               (\E i \in Rows(a) : Sorted([p \in DOMAIN Slice(a, i) |-> <<Slice(a, i)[p][1], 0>>])
                                     # Sorted([p \in DOMAIN Slice(b, i) |-> <<Slice(b, i)[p][1], 0>>])) => ~res
Permuted(x, y) == /\ Shape(x) = Shape(y) /\ x.zb = y.zb /\ x.ptr = y.ptr
                  /\ Len(y.ids) = x.nnz /\ Len(y.vals) = x.nnz
                  /\ \A i \in Rows(x) : SameBag(Slice(x, i), Slice(y, i))
Shifted(x, y, d) == /\ Shape(x) = Shape(y) /\ x.vals = y.vals
                    /\ y.ptr = [p \in DOMAIN x.ptr |-> x.ptr[p] + d] /\ y.ids = [p \in DOMAIN x.ids |-> x.ids[p] + d]
Op2(op, x, y) == CASE op = "plus" -> x + y [] op = "minus" -> x - y [] op = "first" -> x [] op = "second" -> y
                   [] op = "max" -> (IF x >= y THEN x ELSE y)
MeetRow(op, s, t) ==
  LET sel == SelectSeq(s, LAMBDA e : \E p \in DOMAIN t : t[p][1] = e[1])
  IN [p \in DOMAIN sel |-> LET u == CHOOSE q \in DOMAIN t : t[q][1] = sel[p][1] IN <<sel[p][1], Op2(op, sel[p][2], t[u][2])>>]
Intersection(op, x, y, c) ==
  IF x.maj # y.maj \/ x.min # y.min THEN c.nnz = 0
  ELSE IF x.maj = 0 THEN c.nnz = 0
  ELSE /\ c.zb /\ WF(c, x.maj, x.min)
       /\ \A i \in Rows(x) : Slice(c, i) = MeetRow(op, Slice(x, i), Slice(y, i))
RECURSIVE SumTo(_, _)
SumTo(v, n) == IF n = 0 THEN 0 ELSE v[n] + SumTo(v, n - 1)

Others(pre, post, k) == \A x \in DOMAIN pre : x # k => post[x] = pre[x]
Step(tol, pre, post, s) ==
  /\ Others(pre, post, s.k)
  /\ CASE s.op \in {"fresh", "mutate", "near", "nearone"} -> Valid(post[s.k])      \* done by the harness itself
       [] s.op = "default" -> post[s.k].maj = 0 /\ post[s.k].min = 0 /\ post[s.k].nnz = 0
       [] s.op \in {"copy", "assign"} -> post[s.k] = pre[s.j]
       [] s.op = "empty"   -> post[s.k].maj = 0 /\ post[s.k].min = 0 /\ post[s.k].nnz = 0
       [] s.op = "sort"    -> Permuted(pre[s.k], post[s.k]) /\ \A i \in Rows(post[s.k]) : AscendingIds(Slice(post[s.k], i))
       [] s.op = "shuffle" -> Permuted(pre[s.k], post[s.k])
       [] s.op = "one"     -> ~post[s.k].zb /\ s.res = (IF pre[s.k].zb THEN 1 ELSE 0) /\ Shifted(pre[s.k], post[s.k], s.res)
       [] s.op = "zero"    -> post[s.k].zb /\ s.res = (IF pre[s.k].zb THEN 1 ELSE 0) /\ Shifted(pre[s.k], post[s.k], s.res - 1)
       [] s.op = "isect"   -> Intersection(s.arg, pre[s.i], pre[s.j], post[s.k])
       [] s.op = "eq"      -> post = pre /\ EqualOk(tol, pre[s.i], pre[s.j], s.res = 1)
       [] s.op = "sum"     -> post = pre /\ s.res = SumTo(pre[s.i].vals, pre[s.i].nnz)
       [] s.op = "isempty" -> post = pre /\ (s.res = 1) = (pre[s.i].nnz = 0)
=============================================================================
