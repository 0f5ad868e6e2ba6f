------------------------------ MODULE Regions -------------------------------
(* How the parallel R-MAT generator divides the adjacency matrix.  A region   *)
(* is a rectangle of inclusive index ranges with a number of edges to draw    *)
(* from it; splitting replaces a region by four (three on the diagonal of an  *)
(* undirected graph) that share its edges out by perturbed probabilities.     *)
(*   Disjoint: the halves do not share the middle index                       *)
(*   Clamp: shares are kept between 0 and what is left                        *)
(* Then every region draws its edges; Unique: equal ones are drawn again.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M, MaxSplits, Directed, Disjoint, Clamp, Unique
VARIABLES regs, splits, at, edges
vars == <<regs, splits, at, edges>>
Idx == 0..(N - 1)
R(x0, x1, y0, y1, n, h, v) == [x0 |-> x0, x1 |-> x1, y0 |-> y0, y1 |-> y1, n |-> n, h |-> h, v |-> v]
Init == regs = <<R(0, N - 1, 0, N - 1, M, 0, 0)>> /\ splits = 0 /\ at = 1 /\ edges = << >>
Least(a, b) == IF a < b THEN a ELSE b
Mid(a, b) == (a + b) \div 2
Second(a, b) == IF Disjoint THEN Least(Mid(a, b) + 1, b) ELSE Mid(a, b)
Fix(s, left) == IF Clamp THEN (IF s < 0 THEN 0 ELSE Least(s, left)) ELSE s
\* shares: whatever the perturbed probabilities make of them, possibly a little below 0 or beyond the rest
Parts(r, sa, sb, sc) ==
  LET a == Fix(sa, r.n)  b == Fix(sb, r.n - a)  c == Fix(sc, r.n - a - b)  d == r.n - a - b - c
      mx == Mid(r.x0, r.x1)  my == Mid(r.y0, r.y1)  sx == Second(r.x0, r.x1)  sy == Second(r.y0, r.y1)
      A == R(r.x0, mx, r.y0, my, a, 2 * r.h, 2 * r.v)       B == R(sx, r.x1, r.y0, my, b, 2 * r.h + 1, 2 * r.v)
      Cc == R(r.x0, mx, sy, r.y1, c, 2 * r.h, 2 * r.v + 1)  D == R(sx, r.x1, sy, r.y1, d, 2 * r.h + 1, 2 * r.v + 1)
  IN IF ~Directed /\ r.x1 = r.y1 THEN <<A, [Cc EXCEPT !.n = b + c], D>> ELSE <<A, B, Cc, D>>
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Split(i, sa, sb, sc) == Drop(regs, i) \o Parts(regs[i], sa, sb, sc)
Shatter == /\ splits < MaxSplits /\ at = 1 /\ edges = << >>
           /\ \E i \in DOMAIN regs : \E sa, sb, sc \in -1..(regs[i].n + 1) :
                /\ regs[i].x0 < regs[i].x1 /\ regs[i].y0 < regs[i].y1
                /\ sa + sb + sc <= regs[i].n + 1
                /\ regs' = Split(i, sa, sb, sc)
           /\ splits' = splits + 1 /\ UNCHANGED <<at, edges>>
\* drawing: (h, v) with h along x; an undirected graph keeps h <= v
Cells(r) == {c \in (r.x0..r.x1) \X (r.y0..r.y1) : Directed \/ r.h < r.v \/ c[1] <= c[2]}
Draw == /\ at <= Len(regs) /\ splits = MaxSplits
        /\ regs[at].n <= Cardinality(Cells(regs[at]))
        /\ \E E \in (IF Unique THEN {S \in SUBSET Cells(regs[at]) : Cardinality(S) = regs[at].n}
                     ELSE {{c} : c \in Cells(regs[at])}) :
             edges' = edges \o (IF Unique THEN CHOOSE q \in [1..regs[at].n -> E] : {q[k] : k \in 1..regs[at].n} = E
                                ELSE [k \in 1..regs[at].n |-> CHOOSE c \in E : TRUE])
        /\ at' = at + 1 /\ UNCHANGED <<regs, splits>>
Next == Shatter \/ Draw
RECURSIVE SumN(_)
SumN(s) == IF s = << >> THEN 0 ELSE Head(s).n + SumN(Tail(s))
KeepsTotal == SumN(regs) = M /\ \A i \in DOMAIN regs : regs[i].n >= 0
Apart == \A i, j \in DOMAIN regs : i < j => Cells(regs[i]) \cap Cells(regs[j]) = {}
Cover == {c \in Idx \X Idx : Directed \/ c[1] <= c[2]} \subseteq UNION {Cells(regs[i]) : i \in DOMAIN regs}
Result == at > Len(regs) =>
  /\ Len(edges) = M /\ \A k \in DOMAIN edges : edges[k] \in Idx \X Idx /\ (Directed \/ edges[k][1] <= edges[k][2])
  /\ Unique => Cardinality({edges[k] : k \in DOMAIN edges}) = M
=============================================================================
