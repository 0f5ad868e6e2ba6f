------------------------------ MODULE Triangles ------------------------------
(* Triangle counting by L .* (L * L) (TriCntAll, TriCntAllGrb): the lower      *)
(* triangle is prepared as preprocessInput does it, and what the masked        *)
(* product adds up to is compared with the number of triangles.                *)
(*  FirstKept "guarded": at most the edges there are; "one": one edge is kept  *)
(*            without looking whether there is one                             *)
(*  Merge     "product" or "mask": which operand the intersection keeps        *)
EXTENDS Graphs
LOCAL INSTANCE SequencesExt
CONSTANTS N, Loops, OneWay, AnyRelabelling, FirstKept, Merge
VARIABLES arcs, list, src, dst, pc
vars == <<arcs, list, src, dst, pc>>
V == 0..(N - 1)
Junk == <<0 - 1, 0 - 1>>
Slots == {p \in V \X V : (Loops \/ p[1] # p[2]) /\ (OneWay => p[1] >= p[2])}

(* position i of the vertices sorted by (entries in the row, number), descending, holds the new number of vertex i *)
Count(A, v) == Cardinality({a \in A : a[1] = v})
ByDegree(A) ==
  LET before(v, w) == Count(A, v) > Count(A, w) \/ (Count(A, v) = Count(A, w) /\ v > w)
      order == SetToSortSeq(V, before)
  IN [i \in V |-> order[i + 1]]
Relabellings(A) == IF AnyRelabelling THEN Permutations(V) ELSE {ByDegree(A)}
Oriented(A, p) ==       \* one entry per arc, larger vertex first; in descending order, repetitions side by side
  LET to(a) == Edge(p[a[1]], p[a[2]])
      use == {a \in A : a[1] # a[2]}
      after(a, b) == LET x == to(a)  y == to(b) IN x[1] > y[1] \/ (x[1] = y[1] /\ x[2] > y[2])
      s == SetToSortSeq(use, LAMBDA a, b : after(a, b) \/ (to(a) = to(b) /\ a[1] > b[1]))
  IN [i \in 1..Len(s) |-> to(s[i])]
Init == \E A \in SUBSET Slots : \E p \in Relabellings(A) :
          /\ arcs = {<<p[a[1]], p[a[2]]>> : a \in A} /\ list = Oriented(A, p) /\ src = 1 /\ pc = "unique"
          /\ dst = IF FirstKept = "guarded" /\ list = <<>> THEN 0 ELSE 1
Next ==
  \/ /\ pc = "unique" /\ src < Len(list)
     /\ IF list[src + 1] # list[src] THEN list' = [list EXCEPT ![dst + 1] = list[src + 1]] /\ dst' = dst + 1
                                     ELSE UNCHANGED <<list, dst>>
     /\ src' = src + 1 /\ UNCHANGED <<arcs, pc>>
  \/ /\ pc = "unique" /\ src >= Len(list) /\ pc' = "counted" /\ UNCHANGED <<arcs, src, dst>>
     /\ list' = [i \in 1..dst |-> IF i <= Len(list) THEN list[i] ELSE Junk]
Spec == Init /\ [][Next]_vars
L == {list[i] : i \in 1..Len(list)}
Inner(e) == Cardinality({k \in V : <<e[1], k>> \in L /\ <<k, e[2]>> \in L})
Counted == LET at(e) == IF Merge = "product" THEN Inner(e) ELSE IF Inner(e) > 0 THEN 1 ELSE 0 IN Sum(at, L)
LowerTriangle == pc = "counted" => /\ L = Undirected(arcs) /\ Len(list) = Cardinality(L)
                                   /\ \A e \in L : e[1] > e[2] /\ e[2] >= 0
AllTriangles == pc = "counted" =>
  Counted = Cardinality({t \in SUBSET V : Cardinality(t) = 3 /\ \A u, w \in t : u # w => Edge(u, w) \in Undirected(arcs)})
ByDefinition == pc = "counted" => Triangles(Undirected(arcs), N) = Cardinality({t \in SUBSET V : Cardinality(t) = 3 /\ \A u, w \in t : u # w => Edge(u, w) \in Undirected(arcs)})
==============================================================================
