-------------------------------- MODULE Graphs --------------------------------
(* What the three graph programs are to compute, by definition.  An undirected *)
(* graph is a set of pairs <<high, low>> of vertices, a directed one a set of  *)
(* arcs <<from, to>>.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE FiniteSetsExt

Undirected(arcs) == {<<IF a[1] > a[2] THEN a[1] ELSE a[2], IF a[1] > a[2] THEN a[2] ELSE a[1]>> : a \in {b \in arcs : b[1] # b[2]}}
Sum(f(_), S) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)

(* triangles *)
Lower(E, v) == {e[2] : e \in {d \in E : d[1] = v}}
Triangles(E, n) ==
  LET low == [v \in 0..(n - 1) |-> Lower(E, v)]
      at(e) == Cardinality(low[e[1]] \cap low[e[2]])
  IN Sum(at, E)

(* k-truss *)
Edge(u, v) == IF u > v THEN <<u, v>> ELSE <<v, u>>
Nbrs(E, n) == [v \in 0..(n - 1) |-> {e[1] : e \in {d \in E : d[2] = v}} \cup {e[2] : e \in {d \in E : d[1] = v}}]
Support(E, n) == LET nb == Nbrs(E, n) IN [e \in E |-> Cardinality(nb[e[1]] \cap nb[e[2]])]
Pruned(E, n, k) == LET s == Support(E, n) IN {e \in E : s[e] >= k - 2}
RECURSIVE Pruning(_, _, _)
Pruning(E, n, k) == LET P == Pruned(E, n, k) IN IF P = E THEN <<E>> ELSE <<E>> \o Pruning(P, n, k)      \* every graph the pruning passes through
Truss(E, n, k) == LET p == Pruning(E, n, k) IN p[Len(p)]

(* shortest paths from s: levels, numbers of paths, dependencies (Brandes) *)
RECURSIVE Levels(_, _, _, _)
Levels(out, level, seen, n) ==
  LET next == (UNION {out[v] : v \in level}) \ seen IN
  IF next = {} THEN <<level>> ELSE <<level>> \o Levels(out, next, seen \cup next, n)
RECURSIVE Paths(_, _, _, _)
Paths(inn, lv, i, sig) ==
  IF i > Len(lv) THEN sig
  ELSE LET here == [v \in lv[i] |-> Sum(LAMBDA u : sig[u], inn[v] \cap lv[i - 1])] IN
       Paths(inn, lv, i + 1, [v \in DOMAIN sig |-> IF v \in lv[i] THEN here[v] ELSE sig[v]])
From(arcs, n, s) ==
  LET V == 0..(n - 1)
      out == [v \in V |-> {a[2] : a \in {b \in arcs : b[1] = v}}]
      inn == [v \in V |-> {a[1] : a \in {b \in arcs : b[2] = v}}]
      lv == Levels(out, {s}, {s}, n)
      dist == [v \in V |-> IF \E i \in 1..Len(lv) : v \in lv[i] THEN (CHOOSE i \in 1..Len(lv) : v \in lv[i]) - 1 ELSE 0 - 1]
  IN [dist |-> dist, lv |-> lv, sig |-> Paths(inn, lv, 2, [v \in V |-> IF v = s THEN 1 ELSE 0])]
(* the dependencies of the sources srcs on v, times scale, rounded down term by term; and the number of terms *)
Dependency(fr, n, srcs, v, scale) ==
  LET pairs == {<<s, t>> \in srcs \X (0..(n - 1)) :
                   s # v /\ t # v /\ s # t /\ fr[s].dist[v] > 0 /\ fr[v].dist[t] > 0 /\ fr[s].dist[t] = fr[s].dist[v] + fr[v].dist[t]}
      term(p) == (scale * fr[p[1]].sig[v] * fr[v].sig[p[2]]) \div fr[p[1]].sig[p[2]]
  IN <<Sum(term, pairs), Cardinality(pairs)>>
(* summed over all v a source's dependencies are the interior vertices of its shortest paths *)
Interior(f, n) == Sum(LAMBDA t : IF f.dist[t] > 0 THEN f.dist[t] - 1 ELSE 0, 0..(n - 1))
===============================================================================
