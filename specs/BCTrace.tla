-------------------------------- MODULE BCTrace --------------------------------
(* Runs of the betweenness centrality program (the sum it prints) and its       *)
(* sweeps: frontiers, masks and the centrality of every vertex.                 *)
EXTENDS Graphs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, phase
R == Recs[rec]
Arcs(r) == LET l == {<<r.lines[i][1] - 1, r.lines[i][2] - 1>> : i \in 1..Len(r.lines)}
               a == IF r.sym THEN l \cup {<<x[2], x[1]>> : x \in l} ELSE l IN {x \in a : x[1] # x[2]}
RECURSIVE Least(_, _, _)
Least(f, S, k) == IF k = 0 THEN 0 ELSE LET m == CHOOSE x \in S : \A y \in S : f[x] <= f[y] IN f[m] + Least(f, S \ {m}, k - 1)
(* the program draws its sources: any s of them *)
ToolOk(r) ==
  LET a == Arcs(r)
      tot == [v \in 0..(r.n - 1) |-> Interior(From(a, r.n, v), r.n)]
      all == Sum(LAMBDA v : tot[v], 0..(r.n - 1))
      s == IF r.s > r.n THEN r.n ELSE r.s
      low == Least(tot, 0..(r.n - 1), s)
      high == all - Least(tot, 0..(r.n - 1), r.n - s)
      slack == 2 + (all \div 100)
  IN Len(r.res) >= 1 /\ \A i \in 1..Len(r.res) : r.res[i][2] >= 100 * low - slack /\ r.res[i][2] <= 100 * high + slack
Cells(s) == {s[i] : i \in 1..Len(s)}
Is(s, want) == Cells(s) = want /\ Len(s) = Cardinality(want)
SweepsOk(r) ==
  LET a == Arcs(r)  n == r.n  V == 0..(n - 1)  S == 1..Len(r.res.srcs)
      fr == [v \in V |-> From(a, n, v)]
      f(j) == fr[r.res.srcs[j]]
      deep == CHOOSE d \in 0..n : (\E j \in S : Len(f(j).lv) = d) /\ \A j \in S : Len(f(j).lv) <= d        \* levels, the source's own included
      at(l) == {<<v, j - 1, f(j).sig[v]>> : <<v, j>> \in {x \in V \X S : f(x[2]).dist[x[1]] = l}}
      pat(l) == {<<x[1], x[2]>> : x \in at(l)}
      Pairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
      all == {r.res.srcs[j] : j \in S}
  IN /\ r.res.left = Cardinality(a)
     /\ r.res.swept => /\ Len(r.res.fwd) = deep /\ \A l \in 1..deep : Is(r.res.fwd[l], at(l))
                       /\ Len(r.res.bwd) = deep - 1
                       /\ \A i \in 1..(deep - 1) : Pairs(r.res.bwd[i]) = pat(deep - i) /\ Len(r.res.bwd[i]) = Cardinality(pat(deep - i))
     /\ Len(r.res.delta) = n
     /\ \A v \in V : LET w == Dependency(fr, n, all, v, 1000)
                         off == r.res.delta[v + 1] - w[1] IN off >= 0 - 2 /\ off <= w[2] + 2
Ok(r) == r.status = "ok" /\ IF r.kind = "tool" THEN ToolOk(r) ELSE SweepsOk(r)
Init == rec \in 1..Len(Recs) /\ phase = "read"
Next == phase = "read" /\ phase' = (IF Ok(R) THEN "ok" ELSE "rejected") /\ UNCHANGED rec
NotRejected == phase = "rejected" => (PrintT(<<"REJECTED", R.id, R.kind, R.mode, R.status>>) /\ FALSE)
================================================================================
