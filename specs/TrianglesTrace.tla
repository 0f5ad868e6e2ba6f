---------------------------- MODULE TrianglesTrace ----------------------------
(* Runs of the triangle counters against the number of triangles of the graph  *)
(* they were given; and the prepared lower triangle against the graph.         *)
EXTENDS Graphs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, phase
R == Recs[rec]
E(r) == Undirected({<<r.lines[i][1] - 1, r.lines[i][2] - 1>> : i \in 1..Len(r.lines)})
ToolOk(r) == LET t == Triangles(E(r), r.n) IN Len(r.res) >= 1 /\ \A i \in 1..Len(r.res) : r.res[i][3] = t
\* the unrepaired defects, exactly as listed in known_findings.txt
Listed(k) == k \in DOMAIN IOEnv
NoEdges(r) == Listed("KNOWN_tricnt_no_edges") /\ r.app = 1 /\ E(r) = {}
\* (the number of entries of the masked product, which every algorithm reports, in place of their sum)
HashIntersect(r) == /\ Listed("KNOWN_hash_intersect") /\ r.app = 1 /\ r.kind = "tool" /\ r.status = "ok" /\ Len(r.res) >= 1
                    /\ LET t == Triangles(E(r), r.n) IN
                       \A i \in 1..Len(r.res) : /\ r.res[i][2] = r.res[1][2]
                                                /\ r.res[i][3] = (IF r.res[i][1] = "HashIntersect" THEN r.res[i][2] ELSE t)
Degrees(e, n) == LET nb == Nbrs(e, n) IN [d \in 0..n |-> Cardinality({v \in 0..(n - 1) : Cardinality(nb[v]) = d})]
PreparedOk(r) ==
  LET e == E(r)  a == r.res  n == r.n
      L == UNION {{<<a.ids[k], j>> : k \in (a.ptr[j + 1] + 1)..a.ptr[j + 2]} : j \in 0..(n - 1)} IN
  /\ a.rows = n /\ a.cols = n /\ a.nnz = Cardinality(e) /\ Len(a.ptr) = n + 1 /\ Len(a.ids) = a.nnz
  /\ a.ptr[1] = 0 /\ a.ptr[n + 1] = a.nnz /\ \A j \in 1..n : a.ptr[j] <= a.ptr[j + 1]
  /\ \A i \in 1..Len(a.vals) : a.vals[i] = 1
  /\ Cardinality(L) = a.nnz /\ \A x \in L : n > x[1] /\ x[1] > x[2] /\ x[2] >= 0
  /\ Degrees(L, n) = Degrees(e, n) /\ Triangles(L, n) = Triangles(e, n)
  /\ n <= 6 => \E p \in Permutations(0..(n - 1)) : {Edge(p[x[1]], p[x[2]]) : x \in e} = L
Ok(r) == r.status = "ok" /\ IF r.kind = "tool" THEN ToolOk(r) ELSE PreparedOk(r)
Init == rec \in 1..Len(Recs) /\ phase = "read"
Verdict(r) == IF Ok(r) THEN "ok"
              ELSE IF NoEdges(r) THEN IF PrintT(<<"FINDING", "tricnt_no_edges">>) THEN "known" ELSE "known"
              ELSE IF HashIntersect(r) THEN IF PrintT(<<"FINDING", "hash_intersect">>) THEN "known" ELSE "known"
              ELSE "rejected"
Next == phase = "read" /\ phase' = Verdict(R) /\ UNCHANGED rec
NotRejected == phase = "rejected" => (PrintT(<<"REJECTED", R.id, R.kind, R.mode, R.status>>) /\ FALSE)
===============================================================================
