------------------------------ MODULE KTrussTrace ------------------------------
(* Runs of the k-truss program, and the passes of its loop one by one.          *)
EXTENDS Graphs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, phase
R == Recs[rec]
E(r) == Undirected({<<r.lines[i][1] - 1, r.lines[i][2] - 1>> : i \in 1..Len(r.lines)})
Both(e) == e \cup {<<x[2], x[1]>> : x \in e}
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
ToolAt(r, k) == LET p == Pruning(E(r), r.n, k) IN
  Len(r.res) >= 1 /\ \A i \in 1..Len(r.res) : r.res[i][2] = 2 * Cardinality(p[Len(p)]) /\ r.res[i][3] = Len(p)
\* the unrepaired defect, exactly as listed in known_findings.txt: the 2-truss computed is the 3-truss
Two(r) == "KNOWN_two_truss" \in DOMAIN IOEnv /\ r.k = 2 /\ ~(E(r) = Pruned(E(r), r.n, 3))
Known == PrintT(<<"FINDING", "two_truss">>)
ToolOk(r) == ToolAt(r, r.k) \/ (Two(r) /\ ToolAt(r, 3) /\ Known)
(* one pass: the product of the current graph with itself under itself *)
PassOk(s, e, n) ==
  LET sup == Support(e, n)
      want == {<<x[1], x[2], sup[Edge(x[1], x[2])]>> : x \in {y \in Both(e) : sup[Edge(y[1], y[2])] > 0}} IN
  /\ Pairs(s.t) = Both(e) /\ Len(s.t) = 2 * Cardinality(e) /\ Pairs(s.m) = Both(e) /\ Len(s.m) = 2 * Cardinality(e)
  /\ {s.c[i] : i \in 1..Len(s.c)} = want /\ Len(s.c) = Cardinality(want)
PlanAt(r, k) == LET p == Pruning(E(r), r.n, k) IN IF r.again = 1 THEN p \o p ELSE p
Deviates(r) == Two(r) /\ Len(r.res.steps) = Len(PlanAt(r, 3)) /\ Known
Plan(r) == IF Two(r) /\ Len(r.res.steps) # Len(PlanAt(r, 2)) THEN PlanAt(r, 3) ELSE PlanAt(r, r.k)
Init == rec \in 1..Len(Recs) /\ at = 0
        /\ phase = IF R.status # "ok" THEN "rejected" ELSE IF R.kind = "tool" THEN (IF ToolOk(R) THEN "ok" ELSE "rejected")
                   ELSE IF (Len(R.res.steps) = Len(PlanAt(R, R.k)) \/ Deviates(R)) /\ R.res.left = 2 * Cardinality(E(R)) THEN "passes" ELSE "rejected"
Next == /\ phase = "passes" /\ at < Len(R.res.steps) /\ at' = at + 1 /\ UNCHANGED rec
        /\ phase' = (IF PassOk(R.res.steps[at + 1], Plan(R)[at + 1], R.n) THEN "passes" ELSE "rejected")
NotRejected == phase = "rejected" => (PrintT(<<"REJECTED", R.id, R.kind, R.mode, R.status, at>>) /\ FALSE)
================================================================================
