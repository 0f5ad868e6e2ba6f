---------------------------- MODULE ParmatTrace -----------------------------
(* Recorded runs of the parallel R-MAT generator ("graph": the edges it       *)
(* produced) and of its region splitting ("regions": before and after).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, phase
ToSet(s) == {s[i] : i \in DOMAIN s}
InRange(r) == \A i \in DOMAIN r.edges : \A k \in {1, 2} : r.edges[i][k] >= 0 /\ r.edges[i][k] < r.n
Graph(r) == IF Len(r.edges) # r.m THEN "number of edges"
            ELSE IF ~InRange(r) THEN "vertex out of range"
            ELSE IF ~r.dups /\ Cardinality(ToSet(r.edges)) # r.m THEN "duplicate edges"
            ELSE IF ~r.loops /\ (\E i \in DOMAIN r.edges : r.edges[i][1] = r.edges[i][2]) THEN "self loop"
            ELSE IF ~r.directed /\ ~((\A i \in DOMAIN r.edges : r.edges[i][1] <= r.edges[i][2]) \/ (\A i \in DOMAIN r.edges : r.edges[i][1] >= r.edges[i][2])) THEN "both triangles"
            ELSE IF r.sorted /\ ~(\A i \in 2..Len(r.edges) : r.edges[i - 1][1] <= r.edges[i][1]) THEN "not sorted"
            ELSE ""
\* regions: <<x0, x1, y0, y1, edges>>
In(c, g) == g[1] <= c[1] /\ c[1] <= g[2] /\ g[3] <= c[2] /\ c[2] <= g[4]
Inside(g, f) == f[1] <= g[1] /\ g[2] <= f[2] /\ f[3] <= g[3] /\ g[4] <= f[4]
RECURSIVE SumOf(_, _)
SumOf(s, f) == IF s = << >> THEN 0 ELSE (IF Inside(Head(s), f) THEN Head(s)[5] ELSE 0) + SumOf(Tail(s), f)
Regions(r) == LET C == {c \in (0..(r.n - 1)) \X (0..(r.n - 1)) : r.directed \/ c[1] <= c[2]} IN
  IF \E i \in DOMAIN r.after : r.after[i][5] < 0 THEN "negative number of edges"
  ELSE IF \E i \in DOMAIN r.before : SumOf(r.after, r.before[i]) # r.before[i][5] THEN "edges lost or invented"
  ELSE IF \E c \in C : Cardinality({i \in DOMAIN r.after : In(c, r.after[i])}) # 1 THEN "not a partition of the matrix"
  ELSE ""
Verdict(r) == IF r.crash # "" THEN r.crash ELSE IF r.kind = "regions" THEN Regions(r) ELSE Graph(r)
Init == rec \in 1..Len(Recs) /\ phase = "run"
Next == phase = "run" /\ rec' = rec /\ phase' = (IF Verdict(Recs[rec]) = "" THEN "accepted" ELSE "rejected")
NotRejected == phase = "rejected" => LET r == Recs[rec] IN PrintT(<<"REJECTED", r.id, r.kind, Verdict(r), r.what>>) /\ FALSE
=============================================================================
