-------------------------------- MODULE KTruss --------------------------------
(* The k-truss loop (KTrussAllGrb): C = T .* (T * T) drops the entries below   *)
(* k - 2 until nothing changes.                                                *)
(*  AtTwo  "kept": k = 2 keeps every edge; "dropped": only the entries of the  *)
(*         product exist, so an edge in no triangle is lost whatever k is      *)
(*  Stop   "same": stop when nothing was dropped; "empty or few": stop as soon *)
(*         as at most one edge was dropped (a variant that must be caught)     *)
EXTENDS Graphs
CONSTANTS N, MaxK, AtTwo, Stop
VARIABLES start, k, t, steps, pc
vars == <<start, k, t, steps, pc>>
Slots == {p \in (0..(N - 1)) \X (0..(N - 1)) : p[1] > p[2]}
Init == start \in SUBSET Slots /\ k \in 2..MaxK /\ t = start /\ steps = 1 /\ pc = "loop"
Kept == LET s == Support(t, N) IN {e \in t : s[e] >= k - 2 /\ (s[e] > 0 \/ (k = 2 /\ AtTwo = "kept"))}
Next == /\ pc = "loop" /\ t' = Kept /\ UNCHANGED <<start, k>>
        /\ LET lost == Cardinality(t) - Cardinality(Kept) IN
           IF lost = 0 \/ (Stop # "same" /\ lost <= 1) THEN pc' = "done" /\ steps' = steps ELSE pc' = "loop" /\ steps' = steps + 1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Good(S) == LET s == Support(S, N) IN \A e \in S : s[e] >= k - 2
(* the largest subgraph in which every edge lies in at least k - 2 triangles *)
Largest == pc = "done" => /\ Good(t)
                          /\ \A S \in SUBSET start : Good(S) => S \subseteq t
AsDefined == pc = "done" => t = Truss(start, N, k) /\ steps = Len(Pruning(start, N, k))
Shrinks == [][t' \subseteq t]_vars
Bounded == steps <= Cardinality(start) + 1
Ends == <>(pc = "done")
===============================================================================
