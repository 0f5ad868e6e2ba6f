---------------------------------- MODULE BC ----------------------------------
(* Batched betweenness centrality (BCAllGrb, Brandes' algorithm): forward      *)
(* sweeps under the complement of the vertices already reached count shortest  *)
(* paths, backward sweeps under the recorded frontiers add up dependencies.    *)
(* Values of the backward phase are multiplied by Scale, a number all path     *)
(* counts divide.                                                              *)
(*  Forward "complement": under the complement of N; "any": without a mask     *)
(*  Back    "previous": under the frontier before; "same": under the frontier  *)
(*          itself (a variant that must be caught)                             *)
EXTENDS Graphs
CONSTANTS N, TwoWay, Scale, Forward, Back
VARIABLES arcs, src, F, P, preds, B, d, pc
vars == <<arcs, src, F, P, preds, B, d, pc>>
V == 0..(N - 1)
Slots == {p \in V \X V : p[1] # p[2] /\ (TwoWay => p[1] > p[2])}
Init == /\ src \in IF TwoWay THEN {0} ELSE V
        /\ arcs \in (IF TwoWay THEN {A \cup {<<a[2], a[1]>> : a \in A} : A \in SUBSET Slots} ELSE SUBSET Slots)
        /\ F = [v \in V |-> IF v = src THEN 1 ELSE 0] /\ P = F /\ preds = <<>> /\ B = [v \in V |-> Scale] /\ d = 0 /\ pc = "forward"
Has(f) == {v \in V : f[v] # 0}
(* F = transpose(A) * F, second operand's values, under the complement of the paths found so far *)
Step == [v \in V |-> IF Forward = "complement" /\ P[v] # 0 THEN 0 ELSE Sum(LAMBDA u : F[u], {u \in V : <<u, v>> \in arcs})]
Next ==
  \/ /\ pc = "forward" /\ F' = Step /\ preds' = Append(preds, Step) /\ P' = [v \in V |-> P[v] + Step[v]]
     /\ IF Has(Step) = {} \/ Len(preds) > N THEN pc' = "backward" /\ d' = Len(preds) ELSE pc' = "forward" /\ d' = d
     /\ UNCHANGED <<arcs, src, B>>
  \/ /\ pc = "backward" /\ d > 0
     /\ LET w == [v \in V |-> IF preds[d + 1][v] # 0 THEN B[v] \div P[v] ELSE 0]
            under == IF Back = "previous" THEN Has(preds[d]) ELSE Has(preds[d + 1])
            u == [v \in V |-> IF v \in under THEN Sum(LAMBDA x : w[x], {x \in V : <<v, x>> \in arcs}) ELSE 0]
        IN B' = [v \in V |-> B[v] + u[v] * P[v]]
     /\ d' = d - 1 /\ UNCHANGED <<arcs, src, F, P, preds, pc>>
  \/ pc = "backward" /\ d = 0 /\ pc' = "done" /\ UNCHANGED <<arcs, src, F, P, preds, B, d>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
fr == [v \in V |-> From(arcs, N, v)]
PathCounts == pc # "forward" => \A v \in V : P[v] = fr[src].sig[v]
Dependencies == pc = "done" => \A v \in V : B[v] - Scale = Dependency(fr, N, {src}, v, Scale)[1]
Total == pc = "done" => Sum(LAMBDA v : B[v] - Scale, V) = Scale * Interior(fr[src], N)
Ends == <>(pc = "done")
===============================================================================
