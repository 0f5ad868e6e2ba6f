------------------------------ MODULE OpCount -------------------------------
(* Counting the multiplications of a product in parallel.  Threads claim rows *)
(* (or inner indices) one by one, add up what the row needs into a private    *)
(* total, and merge the private totals into the shared one.                   *)
(*   Kind   "rows"   row i needs the sum of B's row lengths over A's row i    *)
(*          "inner"  inner index k needs |column k of A| * |row k of B|       *)
(*   Merge  "critical"  the merge is one step;  "split"  read, then write     *)
(*   Width  numbers the products are computed in wrap around at Width         *)
(*          (0: they do not wrap)                                             *)
(* The count has to be the number of triples (i,k,j) with A(i,k) and B(k,j).  *)
EXTENDS Integers, FiniteSets
CONSTANTS M, K, N, T, Kind, Merge, Width
VARIABLES a, b, todo, priv, pc, seen, total, perRow
vars == <<a, b, todo, priv, pc, seen, total, perRow>>
I == 1..M    In == 1..K    J == 1..N    Thr == 1..T
Wrap(x) == IF Width = 0 THEN x ELSE x % Width
LenB(k) == Cardinality({j \in J : <<k, j>> \in b})
LenA(k) == Cardinality({i \in I : <<i, k>> \in a})
RECURSIVE SumB(_)
SumB(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN LenB(k) + SumB(S \ {k})
Units == IF Kind = "rows" THEN I ELSE In
Need(u) == IF Kind = "rows" THEN SumB({k \in In : <<u, k>> \in a}) ELSE Wrap(LenA(u) * LenB(u))
Products == {<<i, k, j>> \in I \X In \X J : <<i, k>> \in a /\ <<k, j>> \in b}

Init == /\ a \in SUBSET (I \X In) /\ b \in SUBSET (In \X J)
        /\ todo = Units /\ priv = [t \in Thr |-> 0] /\ pc = [t \in Thr |-> "work"]
        /\ seen = [t \in Thr |-> 0] /\ total = 0 /\ perRow = [u \in Units |-> -1]
Work(t) == /\ pc[t] = "work" /\ todo # {}
           /\ LET u == CHOOSE u \in todo : \A v \in todo : u <= v IN
              /\ todo' = todo \ {u} /\ priv' = [priv EXCEPT ![t] = @ + Need(u)] /\ perRow' = [perRow EXCEPT ![u] = Need(u)]
           /\ UNCHANGED <<a, b, pc, seen, total>>
Leave(t) == pc[t] = "work" /\ todo = {} /\ pc' = [pc EXCEPT ![t] = "merge"] /\ UNCHANGED <<a, b, todo, priv, seen, total, perRow>>
MergeIn(t) ==
  /\ pc[t] = "merge"
  /\ IF Merge = "critical"
     THEN total' = total + priv[t] /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED seen
     ELSE seen' = [seen EXCEPT ![t] = total] /\ pc' = [pc EXCEPT ![t] = "store"] /\ UNCHANGED total
  /\ UNCHANGED <<a, b, todo, priv, perRow>>
Store(t) == pc[t] = "store" /\ total' = seen[t] + priv[t] /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<a, b, todo, priv, seen, perRow>>
Step(t) == Work(t) \/ Leave(t) \/ MergeIn(t) \/ Store(t)
Done == \A t \in Thr : pc[t] = "done"
Next == (\E t \in Thr : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exact == Done => total = Cardinality(Products)
RowsExact == (Done /\ Kind = "rows") => \A i \in I : perRow[i] = Cardinality({p \in Products : p[1] = i})
Terminates == <>Done
=============================================================================
