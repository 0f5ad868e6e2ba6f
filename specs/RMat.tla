-------------------------------- MODULE RMat --------------------------------
(* The recursive descent of the R-MAT generator: the adjacency matrix of N    *)
(* vertices is halved again and again; every step picks one of the quadrants. *)
(* A self loop is drawn again when loops are not wanted.                      *)
(*   FromHalf: the first step is N \div 2 (otherwise N: wrong)                *)
(*   Retry:    a rejected edge does not count                                 *)
EXTENDS Integers, Sequences
CONSTANTS MaxV, MaxE, FromHalf, Retry
VARIABLES n, m, loops, u, v, step, edges, done
vars == <<n, m, loops, u, v, step, edges, done>>
Start(k) == IF FromHalf THEN k \div 2 ELSE k
Init == /\ n \in 2..MaxV /\ m \in 0..MaxE /\ loops \in BOOLEAN
        /\ u = 1 /\ v = 1 /\ step = Start(n) /\ edges = <<>> /\ done = 0
Descend == /\ done < m /\ step >= 1
           /\ \E du, dv \in {0, 1} : u' = u + du * step /\ v' = v + dv * step
           /\ step' = step \div 2 /\ UNCHANGED <<n, m, loops, edges, done>>
Emit == /\ done < m /\ step = 0
        /\ u' = 1 /\ v' = 1 /\ step' = Start(n)
        /\ IF ~loops /\ u = v THEN edges' = edges /\ done' = (IF Retry THEN done ELSE done + 1)
           ELSE edges' = Append(edges, <<u - 1, v - 1>>) /\ done' = done + 1
        /\ UNCHANGED <<n, m, loops>>
Next == Descend \/ Emit
Fair == WF_vars(Emit) /\ WF_vars(Descend) /\ SF_vars(Descend /\ u' # v')
Spec == Init /\ [][Next]_vars /\ Fair
\* the contract of a generated edge list
Asked(nn, mm, ll, es) == /\ Len(es) = mm
                         /\ \A i \in 1..Len(es) : /\ es[i][1] \in 0..(nn - 1) /\ es[i][2] \in 0..(nn - 1)
                                                  /\ ~ll => es[i][1] # es[i][2]
InRange == u \in 1..n /\ v \in 1..n
Contract == done = m => Asked(n, m, loops, edges)
Finishes == <>(done = m)
=============================================================================
