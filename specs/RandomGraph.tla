---------------------------- MODULE RandomGraph ----------------------------
(* The two Erdos-Renyi models of the GTgraph random generator.                *)
(*  "p": every cell of the adjacency matrix is visited once, row by row, and  *)
(*       chosen or not; the edge list was sized by an estimate (any number)   *)
(*       and is made longer when it is full (Grow).                           *)
(*  "m": a cell is drawn for every edge; a self loop is drawn again when      *)
(*       loops are not wanted (Retry).                                        *)
EXTENDS Integers, Sequences
CONSTANTS MaxN, MaxM, Grow, Retry
VARIABLES model, n, loops, cell, edges, cap, asked, drawn
vars == <<model, n, loops, cell, edges, cap, asked, drawn>>
\* --- what the two models promise
InRange(nn, ll, es) == \A i \in 1..Len(es) : es[i][1] \in 0..(nn - 1) /\ es[i][2] \in 0..(nn - 1) /\ (ll \/ es[i][1] # es[i][2])
Below(e, f) == e[1] < f[1] \/ (e[1] = f[1] /\ e[2] < f[2])
CellsOnce(nn, ll, es) == InRange(nn, ll, es) /\ \A i \in 1..(Len(es) - 1) : Below(es[i], es[i + 1])
Drawn(nn, mm, ll, es) == InRange(nn, ll, es) /\ Len(es) = mm
\* --- the generator
Init == /\ model \in {"p", "m"} /\ n \in 1..MaxN /\ loops \in BOOLEAN /\ cell = 0 /\ edges = <<>>
        /\ IF model = "p" THEN asked = 0 /\ cap \in 0..(n * n)
           ELSE asked \in (IF n = 1 /\ ~loops THEN {0} ELSE 0..MaxM) /\ cap = asked
        /\ drawn = 0
E(c) == <<c \div n, c % n>>
Put(c) == /\ edges' = Append(edges, E(c))
          /\ cap' = (IF Grow /\ Len(edges) = cap THEN 2 * cap + 1 ELSE cap)
Visit == /\ model = "p" /\ cell < n * n /\ cell' = cell + 1
         /\ IF ~loops /\ E(cell)[1] = E(cell)[2] THEN UNCHANGED <<edges, cap>>
            ELSE \/ Put(cell)
                 \/ UNCHANGED <<edges, cap>>
         /\ UNCHANGED <<model, n, loops, asked, drawn>>
Draw(c) == /\ model = "m" /\ drawn < asked
           /\ IF ~loops /\ E(c)[1] = E(c)[2] THEN edges' = edges /\ drawn' = (IF Retry THEN drawn ELSE drawn + 1)
              ELSE edges' = Append(edges, E(c)) /\ drawn' = drawn + 1
           /\ UNCHANGED <<model, n, loops, cell, cap, asked>>
Next == Visit \/ \E c \in 0..(n * n - 1) : Draw(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Visit) /\ SF_vars(\E c \in 0..(n * n - 1) : Draw(c) /\ drawn' # drawn)
Done == IF model = "p" THEN cell = n * n ELSE drawn = asked
Fits == Len(edges) <= cap
Contract == Done => IF model = "p" THEN CellsOnce(n, loops, edges) ELSE Drawn(n, asked, loops, edges)
Finishes == <>Done
=============================================================================
