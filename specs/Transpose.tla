------------------------------ MODULE Transpose ------------------------------
(* Counting conversion of a compressed matrix by rows into one by columns, by *)
(* workers that take whole rows: count the entries of every column (each      *)
(* entry remembers its place), turn counts into offsets, then put every entry *)
(* at offset + place.  Atomic = FALSE splits the counting into load and store.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, N, W, Atomic
Rows == 1..M
Cols == 1..N
Workers == 1..W
VARIABLES mat,     \* set of <<row, col>>
          todo, cur, left, loaded, cnt, place, off, out, phase
vars == <<mat, todo, cur, left, loaded, cnt, place, off, out, phase>>
None == 0
RowCells(i) == {e \in mat : e[1] = i}
Init == /\ mat \in SUBSET (Rows \X Cols)
        /\ todo = Rows /\ cur = [w \in Workers |-> None] /\ left = [w \in Workers |-> {}]
        /\ loaded = [w \in Workers |-> <<>>]
        /\ cnt = [c \in Cols |-> 0] /\ place = [e \in mat |-> -1]
        /\ off = [c \in Cols |-> 0] /\ out = [p \in 1..Cardinality(mat) |-> {}] /\ phase = "count"
Take(w) == /\ phase \in {"count", "scatter"} /\ cur[w] = None
           /\ \E i \in todo : /\ \A j \in todo : i <= j          \* rows are handed out in order
                              /\ todo' = todo \ {i} /\ cur' = [cur EXCEPT ![w] = i] /\ left' = [left EXCEPT ![w] = RowCells(i)]
           /\ UNCHANGED <<mat, loaded, cnt, place, off, out, phase>>
First(S) == CHOOSE e \in S : \A f \in S : e[2] <= f[2]
Count(w) == /\ phase = "count" /\ cur[w] # None /\ left[w] # {}
            /\ LET e == First(left[w]) IN
               IF Atomic \/ loaded[w] # <<>>
               THEN LET v == IF Atomic THEN cnt[e[2]] ELSE loaded[w][1] IN
                    /\ place' = [place EXCEPT ![e] = v] /\ cnt' = [cnt EXCEPT ![e[2]] = v + 1]
                    /\ left' = [left EXCEPT ![w] = @ \ {e}] /\ loaded' = [loaded EXCEPT ![w] = <<>>]
               ELSE /\ loaded' = [loaded EXCEPT ![w] = <<cnt[e[2]]>>] /\ UNCHANGED <<place, cnt, left>>
            /\ UNCHANGED <<mat, todo, cur, off, out, phase>>
Scatter(w) == /\ phase = "scatter" /\ cur[w] # None /\ left[w] # {}
              /\ LET e == First(left[w])
                     p == off[e[2]] + place[e] + 1 IN
                 /\ out' = [out EXCEPT ![p] = @ \cup {e}]
                 /\ left' = [left EXCEPT ![w] = @ \ {e}]
              /\ UNCHANGED <<mat, todo, cur, loaded, cnt, place, off, phase>>
Done(w) == /\ cur[w] # None /\ left[w] = {} /\ cur' = [cur EXCEPT ![w] = None]
           /\ UNCHANGED <<mat, todo, left, loaded, cnt, place, off, out, phase>>
Idle == todo = {} /\ \A w \in Workers : cur[w] = None
RECURSIVE Sum(_, _)
Sum(f, c) == IF c = 0 THEN 0 ELSE f[c] + Sum(f, c - 1)
Offsets == /\ phase = "count" /\ Idle
           /\ off' = [c \in Cols |-> Sum(cnt, c - 1)] /\ todo' = Rows /\ phase' = "scatter"
           /\ UNCHANGED <<mat, cur, left, loaded, cnt, place, out>>
Finish == /\ phase = "scatter" /\ Idle /\ phase' = "done"
          /\ UNCHANGED <<mat, todo, cur, left, loaded, cnt, place, off, out>>
Next == Offsets \/ Finish \/ \E w \in Workers : Take(w) \/ Count(w) \/ Scatter(w) \/ Done(w)
Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ Fair
InRange == phase = "scatter" => \A w \in Workers : left[w] # {} =>
              LET e == First(left[w]) IN off[e[2]] + place[e] + 1 \in 1..Cardinality(mat)
Transposed == phase = "done" => \A c \in Cols :
   /\ \A p \in (off[c] + 1)..(off[c] + cnt[c]) : Cardinality(out[p]) = 1 /\ \A e \in out[p] : e[2] = c
   /\ UNION {out[p] : p \in (off[c] + 1)..(off[c] + cnt[c])} = {e \in mat : e[2] = c}
Terminates == <>(phase = "done")
=============================================================================
