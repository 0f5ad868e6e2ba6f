------------------------------- MODULE Quick -------------------------------
(* The partition sorts (pdqsort, vergesort's quicksort): pieces still to do,  *)
(* any pivot, any order of the pieces, ties of the pivot on either side;      *)
(* runs that were left alone are merged at the end.                           *)
(*   KeepPivot: the pivot is put between its halves                           *)
EXTENDS Sorting
CONSTANTS MaxN, K, KeepPivot
VARIABLES keys, arr, todo
vars == <<keys, arr, todo>>
N == Len(keys)
Key(t) == keys[t + 1]
Perms(S) == {p \in [1..Cardinality(S) -> S] : RangeOf(p) = S}
Init == /\ keys \in UNION {[1..m -> 0..(K - 1)] : m \in 0..MaxN}
        /\ arr = [i \in 1..N |-> i - 1] /\ todo = (IF N > 1 THEN {<<1, N>>} ELSE {})
Part == \E piece \in todo : \E pv \in piece[1]..piece[2] :
          LET a == piece[1]  b == piece[2]  p == arr[pv]
              others == {arr[i] : i \in (a..b) \ {pv}}
              ties == {t \in others : Key(t) = Key(p)}
          IN \E right \in {{}, ties} :                     \* where the pivot's equals go
               LET l == {t \in others : Key(t) < Key(p)} \cup (ties \ right)
                   r == {t \in others : Key(t) > Key(p)} \cup right
                   at == a + Cardinality(l)
               IN \E pl \in Perms(l) : \E pr \in Perms(r) :
                    /\ arr' = [i \in 1..N |-> IF i < a \/ i > b THEN arr[i] ELSE IF i < at THEN pl[i - a + 1]
                                              ELSE IF i = at THEN p ELSE pr[i - at]]
                    /\ todo' = (todo \ {piece}) \cup {q \in {<<a, IF KeepPivot THEN at - 1 ELSE at - 2>>, <<at + 1, b>>} : q[1] < q[2]}
                    /\ keys' = keys
Next == Part
Between == \A q \in todo : \A i \in 1..N : \A j \in q[1]..q[2] : (i < q[1] => Key(arr[i]) <= Key(arr[j])) /\ (i > q[2] => Key(arr[i]) >= Key(arr[j]))
Correct == todo = {} => Sorts(TRUE, FALSE, 0, keys, arr)
=============================================================================
