------------------------------ MODULE Triples -------------------------------
(* Removing duplicates from a list of triples in place: after sorting by row  *)
(* and column, a reading position runs ahead of a writing position.           *)
(*   Guard:  the empty list is recognised                                     *)
(*   Both:   a triple is a duplicate if row and column agree with the last    *)
(*   Behind: the comparison is with the element before the reading position   *)
(*           (otherwise with the one at the writing position: wrong)          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS R, C, MaxN, Guard, Both, Behind
Coords == (0..(R - 1)) \X (0..(C - 1))
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Strict(s) == \A i \in 1..(Len(s) - 1) : Before(s[i], s[i + 1])
\* the contract
Deduplicated(inp, out) == Strict(out) /\ RangeOf(out) = RangeOf(inp)

Lists == UNION {[1..k -> Coords] : k \in 0..MaxN}
InOrder(s) == \A i \in 1..(Len(s) - 1) : ~Before(s[i + 1], s[i])
VARIABLES inp, arr, src, dst, pc
vars == <<inp, arr, src, dst, pc>>
Init == /\ inp \in Lists /\ InOrder(inp) /\ arr = inp /\ src = 2
        /\ dst = (IF Guard /\ Len(inp) = 0 THEN 1 ELSE 2)        \* the position to write next
        /\ pc = "scan"
Same(x, y) == x[1] = y[1] /\ (Both => x[2] = y[2])
Last == IF Behind THEN arr[src - 1] ELSE arr[dst]
Step == /\ pc = "scan" /\ src <= Len(arr)
        /\ IF ~Same(arr[src], Last) THEN arr' = [arr EXCEPT ![dst] = arr[src]] /\ dst' = dst + 1
           ELSE UNCHANGED <<arr, dst>>
        /\ src' = src + 1 /\ UNCHANGED <<inp, pc>>
Stop == pc = "scan" /\ src > Len(arr) /\ pc' = "done" /\ UNCHANGED <<inp, arr, src, dst>>
Next == Step \/ Stop
InBounds == dst - 1 <= Len(arr) /\ dst <= src
Correct == pc = "done" => dst - 1 <= Len(arr) /\ Deduplicated(inp, SubSeq(arr, 1, dst - 1))
=============================================================================
