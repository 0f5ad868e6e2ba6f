---------------------------- MODULE MergeBuffer -----------------------------
(* The one block of memory a timsort shares between its stack of run offsets, *)
(* growing down from the end, and the elements set aside during a merge,      *)
(* growing up from the start: offsets of I bytes, elements of V bytes, Total  *)
(* bytes.  Elements once put there stay alive until the space is wanted.      *)
(*   Right: the overlap is computed as elements + offsets - total             *)
EXTENDS Integers
CONSTANTS Total, I, V, Right
VARIABLES offsets, alive, lost
vars == <<offsets, alive, lost>>
Init == offsets = 1 /\ alive = 0 /\ lost = 0
Free == Total - offsets * I
Bound == alive * V
MustTrim == alive > 0 /\ Total - Bound < (offsets + 1) * I
Up(x) == (x + V - 1) \div V
Trim == IF V >= I THEN 1
        ELSE IF Right THEN Up(Bound - (Total - (offsets + 1) * I))
        ELSE Up(Total - (offsets + 1) * I - Bound)
Push == /\ (offsets + 1) * I <= Total
        /\ offsets' = offsets + 1
        /\ LET t == IF MustTrim THEN Trim ELSE 0 IN alive' = alive - t /\ lost' = t
MergeTop == /\ offsets > 2
            /\ offsets' = offsets - 1
            /\ \E m \in 1..(Total \div V) :           \* the shorter run has m elements
                 alive' = IF m * V > Free THEN alive       \* it goes to the heap
                          ELSE IF m > alive THEN m ELSE alive
            /\ lost' = 0
Next == Push \/ MergeTop
Apart == Bound + offsets * I <= Total /\ alive >= 0
NoMoreThanNeeded == lost > 0 => (alive + lost) * V + offsets * I > Total /\ (alive + lost - 1) * V + offsets * I + V > Total
=============================================================================
