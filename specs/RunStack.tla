------------------------------ MODULE RunStack ------------------------------
(* The stack of pending runs of a timsort, by their lengths.  A run is pushed *)
(* and then runs are merged until the rule is satisfied.                      *)
(*   Deep: the rule also looks at the fourth run from the top                 *)
(* Tidy (what bounds the height of the stack by a logarithm): every run is    *)
(* longer than the next one, and longer than the next two together.           *)
EXTENDS Integers, Sequences
CONSTANTS MaxLen, MaxTotal, Deep
VARIABLES st, total, phase
vars == <<st, total, phase>>
n == Len(st)
L(k) == st[n - k]                       \* k-th from the top, 0 = top
BadABC == \/ n > 2 /\ L(2) <= L(1) + L(0)
          \/ Deep /\ n > 3 /\ L(3) <= L(2) + L(1)
BadBC == n > 1 /\ L(1) <= L(0)
MergeAB(s) == LET m == Len(s) IN SubSeq(s, 1, m - 3) \o <<s[m - 2] + s[m - 1], s[m]>>
MergeBC(s) == LET m == Len(s) IN SubSeq(s, 1, m - 2) \o <<s[m - 1] + s[m]>>
Init == st = <<>> /\ total = 0 /\ phase = "push"
Push == /\ phase = "push" /\ \E x \in 1..MaxLen : total + x <= MaxTotal /\ st' = Append(st, x) /\ total' = total + x /\ phase' = "settle"
Settle == /\ phase = "settle" /\ total' = total
          /\ IF BadABC THEN st' = (IF L(2) < L(0) THEN MergeAB(st) ELSE MergeBC(st)) /\ phase' = phase
             ELSE IF BadBC THEN st' = MergeBC(st) /\ phase' = phase
             ELSE st' = st /\ phase' = "push"
Next == Push \/ Settle
Spec == Init /\ [][Next]_vars /\ WF_vars(Settle)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Covers == Sum(st) = total
Tidy == phase = "push" => /\ \A i \in 1..(n - 1) : st[i] > st[i + 1]
                          /\ \A i \in 1..(n - 2) : st[i] > st[i + 1] + st[i + 2]
Settles == phase = "settle" ~> phase = "push"
=============================================================================
