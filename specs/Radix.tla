------------------------------- MODULE Radix -------------------------------
(* Least-significant-digit radix sort: one stable counting pass per digit,    *)
(* elements moved one at a time to the slot its digit's counter points at.    *)
(*   Low: the passes go from the least significant digit                      *)
(*   Forward: elements are placed in the order they lie in                    *)
EXTENDS Sorting
CONSTANTS MaxN, B, D, Low, Forward
VARIABLES keys, src, dst, cnt, at, pass
vars == <<keys, src, dst, cnt, at, pass>>
N == Len(keys)
RECURSIVE Pow(_)
Pow(e) == IF e = 0 THEN 1 ELSE B * Pow(e - 1)
Dig(t, p) == (keys[t + 1] \div Pow(IF Low THEN p ELSE D - 1 - p)) % B
Below(s, p, d) == Cardinality({i \in 1..N : Dig(s[i], p) < d})
Init == /\ keys \in UNION {[1..m -> 0..(Pow(D) - 1)] : m \in 0..MaxN}
        /\ src = [i \in 1..N |-> i - 1] /\ dst = [i \in 1..N |-> -1]
        /\ pass = 0 /\ at = 1 /\ cnt = [d \in 0..(B - 1) |-> Below(src, 0, d)]
Move == /\ pass < D /\ at <= N
        /\ LET t == src[IF Forward THEN at ELSE N + 1 - at]  d == Dig(t, pass)
           IN dst' = [dst EXCEPT ![cnt[d] + 1] = t] /\ cnt' = [cnt EXCEPT ![d] = @ + 1]
        /\ at' = at + 1 /\ UNCHANGED <<keys, src, pass>>
Swap == /\ pass < D /\ at > N
        /\ src' = dst /\ dst' = [i \in 1..N |-> -1] /\ pass' = pass + 1 /\ at' = 1
        /\ cnt' = [d \in 0..(B - 1) |-> IF pass + 1 < D THEN Below(dst, pass + 1, d) ELSE 0] /\ keys' = keys
Next == Move \/ Swap
NothingOverwritten == \A i, j \in 1..N : i # j /\ dst[i] >= 0 => dst[i] # dst[j]
Correct == pass = D => Sorts(TRUE, TRUE, 0, keys, src)
=============================================================================
