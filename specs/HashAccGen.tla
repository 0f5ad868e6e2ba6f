----------------------------- MODULE HashAccGen -----------------------------
(* Behaviours of HashAcc, printed for replay against the real accumulator.    *)
EXTENDS HashAcc, TLC
CONSTANTS Depth, KVV          \* KVV: the variant with values, else the key-only table
VARIABLES st, hist, univ, cap
vars == <<st, hist, univ, cap>>

KeyOps == IF KVV THEN {"insert", "insertv", "track", "trackidx", "set", "find", "erase", "erase"} ELSE {"insertv", "track", "find", "erase"}
Ends == IF KVV THEN {"gather", "gatherkeys", "gatherlist", "gathersorted", "reset", "rebuffer"} ELSE {"reset", "resetlist", "rebuffer"}
KeyChoice == IF Dom(st) # {} /\ RandomElement(1..3) = 1 THEN RandomElement(Dom(st)) ELSE RandomElement(0..(univ - 1))
Candidate ==
  IF st.size = 0 THEN <<"resize", RandomElement(1..cap), 0, 0>>
  ELSE IF RandomElement(1..14) = 1
       THEN LET e == RandomElement(Ends) IN <<e, 0, 0, 0>>
       ELSE IF Dom(st) = {} /\ RandomElement(1..6) = 1 THEN <<"resize", RandomElement(1..cap), 0, 0>>
       ELSE <<RandomElement(KeyOps), KeyChoice, IF KVV THEN RandomElement(0..99) ELSE ANY, IF KVV THEN RandomElement(0..1) ELSE 0>>
Init == st = Fresh /\ hist = << >> /\ univ \in {3, 5, 9, 16} /\ cap \in {1, 3, 4, 7, 12, 15}
Next == \E o \in {Candidate} :      \* bound once: RandomElement is not a constant
        /\ IF Pre(st, o) THEN st' = After(st, o) /\ hist' = Append(hist, o) ELSE UNCHANGED <<st, hist>>
        /\ UNCHANGED <<univ, cap>>
Dump == TLCGet("level") = Depth => PrintT(<<"GEN", univ, cap, hist>>)
Bounded == Cardinality(Dom(st)) <= st.size \/ st.size = 0
=============================================================================
