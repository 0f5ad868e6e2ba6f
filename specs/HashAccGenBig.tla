--------------------------- MODULE HashAccGenBig ---------------------------
(* HashAccGen with many keys and nearly full tables.                          *)
EXTENDS HashAcc, TLC
CONSTANTS Depth, KVV
VARIABLES st, hist, univ, cap
G == INSTANCE HashAccGen
Init == st = Fresh /\ hist = << >> /\ univ \in {40, 90} /\ cap \in {31, 63, 70}
Grow == /\ st.size > 0 /\ Cardinality(Dom(st)) < st.size
        /\ \E o \in {<<IF KVV /\ st.tracked = {} THEN "insertv" ELSE "track", RandomElement(0..(univ - 1)), IF KVV THEN RandomElement(0..99) ELSE ANY, IF KVV THEN 1 ELSE 0>>} :
              st' = After(st, o) /\ hist' = Append(hist, o)
        /\ UNCHANGED <<univ, cap>>
Next == G!Next \/ Grow
Dump == G!Dump
Bounded == G!Bounded
=============================================================================
