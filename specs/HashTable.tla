----------------------------- MODULE HashTable -----------------------------
(* Design model of the open-addressing table behind the hash accumulator:     *)
(* linear probing, wrap-around, deletion by shifting later entries back.      *)
(* It is explored for every hash function from Keys to the slots and refines  *)
(* an exact map (variable map).  Variant selects the deletion rule:           *)
(*   "shift"    as designed;                                                  *)
(*   "leave"    just empties the slot (must be refuted);                      *)
(*   "nowrap"   forgets the wrap-around case (must be refuted).               *)
EXTENDS Integers, FiniteSets
CONSTANTS NSlots, Keys, MaxKeys, Variant
Slots == 0..(NSlots - 1)
EMPTY == -1
VARIABLES home,  \* the hash function of this behaviour
          slot,  \* table: slot -> key or EMPTY
          map    \* the abstract set of present keys
vars == <<home, slot, map>>

Inc(i) == (i + 1) % NSlots
RECURSIVE ProbeFrom(_, _, _)
ProbeFrom(tab, k, i) == IF tab[i] = EMPTY \/ tab[i] = k THEN i ELSE ProbeFrom(tab, k, Inc(i))
Lookup(tab, k) == ProbeFrom(tab, k, home[k])
Present(tab, k) == tab[Lookup(tab, k)] = k

(* i lies cyclically in (from, to] *)
CycIn(i, from, to) == IF from < to THEN from < i /\ i <= to ELSE IF from > to THEN i > from \/ i <= to ELSE FALSE

RECURSIVE Shift(_, _, _)
Shift(tab, hole, i) ==
  LET n == Inc(i) IN
  IF tab[n] = EMPTY THEN [tab EXCEPT ![hole] = EMPTY]
  ELSE LET h == home[tab[n]]
           stays == IF Variant = "nowrap" THEN hole < h /\ h <= n ELSE CycIn(h, hole, n)
       IN IF stays THEN Shift(tab, hole, n) ELSE Shift([tab EXCEPT ![hole] = tab[n]], n, n)

Erased(tab, k) == LET i == Lookup(tab, k) IN
  IF tab[i] = EMPTY THEN tab
  ELSE IF Variant = "leave" THEN [tab EXCEPT ![i] = EMPTY] ELSE Shift(tab, i, i)

Init == home \in [Keys -> Slots] /\ slot = [s \in Slots |-> EMPTY] /\ map = {}
Insert(k) == /\ Cardinality(map \cup {k}) <= MaxKeys
             /\ slot' = [slot EXCEPT ![Lookup(slot, k)] = k]
             /\ map' = map \cup {k}
             /\ UNCHANGED home
Erase(k) == slot' = Erased(slot, k) /\ map' = map \ {k} /\ UNCHANGED home
Reset == slot' = [s \in Slots |-> EMPTY] /\ map' = {} /\ UNCHANGED home
Next == (\E k \in Keys : Insert(k) \/ Erase(k)) \/ Reset
Spec == Init /\ [][Next]_vars

ExactMap == \A k \in Keys : Present(slot, k) <=> k \in map
NoDuplicate == \A a, b \in Slots : a # b /\ slot[a] # EMPTY => slot[a] # slot[b]
OnlyStored == \A s \in Slots : slot[s] = EMPTY \/ slot[s] \in map
=============================================================================
