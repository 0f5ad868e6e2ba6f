-------------------------------- MODULE Terms --------------------------------
(* Values as opaque terms.  The entries of A and B are leaves; the only ways  *)
(* to make a new value are mult(leaf of A, leaf of B) and add(term, term).    *)
(* A term remembers the output position it belongs to and the inner indices   *)
(* whose products it contains.                                                *)
EXTENDS Integers, Sequences, FiniteSets

(* leaf[x] = <<row, col>>; leaves 1..nA are A's, nA+1..Len(leaf) are B's      *)
IsLeafA(leaf, nA, x) == 1 <= x /\ x <= nA
IsLeafB(leaf, nA, y) == nA < y /\ y <= Len(leaf)
IsTerm(leaf, store, x) == Len(leaf) < x /\ x <= Len(leaf) + Len(store)
TermAt(leaf, store, x) == store[x - Len(leaf)]

MultOk(leaf, nA, x, y) ==
  IsLeafA(leaf, nA, x) /\ IsLeafB(leaf, nA, y) /\ leaf[x][2] = leaf[y][1]
MultTerm(leaf, x, y) == [i |-> leaf[x][1], j |-> leaf[y][2], ks |-> {leaf[x][2]}]

AddOk(leaf, store, x, y) ==
  /\ IsTerm(leaf, store, x) /\ IsTerm(leaf, store, y)
  /\ LET a == TermAt(leaf, store, x)
         b == TermAt(leaf, store, y)
     IN a.i = b.i /\ a.j = b.j /\ a.ks \cap b.ks = {}
AddTerm(leaf, store, x, y) ==
  LET a == TermAt(leaf, store, x)
      b == TermAt(leaf, store, y)
  IN [i |-> a.i, j |-> a.j, ks |-> a.ks \cup b.ks]

(* Inner indices that contribute to (i,j).                                    *)
Contributing(leaf, nA, i, j) ==
  {leaf[x][2] : x \in {x \in 1..nA : leaf[x][1] = i /\ \E y \in (nA + 1)..Len(leaf) : leaf[y] = <<leaf[x][2], j>>}}
=============================================================================
