------------------------------- MODULE TermsMC -------------------------------
(* Why checking calls is enough: whatever legal calls are made in whatever    *)
(* order, a term whose index set is complete has the value of the sum of      *)
(* products, in every semiring - commutativity and associativity of add are   *)
(* all that is used (mult need not commute, add needs no identity).           *)
EXTENDS Terms, Semiring, TLC

CONSTANT SR
(* one row of A (3 entries) times B (3 x 2)                                   *)
leaf == << <<0, 0>>, <<0, 1>>, <<0, 2>>,  <<0, 0>>, <<0, 1>>, <<1, 0>>, <<2, 0>>, <<2, 1>> >>
nA == 3
val == << 2, -3, 5, 7, -1, 4, 0, 6 >>

VARIABLES store, vals, used
vars == <<store, vals, used>>

ValOf(x) == IF x <= Len(leaf) THEN val[x] ELSE vals[x - Len(leaf)]

Init == store = << >> /\ vals = << >> /\ used = {}

MultCall == \E x \in 1..nA, y \in (nA + 1)..Len(leaf) :
  /\ MultOk(leaf, nA, x, y)
  /\ <<x, y>> \notin used
  /\ store' = Append(store, MultTerm(leaf, x, y))
  /\ vals' = Append(vals, Mult(SR, ValOf(x), ValOf(y)))
  /\ used' = used \cup {<<x, y>>}

AddCall == \E x, y \in (Len(leaf) + 1)..(Len(leaf) + Len(store)) :
  /\ AddOk(leaf, store, x, y)
  /\ <<x, y>> \notin used
  /\ ~ \E u \in used : x \in {u[1], u[2]} /\ u[1] > Len(leaf)
  /\ ~ \E u \in used : y \in {u[1], u[2]} /\ u[1] > Len(leaf)
  /\ store' = Append(store, AddTerm(leaf, store, x, y))
  /\ vals' = Append(vals, Plus(SR, ValOf(x), ValOf(y)))
  /\ used' = used \cup {<<x, y>>}

Next == MultCall \/ AddCall
Spec == Init /\ [][Next]_vars

LeafVal(i, k, lo, hi) == val[CHOOSE x \in lo..hi : leaf[x] = <<i, k>>]
RECURSIVE SumOver(_, _, _)
SumOver(ks, i, j) ==
  LET k == CHOOSE k \in ks : TRUE
      p == Mult(SR, LeafVal(i, k, 1, nA), LeafVal(k, j, nA + 1, Len(leaf)))
  IN IF ks = {k} THEN p ELSE Plus(SR, p, SumOver(ks \ {k}, i, j))

TermsMeanSums == \A t \in DOMAIN store : vals[t] = SumOver(store[t].ks, store[t].i, store[t].j)
TermsWithinEntry == \A t \in DOMAIN store : store[t].ks \subseteq Contributing(leaf, nA, store[t].i, store[t].j)
=============================================================================
