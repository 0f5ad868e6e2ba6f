------------------------------ MODULE Cliques ------------------------------
(* The SSCA2 generator: the vertices are cut into cliques of random sizes, an *)
(* estimated number of which is drawn at once; every pair inside a clique is  *)
(* joined in both directions or in one, by one to P parallel edges; edges     *)
(* between cliques are added at D distances per vertex.                       *)
(*   More:  sizes go on being drawn when the estimated number does not reach  *)
(*          all the vertices (otherwise the last clique takes what is left)   *)
(*   Room:  "bound"    edge lists as long as the longest possible outcome     *)
(*          "estimate" as long as the expected one                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS MaxN, MaxM, MaxEst, P, D, More, Room
VARIABLES n, m, est, uni, sizes, intra, inter, phase
vars == <<n, m, est, uni, sizes, intra, inter, phase>>
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Pairs(s) == FoldLeft(LAMBDA a, x : a + (x * (x - 1)) \div 2, 0, s)
Length(nn, mm, u) == IF Room = "bound" THEN nn * P * (mm - 1 + D)
                     ELSE (nn * mm * (IF u THEN 1 ELSE 2) * (1 + P \div 2)) \div 2 + nn * D
Init == /\ n \in 1..MaxN /\ m \in 1..MaxM /\ est \in 1..MaxEst /\ uni \in BOOLEAN
        /\ sizes = <<>> /\ intra = 0 /\ inter = 0 /\ phase = "sizes"
DrawSize == /\ phase = "sizes" /\ (Len(sizes) < est \/ (More /\ Sum(sizes) < n))
            /\ \E s \in 1..m : sizes' = Append(sizes, s)
            /\ UNCHANGED <<n, m, est, uni, intra, inter, phase>>
\* the vertices are handed out until there are none left; the last clique takes the rest
Cut == /\ phase = "sizes" /\ Len(sizes) >= est /\ (~More \/ Sum(sizes) >= n)
       /\ LET k == IF Sum(sizes) < n THEN Len(sizes) ELSE CHOOSE i \in 1..Len(sizes) : Sum(SubSeq(sizes, 1, i)) >= n /\ Sum(SubSeq(sizes, 1, i - 1)) < n
          IN sizes' = [i \in 1..k |-> IF i < k THEN sizes[i] ELSE n - Sum(SubSeq(sizes, 1, k - 1))]
       /\ phase' = "edges" /\ UNCHANGED <<n, m, est, uni, intra, inter>>
Join == /\ phase = "edges"
        /\ LET q == Pairs(sizes) IN \E e \in {q, q * (IF uni THEN 1 ELSE 2) * P} : intra' = e    \* the extremes
        /\ \E e \in {0, n * D * P} : inter' = (IF Len(sizes) = 1 THEN 0 ELSE e)
        /\ phase' = "done" /\ UNCHANGED <<n, m, est, uni, sizes>>
Next == DrawSize \/ Cut \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Tiled == phase # "sizes" => Sum(sizes) = n /\ \A i \in 1..Len(sizes) : sizes[i] \in 1..m
Fits == phase = "done" => intra + inter <= Length(n, m, uni)
Finishes == <>(phase = "done")
-----------------------------------------------------------------------------
(* What the outcome promises.  es: the edges; how: "both", "one" or "mixed"   *)
(* directions inside a clique; far: whether there may be edges between        *)
(* cliques; cl, ins, outs: the numbers the log gives.                         *)
Count(es) == FoldLeft(LAMBDA f, e : [f EXCEPT ![<<e[1], e[2]>>] = @ + 1],
                      [p \in {<<e[1], e[2]>> : e \in {es[i] : i \in 1..Len(es)}} |-> 0], es)
Nbrs(es, v) == {v} \cup {es[i][2] : i \in {j \in 1..Len(es) : es[j][1] = v}} \cup {es[i][1] : i \in {j \in 1..Len(es) : es[j][2] = v}}
CliqueGraph(nn, mm, pp, how, far, cl, ins, outs, es) ==
  LET c == Count(es)
      nb == [v \in 0..(nn - 1) |-> Nbrs(es, v)]
  IN IF \E i \in 1..Len(es) : es[i][1] \notin 0..(nn - 1) \/ es[i][2] \notin 0..(nn - 1) THEN "vertex out of range"
     ELSE IF \E i \in 1..Len(es) : es[i][1] = es[i][2] THEN "a self loop"
     ELSE IF \E e \in DOMAIN c : c[e] > pp THEN "too many parallel edges"
     ELSE IF ins + outs # Len(es) THEN "the log does not add up"
     ELSE IF cl > nn \/ cl * mm < nn THEN "not so many cliques"
     ELSE IF far THEN IF ins > nn * (mm - 1) * pp \/ ins < nn - cl THEN "edges inside cliques" ELSE ""
     ELSE IF outs # 0 THEN "edges between cliques"
     ELSE IF \E v \in 0..(nn - 1) : \E w \in nb[v] : nb[w] # nb[v] THEN "not a union of cliques"
     ELSE IF \E v \in 0..(nn - 1) : Cardinality(nb[v]) > mm THEN "a clique is too large"
     ELSE IF Cardinality({nb[v] : v \in 0..(nn - 1)}) # cl THEN "not the number of cliques logged"
     ELSE IF how = "both" /\ \E e \in DOMAIN c : <<e[2], e[1]>> \notin DOMAIN c THEN "a direction is missing"
     ELSE IF how = "one" /\ \E e \in DOMAIN c : <<e[2], e[1]>> \in DOMAIN c THEN "both directions" ELSE ""
=============================================================================
