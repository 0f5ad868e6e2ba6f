----------------------------- MODULE MaskAccGen -----------------------------
(* Behaviours of MaskAcc for replay.  Two drivers are mixed: free operations  *)
(* and rows in the way the algorithms use the accumulator.                    *)
EXTENDS MaskAcc, TLC
CONSTANTS Depth, Kind, Valued
VARIABLES st, hist, n
vars == <<st, hist, n>>
R(s) == RandomElement(s)
Ks == 0..(n - 1)
Acc == IF ~Valued THEN "mark" ELSE IF Kind = "plain" THEN R({"acc", "accd"}) ELSE "acc"
Free ==
  CASE Kind = "plain" -> R({"allow", "allow", "acc", "acc2", "erase", "clear", "reset", "resetrange", "check"})
    [] Kind = "compl" -> R({"forbid", "acc", "acc2", "acc3", "erase", "clear", "reset", "resetrange", "check"})
    [] OTHER -> R({"acc", "acc2", "acc3", "erase", "clear", "clearn", "clearall"})
Ends == IF Kind = "mca" THEN {"clearall", "clearn", "rebuffer"} ELSE IF Valued THEN {"gather", "gathersorted", "resetrange", "rebuffer"} ELSE {"resetrange", "reset", "rebuffer"}
Candidate ==
  LET roll == R(1..20) f == Free IN
  IF roll = 1 THEN LET e == R(Ends) IN IF e = "rebuffer" /\ ~Clean(Kind, st) THEN <<(IF Kind = "mca" THEN "clearall" ELSE "resetrange"), 0, n - 1>>
     ELSE IF e = "clearn" THEN <<e, R(0..n), 0>> ELSE IF e = "resetrange" THEN <<e, 0, n - 1>> ELSE <<e, 0, 0>>
  ELSE IF roll = 2 /\ Kind # "mca" THEN <<"check", 0, 0>>
  ELSE IF f \in {"acc", "acc2", "acc3"} THEN <<Acc, R(Ks), R(0..9)>>
  ELSE IF f = "resetrange" THEN (IF R(1..4) = 1 THEN <<f, R(Ks), R(Ks)>> ELSE <<Acc, R(Ks), R(0..9)>>)
  ELSE IF f \in {"reset", "clearall", "clearn"} THEN (IF R(1..6) = 1 THEN <<f, R(0..n), 0>> ELSE <<Acc, R(Ks), R(0..9)>>)
  ELSE <<f, R(Ks), 0>>
Init == n \in {1, 2, 5, 8, 13, 30} /\ st = Fresh(Kind, n) /\ hist = << >>
Next == \E o \in {Candidate} :
        /\ IF Pre(Kind, st, o) /\ (o[1] \in {"acc", "accd"} => st.v[o[2]] < 60)
           THEN st' = After(Kind, st, o) /\ hist' = Append(hist, o) ELSE UNCHANGED <<st, hist>>
        /\ UNCHANGED n
Dump == TLCGet("level") = Depth => PrintT(<<"GEN", n, hist>>)
(* design-level sanity: values only where the mask lets them be               *)
Sane == /\ \A k \in Keys(st) : st.s[k] \in {"N", "A", "I"}
        /\ Cardinality(DSet(st)) = Len(st.d)
=============================================================================
