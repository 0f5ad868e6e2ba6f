----------------------------- MODULE BuffersMC -----------------------------
(* Every sequence of carvings of small buffers; the garbage is always the     *)
(* worst case the promises allow.  Report = "end" reports the real end of     *)
(* what was written, "sum" adds the written size to the dirty amount (as the  *)
(* hash accumulator once did) and must be refuted.                            *)
EXTENDS Buffers
CONSTANTS N, Sizes, Report
VARIABLES n, dirty, garbage, part
vars == <<n, dirty, garbage, part>>
None == [on |-> FALSE]
Init == n \in 1..N /\ dirty \in 0..n /\ garbage = Range(0, dirty) /\ part = None
DoCarve == /\ ~part.on
         /\ \E ds, cs \in Sizes : \E dn \in 0..(n \div ds), cn \in 0..(n \div cs) :
              /\ Fits(n, ds, dn, cs, cn)
              /\ LET r == Carve(n, dirty, ds, dn, cs, cn) IN
                   /\ part' = [on |-> TRUE, ds |-> ds, dn |-> dn, cs |-> cs, cn |-> cn, r |-> r]
                   /\ dirty' = r.dirty
                   /\ garbage' = {b \in garbage : r.dirty < dirty => b < r.coff}     \* [coff, dirty) is wiped
         /\ UNCHANGED n
GiveBack == /\ part.on
            /\ \E wd \in 0..(part.ds * part.dn), k \in 0..part.cn :
                 LET wc == k * part.cs r == part.r IN
                 /\ garbage' = garbage \cup Range(r.doff, wd) \cup Range(r.coff, wc)
                 /\ dirty' = IF Report = "end" THEN MustReport(r, wd, wc) ELSE Max(r.dirty, wd) + wc
                 /\ part' = None
            /\ UNCHANGED n
Next == DoCarve \/ GiveBack
Spec == Init /\ [][Next]_vars
CarvedOk == part.on => CarveOk(n, part.ds, part.dn, part.cs, part.cn, part.r, garbage)
NeverUnderstated == ~part.on => \A b \in garbage : b < dirty
=============================================================================
