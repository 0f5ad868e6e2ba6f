------------------------------ MODULE Buffers ------------------------------
(* One work buffer of n bytes, re-carved again and again.  Bytes at or above  *)
(* dirty are promised to hold the clean pattern.  Carving (splitMemory) hands *)
(* out a part that may hold garbage (dn objects of ds bytes) and a part that  *)
(* is clean (cn objects of cs bytes); the user writes into both; giving the   *)
(* buffer back reports a new amount of dirty memory.                          *)
(* garbage is the set of bytes that do not hold the clean pattern.            *)
EXTENDS Integers, FiniteSets
Max(a, b) == IF a > b THEN a ELSE b
RoundUp(s, x) == ((x + s - 1) \div s) * s
RoundDown(s, x) == (x \div s) * s
Range(a, len) == {i \in a..(a + len - 1) : TRUE}

Fits(n, ds, dn, cs, cn) == RoundUp(cs, ds * dn) + cs * cn <= RoundDown(cs, n)

(* What any carving must deliver: r = [doff, coff, dirty], g the garbage after it. *)
CarveOk(n, ds, dn, cs, cn, r, g) ==
  /\ r.coff % cs = 0 /\ r.doff % ds = 0
  /\ r.doff >= 0 /\ r.doff + ds * dn <= n
  /\ r.coff >= 0 /\ r.coff + cs * cn <= n
  /\ (dn > 0 /\ cn > 0) => (r.doff + ds * dn <= r.coff \/ r.coff + cs * cn <= r.doff)
  /\ \A b \in g : ~(r.coff <= b /\ b < r.coff + cs * cn)
  /\ 0 <= r.dirty /\ r.dirty <= n
  /\ \A b \in g : b < r.dirty

(* The algorithm.                                                             *)
Carve(n, dirty, ds, dn, cs, cn) ==
  LET top == RoundDown(cs, n)
      used == RoundUp(cs, Max(dirty, ds * dn))
  IN IF used + cs * cn <= top THEN [doff |-> 0, coff |-> used, dirty |-> dirty]
     ELSE [doff |-> 0, coff |-> top - cs * cn, dirty |-> top - cs * cn]

(* What the user must report after leaving wd bytes of garbage at the front   *)
(* part and wc bytes at the clean part.                                       *)
MustReport(r, wd, wc) == Max(r.dirty, Max(IF wd > 0 THEN r.doff + wd ELSE 0, IF wc > 0 THEN r.coff + wc ELSE 0))
=============================================================================
