----------------------------- MODULE DriverLog ------------------------------
(* What a benchmark driver reports about a product: the number of entries,    *)
(* their sum, and checksums of the arrays as they lie in memory (16-bit words *)
(* added with end-around carry, complemented).  The checksums do not depend   *)
(* on the order of the entries, so they are a function of the product alone.  *)
EXTENDS SpGEMM, TLC, FiniteSetsExt
(* ---- words, least significant first ---- *)
Half(x) == x % 65536
UWords(x) == <<Half(x), x \div 65536, 0, 0>>                         \* a 64-bit unsigned number below 2^31
IWords(x) == <<Half(x), x \div 65536>>                               \* a 32-bit one
RECURSIVE Log2(_)
Log2(x) == IF x < 2 THEN 0 ELSE 1 + Log2(x \div 2)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
DWords(x) ==                                                         \* an IEEE double holding 0 <= x < 2^20
  IF x = 0 THEN <<0, 0, 0, 0>>
  ELSE LET e == Log2(x)  f == (x - Pow2(e)) * Pow2(20 - e)            \* the 20 leading bits of the fraction
       IN <<0, 0, Half(f), (1023 + e) * 16 + f \div 65536>>
(* ---- the sum, folded word by word as a program does it, and in one go ---- *)
Fold1(ws) == FoldLeft(LAMBDA s, w : IF s + w > 65535 THEN Half(s + w) + 1 ELSE s + w, 0, ws)
Total(ws) == FoldLeft(LAMBDA s, w : s + w, 0, ws)
OnesSum(t) == IF t = 0 THEN 0 ELSE ((t - 1) % 65535) + 1
Checksum(t) == 65535 - OnesSum(t)
(* ---- the report on a product given as accumulator rows ---- *)
RowNvals(acc) == Cardinality(EntriesOf(acc))
RowSum(acc) == LET v(j) == acc[j][1] IN MapThenSumSet(v, EntriesOf(acc))
RowIdWords(acc) == LET w(j) == Half(j) + j \div 65536 IN MapThenSumSet(w, EntriesOf(acc))
RowValWords(acc, double) == LET w(j) == Total(IF double THEN DWords(acc[j][1]) ELSE UWords(acc[j][1])) IN MapThenSumSet(w, EntriesOf(acc))
(* ---- small check that folding is order independent and equals the closed form ---- *)
Words == {0, 1, 2, 32768, 65534, 65535}
ASSUME \A n \in 0..4 : \A ws \in [1..n -> Words] : Fold1(ws) = OnesSum(Total(ws))
ASSUME DWords(1) = <<0, 0, 0, 16368>> /\ DWords(3) = <<0, 0, 0, 16392>> /\ DWords(100000) = <<0, 0, 27136, 16632>>
=============================================================================
