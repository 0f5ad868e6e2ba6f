------------------------------ MODULE Semiring ------------------------------
(* The semirings the harnesses hand to the library.  add is always a          *)
(* commutative monoid, mult is arbitrary (not commutative in general).        *)
EXTENDS Integers

Lo(x, y) == IF x <= y THEN x ELSE y
Hi(x, y) == IF x >= y THEN x ELSE y
B2I(b) == IF b THEN 1 ELSE 0

Mult(sr, a, b) ==
  CASE sr = "plus_times"  -> a * b
    [] sr = "min_plus"    -> a + b
    [] sr = "max_plus"    -> a + b
    [] sr = "max_min"     -> Lo(a, b)
    [] sr = "or_and"      -> B2I(a # 0 /\ b # 0)
    [] sr = "xor_and"     -> B2I(a % 2 # 0 /\ b % 2 # 0)
    [] sr = "plus_first"  -> a
    [] sr = "min_first"   -> a
    [] sr = "plus_second" -> b
    [] sr = "max_second"  -> b
    [] sr = "plus_pair"   -> 1
    [] sr = "plus_minus"  -> a - b

Plus(sr, x, y) ==
  CASE sr \in {"plus_times", "plus_first", "plus_second", "plus_pair", "plus_minus"} -> x + y
    [] sr \in {"min_plus", "min_first"} -> Lo(x, y)
    [] sr \in {"max_plus", "max_min", "max_second"} -> Hi(x, y)
    [] sr = "or_and" -> B2I(x # 0 \/ y # 0)
    [] sr = "xor_and" -> B2I(x # y)
=============================================================================
