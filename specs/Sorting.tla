------------------------------ MODULE Sorting ------------------------------
(* What it means to have sorted.  keys[i] is the key of the i-th element put *)
(* in (the element's identity is i - 1); out is what came out.               *)
EXTENDS Integers, Sequences, FiniteSets
Ord(cmp, k) == CASE cmp = 1 -> -k [] cmp = 2 -> (k + 8000) \div 8 [] OTHER -> k
RangeOf(s) == {s[i] : i \in 1..Len(s)}
\* out lists identities: nobody lost or doubled, ordered, and (if promised) equals in their old order
Permutes(keys, out) == Len(out) = Len(keys) /\ RangeOf(out) = 0..(Len(keys) - 1)
Ordered(cmp, keys, out) == \A i \in 1..(Len(out) - 1) : Ord(cmp, keys[out[i] + 1]) <= Ord(cmp, keys[out[i + 1] + 1])
Stable(cmp, keys, out) == \A i \in 1..(Len(out) - 1) :
                             Ord(cmp, keys[out[i] + 1]) = Ord(cmp, keys[out[i + 1] + 1]) => out[i] < out[i + 1]
\* out lists plain keys
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(keys, out) == /\ Len(out) = Len(keys)
                      /\ LET vals == RangeOf(keys)
                         IN /\ RangeOf(out) = vals
                            /\ \/ Cardinality(vals) = Len(keys)
                               \/ \A v \in vals : Count(keys, v) = Count(out, v)
OrderedKeys(cmp, out) == \A i \in 1..(Len(out) - 1) : Ord(cmp, out[i]) <= Ord(cmp, out[i + 1])
Sorts(tagged, stable, cmp, keys, out) ==
  IF tagged THEN Permutes(keys, out) /\ Ordered(cmp, keys, out) /\ (stable => Stable(cmp, keys, out))
  ELSE OrderedKeys(cmp, out) /\ SameBag(keys, out)
=============================================================================
