------------------------------ MODULE SortGen ------------------------------
(* Plans of arrays to sort: a few segments, each with a shape (ascending,     *)
(* descending, equal, few keys, saw, blocks of ties, ...), a length around    *)
(* the thresholds at which the algorithms change, a parameter and a base.     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth
VARIABLES plan
Lens == <<1, 2, 5, 7, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 79, 80, 81, 100, 127, 128, 129, 150, 200, 256, 257>>
Pick(n, h) == RandomElement(1..(n + 0 * Len(h)))
Init == plan = <<>>
Next == plan' = Append(plan, <<Pick(10, plan), IF Pick(3, plan) = 1 THEN Lens[Pick(Len(Lens), plan)] ELSE Lens[Pick(18, plan)], Pick(9, plan), Pick(9, plan) - 5>>)
Dump == (TLCGet("level") >= 2 /\ (TLCGet("level") = Depth \/ TLCGet("level") \in {2, 3, 4, 6})) => PrintT(<<"GEN", plan>>)
=============================================================================
