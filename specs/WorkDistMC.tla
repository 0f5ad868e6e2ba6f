----------------------------- MODULE WorkDistMC -----------------------------
(* All work vectors up to MaxRows x MaxWork on up to MaxT threads: threads    *)
(* compute their ranges one after another, in any order.                      *)
EXTENDS WorkDist
CONSTANTS MaxRows, MaxWork, MaxT, Kind    \* "driver" | "bin" | "binlast" (last offset searched, not fixed)
VARIABLES work, T, got
vars == <<work, T, got>>
Init == /\ \E n \in 1..MaxRows : work \in [1..n -> 0..MaxWork]
        /\ T \in 1..MaxT
        /\ got = [t \in 1..T |-> << >>]
Range(t) == IF Kind = "driver" THEN DriverRange(work, T, t)
            ELSE <<BinOffset(work, T, t, Kind = "bin"), BinOffset(work, T, t + 1, Kind = "bin")>>
Next == \E t \in 1..T : /\ got[t] = << >> /\ \A u \in 1..(t - 1) : got[u] # << >>
                        /\ got' = [got EXCEPT ![t] = Range(t - 1)] /\ UNCHANGED <<work, T>>
AllThere == \A t \in 1..T : got[t] # << >>
Partitioned == AllThere => Partition(got, Len(work))
\* no thread's bound can be smaller than what one of its rows needs
=============================================================================
