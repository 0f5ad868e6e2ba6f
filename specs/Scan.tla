-------------------------------- MODULE Scan --------------------------------
(* Blocked parallel prefix sums: P threads sum their block, publish the sum,  *)
(* meet at a barrier, then write their block from the offset of the blocks    *)
(* before it.  Element accesses of different threads interleave freely.       *)
(*   Kind "incl"  dst[i] = in[0] + .. + in[i]                                 *)
(*        "excl"  dst[i] = in[0] + .. + in[i-1]                               *)
(*        "util"  as excl, but in has only N-1 elements; the block is summed  *)
(*                while it is written and shifted by the offset afterwards    *)
(*   Barrier: the barrier exists.  LastReads: the last thread also computes   *)
(*   its (never used) block total, which reads in[N-1].                       *)
(* in[i] = 2^i, so every sum identifies the set of elements summed.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxP, Kind, Barrier, LastReads
VARIABLES N, P, dst, part, pc, at, off, bad
vars == <<N, P, dst, part, pc, at, off, bad>>
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
In(i) == Pow(i)
Upto(n) == Pow(n) - 1                  \* in[0] + .. + in[n-1]
InLen == IF Kind = "util" THEN N - 1 ELSE N
Each == N \div P
Start(t) == Each * t
End(t) == IF t < P - 1 THEN Start(t) + Each ELSE N
Thr == 0..(P - 1)
Undef == -1
Init == /\ N \in 1..MaxN /\ P \in 1..MaxP
        /\ (Kind = "util" => P <= N)
        /\ dst = [i \in 0..(N - 1) |-> Undef] /\ part = [t \in Thr |-> Undef]
        /\ pc = [t \in Thr |-> "sum"] /\ at = [t \in Thr |-> 0] /\ off = [t \in Thr |-> 0] /\ bad = FALSE
Reads(i) == i >= 0 /\ i < InLen
SumRange(a, b) == IF b > a THEN Upto(b) - Upto(a) ELSE 0

Sum(t) ==     \* the block total (incl, excl); the local scan (util)
  /\ pc[t] = "sum"
  /\ IF Kind = "util"
     THEN /\ dst' = [i \in DOMAIN dst |-> IF Start(t) <= i /\ i < End(t) THEN SumRange(Start(t), i) ELSE dst[i]]
          /\ IF t = P - 1 /\ ~LastReads THEN UNCHANGED <<part, bad>>
             ELSE /\ part' = [part EXCEPT ![t] = SumRange(Start(t), End(t))]
                  /\ bad' = (bad \/ (End(t) > Start(t) /\ ~Reads(End(t) - 1)))
     ELSE /\ part' = [part EXCEPT ![t] = SumRange(Start(t), End(t))]
          /\ UNCHANGED <<dst, bad>>
  /\ pc' = [pc EXCEPT ![t] = "bar"]
  /\ UNCHANGED <<N, P, at, off>>
Pass(t) ==
  /\ pc[t] = "bar" /\ (Barrier => \A u \in Thr : pc[u] # "sum")
  /\ pc' = [pc EXCEPT ![t] = "off"]
  /\ UNCHANGED <<N, P, dst, part, at, off, bad>>
Off(t) ==     \* one partial sum at a time
  /\ pc[t] = "off"
  /\ IF at[t] < t
     THEN /\ bad' = (bad \/ part[at[t]] = Undef)
          /\ off' = [off EXCEPT ![t] = @ + part[at[t]]]
          /\ at' = [at EXCEPT ![t] = @ + 1]
          /\ UNCHANGED <<pc, dst>>
     ELSE /\ pc' = [pc EXCEPT ![t] = "write"] /\ at' = [at EXCEPT ![t] = Start(t)] /\ UNCHANGED <<off, bad, dst>>
  /\ UNCHANGED <<N, P, part>>
Write(t) ==   \* one element; as in the code, the first element is written even if the block is empty
  /\ pc[t] = "write"
  /\ LET i == at[t] IN
     IF i < End(t) \/ (Kind # "util" /\ i = Start(t))
     THEN /\ at' = [at EXCEPT ![t] = i + 1]
          /\ dst' = [dst EXCEPT ![i] = IF Kind = "util" THEN @ + off[t]
                                       ELSE IF i = Start(t) THEN off[t] + (IF Kind = "incl" THEN In(i) ELSE 0)
                                       ELSE dst[i - 1] + (IF Kind = "incl" THEN In(i) ELSE In(i - 1))]
          /\ bad' = (bad \/ i >= N)
          /\ UNCHANGED pc
     ELSE pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<at, dst, bad>>
  /\ UNCHANGED <<N, P, part, off>>
Step(t) == Sum(t) \/ Pass(t) \/ Off(t) \/ Write(t)
Done == \A t \in Thr : pc[t] = "done"
Next == (\E t \in Thr : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in 0..(MaxP - 1) : WF_vars(t \in Thr /\ Step(t))
InBounds == ~bad
Exact == Done => \A i \in 0..(N - 1) : dst[i] = Upto(IF Kind = "incl" THEN i + 1 ELSE i)
Terminates == <>Done
=============================================================================
