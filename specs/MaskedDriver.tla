---------------------------- MODULE MaskedDriver ----------------------------
(* The parallel structure of a masked multiplication: NT threads own ranges   *)
(* of the NR rows, compute them, meet at a barrier, the master creates the    *)
(* output, a second barrier, everybody publishes its rows.                    *)
(*   Mode "1p"      rows are computed into thread-local memory, then copied   *)
(*        "2p"      row sizes first, rows computed into a fresh result R that *)
(*                  replaces C after the region                               *)
(*        "2pdirect" as 2p but straight into C (unsafe when C is an input)    *)
(*   Alias: the output object is also an input (creating it frees the input)  *)
(*   Bar: which of the two barriers exist (subset of {1,2})                   *)
(* in   is "live" or "freed"; reading a freed input or publishing into an     *)
(* output that does not exist yet sets bad.                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NT, NR, Mode, Alias, Bar, MaxSize
Threads == 0..(NT - 1)
Rows == 1..NR
VARIABLES bnd,     \* bnd[t]..bnd[t+1]-1 are the rows of thread t
          size,    \* entries of every row of the result
          pc, at,  \* program counter and current row of each thread
          tn,      \* entries found by each thread (-1: not published)
          arr,     \* threads that reached barrier 1, 2
          inp,     \* "live" / "freed"
          out,     \* [made, rowptr, cell]
          bad
vars == <<bnd, size, pc, at, tn, arr, inp, out, bad>>

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
Total == SumTo(size, NR)
Splits == {b \in [0..NT -> 1..(NR + 1)] : b[0] = 1 /\ b[NT] = NR + 1 /\ \A t \in Threads : b[t] <= b[t + 1]}
Init == /\ bnd \in Splits /\ size \in [Rows -> 0..MaxSize]
        /\ pc = [t \in Threads |-> "compute"] /\ at = [t \in Threads |-> bnd[t]]
        /\ tn = [t \in Threads |-> -1] /\ arr = [b \in {1, 2} |-> {}]
        /\ inp = "live" /\ bad = FALSE
        /\ out = [made |-> FALSE, rowptr |-> [r \in 1..(NR + 1) |-> -1], cell |-> << >>]

ReadInput == bad' = (bad \/ inp = "freed")
Compute(t) ==      \* one row (values for 1p, sizes for 2p)
  /\ pc[t] = "compute" /\ at[t] < bnd[t + 1]
  /\ ReadInput
  /\ at' = [at EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<bnd, size, pc, tn, arr, inp, out>>
Count(t) ==        \* publish the number of entries and reach barrier 1
  /\ pc[t] = "compute" /\ at[t] = bnd[t + 1]
  /\ tn' = [tn EXCEPT ![t] = SumTo([i \in 1..NR |-> IF bnd[t] <= i /\ i < bnd[t + 1] THEN size[i] ELSE 0], NR)]
  /\ arr' = [arr EXCEPT ![1] = @ \cup {t}]
  /\ pc' = [pc EXCEPT ![t] = "bar1"]
  /\ UNCHANGED <<bnd, size, at, inp, out, bad>>
Pass(b) == b \in Bar => arr[b] = Threads
Create(t) ==       \* the master makes the output; the others go to barrier 2
  /\ pc[t] = "bar1" /\ Pass(1)
  /\ IF t = 0
     THEN /\ bad' = (bad \/ \E u \in Threads : tn[u] < 0)
          /\ out' = [out EXCEPT !.made = TRUE, !.cell = [i \in 1..Total |-> 0]]
          /\ inp' = IF Alias /\ Mode \in {"1p", "2pdirect"} THEN "freed" ELSE inp
     ELSE UNCHANGED <<bad, out, inp>>
  /\ arr' = [arr EXCEPT ![2] = @ \cup {t}]
  /\ pc' = [pc EXCEPT ![t] = "bar2"]
  /\ UNCHANGED <<bnd, size, at, tn>>
Offset(t) == SumTo([i \in 1..NT |-> IF i - 1 < t THEN tn[i - 1] ELSE 0], NT)
RowAt(t, i) == Offset(t) + SumTo([k \in 1..NR |-> IF bnd[t] <= k /\ k < i THEN size[k] ELSE 0], NR)
Offsets(t) ==      \* row pointers of the own rows, then start publishing
  /\ pc[t] = "bar2" /\ Pass(2)
  /\ bad' = (bad \/ ~out.made \/ \E u \in 0..(t - 1) : tn[u] < 0)
  /\ out' = [out EXCEPT !.rowptr = [i \in 1..(NR + 1) |->
                 IF bnd[t] <= i /\ i < bnd[t + 1] THEN RowAt(t, i)
                 ELSE IF i = NR + 1 /\ t = NT - 1 THEN RowAt(t, i) ELSE @[i]]]
  /\ pc' = [pc EXCEPT ![t] = "publish"] /\ at' = [at EXCEPT ![t] = bnd[t]]
  /\ UNCHANGED <<bnd, size, tn, arr, inp>>
Publish(t) ==
  /\ pc[t] = "publish" /\ at[t] < bnd[t + 1]
  /\ bad' = (bad \/ ~out.made \/ (Mode # "1p" /\ inp = "freed"))
  /\ LET p == out.rowptr[at[t]] IN
     out' = IF ~out.made THEN out ELSE
            [out EXCEPT !.cell = [i \in DOMAIN @ |-> IF p < i /\ i <= p + size[at[t]] THEN @[i] + at[t] ELSE @[i]]]
  /\ at' = [at EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<bnd, size, pc, tn, arr, inp>>
Finish(t) == /\ pc[t] = "publish" /\ at[t] = bnd[t + 1]
             /\ pc' = [pc EXCEPT ![t] = "done"]
             /\ UNCHANGED <<bnd, size, at, tn, arr, inp, out, bad>>
Step(t) == Compute(t) \/ Count(t) \/ Create(t) \/ Offsets(t) \/ Publish(t) \/ Finish(t)
Done == \A t \in Threads : pc[t] = "done"
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Safe == ~bad
Right == Done => /\ \A i \in 1..(NR + 1) : out.rowptr[i] = SumTo(size, i - 1)
                 /\ \A i \in Rows : \A p \in (SumTo(size, i - 1) + 1)..SumTo(size, i) : out.cell[p] = i
Terminates == <>Done
=============================================================================
