---------------------------- MODULE SortedWriter ----------------------------
(* The sorted generator: columns of regions are handed to up to P threads;    *)
(* each thread fills the buffer of its slot; the main thread joins the oldest *)
(* thread, writes its buffer, and gives the slot the next column.             *)
(*   Slots "right"  the last loop writes the buffers of the threads it joins  *)
(*         "count"  it starts at slot (columns handed out) mod P              *)
(*   Join: the oldest thread is joined before its buffer is written           *)
EXTENDS Integers, Sequences
CONSTANTS MaxK, MaxP, Slots, Join
VARIABLES K, P, buf, run, pool, given, last, written, bad
vars == <<K, P, buf, run, pool, given, last, written, bad>>
Init == /\ K \in 1..MaxK /\ P \in 1..MaxP
        /\ buf = [s \in 0..(P - 1) |-> 0] /\ run = [s \in 0..(P - 1) |-> 0]     \* column in the buffer; column being made
        /\ pool = << >> /\ given = 0 /\ last = -1 /\ written = << >> /\ bad = FALSE
Make(s) == run[s] > 0 /\ buf' = [buf EXCEPT ![s] = run[s]] /\ run' = [run EXCEPT ![s] = 0]
           /\ UNCHANGED <<K, P, pool, given, last, written, bad>>
Start(s) == /\ run' = [run EXCEPT ![s] = given + 1] /\ buf' = [buf EXCEPT ![s] = 0] /\ given' = given + 1
Hand == given < K /\ given < P /\ Start(given) /\ pool' = Append(pool, given) /\ UNCHANGED <<K, P, last, written, bad>>
Write(s) == written' = Append(written, buf[s]) /\ bad' = (bad \/ run[s] > 0)
Round == LET s == given % P IN
  /\ given >= P /\ given < K /\ (Join => run[pool[1]] = 0)
  /\ Write(s) /\ Start(s) /\ pool' = Append(Tail(pool), s) /\ UNCHANGED <<K, P, last>>
Finish == LET at == IF last >= 0 THEN last ELSE IF Slots = "right" THEN (given - Len(pool)) % P ELSE given % P IN
  /\ given = K /\ pool # << >> /\ (Join => run[pool[1]] = 0)
  /\ Write(at) /\ last' = (at + 1) % P /\ pool' = Tail(pool) /\ UNCHANGED <<K, P, buf, run, given>>
Next == Hand \/ Round \/ Finish \/ (\E s \in 0..(P - 1) : Make(s))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InOrder == ~bad /\ \A i \in DOMAIN written : written[i] = i
Complete == <>(Len(written) = K)
=============================================================================
