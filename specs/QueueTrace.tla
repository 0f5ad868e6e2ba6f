----------------------------- MODULE QueueTrace -----------------------------
(* Recorded histories of the queue and the gate under controlled schedules,   *)
(* checked for linearizability by keeping the set of all abstract states that *)
(* explain the history so far.  Events <<thread, what, value>>:               *)
(*   0 push(v)  1 wait_and_pop  2 try_pop  3 empty  5 accumulate(v)           *)
(*   6 dissipate(v)   4 return with value (-1: nothing)                       *)
(* A history that ends with nobody able to go on is accepted only if some     *)
(* explanation leaves no pending operation enabled.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, S, phase
C == Cases[rec]
Idle == <<"idle", 0, 0>>
Start == [q |-> << >>, acc |-> C.init, p |-> [t \in 1..C.n |-> Idle]]
\* the abstract objects: effect of thread t's pending operation, {} if it has to wait
Effect(x, t) ==
  LET o == x.p[t][2]  v == x.p[t][3]
      Ret(y, r) == [y EXCEPT !.p[t] = <<"made", o, r>>]
  IN CASE o = 0 -> {Ret([x EXCEPT !.q = Append(@, v)], 0)}
       [] o = 1 -> IF x.q = << >> THEN {} ELSE {Ret([x EXCEPT !.q = Tail(@)], Head(x.q))}
       [] o = 2 -> IF x.q = << >> THEN {Ret(x, -1)} ELSE {Ret([x EXCEPT !.q = Tail(@)], Head(x.q))}
       [] o = 3 -> {Ret(x, IF x.q = << >> THEN 1 ELSE 0)}
       [] o = 5 -> IF x.acc + v > C.max THEN {} ELSE {Ret([x EXCEPT !.acc = @ + v], 0)}
       [] o = 6 -> {Ret([x EXCEPT !.acc = @ - v], 0)}
       [] OTHER -> {}
Pending(x) == {t \in 1..C.n : x.p[t][1] = "asked"}
RECURSIVE Close(_, _)
Close(T, new) == LET more == (UNION {UNION {Effect(x, t) : t \in Pending(x)} : x \in new}) \ T
                 IN IF more = {} THEN T ELSE Close(T \cup more, more)
Apply(e) == IF e[2] = 4 THEN {[x EXCEPT !.p[e[1]] = Idle] : x \in {y \in Close(S, S) : y.p[e[1]][1] = "made" /\ y.p[e[1]][3] = e[3]}}
            ELSE {[x EXCEPT !.p[e[1]] = <<"asked", e[2], e[3]>>] : x \in S}
Blocked(x) == \A t \in 1..C.n : x.p[t][1] = "idle" \/ (x.p[t][1] = "asked" /\ Effect(x, t) = {})
Init == rec \in 1..Len(Cases) /\ at = 0 /\ S = {Start}
        /\ phase = IF C.crash = "" /\ ~(C.stuck /\ C.finishes) THEN "history" ELSE "rejected"
Read == /\ phase = "history" /\ at < Len(C.ev)
        /\ S' = Apply(C.ev[at + 1]) /\ at' = at + 1
        /\ phase' = (IF S' = {} THEN "rejected" ELSE "history") /\ rec' = rec
End == /\ phase = "history" /\ at = Len(C.ev)
       /\ phase' = (IF IF C.stuck THEN \E x \in Close(S, S) : Blocked(x) ELSE C.live = 0 THEN "accepted" ELSE "rejected")
       /\ UNCHANGED <<rec, at, S>>
Next == Read \/ End
NotRejected == phase = "rejected" => (PrintT(<<"REJECTED", C.id, at, C.kind, C.crash, C.stuck, IF at \in DOMAIN C.ev THEN C.ev[at] ELSE << >> >>) /\ FALSE)
=============================================================================
