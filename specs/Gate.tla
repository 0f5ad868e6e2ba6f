-------------------------------- MODULE Gate --------------------------------
(* The capacity gate: requests wait until they fit under the limit, releases  *)
(* give capacity back and wake up waiters.  A requester holds what it got     *)
(* until it (or the writer on its behalf) releases it, possibly in pieces.    *)
(*   Strict: a request fits only if the sum stays below the limit             *)
(*   All: a release wakes every waiter (else one)                             *)
(*   Atomic: test and addition are one step                                   *)
EXTENDS Integers, FiniteSets
CONSTANTS NW, Max, Strict, All, Atomic, Pieces
Workers == 1..NW
VARIABLES want, pc, acc, lock, held, free
vars == <<want, pc, acc, lock, held, free>>
Init == /\ want \in [Workers -> 1..Max] /\ free \in 0..Max         \* free: taken by the writer from the start
        /\ pc = [w \in Workers |-> "ask"] /\ acc = free /\ lock = 0 /\ held = 0
Fits(x) == IF Strict THEN acc + x < Max ELSE acc + x <= Max
Ask(w) == pc[w] \in {"ask", "woken"} /\ lock = 0 /\ lock' = w /\ pc' = [pc EXCEPT ![w] = "test"] /\ UNCHANGED <<want, acc, held, free>>
Test(w) == /\ pc[w] = "test"
           /\ IF Fits(want[w]) THEN /\ pc' = [pc EXCEPT ![w] = "in"]
                                    /\ acc' = (IF Atomic THEN acc + want[w] ELSE acc)
                                    /\ lock' = (IF Atomic THEN lock ELSE 0)
              ELSE pc' = [pc EXCEPT ![w] = "asleep"] /\ lock' = 0 /\ UNCHANGED acc
           /\ UNCHANGED <<want, held, free>>
Leave(w) == /\ pc[w] = "in" /\ pc' = [pc EXCEPT ![w] = "done"]
            /\ acc' = (IF Atomic THEN acc ELSE acc + want[w]) /\ lock' = (IF Atomic THEN 0 ELSE lock)
            /\ held' = held + want[w] /\ UNCHANGED <<want, free>>
\* the writer: 0 as a lock owner means nobody, so it locks with NW + 1
W == NW + 1
Release(x) == /\ lock = 0 /\ x > 0 /\ x <= held + free
              /\ acc' = acc - x
              /\ IF x <= free THEN free' = free - x /\ held' = held ELSE free' = 0 /\ held' = held + free - x
              /\ LET S == {w \in Workers : pc[w] = "asleep"} IN
                 IF All \/ S = {} THEN pc' = [w \in Workers |-> IF w \in S THEN "woken" ELSE pc[w]]
                 ELSE \E w \in S : pc' = [pc EXCEPT ![w] = "woken"]
              /\ UNCHANGED <<want, lock>>
Step(w) == Ask(w) \/ Test(w) \/ Leave(w)
Next == (\E w \in Workers : Step(w)) \/ (\E x \in (IF Pieces THEN 1..Max ELSE {held + free}) : Release(x))
Spec == Init /\ [][Next]_vars /\ (\A w \in Workers : WF_vars(Step(w)))
        /\ WF_vars(Release(held + free))
WithinLimit == acc >= 0 /\ acc <= Max
\* when no request is on its way, none that fits is asleep
Quiet == \A w \in Workers : pc[w] \in {"asleep", "done"}
NobodyForgotten == Quiet => \A w \in Workers : pc[w] = "asleep" => acc + want[w] > Max
AllServed == <>(\A w \in Workers : pc[w] = "done")
=============================================================================
