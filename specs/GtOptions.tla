----------------------------- MODULE GtOptions -----------------------------
(* The command line of the GTgraph programs: the options come in any order;   *)
(* the first one that needs them assigns the default values to all settings.  *)
(*   Reset: the defaults are assigned by the first size given even when the   *)
(*          output file has been given before                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Reset
VARIABLES args, pos, set, sawOut, sawSize
vars == <<args, pos, set, sawOut, sawSize>>
Letters == {"o", "n", "m"}
Orders == UNION {{s \in [1..k -> Letters] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 1..3}
Default == [l \in Letters |-> "default"]
Init == args \in Orders /\ pos = 1 /\ set = [l \in Letters |-> "nothing"] /\ sawOut = FALSE /\ sawSize = FALSE
Take(base, l) == set' = [base EXCEPT ![l] = "given"]
Step == /\ pos <= Len(args) /\ pos' = pos + 1 /\ args' = args
        /\ LET l == args[pos] IN
           IF l = "o" THEN Take(IF sawSize THEN set ELSE Default, l) /\ sawOut' = TRUE /\ UNCHANGED sawSize
           ELSE Take(IF ~sawSize /\ (Reset \/ ~sawOut) THEN Default ELSE set, l) /\ sawSize' = TRUE /\ UNCHANGED sawOut
Next == Step
Heeded == pos > Len(args) => \A l \in Letters : set[l] = (IF \E i \in 1..Len(args) : args[i] = l THEN "given" ELSE "default")
=============================================================================
