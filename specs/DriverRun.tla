----------------------------- MODULE DriverRun ------------------------------
(* The measuring loop of the benchmark drivers: warm-up runs and measured     *)
(* runs of one multiplication into the same output object, then one report.   *)
(* An algorithm replaces its output ("replace") or adds to what it finds      *)
(* ("append"); the loop empties the output before a measured run or not.      *)
(* Whatever the numbers of runs, the report has to describe one product.      *)
EXTENDS Integers, Sequences
CONSTANTS MaxWarm, MaxRuns, Output, Empties
VARIABLES warm, runs, c, said, pc
vars == <<warm, runs, c, said, pc>>
Init == warm \in 0..MaxWarm /\ runs \in 1..MaxRuns /\ c = 0 /\ said = -1 /\ pc = "warm"
Mult(x) == IF Output = "replace" THEN 1 ELSE x + 1       \* how many products the output holds
Warm == pc = "warm" /\ warm > 0 /\ warm' = warm - 1 /\ c' = Mult(c) /\ UNCHANGED <<runs, said, pc>>
Ready == pc = "warm" /\ warm = 0 /\ pc' = "run" /\ UNCHANGED <<warm, runs, c, said>>
Run == pc = "run" /\ runs > 0 /\ runs' = runs - 1 /\ c' = Mult(IF Empties THEN 0 ELSE c) /\ UNCHANGED <<warm, said, pc>>
Say == pc = "run" /\ runs = 0 /\ said' = c /\ pc' = "done" /\ UNCHANGED <<warm, runs, c>>
Next == Warm \/ Ready \/ Run \/ Say \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OneProduct == pc = "done" => said = 1
Reports == <>(pc = "done")
=============================================================================
