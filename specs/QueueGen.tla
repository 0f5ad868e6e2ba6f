------------------------------ MODULE QueueGen ------------------------------
(* Programs and schedules of the queue (who moves when), for replay.          *)
EXTENDS Queue, TLC
VARIABLES sched, prog
GInit == Init /\ sched = << >> /\ prog = todo
GNext == \E t \in Threads : Step(t) /\ sched' = Append(sched, t) /\ prog' = prog
Dump == (AllDone \/ ~ENABLED Next) /\ sched # << >> => PrintT(<<"GEN", prog, sched>>)
=============================================================================
