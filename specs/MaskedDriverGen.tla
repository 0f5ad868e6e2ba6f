--------------------------- MODULE MaskedDriverGen ---------------------------
(* Schedules of MaskedDriver (who moves when), printed for replay.            *)
EXTENDS MaskedDriver, TLC
VARIABLE sched
GInit == Init /\ sched = << >>
GNext == \E t \in Threads : Step(t) /\ sched' = Append(sched, t)
Dump == Done => PrintT(<<"GEN", NT, sched>>)
=============================================================================
