------------------------------- MODULE Queue --------------------------------
(* The generator's two-lock queue, one step per lock, unlock, wait or notify. *)
(* A thread runs a program of operations: 1 push, 2 wait and pop, 3 try pop.  *)
(*   Notify "locked"   push passes through the head lock before it notifies   *)
(*          "plain"    push notifies without (a wake-up can get lost between  *)
(*                     a consumer's test and its going to sleep)              *)
(*          "ifempty"  push notifies only if the queue was empty              *)
(*   Retest: a woken consumer tests again.  Spurious: number of wake-ups for no reason. *)
(*   HoldHead: a consumer keeps the head lock from its test to its pop.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NT, MaxOps, MaxPush, Notify, Retest, Spurious, HoldHead
Threads == 1..NT
VARIABLES todo, pc, data, next, head, tail, last, hl, tl, seen, pushed, popped, got, spur
vars == <<todo, pc, data, next, head, tail, last, hl, tl, seen, pushed, popped, got, spur>>
Progs == UNION {[1..k -> {1, 2, 3}] : k \in 0..MaxOps}
Num(p, o) == Cardinality({i \in DOMAIN p : p[i] = o})
RECURSIVE Total(_, _, _)
Total(td, o, t) == IF t = 0 THEN 0 ELSE Num(td[t], o) + Total(td, o, t - 1)
Code(p) == IF Len(p) = 0 THEN 0 ELSE IF Len(p) = 1 THEN p[1] ELSE 4 * p[1] + p[2]
\* enough is pushed to release every consumer; no thread waits for what only it will push
Sound(td) == /\ Total(td, 1, NT) >= Total(td, 2, NT) + Total(td, 3, NT)
             /\ Total(td, 1, NT) <= MaxPush
             /\ \A t \in Threads : Num(td[t], 1) > 0 => (\A i \in DOMAIN td[t] : td[t][i] # 2)
First(t, td) == IF td[t] = << >> THEN "done" ELSE IF td[t][1] = 1 THEN "push" ELSE IF td[t][1] = 2 THEN "wait" ELSE "try"
Init == /\ todo \in [Threads -> Progs] /\ Sound(todo)
        /\ \A t \in 1..(NT - 1) : Code(todo[t]) >= Code(todo[t + 1])
        /\ pc = [t \in Threads |-> First(t, todo)]
        /\ data = << >> /\ next = << >> /\ head = 1 /\ tail = 1 /\ last = 1
        /\ hl = 0 /\ tl = 0 /\ seen = [t \in Threads |-> 0]
        /\ pushed = << >> /\ popped = << >> /\ got = [t \in Threads |-> << >>] /\ spur = Spurious
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Finish(t) == /\ todo' = [todo EXCEPT ![t] = Tail(@)]
             /\ Goto(t, First(t, [todo EXCEPT ![t] = Tail(@)]))
Idle == <<todo, data, next, head, tail, last, seen, pushed, popped, got>>
\* ---- push: value = <<thread, number>>
Push(t) == pc[t] = "push" /\ tl = 0 /\ tl' = t /\ Goto(t, "link") /\ UNCHANGED <<Idle, hl>>
Link(t) == LET v == <<t, Len(todo[t])>> IN
  /\ pc[t] = "link"
  /\ last' = last + 1
  /\ data' = Append(data, v) /\ next' = Append(next, last')      \* data[tail], next[tail]: tail is the last node
  /\ tail' = last' /\ pushed' = Append(pushed, v)
  /\ Goto(t, IF Notify = "ifempty" /\ head # tail THEN "quietunlink" ELSE "unlink") /\ UNCHANGED <<todo, head, hl, tl, seen, popped, got>>
Unlink(t) == /\ pc[t] \in {"unlink", "quietunlink"} /\ tl' = 0
             /\ IF pc[t] = "quietunlink" THEN Finish(t) ELSE Goto(t, IF Notify = "plain" THEN "notify" ELSE "gate") /\ UNCHANGED todo
             /\ UNCHANGED <<data, next, head, tail, last, seen, pushed, popped, got, hl>>
Gate(t) == pc[t] = "gate" /\ hl = 0 /\ hl' = t /\ Goto(t, "ungate") /\ UNCHANGED <<Idle, tl>>
Ungate(t) == pc[t] = "ungate" /\ hl' = 0 /\ Goto(t, "notify") /\ UNCHANGED <<Idle, tl>>
Signal(t) == LET W == {w \in Threads : pc[w] = "asleep"}
                 td == [todo EXCEPT ![t] = Tail(@)] IN
  /\ pc[t] = "notify"
  /\ todo' = td
  /\ IF W = {} THEN pc' = [pc EXCEPT ![t] = First(t, td)]
     ELSE \E w \in W : pc' = [pc EXCEPT ![t] = First(t, td), ![w] = "woken"]
  /\ UNCHANGED <<data, next, head, tail, last, hl, tl, seen, pushed, popped, got>>
\* ---- consumers
Lock(t) == /\ pc[t] \in {"wait", "try", "woken"} /\ hl = 0 /\ hl' = t
           /\ Goto(t, IF pc[t] = "woken" /\ ~Retest THEN "pop" ELSE IF pc[t] = "try" THEN "trytail" ELSE "waittail")
           /\ UNCHANGED <<Idle, tl>>
TakeTail(t) == /\ pc[t] \in {"waittail", "trytail"} /\ tl = 0 /\ tl' = t
               /\ Goto(t, IF pc[t] = "waittail" THEN "waitread" ELSE "tryread") /\ UNCHANGED <<Idle, hl>>
Read(t) == /\ pc[t] \in {"waitread", "tryread"} /\ seen' = [seen EXCEPT ![t] = tail] /\ tl' = 0
           /\ hl' = (IF HoldHead THEN hl ELSE 0)
           /\ Goto(t, IF head # tail THEN "pop" ELSE IF pc[t] = "waitread" THEN "sleep" ELSE "nothing")
           /\ UNCHANGED <<todo, data, next, head, tail, last, pushed, popped, got>>
Sleep(t) == pc[t] = "sleep" /\ hl' = 0 /\ Goto(t, "asleep") /\ UNCHANGED <<Idle, tl>>
Wake(t) == /\ spur > 0 /\ pc[t] = "asleep" /\ Goto(t, "woken") /\ spur' = spur - 1
           /\ UNCHANGED <<todo, data, next, head, tail, last, seen, pushed, popped, got, hl, tl>>
Val(n) == IF n <= Len(data) THEN data[n] ELSE <<0, 0>>           \* the dummy node has no value
Pop(t) == /\ pc[t] = "pop"
          /\ got' = [got EXCEPT ![t] = Append(@, Val(head))] /\ popped' = Append(popped, Val(head))
          /\ head' = (IF head <= Len(next) THEN next[head] ELSE 0)
          /\ Goto(t, "unlock") /\ UNCHANGED <<todo, data, next, tail, last, hl, tl, seen, pushed>>
Unlock(t) == /\ pc[t] \in {"unlock", "nothing"} /\ hl' = (IF hl = t THEN 0 ELSE hl) /\ Finish(t)
             /\ UNCHANGED <<data, next, head, tail, last, tl, seen, pushed, popped, got>>
Act(t) == Push(t) \/ Link(t) \/ Unlink(t) \/ Gate(t) \/ Ungate(t) \/ Signal(t) \/ Lock(t) \/ TakeTail(t) \/ Read(t) \/ Sleep(t) \/ Pop(t) \/ Unlock(t)
Step(t) == Act(t) /\ spur' = spur
Next == \E t \in Threads : Step(t) \/ Wake(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
AllDone == \A t \in Threads : pc[t] = "done"
\* what has been popped is a prefix of what has been pushed: exactly once, in order, nothing else
Fifo == /\ Len(popped) <= Len(pushed) /\ \A i \in DOMAIN popped : popped[i] = pushed[i]
PerProducer == \A i, j \in DOMAIN pushed : i < j /\ pushed[i][1] = pushed[j][1] => pushed[i][2] > pushed[j][2]
Chain == head > 0 /\ head - 1 = Len(popped) /\ tail - 1 = Len(pushed)
Terminates == <>AllDone
=============================================================================
