------------------------------ MODULE TimSort ------------------------------
(* Timsort on small arrays: find the next run (a strictly descending one is   *)
(* turned round), stretch it to MinRun by insertion, push it, merge adjacent  *)
(* runs.  The order of merges is left open (any two neighbours at any time):  *)
(* the result is sorted and stable whatever the rule merges.                  *)
(*   Strict: only strictly descending runs are turned round                   *)
(*   LeftFirst: of two equal elements a merge takes the left one              *)
EXTENDS Sorting
CONSTANTS MaxN, K, MinRun, Strict, LeftFirst
VARIABLES keys, arr, runs, pos, phase
vars == <<keys, arr, runs, pos, phase>>
Key(t) == keys[t + 1]
N == Len(keys)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Asc(_), Desc(_)
Asc(i) == IF i < N /\ Key(arr[i + 1]) >= Key(arr[i]) THEN Asc(i + 1) ELSE i
Desc(i) == IF i < N /\ (IF Strict THEN Key(arr[i + 1]) < Key(arr[i]) ELSE Key(arr[i + 1]) <= Key(arr[i])) THEN Desc(i + 1) ELSE i
RECURSIVE Insert(_, _)
Insert(s, t) == IF s = <<>> THEN <<t>>
                ELSE IF Key(s[Len(s)]) > Key(t) THEN Append(Insert(SubSeq(s, 1, Len(s) - 1), t), s[Len(s)])
                ELSE Append(s, t)
RECURSIVE Stretch(_, _)
Stretch(s, rest) == IF rest = <<>> THEN s ELSE Stretch(Insert(s, Head(rest)), Tail(rest))
RECURSIVE Merge(_, _)
Merge(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
               ELSE IF Key(Head(b)) < Key(Head(a)) \/ (~LeftFirst /\ Key(Head(b)) = Key(Head(a)))
                    THEN <<Head(b)>> \o Merge(a, Tail(b)) ELSE <<Head(a)>> \o Merge(Tail(a), b)
Init == /\ keys \in UNION {[1..m -> 0..(K - 1)] : m \in 0..MaxN}
        /\ arr = [i \in 1..N |-> i - 1] /\ runs = <<>> /\ pos = 1 /\ phase = "scan"
Push == /\ pos <= N
        /\ LET down == pos < N /\ (IF Strict THEN Key(arr[pos + 1]) < Key(arr[pos]) ELSE Key(arr[pos + 1]) <= Key(arr[pos]))
               e0 == IF down THEN Desc(pos) ELSE Asc(pos)
               run0 == IF down THEN Rev(SubSeq(arr, pos, e0)) ELSE SubSeq(arr, pos, e0)
               e1 == IF e0 - pos + 1 < MinRun THEN (IF pos + MinRun - 1 < N THEN pos + MinRun - 1 ELSE N) ELSE e0
           IN /\ arr' = SubSeq(arr, 1, pos - 1) \o Stretch(run0, SubSeq(arr, e0 + 1, e1)) \o SubSeq(arr, e1 + 1, N)
              /\ runs' = Append(runs, e1 - pos + 1) /\ pos' = e1 + 1
        /\ UNCHANGED <<keys, phase>>
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
MergeAt == /\ Len(runs) > 1
           /\ \E i \in {Len(runs) - 1, Len(runs) - 2} \cap 1..(Len(runs) - 1) :
                LET lo == SumTo(runs, i - 1)  mid == SumTo(runs, i)  hi == SumTo(runs, i + 1)
                IN /\ arr' = SubSeq(arr, 1, lo) \o Merge(SubSeq(arr, lo + 1, mid), SubSeq(arr, mid + 1, hi)) \o SubSeq(arr, hi + 1, N)
                   /\ runs' = SubSeq(runs, 1, i - 1) \o <<runs[i] + runs[i + 1]>> \o SubSeq(runs, i + 2, Len(runs))
           /\ UNCHANGED <<keys, pos, phase>>
Done == /\ pos > N /\ Len(runs) <= 1 /\ phase = "scan" /\ phase' = "done" /\ UNCHANGED <<keys, arr, runs, pos>>
Next == phase = "scan" /\ (Push \/ MergeAt \/ Done)
RunsSorted == \A i \in 1..Len(runs) : \A j \in (SumTo(runs, i - 1) + 1)..(SumTo(runs, i) - 1) : Key(arr[j]) <= Key(arr[j + 1])
Tiles == SumTo(runs, Len(runs)) = pos - 1
Correct == phase = "done" => Sorts(TRUE, TRUE, 0, keys, arr)
=============================================================================
