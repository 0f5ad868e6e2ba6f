------------------------------ MODULE MaskAcc ------------------------------
(* The mask-driven accumulators (sparse accumulator with one or two arrays,   *)
(* plain or complemented, and the mask-compressed accumulator).               *)
(*   kind   "plain": keys start NOT allowed, the mask allows some             *)
(*          "compl": keys start allowed, the mask forbids some                *)
(*          "mca"  : positions of the mask row, empty until touched           *)
(*   st.s   state of every key: "N" not allowed, "A" allowed, "I" has a value *)
(*   st.v   the value of the keys in state "I"                                *)
(*   st.d   keys initialised since the last gather or reset (in order)        *)
(*   st.c   no value was abandoned by erase (values of erased keys stay)      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Default(kind) == IF kind = "plain" THEN "N" ELSE "A"
Fresh(kind, n) == [s |-> [k \in 0..(n - 1) |-> Default(kind)], v |-> [k \in 0..(n - 1) |-> 0], d |-> << >>, c |-> TRUE]
Keys(st) == DOMAIN st.s
InD(st, k) == \E i \in 1..Len(st.d) : st.d[i] = k
AllD(st) == \A i \in 1..Len(st.d) : st.s[st.d[i]] = "I"
Init1(st, k) == {x \in Keys(st) : st.s[x] = "I"}

Clean(kind, st) == st.c /\ st.d = << >> /\ \A k \in Keys(st) : st.s[k] = Default(kind)

Pre(kind, st, o) ==
  LET k == o[2] IN
  CASE o[1] = "allow"  -> kind = "plain" /\ st.s[k] = "N"
    [] o[1] = "forbid" -> kind = "compl" /\ st.s[k] = "A"
    [] o[1] = "acc"    -> kind # "mca" => ~(InD(st, k) /\ st.s[k] # "I")       \* tracked initialisation
    [] o[1] = "accd"   -> kind # "compl"                                          \* state written directly
    [] o[1] = "mark"   -> st.s[k] = "A" /\ ~InD(st, k)                          \* symbolic phase: setInitialized
    [] o[1] = "erase"  -> TRUE
    [] o[1] = "clear"  -> TRUE
    [] o[1] = "reset"  -> kind # "mca"
    [] o[1] = "resetrange" -> kind # "mca"
    [] o[1] \in {"gather", "gathersorted"} -> kind # "mca" /\ AllD(st)
    [] o[1] = "clearall" -> kind = "mca" \/ st.d = << >>
    [] o[1] = "clearn" -> kind = "mca"
    [] o[1] = "check"  -> kind # "mca"
    [] o[1] = "rebuffer" -> Clean(kind, st)        \* memory is handed on only between rows
    [] OTHER -> FALSE

Clear(kind, st, ks) == [st EXCEPT !.s = [k \in Keys(st) |-> IF k \in ks THEN Default(kind) ELSE st.s[k]]]
DSet(st) == {st.d[i] : i \in 1..Len(st.d)}
After(kind, st, o) ==
  LET k == o[2] IN
  CASE o[1] = "allow"  -> [st EXCEPT !.s[k] = "A"]
    [] o[1] = "forbid" -> [st EXCEPT !.s[k] = "N"]
    [] o[1] \in {"acc", "accd"} ->
         IF st.s[k] = "A" THEN [st EXCEPT !.s[k] = "I", !.v[k] = o[3], !.d = IF o[1] = "acc" /\ kind # "mca" THEN Append(@, k) ELSE @]
         ELSE IF st.s[k] = "I" THEN [st EXCEPT !.v[k] = @ + o[3]] ELSE st
    [] o[1] = "mark"   -> [st EXCEPT !.s[k] = "I", !.d = IF kind = "mca" THEN @ ELSE Append(@, k)]
    [] o[1] = "erase"  -> [Clear(kind, st, {k}) EXCEPT !.c = @ /\ st.s[k] # "I"]
    [] o[1] = "clear"  -> Clear(kind, st, {k})
    [] o[1] = "reset"  -> [Clear(kind, st, DSet(st)) EXCEPT !.d = << >>]
    [] o[1] = "resetrange" -> [Clear(kind, st, DSet(st) \cup {x \in Keys(st) : o[2] <= x /\ x <= o[3]}) EXCEPT !.d = << >>]
    [] o[1] \in {"gather", "gathersorted"} -> [Clear(kind, st, DSet(st)) EXCEPT !.d = << >>]
    [] o[1] = "clearall" -> [Clear(kind, st, Keys(st)) EXCEPT !.c = TRUE]
    [] o[1] = "clearn" -> Clear(kind, st, {x \in Keys(st) : x < o[2]})
    [] o[1] = "check"  -> st
    [] o[1] = "rebuffer" -> Fresh(kind, Cardinality(Keys(st)))

(* reported result; -1: nothing is promised                                   *)
Result(kind, st, o) ==
  CASE o[1] = "erase" -> IF st.s[o[2]] # Default(kind) THEN 1 ELSE 0
    [] o[1] = "check" -> IF \E k \in Keys(st) : st.s[k] # Default(kind) THEN 0 ELSE IF st.c THEN 1 ELSE -1
    [] OTHER -> 1
OutSet(st) == {<<k, st.v[k]>> : k \in DSet(st)}
Output(st, o) == IF o[1] \in {"gather", "gathersorted"} THEN OutSet(st) ELSE {}
=============================================================================
