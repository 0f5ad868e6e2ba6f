------------------------------ MODULE HashAcc ------------------------------
(* The hash accumulator as its users see it: a map from keys to a value and a *)
(* flag, the list of tracked keys, and how many keys the current row may      *)
(* hold.  An operation is a tuple <<op, key, value, flag>>.                   *)
(*   st.map     function from the present keys to <<value, flag>>             *)
(*   st.tracked keys inserted with tracking since the last gather             *)
(*   st.size    number of keys declared with resize (0: not usable yet)       *)
(*   st.row     whether a tracked key was inserted (untracked ones must come  *)
(*              first, as in the complemented row algorithm)                  *)
EXTENDS Integers, Sequences, FiniteSets
ANY == -1                                    \* value not stored yet
Fresh == [map |-> << >>, tracked |-> {}, size |-> 0]
Dom(st) == DOMAIN st.map
Put(m, k, x) == [y \in DOMAIN m \cup {k} |-> IF y = k THEN x ELSE m[y]]
Del(m, ks) == [y \in DOMAIN m \ ks |-> m[y]]
Room(st, k) == st.size > 0 /\ Cardinality(Dom(st) \cup {k}) <= st.size
NoMap == [y \in {} |-> 0]

Pre(st, o) ==
  CASE o[1] = "resize"   -> Dom(st) = {} /\ o[2] >= 1
    [] o[1] = "insert"   -> Room(st, o[2]) /\ st.tracked = {}                    \* key only, flag off
    [] o[1] = "insertv"  -> Room(st, o[2]) /\ st.tracked = {}
    [] o[1] = "track"    -> Room(st, o[2])
    [] o[1] = "trackidx" -> Room(st, o[2]) /\ o[2] \notin Dom(st)
    [] o[1] = "set"      -> o[2] \in Dom(st)
    [] o[1] = "find"     -> st.size > 0
    [] o[1] = "erase"    -> st.size > 0 /\ o[2] \notin st.tracked
    [] o[1] \in {"gather", "gatherkeys"} -> st.size > 0 /\ st.tracked = {}
    [] o[1] \in {"gatherlist", "gathersorted"} -> st.size > 0
    [] o[1] \in {"reset"} -> st.size > 0 /\ st.tracked = {}
    [] o[1] = "resetlist" -> st.size > 0 /\ Dom(st) = st.tracked
    [] o[1] = "rebuffer"  -> TRUE
    [] OTHER -> FALSE

After(st, o) ==
  LET k == o[2] new == k \notin Dom(st) IN
  CASE o[1] = "resize"   -> [st EXCEPT !.size = k]
    [] o[1] = "insert"   -> IF new THEN [st EXCEPT !.map = Put(st.map, k, <<ANY, 0>>)] ELSE st
    [] o[1] = "insertv"  -> IF new THEN [st EXCEPT !.map = Put(st.map, k, <<o[3], o[4]>>)] ELSE st
    [] o[1] \in {"track", "trackidx"} ->
         IF new THEN [st EXCEPT !.map = Put(st.map, k, <<o[3], o[4]>>), !.tracked = @ \cup {k}] ELSE st
    [] o[1] = "set"      -> [st EXCEPT !.map = Put(st.map, k, <<o[3], 1>>)]
    [] o[1] = "find"     -> st
    [] o[1] = "erase"    -> [st EXCEPT !.map = Del(st.map, {k})]
    [] o[1] \in {"gather", "gatherkeys", "reset"} -> [st EXCEPT !.map = NoMap]
    [] o[1] \in {"gatherlist", "gathersorted", "resetlist"} -> [st EXCEPT !.map = Del(st.map, st.tracked), !.tracked = {}]
    [] o[1] = "rebuffer"  -> [map |-> NoMap, tracked |-> {}, size |-> 0]

(* What the operation reports: 1/0 for success, found, inserted, erased.      *)
Result(st, o) ==
  CASE o[1] \in {"insert", "insertv", "track", "trackidx"} -> IF o[2] \in Dom(st) THEN 0 ELSE 1
    [] o[1] \in {"find", "erase", "set"} -> IF o[2] \in Dom(st) THEN 1 ELSE 0
    [] OTHER -> 1
Flagged(st, ks) == {<<k, st.map[k][1]>> : k \in {x \in ks : st.map[x][2] = 1}}
(* The set of entries a gather delivers.                                      *)
Output(st, o) ==
  CASE o[1] \in {"gather", "gatherkeys"} -> Flagged(st, Dom(st))
    [] o[1] \in {"gatherlist", "gathersorted"} -> Flagged(st, st.tracked)
    [] OTHER -> {}
=============================================================================
