------------------------------ MODULE ObjectLife ------------------------------
(* The life of matrix objects: which arrays each object owns through          *)
(* construction, copying, assignment, emptying and destruction.               *)
(* AssignTest is the dimension the assignment looks at before it copies the   *)
(* pointer array ("maj": the number of compressed slices, which is what       *)
(* allocates it); GuardEq: comparison leaves the arrays of 0-slice objects    *)
(* alone.                                                                     *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS K, AssignTest, GuardEq
Objs == 1..K
Addrs == 1..(2 * K + 2)
VARIABLES o, live, bad
vars == <<o, live, bad>>
Null == 0
Default == [nnz |-> 0, maj |-> 0, min |-> 0, ptr |-> Null, ids |-> Null]
Shapes == {s \in [nnz : 0..1, maj : 0..1, min : 0..1] : s.nnz <= s.maj * s.min /\ (s.maj > 0 \/ s.min = 0 \/ TRUE)}

Owned(x) == (IF x.maj > 0 THEN {x.ptr} ELSE {}) \cup (IF x.nnz > 0 THEN {x.ids} ELSE {})
FreeOk(x) == Owned(x) \subseteq live /\ (x.maj > 0 /\ x.nnz > 0 => x.ptr # x.ids)
Lowest(S) == CHOOSE a \in S : \A b \in S : a <= b
\* a fresh object of shape s on a heap h; ptrs FALSE: the pointer array is not allocated
Build(s, h, withptr) ==
  LET p == Lowest(Addrs \ h)
      q == Lowest(Addrs \ (h \cup {p}))
  IN [nnz |-> s.nnz, maj |-> s.maj, min |-> s.min, ptr |-> IF withptr THEN p ELSE Null, ids |-> IF s.nnz > 0 THEN q ELSE Null]
Heap(h, x) == h \cup ({x.ptr, x.ids} \ {Null})

Init == o = [k \in Objs |-> Default] /\ live = {} /\ bad = FALSE
Replace(k, s, readFrom, withptr) ==
  LET old == o[k]
      h == live \ Owned(old)
      x == Build(s, h, withptr)
  IN /\ o' = [o EXCEPT ![k] = x]
     /\ live' = Heap(h, x)
     /\ bad' = (bad \/ ~FreeOk(old) \/ ~(readFrom \subseteq live))
Construct(k, s) == Replace(k, s, {}, s.maj > 0)
Copy(k, j) == k # j /\ Replace(k, [nnz |-> o[j].nnz, maj |-> o[j].maj, min |-> o[j].min], Owned(o[j]), o[j].maj > 0)
Assign(k, j) ==
  IF k = j THEN UNCHANGED vars
  ELSE LET d == IF AssignTest = "maj" THEN o[j].maj ELSE o[j].min
       IN Replace(k, [nnz |-> o[j].nnz, maj |-> o[j].maj, min |-> o[j].min],
                  (IF o[j].nnz > 0 THEN {o[j].ids} ELSE {}) \cup (IF d > 0 THEN {o[j].ptr} ELSE {}), d > 0)
Empty(k) == /\ bad' = (bad \/ ~FreeOk(o[k])) /\ live' = live \ Owned(o[k])
            /\ o' = [o EXCEPT ![k] = [nnz |-> 0, maj |-> 0, min |-> 0, ptr |-> o[k].ptr, ids |-> o[k].ids]]   \* pointers stay as they were
Compare(i, j) ==
  /\ bad' = (bad \/ (/\ o[i].nnz = o[j].nnz /\ o[i].maj = o[j].maj /\ o[i].min = o[j].min
                     /\ ~(Owned(o[i]) \cup Owned(o[j]) \cup (IF GuardEq THEN {} ELSE {o[i].ptr, o[j].ptr}) \subseteq live)))
  /\ UNCHANGED <<o, live>>
Next == \E k \in Objs : \/ Empty(k) \/ (\E s \in Shapes : Construct(k, s))
                        \/ \E j \in Objs : Copy(k, j) \/ Assign(k, j) \/ Compare(k, j)
Spec == Init /\ [][Next]_vars
Sound == ~bad
Independent == \A i, j \in Objs : i # j => Owned(o[i]) \cap Owned(o[j]) = {}
NoLeak == live = UNION {Owned(o[k]) : k \in Objs}
=============================================================================
