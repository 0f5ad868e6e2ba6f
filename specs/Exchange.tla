------------------------------- MODULE Exchange -------------------------------
(* Who owns the arrays of a matrix while it moves between the library's       *)
(* compressed objects (x) and GraphBLAS handles (g).  Moving hands the very   *)
(* arrays over and GraphBLAS believes the lengths it is told, copying         *)
(* allocates; an emptied or destroyed owner frees what it owns.               *)
(* NullOnPack: the object forgets the arrays it handed over.                  *)
(* PtrLen:     the dimension the length of the pointer array is taken from    *)
(*             ("maj": the number of compressed slices).                      *)
(* IdBytes:    bytes per index, as told to GraphBLAS; Expand: a GraphBLAS     *)
(*             matrix that stores one value for all entries is expanded when  *)
(*             it is taken over.                                              *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS NX, NG, NullOnPack, PtrLen, IdBytes, Expand
IndexBytes == 8
XS == 1..NX
GS == 1..NG
Blocks == 1..(NX + NG + 1)
Null == 0
VARIABLES x, g, live, size, bad
vars == <<x, g, live, size, bad>>
Shape == {s \in [nnz : {0, 2}, maj : 1..2, min : 1..2] : s.maj + s.min = 3}
NoX == [nnz |-> 0, maj |-> 0, min |-> 0, blk |-> Null, vals |-> 0]
NoG == [st |-> "none", nnz |-> 0, maj |-> 1, min |-> 1, blk |-> Null, iso |-> FALSE]
\* a block stands for the arrays of one matrix; its size is that of the pointer array, indices and values
Fresh == CHOOSE b \in Blocks : b \notin live /\ \A c \in Blocks : c \notin live => b <= c
OwnX(o) == IF o.maj > 0 /\ o.blk # Null THEN {o.blk} ELSE {}
OwnG(o) == IF o.st = "live" /\ o.blk # Null THEN {o.blk} ELSE {}
Room == Cardinality(live) < Cardinality(Blocks)
\* for the time being an owner may hold a block that no longer lives: that is a use or free of freed memory
Init == x = [k \in XS |-> NoX] /\ g = [k \in GS |-> NoG] /\ live = {} /\ size = [b \in Blocks |-> [p |-> 0, v |-> 0]] /\ bad = ""
Flag(c, why) == bad' = (IF bad = "" /\ c THEN why ELSE bad)
DropX(k) == live \ OwnX(x[k])
DropG(k) == live \ OwnG(g[k])
NewX(k, s) ==        \* the object is rebuilt from scratch
  /\ Room
  /\ x' = [x EXCEPT ![k] = [nnz |-> s.nnz, maj |-> s.maj, min |-> s.min, blk |-> Fresh, vals |-> s.nnz]]
  /\ size' = [size EXCEPT ![Fresh] = [p |-> s.maj + 1, v |-> s.nnz]]
  /\ live' = DropX(k) \cup {Fresh} /\ Flag(~(OwnX(x[k]) \subseteq live), "double free") /\ UNCHANGED g
NewG(k, s, iso) ==
  /\ Room
  /\ g' = [g EXCEPT ![k] = [st |-> "live", nnz |-> s.nnz, maj |-> s.maj, min |-> s.min, blk |-> Fresh, iso |-> iso /\ s.nnz > 0]]
  /\ size' = [size EXCEPT ![Fresh] = [p |-> s.maj + 1, v |-> IF iso THEN 1 ELSE s.nnz]]
  /\ live' = DropG(k) \cup {Fresh} /\ Flag(~(OwnG(g[k]) \subseteq live), "double free") /\ UNCHANGED x
Pack(k, j) ==        \* move x[j] into the handle g[k]
  LET told == (IF PtrLen = "maj" THEN x[j].maj ELSE x[j].min) + 1
      taken == told >= x[j].maj + 1 /\ x[j].nnz * IdBytes >= x[j].nnz * IndexBytes IN
  /\ x[j].blk # Null
  /\ g' = [g EXCEPT ![k] = IF taken THEN [st |-> "live", nnz |-> x[j].nnz, maj |-> x[j].maj, min |-> x[j].min, blk |-> x[j].blk, iso |-> FALSE] ELSE @]
  /\ x' = [x EXCEPT ![j].blk = IF taken /\ NullOnPack THEN Null ELSE @]
  /\ live' = (IF taken THEN DropG(k) ELSE live)
  /\ Flag(~taken, "refused")
  /\ UNCHANGED size
Unpack(k, j) ==      \* a new object takes over what g[j] holds; g[j] is left without entries
  /\ g[j].st = "live" /\ g[j].blk # Null /\ Room
  /\ LET v == IF g[j].iso /\ ~Expand THEN 1 ELSE g[j].nnz
         b == Fresh IN
     /\ x' = [x EXCEPT ![k] = [nnz |-> g[j].nnz, maj |-> g[j].maj, min |-> g[j].min, blk |-> g[j].blk, vals |-> v]]
     /\ g' = [g EXCEPT ![j] = [@ EXCEPT !.nnz = 0, !.blk = b, !.iso = FALSE]]
     /\ size' = [size EXCEPT ![g[j].blk].v = v, ![b] = [p |-> g[j].maj + 1, v |-> 0]]
     /\ live' = DropX(k) \cup {b}
  /\ Flag(~(OwnX(x[k]) \subseteq live), "double free")
EmptyX(k) == x' = [x EXCEPT ![k] = NoX] /\ live' = DropX(k) /\ Flag(~(OwnX(x[k]) \subseteq live), "double free") /\ UNCHANGED <<g, size>>
FreeG(k) == g' = [g EXCEPT ![k] = NoG] /\ live' = DropG(k) /\ Flag(~(OwnG(g[k]) \subseteq live), "double free") /\ UNCHANGED <<x, size>>
UseX(k) == /\ x[k].blk # Null /\ UNCHANGED <<x, g, live, size>>      \* read every entry
           /\ Flag(~(OwnX(x[k]) \subseteq live) \/ size[x[k].blk].p < x[k].maj + 1 \/ size[x[k].blk].v < x[k].nnz, "read outside the arrays")
UseG(k) == /\ g[k].st = "live" /\ UNCHANGED <<x, g, live, size>>
           /\ Flag(~(OwnG(g[k]) \subseteq live), "read of freed arrays")
Step == \/ \E k \in XS : (\E s \in Shape : NewX(k, s)) \/ EmptyX(k) \/ UseX(k) \/ (\E j \in GS : Unpack(k, j))
        \/ \E k \in GS : (\E s \in Shape : NewG(k, s, FALSE) \/ NewG(k, s, TRUE)) \/ FreeG(k) \/ UseG(k) \/ (\E j \in XS : Pack(k, j))
Next == Step
Spec == Init /\ [][Next]_vars
Sound == bad = ""
OneOwner == /\ \A i \in XS, j \in GS : OwnX(x[i]) \cap OwnG(g[j]) = {}
            /\ \A i, j \in XS : i # j => OwnX(x[i]) \cap OwnX(x[j]) = {}
            /\ \A i, j \in GS : i # j => OwnG(g[i]) \cap OwnG(g[j]) = {}
NoLeak == live = UNION ({OwnX(x[k]) : k \in XS} \cup {OwnG(g[k]) : k \in GS})
\* two states that differ only in what is remembered about blocks that are gone are the same
View == <<x, g, live, [b \in Blocks |-> IF b \in live THEN size[b] ELSE [p |-> 0, v |-> 0]], bad>>
=============================================================================
