---------------------------- MODULE ObjectLifeGen ----------------------------
(* Behaviours of the object pool for replay on real CSR and CSC objects: the  *)
(* abstract state keeps what an operation requires of its operands.           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS K, Depth, Kind       \* Kind: "csr" or "csc"
VARIABLES st, hist
vars == <<st, hist>>
Fresh == [live |-> FALSE, zb |-> TRUE, srt |-> TRUE]
OpSeq == IF Kind = "csr"
         THEN <<"default", "fresh", "fresh", "fresh", "fresh", "copy", "copy", "assign", "assign", "empty", "sort", "sort", "shuffle", "one", "zero",
                "isect", "isect", "eq", "eq", "eq", "sum", "near", "near", "nearone", "mutate", "mutate", "isempty">>
         ELSE <<"default", "fresh", "fresh", "fresh", "copy", "copy", "assign", "assign", "empty", "shuffle", "eq", "eq", "eq", "near", "mutate", "isempty">>
Pre(c) == CASE c[1] \in {"sort", "shuffle"} -> st[c[2]].zb
            [] c[1] = "mutate" -> st[c[2]].live /\ st[c[2]].zb /\ st[c[2]].srt
            [] c[1] = "isect" -> st[c[3]].zb /\ st[c[4]].zb /\ st[c[3]].srt /\ st[c[4]].srt
            [] c[1] \in {"one", "zero"} -> st[c[2]].live
            [] c[1] = "copy" -> c[2] # c[4]
            [] c[1] \in {"near", "nearone"} -> c[2] # c[4] /\ st[c[4]].live /\ st[c[4]].zb /\ st[c[4]].srt
            [] OTHER -> TRUE
Post(c) == CASE c[1] \in {"default", "empty"} -> [Fresh EXCEPT !.zb = IF c[1] = "empty" THEN st[c[2]].zb ELSE TRUE]
             [] c[1] = "fresh" -> [live |-> TRUE, zb |-> TRUE, srt |-> c[5] # 3]
             [] c[1] \in {"copy", "assign", "near"} -> st[c[4]]
             [] c[1] = "sort" -> [st[c[2]] EXCEPT !.srt = TRUE]
             [] c[1] = "shuffle" -> [st[c[2]] EXCEPT !.srt = FALSE]
             [] c[1] = "nearone" -> [st[c[4]] EXCEPT !.zb = FALSE]
             [] c[1] = "one" -> [st[c[2]] EXCEPT !.zb = FALSE]
             [] c[1] = "zero" -> [st[c[2]] EXCEPT !.zb = TRUE]
             [] c[1] = "isect" -> [live |-> TRUE, zb |-> TRUE, srt |-> TRUE]
             [] OTHER -> st[c[2]]
Init == /\ st = [k \in 1..K |-> [Fresh EXCEPT !.live = TRUE]]
        /\ hist = [k \in 1..K |-> <<"fresh", k, k, k, 1>>]
Pick(n, h) == RandomElement(1..(n + 0 * Len(h)))     \* depends on the state: evaluated anew in every step
Last == hist[Len(hist)]
Next == \E c \in {IF (Last[1] \in {"copy", "assign", "near", "one"} /\ Pick(2, hist) = 1) \/ Last[1] = "nearone"
                    THEN LET other == IF Last[1] = "one" THEN Last[3] ELSE Last[4]      \* compare what was just made, either way round
                         IN IF Pick(2, hist) = 1 THEN <<"eq", 1, Last[2], other, 1>> ELSE <<"eq", 1, other, Last[2], 1>>
                    ELSE <<OpSeq[Pick(Len(OpSeq), hist)], Pick(K, hist), Pick(K, hist), Pick(K, hist), Pick(6, hist)>>} :
          IF Pre(c) THEN hist' = Append(hist, c) /\ st' = [st EXCEPT ![c[2]] = Post(c)] ELSE UNCHANGED vars
Dump == TLCGet("level") = Depth => PrintT(<<"GEN", hist>>)
=============================================================================
