---------------------------- MODULE TriplesTrace ----------------------------
(* Recorded calls of removeDuplicates, generateRandomTriples and the GTgraph  *)
(* R-MAT generator.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == INSTANCE Triples WITH R <- 1, C <- 1, MaxN <- 0, Guard <- TRUE, Both <- TRUE, Behind <- TRUE,
                           inp <- 0, arr <- 0, src <- 0, dst <- 0, pc <- 0
G == INSTANCE RMat WITH MaxV <- 0, MaxE <- 0, FromHalf <- TRUE, Retry <- TRUE,
                        n <- 0, m <- 0, loops <- FALSE, u <- 0, v <- 0, step <- 0, edges <- 0, done <- 0
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, phase
Pair(e) == <<e[1], e[2]>>
Coord(s) == [i \in 1..Len(s) |-> Pair(s[i])]
\* a kept triple is one of those put in, value and all
Kept(inp, out) == {<<e[1], e[2], e[3]>> : e \in {out[i] : i \in 1..Len(out)}} \subseteq {<<e[1], e[2], e[3]>> : e \in {inp[i] : i \in 1..Len(inp)}}
Why(r) ==
  IF r.crash # "" THEN r.crash
  ELSE CASE r.call = "dedup" ->
              IF ~T!Strict(Coord(r.out)) THEN "not in strictly ascending row-major order"
              ELSE IF T!RangeOf(Coord(r.out)) # T!RangeOf(Coord(r.inp)) THEN "a coordinate was lost or invented"
              ELSE IF ~Kept(r.inp, r.out) THEN "a triple changed its value" ELSE ""
         [] r.call = "random" ->
              IF \E i \in 1..Len(r.out) : r.out[i][1] \notin 0..(r.rows - 1) \/ r.out[i][2] \notin 0..(r.cols - 1) THEN "coordinate out of range"
              ELSE IF ~T!Strict(Coord(r.out)) THEN "duplicates left, or not in row-major order"
              ELSE IF Len(r.out) > r.num \/ (r.num > 0 /\ Len(r.out) = 0) THEN "wrong number of triples"
              ELSE IF \E i \in 1..Len(r.out) : r.out[i][3] # 1 THEN "value is not one" ELSE ""
         [] r.call = "rmat" ->
              IF r.gotn # r.n \/ r.gotm # r.m THEN "wrong size"
              ELSE IF ~G!Asked(r.n, r.m, r.loops, r.out) THEN "not the edges asked for"
              ELSE IF \E i \in 1..Len(r.out) : r.out[i][3] < r.minw \/ (r.out[i][3] >= r.maxw /\ r.maxw > r.minw) THEN "weight out of range"
              ELSE IF r.sorted /\ \E i \in 1..(Len(r.out) - 1) : r.out[i][1] > r.out[i + 1][1] THEN "not sorted by start vertex" ELSE ""
         [] OTHER -> "unknown record"
Init == rec \in 1..Len(Recs) /\ phase = "call"
Next == phase = "call" /\ rec' = rec /\ phase' = (IF Why(Recs[rec]) = "" THEN "accepted" ELSE "rejected")
NotRejected == phase = "rejected" => LET r == Recs[rec] IN PrintT(<<"REJECTED", r.id, r.call, r.type, Why(r)>>) /\ FALSE
=============================================================================
