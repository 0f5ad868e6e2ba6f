------------------------------ MODULE GtTrace ------------------------------
(* Runs of the GTgraph programs: the graph in the file they wrote, against    *)
(* the parameters on the command line and in the configuration file.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
G == INSTANCE RMat WITH MaxV <- 0, MaxE <- 0, FromHalf <- TRUE, Retry <- TRUE,
                        n <- 0, m <- 0, loops <- FALSE, u <- 0, v <- 0, step <- 0, edges <- 0, done <- 0
E == INSTANCE RandomGraph WITH MaxN <- 0, MaxM <- 0, Grow <- TRUE, Retry <- TRUE, model <- "", n <- 0, loops <- FALSE,
                               cell <- 0, edges <- 0, cap <- 0, asked <- 0, drawn <- 0
C == INSTANCE Cliques WITH MaxN <- 0, MaxM <- 0, MaxEst <- 0, P <- 1, D <- 1, More <- TRUE, Room <- "bound",
                           n <- 0, m <- 0, est <- 0, uni <- FALSE, sizes <- 0, intra <- 0, inter <- 0, phase <- ""
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, phase
Why(r) ==
  IF r.crash # "" THEN r.crash
  ELSE IF r.gotn # r.n \/ r.gotm # Len(r.out) \/ (r.hdr # -1 /\ r.hdr # Len(r.out)) THEN "header does not fit the edges"
  ELSE IF \E i \in 1..Len(r.out) : r.out[i][3] < r.minw \/ (r.out[i][3] >= r.maxw /\ r.maxw > r.minw) THEN "weight out of range"
  ELSE IF r.sorted /\ \E i \in 1..(Len(r.out) - 1) : r.out[i][1] > r.out[i + 1][1] THEN "not sorted by start vertex"
  ELSE CASE r.kind = "rmat" -> IF G!Asked(r.n, r.m, r.loops, r.out) THEN "" ELSE "not the edges asked for"
         [] r.kind = "gnm" -> IF E!Drawn(r.n, r.m, r.loops, r.out) THEN "" ELSE "not the edges asked for"
         [] r.kind = "gnp" ->
              IF ~E!CellsOnce(r.n, r.loops, r.out) THEN "not every pair once at most, in order"
              ELSE IF r.p = 0 /\ Len(r.out) # 0 THEN "an edge of probability zero"
              ELSE IF r.p = 2 /\ Len(r.out) # r.n * (IF r.loops THEN r.n ELSE r.n - 1) THEN "a certain edge is missing" ELSE ""
         [] r.kind = "cliques" -> C!CliqueGraph(r.n, r.maxc, r.par, r.how, r.far, r.cl, r.ins, r.outs, r.out)
         [] OTHER -> "unknown record"
Init == rec \in 1..Len(Recs) /\ phase = "run"
Next == phase = "run" /\ rec' = rec /\ phase' = (IF Why(Recs[rec]) = "" THEN "accepted" ELSE "rejected")
NotRejected == phase = "rejected" => LET r == Recs[rec] IN PrintT(<<"REJECTED", r.id, r.kind, r.type, Why(r)>>) /\ FALSE
=============================================================================
