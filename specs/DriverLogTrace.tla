--------------------------- MODULE DriverLogTrace ---------------------------
(* Runs of the benchmark drivers.  A, B: the matrices in the files as rows of *)
(* <<column, value>>; M: the mask's columns per row; logs: what each LOG line *)
(* said: <<algorithm, threads, nonzeros, sum, checksums...>>.  The product is *)
(* formed row by row; at the end every line must report it.                   *)
EXTENDS DriverLog, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, nv, sum, ids, vals, ptrs, phase
vars == <<rec, at, nv, sum, ids, vals, ptrs, phase>>
R == Recs[rec]
Init == rec \in 1..Len(Recs) /\ at = 0 /\ nv = 0 /\ sum = 0 /\ ids = 0 /\ vals = 0 /\ ptrs = 0 /\ phase = "start"
Start == /\ phase = "start" /\ phase' = (IF R.status = "ok" THEN "rows" ELSE "rejected")
         /\ UNCHANGED <<rec, at, nv, sum, ids, vals, ptrs>>
Row == /\ phase = "rows" /\ at < Len(R.A)
       /\ LET mset == {R.M[at + 1][k] : k \in 1..Len(R.M[at + 1])}
              acc == ProductRow(R.mode, "plus_times", FALSE, R.A[at + 1], R.B, mset, R.n) IN
          /\ nv' = nv + RowNvals(acc) /\ sum' = sum + RowSum(acc)
          /\ ids' = ids + RowIdWords(acc) /\ vals' = vals + RowValWords(acc, R.double)
          /\ ptrs' = ptrs + nv
       /\ at' = at + 1 /\ UNCHANGED <<rec, phase>>
LineOk(l) ==
  /\ l.file = "a.mtx" /\ l.nnz = nv /\ l.threads \in {R.threads[i] : i \in 1..Len(R.threads)}
  /\ (l.sum >= 0 => l.sum = sum)
  /\ l.vals = Checksum(vals) /\ l.ids = Checksum(ids)
  /\ (l.ptr >= 0 => l.ptr = Checksum(ptrs))
Names == {R.logs[i].name : i \in 1..Len(R.logs)}
Count(x, t) == Cardinality({i \in 1..Len(R.logs) : R.logs[i].name = x /\ R.logs[i].threads = t})
\* the unrepaired defect, exactly as listed in known_findings.txt: without a number of threads
\* masked-all's output ends in the middle of the first line
CutOff == /\ "KNOWN_no_thread_count" \in DOMAIN IOEnv /\ R.double /\ R.counted = 0
          /\ Len(R.logs) = 1 /\ R.logs[1].name = "?" /\ PrintT(<<"FINDING", "no_thread_count">>)
Finish == /\ phase = "rows" /\ at = Len(R.A)
          /\ phase' = (IF /\ Len(R.logs) >= 1
                          /\ \A i \in 1..Len(R.logs) : LineOk(R.logs[i])
                          /\ \A x \in Names : \A i \in 1..Len(R.threads) : Count(x, R.threads[i]) = R.outer
                       THEN "accepted" ELSE IF CutOff THEN "accepted" ELSE "rejected")
          /\ UNCHANGED <<rec, at, nv, sum, ids, vals, ptrs>>
Next == Start \/ Row \/ Finish
NotRejected == phase = "rejected" => (PrintT(<<"REJECTED", R.id, at, R.status, nv, Len(R.logs), R.logs>>) /\ FALSE)
=============================================================================
