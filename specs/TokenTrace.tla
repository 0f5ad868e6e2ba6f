------------------------------ MODULE TokenTrace ------------------------------
(* Replays the recorded mult/add calls of one multiplication over opaque      *)
(* tokens against Terms, then compares the stored result.                     *)
EXTENDS Terms, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, store, phase
vars == <<rec, at, store, phase>>
R == Recs[rec]
Init == /\ rec \in 1..Len(Recs) /\ at = 0 /\ store = << >>
        /\ phase = IF Recs[rec].status = "ok" THEN "calls" ELSE "rejected"

Call ==
  /\ phase = "calls" /\ at < Len(R.calls)
  /\ LET c == R.calls[at + 1] IN
       IF c[1] = 0 /\ MultOk(R.leaf, R.nA, c[2], c[3]) THEN store' = Append(store, MultTerm(R.leaf, c[2], c[3])) /\ phase' = phase
       ELSE IF c[1] = 1 /\ AddOk(R.leaf, store, c[2], c[3]) THEN store' = Append(store, AddTerm(R.leaf, store, c[2], c[3])) /\ phase' = phase
       ELSE store' = store /\ phase' = "rejected"
  /\ at' = at + 1 /\ UNCHANGED rec

Allowed(i, j) == CASE R.mode = "full" -> TRUE
                   [] R.mode = "mask" -> \E p \in DOMAIN R.M[i + 1] : R.M[i + 1][p] = j
                   [] R.mode = "comp" -> ~ \E p \in DOMAIN R.M[i + 1] : R.M[i + 1][p] = j
(* R.C = sequence of <<row, col, token>>                                      *)
ResultOk ==
  /\ R.intact
  /\ \A p \in DOMAIN R.C :
       /\ IsTerm(R.leaf, store, R.C[p][3])
       /\ LET t == TermAt(R.leaf, store, R.C[p][3])
          IN t.i = R.C[p][1] /\ t.j = R.C[p][2] /\ t.ks = Contributing(R.leaf, R.nA, t.i, t.j) /\ Allowed(t.i, t.j)
  /\ LET want == {<<i, j>> \in (0..(R.m - 1)) \X (0..(R.n - 1)) : Allowed(i, j) /\ Contributing(R.leaf, R.nA, i, j) # {}}
         got == {<<R.C[p][1], R.C[p][2]>> : p \in DOMAIN R.C}
     IN want = got /\ Cardinality(got) = Len(R.C)

Finish == /\ phase = "calls" /\ at = Len(R.calls)
          /\ phase' = IF ResultOk THEN "accepted" ELSE "rejected"
          /\ UNCHANGED <<rec, at, store>>
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars
NotRejected == phase = "rejected" =>
   (PrintT(<<"REJECTED", R.id, at, R.types, R.status, IF at > 0 THEN R.calls[at] ELSE <<>> >>) /\ FALSE)
=============================================================================
