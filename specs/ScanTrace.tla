------------------------------ MODULE ScanTrace ------------------------------
(* Validates recorded prefix sums, element by element: the running sum of the *)
(* input is what the output must hold.                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, pos, phase
vars == <<rec, pos, phase>>
Block == 4096
First(c) == IF c.kind = "incl" THEN c.inp[1] ELSE 0
\* what is added on the way from out[i] to out[i+1]
Added(c, i) == IF c.kind = "incl" THEN c.inp[i + 1] ELSE c.inp[i]
OutLen(c) == IF c.kind = "offsets" THEN c.n + 1 ELSE c.n
InLen(c) == IF c.kind \in {"util", "seq"} THEN c.n - 1 ELSE c.n
StartOk(c) ==
  /\ c.status = "ok" /\ c.intact
  /\ Len(c.out) = OutLen(c) /\ Len(c.inp) = InLen(c)
  /\ c.out[1] = First(c)
  /\ c.kind = "cumsum" => c.total = c.out[c.n] + c.inp[c.n]
Min(a, b) == IF a < b THEN a ELSE b
BlockOk(c, p) == \A i \in p..Min(p + Block - 1, OutLen(c) - 1) : c.out[i + 1] = c.out[i] + Added(c, i)
Init == rec \in 1..Len(Cases) /\ pos = 1 /\ phase = "start"
Start == /\ phase = "start" /\ phase' = (IF StartOk(Cases[rec]) THEN "scan" ELSE "rejected") /\ UNCHANGED <<rec, pos>>
Scan == /\ phase = "scan" /\ pos < OutLen(Cases[rec])
        /\ phase' = IF BlockOk(Cases[rec], pos) THEN "scan" ELSE "rejected"
        /\ pos' = pos + Block /\ UNCHANGED rec
Finish == phase = "scan" /\ pos >= OutLen(Cases[rec]) /\ phase' = "accepted" /\ UNCHANGED <<rec, pos>>
Next == Start \/ Scan \/ Finish
NotRejected == phase = "rejected" =>
   (PrintT(<<"REJECTED", Cases[rec].id, pos, Cases[rec].how, Cases[rec].status, Cases[rec].intact>>) /\ FALSE)
=============================================================================
