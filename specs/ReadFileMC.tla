------------------------------ MODULE ReadFileMC ------------------------------
(* All files of bounded size fed to the reader machine: what it has built at  *)
(* the end is what the file describes.                                        *)
EXTENDS ReadFile, FiniteSets, TLC
CONSTANTS N, KMax
VARIABLES s, file, nodiag
vars == <<s, file, nodiag>>
Ranges(m, n, sym) == {<<r, c>> \in (1..m) \X (1..n) : sym => r >= c}
Seen == {<<file[p][2], file[p][3]>> : p \in {q \in DOMAIN file : file[q][1] \in {"entry", "pattern"}}}
Init == s = Start(7) /\ file = <<>> /\ nodiag \in BOOLEAN
Feed(l) == s' = Line(s, l, nodiag) /\ file' = Append(file, l) /\ UNCHANGED nodiag
Next == \/ s.st = "head" /\ file = <<>> /\ \E b \in BOOLEAN : Feed(<<"banner", b>>)
        \/ s.st = "head" /\ Len(file) = 1 /\ Feed(<<"comment">>)
        \/ s.st = "head" /\ file # <<>> /\ \E m, n \in 1..N, k \in 0..KMax :
              (s.sym => m = n) /\ k <= Cardinality(Ranges(m, n, s.sym)) /\ Feed(<<"size", m, n, k>>)
        \/ s.st = "body" /\ \E e \in Ranges(s.m, s.n, s.sym) \ Seen : Feed(<<"entry", e[1], e[2], Len(file)>>) \/ Feed(<<"pattern", e[1], e[2]>>)
Spec == Init /\ [][Next]_vars
Set == {s.list[p] : p \in DOMAIN s.list}
Once == Cardinality(Set) = Len(s.list)
BothTriangles == s.sym => \A e \in Set : <<e[2], e[1], e[3]>> \in Set
AllThere == s.st = "done" => \A e \in Seen : (nodiag /\ e[1] = e[2]) \/ \E v \in Set : v[1] = e[1] - 1 /\ v[2] = e[2] - 1
NothingElse == \A e \in Set : <<e[1] + 1, e[2] + 1>> \in Seen \/ (s.sym /\ <<e[2] + 1, e[1] + 1>> \in Seen)
NeverMalformed == s.st # "malformed"
=============================================================================
