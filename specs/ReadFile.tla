------------------------------- MODULE ReadFile -------------------------------
(* What a reader of a coordinate text file does, line by line:                *)
(*   <<"banner", sym>>  <<"comment">>  <<"size", m, n, k>>                    *)
(*   <<"entry", r, c, v>> (v present)  <<"pattern", r, c>> (no value)         *)
(* State: [st, sym, m, n, k, got, list]; list holds zero-based entries.       *)
EXTENDS Integers, Sequences
Start(one) == [st |-> "head", sym |-> FALSE, m |-> 0, n |-> 0, k |-> 0, got |-> 0, list |-> <<>>, one |-> one]
Put(s, r, c, v, nodiag) ==
  LET e == <<r - 1, c - 1, v>>
      f == <<c - 1, r - 1, v>>
      add == IF nodiag /\ r = c THEN <<>> ELSE IF s.sym /\ r # c THEN <<e, f>> ELSE <<e>>
  IN [s EXCEPT !.got = @ + 1, !.list = @ \o add, !.st = IF s.got + 1 = s.k THEN "done" ELSE "body"]
Line(s, l, nodiag) ==
  CASE s.st = "head" /\ l[1] = "banner"  -> [s EXCEPT !.sym = l[2]]
    [] s.st = "head" /\ l[1] = "comment" -> s
    [] s.st = "head" /\ l[1] = "size"    -> [s EXCEPT !.m = l[2], !.n = l[3], !.k = l[4], !.st = IF l[4] = 0 THEN "done" ELSE "body"]
    [] s.st = "body" /\ l[1] = "entry"   -> Put(s, l[2], l[3], l[4], nodiag)
    [] s.st = "body" /\ l[1] = "pattern" -> Put(s, l[2], l[3], s.one, nodiag)
    [] OTHER -> [s EXCEPT !.st = "malformed"]
=============================================================================
