---------------------------- MODULE ExchangeTrace ----------------------------
(* Recorded exchanges between CSR and CSC objects and GraphBLAS matrices.     *)
(* Every operation is checked against what it has to leave behind in all the  *)
(* objects of the pool.                                                       *)
EXTENDS Compressed, FiniteSets, ReadFile, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, at, objs, phase
vars == <<rec, at, objs, phase>>
R == Recs[rec]

(* contents as sets of <<row, col, value>>                                     *)
Full(o) == o.st = "full"
Off(o) == IF o.zb THEN 0 ELSE 1
SoundArrays(o) ==
  /\ o.nnz = Len(o.ids) /\ o.nnz = Len(o.vals) /\ Len(o.ptr) = o.maj + 1
  /\ o.ptr[1] = Off(o) /\ o.ptr[o.maj + 1] = o.nnz + Off(o)
  /\ \A i \in 1..o.maj : o.ptr[i] <= o.ptr[i + 1]
  /\ \A p \in 1..o.nnz : o.ids[p] \in Off(o)..(o.min - 1 + Off(o))
Cells(o, byrow) ==
  UNION {{LET i == o.ids[p] - Off(o) IN IF byrow THEN <<m - 1, i, o.vals[p]>> ELSE <<i, m - 1, o.vals[p]>> :
            p \in (o.ptr[m] - Off(o) + 1)..(o.ptr[m + 1] - Off(o))} : m \in 1..o.maj}
Ascending(o) == \A m \in 1..o.maj : \A p \in (o.ptr[m] - Off(o) + 1)..(o.ptr[m + 1] - Off(o) - 1) : o.ids[p] < o.ids[p + 1]
Tuples(h) == {h.t[i] : i \in 1..Len(h.t)}
Holds(h, m, n, cells) == h.st = "live" /\ h.m = m /\ h.n = n /\ Len(h.t) = Cardinality(cells) /\ Tuples(h) = cells
XHolds(o, m, n, cells) == Full(o) /\ o.zb /\ o.maj = m /\ o.min = n /\ SoundArrays(o) /\ Ascending(o) /\ o.nnz = Cardinality(cells) /\ Cells(o, TRUE) = cells
YHolds(o, m, n, cells) == Full(o) /\ o.zb /\ o.maj = n /\ o.min = m /\ SoundArrays(o) /\ Ascending(o) /\ o.nnz = Cardinality(cells) /\ Cells(o, FALSE) = cells
Emptied(h, old) == h.st = "live" /\ h.m = old.m /\ h.n = old.n /\ h.t = <<>>

(* reading: the entries of the file, equal positions merged with MIN, then     *)
(* optionally added to the transpose                                           *)
RECURSIVE ReadAll(_, _, _)
ReadAll(s, lines, nodiag) == IF lines = <<>> THEN s ELSE ReadAll(Line(s, Head(lines), nodiag), Tail(lines), nodiag)
MinOf(S) == CHOOSE v \in S : \A w \in S : v <= w
Merged(list) ==
  LET pos == {<<list[i][1], list[i][2]>> : i \in 1..Len(list)}
  IN {<<p[1], p[2], MinOf({list[i][3] : i \in {j \in 1..Len(list) : list[j][1] = p[1] /\ list[j][2] = p[2]}})>> : p \in pos}
Mirror(cells) ==
  LET at1(r, c) == {t \in cells : t[1] = r /\ t[2] = c}
      pos == {<<t[1], t[2]>> : t \in cells} \cup {<<t[2], t[1]>> : t \in cells}
      val(S) == IF S = {} THEN 0 ELSE (CHOOSE t \in S : TRUE)[3]
  IN {<<p[1], p[2], val(at1(p[1], p[2])) + val(at1(p[2], p[1]))>> : p \in pos}
ReadOk(s, h) ==
  LET f == ReadAll(Start(s.one), s.lines, s.nodiag)
      c == Merged(f.list)
      want == IF s.mirror THEN Mirror(c) ELSE c
  IN /\ f.st = "done"
     /\ IF ~s.rand THEN Holds(h, f.m, f.n, want)
        ELSE /\ h.st = "live" /\ h.m = f.m /\ h.n = f.n                         \* drawn values: the pattern, and values within range
             /\ {<<t[1], t[2]>> : t \in Tuples(h)} = {<<t[1], t[2]>> : t \in want} /\ Len(h.t) = Cardinality(want)
             /\ \A t \in Tuples(h) : t[3] \in 7..(IF s.mirror THEN 32 ELSE 16)
             /\ s.mirror => \A t \in Tuples(h) : <<t[2], t[1], t[3]>> \in Tuples(h)

(* relabelling: with distinct values every entry can be followed, so the map   *)
(* of the labels shows itself and has to be one-to-one                         *)
Degree(cells, r) == Cardinality({t \in cells : t[1] = r})
Relabelled(old, new) ==
  LET a == Tuples(old)  b == Tuples(new)
      moves == {<<t, CHOOSE u \in b : u[3] = t[3]>> : t \in a}
      ends == {<<w[1][1], w[2][1]>> : w \in moves} \cup {<<w[1][2], w[2][2]>> : w \in moves}
  IN /\ new.st = "live" /\ new.m = old.m /\ new.n = old.n /\ Len(new.t) = Len(old.t) /\ Cardinality(b) = Cardinality(a)
     /\ {t[3] : t \in a} = {t[3] : t \in b}
     /\ \A r \in 0..(new.m - 2) : Degree(b, r) >= Degree(b, r + 1)
     /\ Cardinality({t[3] : t \in a}) = Cardinality(a) =>
          \A e, f \in ends : (e[1] = f[1]) <=> (e[2] = f[2])

Same(pre, post, ks, ysame, gs) ==
  /\ \A i \in 1..2 : i \notin ks => post.x[i] = pre.x[i]
  /\ ysame => post.y = pre.y
  /\ \A i \in 1..3 : i \notin gs => post.g[i] = pre.g[i]
GHasX(h, o) == Holds(h, o.maj, o.min, Cells(o, TRUE))
Step(pre, post, s) ==
  LET k == s.k  j == s.j IN
  /\ post.byrow
  /\ CASE s.op = "freshX" -> Full(post.x[k]) /\ SoundArrays(post.x[k]) /\ Same(pre, post, {k}, TRUE, {})
       [] s.op = "freshY" -> Full(post.y) /\ SoundArrays(post.y) /\ Same(pre, post, {}, FALSE, {})
       [] s.op = "freshG" -> post.g[k].st = "live" /\ Same(pre, post, {}, TRUE, {k})
       [] s.op = "read"   -> ReadOk(s, post.g[k]) /\ Same(pre, post, {}, TRUE, {k})
       [] s.op = "build"  -> GHasX(post.g[k], pre.x[j]) /\ Same(pre, post, {}, TRUE, {k})
       [] s.op \in {"pack", "import"} -> GHasX(post.g[k], pre.x[j]) /\ post.x[j].st = "moved" /\ Same(pre, post, {j}, TRUE, {k})
       [] s.op = "packY"  -> Holds(post.g[k], pre.y.min, pre.y.maj, Cells(pre.y, FALSE)) /\ post.y.st = "moved" /\ Same(pre, post, {}, FALSE, {k})
       [] s.op = "unpack" -> XHolds(post.x[k], pre.g[j].m, pre.g[j].n, Tuples(pre.g[j])) /\ Emptied(post.g[j], pre.g[j]) /\ Same(pre, post, {k}, TRUE, {j})
       [] s.op = "unpackY" -> YHolds(post.y, pre.g[j].m, pre.g[j].n, Tuples(pre.g[j])) /\ Emptied(post.g[j], pre.g[j]) /\ Same(pre, post, {}, FALSE, {j})
       [] s.op = "exportdup" -> XHolds(post.x[k], pre.g[j].m, pre.g[j].n, Tuples(pre.g[j])) /\ Same(pre, post, {k}, TRUE, {})
       [] s.op = "export" -> XHolds(post.x[k], pre.g[j].m, pre.g[j].n, Tuples(pre.g[j])) /\ post.g[j].st = "dead" /\ Same(pre, post, {k}, TRUE, {j})
       [] s.op = "lowtri" -> Holds(post.g[k], pre.g[j].m, pre.g[j].n, {t \in Tuples(pre.g[j]) : t[1] > t[2]}) /\ Same(pre, post, {}, TRUE, {k})
       \* (GraphBLAS itself stores a single row by rows)
       [] s.op = "tocsc"  -> Holds(post.g[k], pre.g[j].m, pre.g[j].n, Tuples(pre.g[j])) /\ (post.g[k].bycol \/ pre.g[j].m = 1) /\ Same(pre, post, {}, TRUE, {k})
       [] s.op = "sortdeg" -> Relabelled(pre.g[k], post.g[k]) /\ Same(pre, post, {}, TRUE, {k})
       [] s.op = "avoidiso" -> Holds(post.g[k], pre.g[k].m, pre.g[k].n, {t \in Tuples(pre.g[k]) : t[1] # s.r \/ t[2] # s.c} \cup {<<s.r, s.c, s.v>>})
                               /\ Same(pre, post, {}, TRUE, {k})
       [] s.op = "freeX"  -> post.x[k].st = "empty" /\ Same(pre, post, {k}, TRUE, {})
       [] s.op = "freeY"  -> post.y.st = "empty" /\ Same(pre, post, {}, FALSE, {})
       [] s.op = "freeG"  -> post.g[k].st = "dead" /\ Same(pre, post, {}, TRUE, {k})
       [] s.op = "onebased" -> /\ Full(post.x[k]) /\ ~post.x[k].zb /\ SoundArrays(post.x[k]) /\ post.x[k].maj = pre.x[k].maj /\ post.x[k].min = pre.x[k].min
                               /\ Cells(post.x[k], TRUE) = Cells(pre.x[k], TRUE) /\ Same(pre, post, {k}, TRUE, {})
       [] s.op \in {"copyX", "assignX"} -> post.x[k] = pre.x[j] /\ Same(pre, post, {k}, TRUE, {})
       [] s.op = "nothing" -> Same(pre, post, {}, TRUE, {})
Init == rec \in 1..Len(Recs) /\ at = 0 /\ objs = Recs[rec].init /\ phase = IF Recs[rec].status = "ok" THEN "run" ELSE "rejected"
Next == /\ phase = "run" /\ at < Len(R.steps)
        /\ LET s == R.steps[at + 1] IN
             IF Step(objs, s.objs, s) THEN objs' = s.objs /\ phase' = "run" ELSE objs' = objs /\ phase' = "rejected"
        /\ at' = at + 1 /\ UNCHANGED rec
NotRejected == phase = "rejected" =>
  (PrintT(<<"REJECTED", R.id, at, R.status, IF at > 0 THEN <<R.steps[at].op, R.steps[at].k, R.steps[at].j>> ELSE <<>> >>) /\ FALSE)
=============================================================================
