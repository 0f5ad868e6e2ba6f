------------------------------- MODULE SpGEMM -------------------------------
(* What a sparse product is, row by row.  A matrix is a sequence of rows; a   *)
(* row is a sequence of <<column, value>> with 0-based columns, in any order, *)
(* no column twice.  Modes: "mask" (only positions of M), "comp" (only        *)
(* positions outside M), "full" (no mask).                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Semiring

NoEntry == <<>>

(* An accumulator row is a function columns -> NoEntry or <<value>>:          *)
(* "has an entry" is kept apart from the value, so a stored zero is an entry. *)
(* Only the columns some product reaches are in its domain, so that the width *)
(* of the matrix does not matter.                                             *)
Reached(Arow, B) ==
  UNION {{B[Arow[q][1] + 1][p][1] : p \in 1..Len(B[Arow[q][1] + 1])} : q \in 1..Len(Arow)}
EmptyAcc(cols) == [j \in cols |-> NoEntry]

(* One product reaches column c: the first one is stored as it is (no         *)
(* identity element is assumed), later ones are combined with Plus.           *)
Accumulate(sr, acc, c, p) ==
  [acc EXCEPT ![c] = IF @ = NoEntry THEN <<p>> ELSE <<Plus(sr, @[1], p)>>]

(* All products of one entry of A's row with the matching row of B.           *)
ScaleAdd(sr, swap, Allowed(_), acc, a, Brow) ==
  FoldLeft(LAMBDA t, e : IF Allowed(e[1])
                         THEN Accumulate(sr, t, e[1], IF swap THEN Mult(sr, e[2], a) ELSE Mult(sr, a, e[2]))
                         ELSE t,
           acc, Brow)

RowProduct(sr, swap, Allowed(_), Arow, B, n) ==
  FoldLeft(LAMBDA acc, e : ScaleAdd(sr, swap, Allowed, acc, e[2], B[e[1] + 1]), EmptyAcc(Reached(Arow, B) \cap 0..(n - 1)), Arow)

AllowedIn(mode, Mset, j) ==
  CASE mode = "mask" -> j \in Mset
    [] mode = "comp" -> j \notin Mset
    [] mode = "full" -> TRUE

ProductRow(mode, sr, swap, Arow, B, Mset, n) ==
  LET ok(j) == AllowedIn(mode, Mset, j) IN RowProduct(sr, swap, ok, Arow, B, n)

EntriesOf(acc) == {j \in DOMAIN acc : acc[j] # NoEntry}

(* A stored row (columns cs, values vs) is exactly the accumulator row.       *)
RowIs(cs, vs, acc) ==
  /\ Len(cs) = Cardinality(EntriesOf(acc))
  /\ \A p \in 1..Len(cs) : cs[p] \in DOMAIN acc /\ acc[cs[p]] = <<vs[p]>>
  /\ \A p \in 1..Len(cs) : cs[p] \in EntriesOf(acc)
  /\ Cardinality({cs[p] : p \in 1..Len(cs)}) = Len(cs)

Ascending(cs) == \A p \in 1..(Len(cs) - 1) : cs[p] < cs[p + 1]

(* The arrays of a compressed matrix fit together.                            *)
WellFormed(c, rows, cols) ==
  /\ c.rows = rows
  /\ c.cols = cols
  /\ Len(c.rowptr) = rows + 1
  /\ c.rowptr[1] = 0
  /\ \A i \in 1..rows : c.rowptr[i] <= c.rowptr[i + 1]
  /\ c.rowptr[rows + 1] = c.nnz
  /\ Len(c.colids) = c.nnz
  /\ Len(c.values) = c.nnz
=============================================================================
