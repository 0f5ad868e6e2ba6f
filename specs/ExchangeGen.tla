----------------------------- MODULE ExchangeGen -----------------------------
(* Histories of exchanges between two CSR objects, one CSC object and three   *)
(* GraphBLAS handles, for replay on the real code: the abstract state keeps   *)
(* what an operation requires of its operands.  A step is <<op, k, j, arg>>.  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth
VARIABLES x, y, g, hist
vars == <<x, y, g, hist>>
NX == 2
NG == 3
Ops == <<"freshX", "freshX", "freshY", "freshG", "freshG", "freshG", "freshG", "build", "build", "build", "pack", "pack", "pack", "import", "import",
         "unpack", "unpack", "unpack", "unpack", "exportdup", "export", "unpackY", "unpackY", "packY", "packY", "lowtri", "lowtri", "tocsc", "tocsc",
         "sortdeg", "sortdeg", "avoidiso", "read", "read", "freeX", "freeY", "freeG", "onebased", "copyX", "assignX">>
Init == /\ x = [k \in 1..NX |-> "full"] /\ y = "full" /\ g = [k \in 1..NG |-> TRUE]
        /\ hist = <<<<"freshX", 1, 1, 1>>, <<"freshX", 2, 1, 2>>, <<"freshY", 1, 1, 1>>, <<"freshG", 1, 1, 1>>, <<"freshG", 2, 1, 2>>, <<"freshG", 3, 1, 3>>>>
Pick(n, h) == RandomElement(1..(n + 0 * Len(h)))
Do(c) ==
  LET op == c[1]  k == c[2]  j == c[3]
      kx == 1 + (k % NX)  jx == 1 + (j % NX) IN
  CASE op \in {"freshX"}  -> <<TRUE, [x EXCEPT ![kx] = "full"], y, g>>
    [] op = "freshY"      -> <<TRUE, x, "full", g>>
    [] op \in {"freshG", "read"} -> <<TRUE, x, y, [g EXCEPT ![k] = TRUE]>>
    [] op \in {"build"}   -> <<x[jx] \in {"full", "one"}, x, y, [g EXCEPT ![k] = TRUE]>>
    [] op \in {"pack", "import"} -> <<x[jx] = "full", [x EXCEPT ![jx] = "moved"], y, [g EXCEPT ![k] = TRUE]>>
    [] op \in {"unpack", "exportdup"} -> <<g[j], [x EXCEPT ![kx] = "full"], y, g>>
    [] op = "export"      -> <<g[j], [x EXCEPT ![kx] = "full"], y, [g EXCEPT ![j] = FALSE]>>
    [] op = "unpackY"     -> <<g[j], x, "full", g>>
    [] op = "packY"       -> <<y = "full", x, "moved", [g EXCEPT ![k] = TRUE]>>
    [] op \in {"lowtri", "tocsc"} -> <<g[j] /\ k # j, x, y, [g EXCEPT ![k] = TRUE]>>
    [] op \in {"sortdeg", "avoidiso"} -> <<g[k], x, y, g>>
    [] op = "freeX"       -> <<TRUE, [x EXCEPT ![kx] = "empty"], y, g>>
    [] op = "freeY"       -> <<TRUE, x, "empty", g>>
    [] op = "freeG"       -> <<g[k], x, y, [g EXCEPT ![k] = FALSE]>>
    [] op = "onebased"    -> <<x[kx] = "full", [x EXCEPT ![kx] = "one"], y, g>>
    [] op = "copyX"       -> <<kx # jx /\ x[jx] \in {"full", "one", "empty"}, [x EXCEPT ![kx] = x[jx]], y, g>>
    [] op = "assignX"     -> <<kx # jx /\ x[jx] \in {"full", "one", "empty"}, [x EXCEPT ![kx] = x[jx]], y, g>>
Next == \E c \in {<<Ops[Pick(Len(Ops), hist)], Pick(NG, hist), Pick(NG, hist), Pick(12, hist)>>} :
          LET d == Do(c) IN
          IF d[1] THEN x' = d[2] /\ y' = d[3] /\ g' = d[4] /\ hist' = Append(hist, c) ELSE UNCHANGED vars
Dump == TLCGet("level") = Depth => PrintT(<<"GEN", hist>>)
=============================================================================
