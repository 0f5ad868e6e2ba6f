import os
from lib import vlib

R = """CONSTANTS N = %d M = %d MaxSplits = %d Directed = %s Disjoint = %s Clamp = %s Unique = %s
INIT Init
NEXT Next
INVARIANTS KeepsTotal Apart Cover Result
CHECK_DEADLOCK FALSE
"""
W = """CONSTANTS MaxK = %d MaxP = %d Slots = "%s" Join = %s
SPECIFICATION Spec
INVARIANT InOrder
PROPERTY Complete
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    T, F = "TRUE", "FALSE"
    n = 6 if ctx.thorough else 5
    jobs = [("Regions", R % (n, 3, 2, T, T, T, T), False), ("Regions", R % (n, 3, 2, F, T, T, T), False), ("Regions", R % (7, 3, 2, F, T, T, F), False),
            ("Regions", R % (4, 3, 1, T, F, T, T), True), ("Regions", R % (4, 3, 1, T, T, F, T), True),
            ("SortedWriter", W % (8 if ctx.thorough else 6, 5 if ctx.thorough else 4, "right", T), False),
            ("SortedWriter", W % (6, 4, "count", T), True), ("SortedWriter", W % (6, 4, "right", F), True)]
    got = ctx.par([lambda: ctx.cxx("parmat", "parmat.cpp", libs=("-lpthread",)), lambda: ctx.controlled("parmat_c", "parmat.cpp", ["-DCONTROLLED"])] +
                  [lambda j=j: ctx.model(j[0], None, cfgtext=j[1], expect_violation=j[2], count=not j[2], workers=2, heap="3g") for j in jobs], 6)

    def rec(again=""):
        def one(i):
            out = ctx.path("parmat%d%s.json" % (i, again))
            ctx.run(got[i], [out], env={"MALLOC_PERTURB_": "0"}, timeout=800)
            return out
        return ctx.par([lambda i=i: one(i) for i in (0, 1)])
    ctx.trace("ParmatTrace", "ParmatTrace.cfg", rec(), confirm=lambda: rec("again"), label="graphs")
