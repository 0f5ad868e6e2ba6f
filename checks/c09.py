MC = """CONSTANTS MaxN = %d MaxP = %d Kind = "%s" Barrier = %s LastReads = %s
SPECIFICATION Spec
INVARIANT InBounds Exact
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    n, p = (7, 5) if ctx.thorough else (6, 4)
    for kind in ("incl", "excl", "util"):
        ctx.model("Scan", None, cfgtext=MC % (n, p, kind, "TRUE", "FALSE"))
        ctx.model("Scan", None, cfgtext=MC % (4, 3, kind, "FALSE", "FALSE"), expect_violation=True, count=False)
    ctx.model("Scan", None, cfgtext=MC % (4, 3, "util", "TRUE", "TRUE"), expect_violation=True, count=False)
    exes = ctx.par([lambda: ctx.cxx("scan", "scan.cpp"), lambda: ctx.controlled("scan_c", "scan.cpp", ["-DCONTROLLED"])])

    def rec(again=""):
        def one(i):
            out = ctx.path("scan%d%s.json" % (i, again))
            ctx.run(exes[i], [out], env={"MALLOC_PERTURB_": "0"})
            return out
        return ctx.par([lambda i=i: one(i) for i in (0, 1)])
    ctx.trace("ScanTrace", "ScanTrace.cfg", rec(), confirm=lambda: rec("again"), label="scans")
