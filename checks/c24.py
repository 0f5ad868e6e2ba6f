MC = """CONSTANTS M = %d K = %d N = %d T = %d Kind = "%s" Merge = "%s" Width = %d
SPECIFICATION Spec
INVARIANTS Exact RowsExact
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    jobs = [((2, 2, 2, 2, "rows", "critical", 0), False), ((2, 2, 2, 2, "inner", "critical", 0), False),
            ((2, 1, 2, 2, "rows", "split", 0), True), ((2, 1, 2, 1, "inner", "critical", 4), True)]
    if ctx.thorough:
        jobs += [((3, 2, 2, 2, "rows", "critical", 0), False), ((2, 3, 2, 3, "inner", "critical", 0), False)]
    kinds = [("a%d%d" % (u, v), lambda u=u, v=v: ctx.cxx("counts_a%d%d" % (u, v), "counts.cpp", ["-std=c++20", "-DVT=%d" % v, "-DUNIT=%d" % u])) for u in (0, 1) for v in (0, 1)]
    kinds += [("c%d0" % u, lambda u=u: ctx.controlled("counts_c%d0" % u, "counts.cpp", ["-std=c++20", "-DVT=0", "-DUNIT=%d" % u, "-DCONTROLLED"])) for u in (0, 1)]

    def rec(again=""):
        def one(name, build):
            exe = ctx.path("counts_" + name) if again else build()
            out = ctx.path("counts_%s%s.json" % (name, again))
            ctx.run(exe, [out], env={"MALLOC_PERTURB_": "0"} if name[0] == "c" else None)
            return out
        return ctx.par([lambda n=n, b=b: one(n, b) for n, b in kinds])
    ctx.par([lambda j=j: ctx.model("OpCount", None, cfgtext=MC % j[0], expect_violation=j[1], count=not j[1], workers=2, heap="2g") for j in jobs], 4)
    ctx.trace("CountTrace", "CountTrace.cfg", rec(), confirm=lambda: rec("again"), label="counts")
