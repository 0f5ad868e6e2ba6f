LIFE = """CONSTANTS K = %d AssignTest = "%s" GuardEq = %s
SPECIFICATION Spec
INVARIANT Sound Independent NoLeak
CHECK_DEADLOCK FALSE
"""
GEN = """CONSTANTS K = 3 Depth = %d Kind = "%s"
INIT Init
NEXT Next
INVARIANT Dump
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    ctx.model("ObjectLife", None, cfgtext=LIFE % (3 if ctx.thorough else 2, "maj", "TRUE"))
    ctx.model("ObjectLife", None, cfgtext=LIFE % (2, "min", "TRUE"), expect_violation=True, count=False)
    ctx.model("ObjectLife", None, cfgtext=LIFE % (2, "maj", "FALSE"), expect_violation=True, count=False)
    num, depth = (1500, 40) if ctx.thorough else (240, 28)

    def plan(kind, n):
        f = ctx.path("plan_%s.txt" % kind)
        with open(f, "w") as o:
            for (hist,) in ctx.generate("ObjectLifeGen", GEN % (depth, kind), n, depth + 1, procs=2):
                o.write(" ".join("%s %d %d %d %d" % tuple(x) for x in hist) + "\n")
        return f
    plans = ctx.par([lambda: plan("csr", num), lambda: plan("csc", num // 2)])
    jobs = [("a%d" % v, lambda v=v: ctx.cxx("obj_a%d" % v, "objects.cpp", ["-DVT=%d" % v, "-DTRACK_LIVE"])) for v in (0, 1, 2)]
    jobs += [("c0", lambda: ctx.controlled("obj_c0", "objects.cpp", ["-DVT=0", "-DCONTROLLED"]))]

    def rec(again=""):
        def one(name, build):
            exe = ctx.path("obj_" + name) if again else build()
            out = ctx.path("obj_%s%s.json" % (name, again))
            ctx.run(exe, [out] + plans, env={"MALLOC_PERTURB_": "0"} if name[0] == "c" else None)
            return out
        return ctx.par([lambda n=n, b=b: one(n, b) for n, b in jobs])
    ctx.trace("ObjectsTrace", "ObjectsTrace.cfg", rec(), confirm=lambda: rec("again"), label="objects")
