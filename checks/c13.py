MC = """CONSTANTS M = %d N = %d W = %d Atomic = %s
SPECIFICATION Spec
INVARIANT InRange Transposed
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    for m, n, w in [(2, 3, 2), (3, 2, 3)] + ([(3, 3, 2), (4, 2, 3), (2, 4, 3)] if ctx.thorough else []):
        ctx.model("Transpose", None, cfgtext=MC % (m, n, w, "TRUE"))
    ctx.model("Transpose", None, cfgtext=(MC % (2, 2, 2, "FALSE")), expect_violation=True, count=False)
    jobs = [("a%d" % v, lambda v=v: ctx.cxx("conv_a%d" % v, "convert.cpp", ["-DVT=%d" % v])) for v in (0, 1, 2)]
    jobs += [("c%d" % v, lambda v=v: ctx.controlled("conv_c%d" % v, "convert.cpp", ["-DVT=%d" % v, "-DCONTROLLED"])) for v in (0, 1)]

    def rec(again=""):
        def one(name, build):
            exe = ctx.path("conv_" + name) if again else build()
            out = ctx.path("conv_%s%s.json" % (name, again))
            ctx.run(exe, [out], env={"MALLOC_PERTURB_": "0"} if name[0] == "c" else None)
            return out
        return ctx.par([lambda n=n, b=b: one(n, b) for n, b in jobs])
    ctx.trace("ConvertTrace", "ConvertTrace.cfg", rec(), confirm=lambda: rec("again"), label="conversions")
