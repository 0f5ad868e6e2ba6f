import os

MC = """CONSTANTS MaxWarm = 3 MaxRuns = 3 Output = "%s" Empties = %s
SPECIFICATION Spec
INVARIANT OneProduct
PROPERTY Reports
CHECK_DEADLOCK FALSE
"""
SHARDS = 8


def check(ctx):
    ctx.par([lambda a=a: ctx.cxx("drivers%d" % a, "drivers.cpp", ["-DAPP=%d" % a]) for a in (1, 2)] +
            [lambda: ctx.model("DriverRun", None, cfgtext=MC % ("replace", "TRUE")), lambda: ctx.model("DriverRun", None, cfgtext=MC % ("replace", "FALSE")),
             lambda: ctx.model("DriverRun", None, cfgtext=MC % ("append", "TRUE")),
             lambda: ctx.model("DriverRun", None, cfgtext=MC % ("append", "FALSE"), expect_violation=True, count=False)], 6)

    def record(again=""):
        def one(a, s):
            out, d = ctx.path("drivers%d-%d%s.json" % (a, s, again)), ctx.path("d%d-%d%s" % (a, s, again))
            os.makedirs(d, exist_ok=True)
            ctx.run(ctx.path("drivers%d" % a), [out, d, str(s), str(SHARDS), str(4000 if ctx.thorough else 420)], timeout=800)
            return out
        return ctx.par([lambda a=a, s=s: one(a, s) for a in (1, 2) for s in range(SHARDS)], 8)
    ctx.trace("DriverLogTrace", "DriverLogTrace.cfg", record(), confirm=lambda: record("again"), label="drivers")
