import os

OWN = """CONSTANTS NX = %d NG = %d NullOnPack = %s PtrLen = "%s" IdBytes = %d Expand = %s
SPECIFICATION Spec
VIEW View
INVARIANTS Sound OneOwner NoLeak
CHECK_DEADLOCK FALSE
"""
GEN = """CONSTANTS Depth = %d
INIT Init
NEXT Next
INVARIANT Dump
CHECK_DEADLOCK FALSE
"""
TYPES = range(6)


def check(ctx):
    T, F = "TRUE", "FALSE"
    models = [((2, 1, T, "maj", 8, T), False), ((1, 2, T, "maj", 8, T), False), ((1, 1, F, "maj", 8, T), True), ((1, 1, T, "min", 8, T), True),
              ((1, 1, T, "maj", 4, T), True), ((1, 1, T, "maj", 8, F), True)]
    if ctx.thorough:
        models.append(((2, 2, T, "maj", 8, T), False))
    num, depth = (260, 40) if ctx.thorough else (36, 26)

    def plan(v):
        f = ctx.path("plan%d.txt" % v)
        with open(f, "w") as o:
            for (hist,) in ctx.generate("ExchangeGen", GEN % depth, num, depth + 1, procs=1):
                o.write(" ".join("%s %d %d %d" % tuple(x) for x in hist) + "\n")
        return f
    got = ctx.par([lambda v=v: ctx.cxx("exch%d" % v, "exchange.cpp", ["-DVT=%d" % v]) for v in TYPES] + [lambda v=v: plan(v) for v in TYPES] +
                  [lambda a=a, e=e: ctx.model("Exchange", None, cfgtext=OWN % a, expect_violation=e, count=not e, workers=2, heap="3g") for a, e in models], 8)

    def rec(again=""):
        def one(v):
            out, d = ctx.path("exch%d%s.json" % (v, again)), ctx.path("scratch%d%s" % (v, again))
            os.makedirs(d, exist_ok=True)
            ctx.run(got[v], [out, got[len(TYPES) + v], d], timeout=700)
            return out
        return ctx.par([lambda v=v: one(v) for v in TYPES])
    ctx.trace("ExchangeTrace", "ExchangeTrace.cfg", rec(), confirm=lambda: rec("again"), label="exchanges")
