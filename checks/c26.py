import os

PROGS = {"rmat": "R-MAT", "random": "random", "ssca2": "SSCA2"}
SHARDS = 8


def check(ctx):
    E = "CONSTANTS MaxN = %d MaxM = %d Grow = %s Retry = %s\nSPECIFICATION Spec\nINVARIANTS Fits Contract\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n"
    C = "CONSTANTS MaxN = %d MaxM = 3 MaxEst = 3 P = %d D = 2 More = %s Room = \"%s\"\nSPECIFICATION Spec\nINVARIANTS Tiled Fits\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n"
    O = "CONSTANT Reset = %s\nINIT Init\nNEXT Next\nINVARIANT Heeded\nCHECK_DEADLOCK FALSE\n"
    n = 6 if ctx.thorough else 5
    jobs = [("RandomGraph", E % (3, 4 if ctx.thorough else 3, "TRUE", "TRUE"), False), ("RandomGraph", E % (3, 3, "FALSE", "TRUE"), True),
            ("RandomGraph", E % (3, 3, "TRUE", "FALSE"), True),
            ("Cliques", C % (n, 3, "TRUE", "bound"), False), ("Cliques", C % (5, 2, "FALSE", "bound"), True), ("Cliques", C % (5, 2, "TRUE", "estimate"), True),
            ("GtOptions", O % "FALSE", False), ("GtOptions", O % "TRUE", True)]

    def build(p, d):
        objs = [ctx.cobj("gt_%s_%s" % (p, s), "GTgraph/%s/%s.c" % (d, s)) for s in ("utils", "globals", "graph", "init", "drive")]
        return ctx.cxx("gt" + p, ["gtstub.cpp"] + objs)
    ctx.par([lambda p=p, d=d: build(p, d) for p, d in PROGS.items()] + [lambda: ctx.cxx("gtgraph", "gtgraph.cpp")] +
            [lambda j=j: ctx.model(j[0], None, cfgtext=j[1], expect_violation=j[2], count=not j[2], workers=2, heap="2g") for j in jobs], 6)

    def record(again=""):
        def one(s):
            out, d = ctx.path("gt%d%s.json" % (s, again)), ctx.path("gt%d%s" % (s, again))
            os.makedirs(d, exist_ok=True)
            ctx.run(ctx.path("gtgraph"), [out, d, os.path.dirname(ctx.path("gtgraph")), str(s), str(SHARDS), str(24000 if ctx.thorough else 3000)], timeout=800)
            return out
        return ctx.par([lambda s=s: one(s) for s in range(SHARDS)], 8)
    ctx.trace("GtTrace", "GtTrace.cfg", record(), confirm=lambda: record("again"), label="gtgraph")
