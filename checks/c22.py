import os
from lib import vlib

def cfg(consts, inv, prop="", init="INIT Init\nNEXT Next"):
    return "CONSTANTS %s\n%s\n%s%sCHECK_DEADLOCK FALSE\n" % (consts, init, "INVARIANT %s\n" % inv if inv else "", "PROPERTY %s\n" % prop if prop else "")


def models(ctx):
    n = 8 if ctx.thorough else 6
    jobs = [
        ("RunStack", cfg("MaxLen = %d MaxTotal = %d Deep = TRUE" % (9, 30 if ctx.thorough else 24), "Covers Tidy", "Settles", "SPECIFICATION Spec"), False),
        ("RunStack", cfg("MaxLen = 12 MaxTotal = 36 Deep = FALSE", "Tidy"), True),
        ("TimSort", cfg("MaxN = %d K = 3 MinRun = 3 Strict = TRUE LeftFirst = TRUE" % n, "RunsSorted Tiles Correct"), False),
        ("TimSort", cfg("MaxN = 4 K = 2 MinRun = 2 Strict = FALSE LeftFirst = TRUE", "Correct"), True),
        ("TimSort", cfg("MaxN = 4 K = 2 MinRun = 2 Strict = TRUE LeftFirst = FALSE", "Correct"), True),
        ("Quick", cfg("MaxN = 4 K = 3 KeepPivot = TRUE", "Between Correct"), False),
        ("Quick", cfg("MaxN = 3 K = 3 KeepPivot = FALSE", "Correct"), True),
        ("MergeBuffer", "CONSTANTS Total = 96 I = 8 V = 4 Right = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Apart NoMoreThanNeeded\nCHECK_DEADLOCK FALSE\n", False),
        ("MergeBuffer", "CONSTANTS Total = 92 I = 4 V = 12 Right = TRUE\nINIT Init\nNEXT Next\nINVARIANTS Apart NoMoreThanNeeded\nCHECK_DEADLOCK FALSE\n", False),
        ("MergeBuffer", "CONSTANTS Total = 96 I = 8 V = 4 Right = FALSE\nINIT Init\nNEXT Next\nINVARIANT Apart\nCHECK_DEADLOCK FALSE\n", True),
        ("Radix", cfg("MaxN = %d B = 2 D = %d Low = TRUE Forward = TRUE" % (5 if ctx.thorough else 4, 3), "NothingOverwritten Correct"), False),
        ("Radix", cfg("MaxN = 3 B = 2 D = 2 Low = FALSE Forward = TRUE", "Correct"), True),
        ("Radix", cfg("MaxN = 3 B = 2 D = 2 Low = TRUE Forward = FALSE", "Correct"), True)]
    ctx.par([lambda j=j: ctx.model(j[0], None, cfgtext=j[1], expect_violation=j[2], workers=2, heap="2g") for j in jobs], 4)


def check(ctx):
    plans = []

    def prepare(g):
        if g < 5:
            return ctx.cxx("sorts_%d" % g, "sorts.cpp", ["-DGROUP=%d" % g])
        d = ("R-MAT", "random", "SSCA2")[g - 5]         # the edge-list sorts of the three GTgraph generators
        more = [ctx.cobj("gt_%d_%s" % (g, n), "GTgraph/%s/%s.c" % (d, n)) for n in ("utils", "globals")]
        return ctx.cxx("sorts_%d" % g, ["sorts.cpp"] + more, ["-DGROUP=%d" % g, "-I", os.path.join(vlib.REPO, "GTgraph", d)])

    def gen():
        num = 400 if ctx.thorough else 130
        got = ctx.generate("SortGen", "CONSTANTS Depth = 9\nINIT Init\nNEXT Next\nINVARIANT Dump\nCHECK_DEADLOCK FALSE\n", num, 9, procs=3)
        seen = set()
        with open(ctx.path("plans.txt"), "w") as f:
            for (p,) in got:
                line = " ".join(str(x) for s in p for x in s)
                if line not in seen and sum(s[1] for s in p) <= 1200:
                    seen.add(line)
                    f.write(line + "\n")
            # the situation MergeBuffer turns on: elements left over from a merge reach into the
            # space the next runs need
            for a in range(150, 192, 1 if ctx.thorough else 2):
                for tail in ((400, 190, 90, 70), (700, 300, 140, 66, 65), (64, 300, 140, 70, 66)):
                    f.write(" ".join("1 %d 1 %d" % (l, 1 + 2 * i) for i, l in enumerate((a, a + 1) + tail)) + "\n")
    exes = ctx.par([gen] + [lambda g=g: prepare(g) for g in range(8)])[1:]

    def rec(again=""):
        def one(g):
            out = ctx.path("sorts_%d%s.json" % (g, again))
            ctx.run(exes[g], [out, ctx.path("plans.txt")])
            return out
        return ctx.par([lambda g=g: one(g) for g in range(8)])
    models(ctx)
    ctx.trace("SortTrace", "SortTrace.cfg", rec(), confirm=lambda: rec("again"), label="sorts")
