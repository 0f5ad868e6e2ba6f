"""C03 (and the schedule part of C11, C12): products under controlled schedules."""
GEN = """CONSTANTS NT = %d NR = %d Mode = "%s" Alias = FALSE Bar = {1, 2} MaxSize = 1
INIT GInit
NEXT GNext
INVARIANT Dump
CHECK_DEADLOCK FALSE
"""


def plans(ctx, per=40):
    """Schedules: behaviours of MaskedDriver.tla, by number of threads."""
    lines = []

    def one(nt, nr, mode):
        res = ctx.generate("MaskedDriverGen", GEN % (nt, nr, mode), per, 4 * nr + 8 * nt, procs=1)
        return ["%d %s" % (b[0], " ".join(map(str, b[1]))) for b in res]
    for part in ctx.par([lambda a=a: one(*a) for a in ((2, 3, "1p"), (2, 4, "2p"), (3, 3, "1p"), (4, 3, "2p"), (5, 4, "1p"))], n=5):
        lines += sorted(set(part))[:per]
    f = ctx.path("plans")
    with open(f, "w") as o:
        o.write("\n".join(lines) + "\n")
    return f


def schedules(ctx, groups, planfile, label="schedules", parts=4):
    """groups: list of (GROUP, VT)"""
    exes = ctx.par([lambda g=g, v=v: (g, v, ctx.controlled("sched_%d_%d" % (g, v), "schedules.cpp", ["-DGROUP=%d" % g, "-DVT=%d" % v])) for g, v in groups])

    def run(again=""):
        def one(g, v, exe, p):
            out = ctx.path("sched_%d_%d_%d%s.json" % (g, v, p, again))
            ctx.run(exe, [out, planfile, str(p), str(parts)], timeout=750, env={"MALLOC_PERTURB_": "0"})
            return out
        return ctx.par([lambda a=a, p=p: one(*a, p) for a in exes for p in range(parts)])
    return ctx.trace("ProductTrace", "ProductTrace.cfg", run(), confirm=lambda: run("again"), label=label)
