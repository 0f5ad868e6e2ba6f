from checks.product_common import record

GEN = 'CONSTANTS Depth = %d Kind = "%s" Valued = %s\nINIT Init\nNEXT Next\nINVARIANT Dump Sane\nCHECK_DEADLOCK FALSE\n'


def histories(ctx):
    n, depth = (800, 200) if ctx.thorough else (80, 80)
    ops = {}

    def gen(kind, valued):
        b = ctx.generate("MaskAccGen", GEN % (depth, kind, "TRUE" if valued else "FALSE"), n, depth + 1, procs=1)
        p = ctx.path("ops_%s_%d.txt" % (kind, valued))
        with open(p, "w") as f:
            for size, hist in b:
                f.write("%d %d %s\n" % (size, len(hist), " ".join("%s %d %d" % tuple(o) for o in hist)))
        ops[kind, valued] = p
    ctx.par([lambda k=k, v=v: gen(k, v) for k in ("plain", "compl", "mca") for v in (True, False)])
    kinds = ["plain", "compl", "mca"]
    variants = []
    for k in (0, 1, 2):
        for arr in ((1, 2) if k < 2 else (1,)):
            for kt, vt in (("int", "P12"), ("int64_t", "double"), ("int", "P1")) if not (ctx.thorough) else (("int", "P12"), ("int64_t", "double"), ("int", "P1"), ("int", "int"), ("int64_t", "P24"), ("int64_t", "int64_t")):
                variants.append((["-DKIND=%d" % k, "-DARRAYS=%d" % arr, "-DKT=" + kt, "-DVTYPE=" + vt], ops[kinds[k], True]))
            variants.append((["-DKIND=%d" % k, "-DARRAYS=%d" % arr, "-DKT=int", "-DKEYONLY"], ops[kinds[k], False]))

    def one(i, flags, op, again):
        exe = "maskacc_%d" % i
        path = ctx.path(exe) if again else ctx.cxx(exe, "maskacc.cpp", flags)
        out = ctx.path("%s%s.json" % (exe, again))
        ctx.run(path, [out, op])
        return out
    def rec(again=""):
        return ctx.par([lambda i=i, f=f, o=o: one(i, f, o, again) for i, (f, o) in enumerate(variants)])
    ctx.trace("MaskAccTrace", "MaskAccTrace.cfg", rec(), confirm=lambda: rec("again"), label="histories")


def check(ctx):
    histories(ctx)
    record(ctx, "rowseq.cpp", [("%d_%d" % (a, v), ["-DROWALGS=%d" % a, "-DVT=%d" % v]) for a in (1, 2) for v in (0, 3, 4)], "RowSeqTrace", "rows")
