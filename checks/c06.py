from checks.product_common import record

GEN = """CONSTANTS Depth = %d KVV = %s
INIT Init
NEXT Next
INVARIANT Dump Bounded
CHECK_DEADLOCK FALSE
"""
BIG = "univ \\in {40, 90} /\\ cap \\in {31, 63, 70}"


def write_ops(path, behaviours):
    with open(path, "w") as f:
        for univ, cap, hist in behaviours:
            f.write("%d %d %d %s\n" % (univ, cap, len(hist), " ".join("%s %d %d %d" % tuple(o) for o in hist)))
    return path


def hash_model(ctx):
    t = "CONSTANTS NSlots = %d Keys = {%s} MaxKeys = %d Variant = \"%s\"\nINIT Init\nNEXT Next\nINVARIANT ExactMap NoDuplicate OnlyStored\nCHECK_DEADLOCK FALSE\n"
    keys = lambda n: ",".join(str(i) for i in range(1, n + 1))
    for n, k, m in ([(6, 5, 5), (8, 5, 3), (7, 5, 4)] if ctx.thorough else [(5, 4, 4), (8, 3, 2)]):
        ctx.model("HashTable", None, cfgtext=t % (n, keys(k), m, "shift"))
    for v in ("leave", "nowrap"):
        ctx.model("HashTable", None, cfgtext=t % (5, keys(4), 4, v), expect_violation=True, count=False)


def check(ctx):
    hash_model(ctx)
    n, depth = (1200, 160) if ctx.thorough else (160, 90)
    ops = {}
    def gen(kvv, big):
        b = ctx.generate("HashAccGenBig" if big else "HashAccGen", GEN % (depth * (4 if big else 1), "TRUE" if kvv else "FALSE"),
                         n // 4 if big else n, depth * (4 if big else 1) + 1, procs=2)
        ops[kvv, big] = write_ops(ctx.path("ops_%d_%d.txt" % (kvv, big)), b)
    ctx.par([lambda a=a, b=b: gen(a, b) for a in (True, False) for b in (True, False)])
    kvv = ['-DKT=int -DVTYPE=int', '-DKT=int -DVTYPE=P12', '-DKT=int64_t -DVTYPE=double', '-DKT=int64_t -DVTYPE=P24']
    variants = [(s, s.split(), True) for s in kvv] + [("k32", ["-DKT=int", "-DKEYONLY"], False), ("k64", ["-DKT=int64_t", "-DKEYONLY"], False)]

    def one(i, flags, isk, again):
        exe = "hashacc_%d" % i
        path = ctx.path(exe) if again else ctx.cxx(exe, "hashacc.cpp", flags)
        files = []
        for big in (False, True):
            out = ctx.path("%s_%d%s.json" % (exe, big, again))
            ctx.run(path, [out, ops[isk, big], "big" if big else "small"])
            files.append(out)
        return files
    def rec(again=""):
        r = ctx.par([lambda i=i, f=f, k=k: one(i, f, k, again) for i, (_, f, k) in enumerate(variants)])
        return [x for y in r for x in y]
    ctx.trace("HashAccTrace", "HashAccTrace.cfg", rec(), confirm=lambda: rec("again"), label="histories")
    record(ctx, "rowseq.cpp", [("0_%d" % v, ["-DROWALGS=0", "-DVT=%d" % v]) for v in (0, 3, 4)], "RowSeqTrace", "rows")
