import os


MC = """CONSTANTS N = 2 KMax = %d
SPECIFICATION Spec
INVARIANT Once BothTriangles AllThere NothingElse NeverMalformed
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    ctx.model("ReadFileMC", None, cfgtext=MC % (4 if ctx.thorough else 3))
    def one(v, again):
        exe = ctx.path("readers_%d" % v) if again else ctx.cxx("readers_%d" % v, "readers.cpp", ["-DVT=%d" % v])
        out, d = ctx.path("readers_%d%s.json" % (v, again)), ctx.path("files_%d%s" % (v, again))
        os.makedirs(d, exist_ok=True)
        ctx.run(exe, [out, d])
        return out
    rec = lambda again="": ctx.par([lambda v=v: one(v, again) for v in (0, 1, 2)])
    ctx.trace("ReadTrace", "ReadTrace.cfg", rec(), confirm=lambda: rec("again"), label="readers")
