MC = 'CONSTANTS N = %d Sizes = {%s} Report = "%s"\nINIT Init\nNEXT Next\nINVARIANT CarvedOk NeverUnderstated\nCHECK_DEADLOCK FALSE\n'


def check(ctx):
    if ctx.thorough:
        ctx.model("BuffersMC", None, cfgtext=MC % (14, "1,2,3,4", "end"))
        ctx.model("BuffersMC", None, cfgtext=MC % (16, "3,4,6", "end"))
    else:
        ctx.model("BuffersMC", None, cfgtext=MC % (10, "1,2,3,4", "end"))
    ctx.model("BuffersMC", None, cfgtext=MC % (8, "1,2,3", "sum"), expect_violation=True, count=False)
    exe = ctx.cxx("buffers", "buffers.cpp")

    def rec(again=""):
        def one(part):
            out = ctx.path("buffers%d%s.json" % (part, again))
            ctx.run(exe, [out, str(part)])
            return out
        return ctx.par([lambda p=p: one(p) for p in (0, 1, 2)])
    ctx.trace("BuffersTrace", "BuffersTrace.cfg", rec(), confirm=lambda: rec("again"), label="buffers")
