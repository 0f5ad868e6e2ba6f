from checks.sched_common import plans, schedules

MC = """CONSTANTS NT = %d NR = %d Mode = "%s" Alias = %s Bar = {%s} MaxSize = %d
SPECIFICATION Spec
INVARIANT Safe Right
%sCHECK_DEADLOCK FALSE
"""


def check(ctx):
    T, R, S = (3, 3, 2) if ctx.thorough else (3, 2, 1)
    for mode, alias in (("1p", "TRUE"), ("2p", "TRUE"), ("2pdirect", "FALSE")):
        ctx.model("MaskedDriver", None, cfgtext=MC % (T, R, mode, alias, "1, 2", S, "PROPERTY Terminates\n"))
    # the design needs both barriers, and a two-phase driver must not write an output that is an input
    ctx.model("MaskedDriver", None, cfgtext=MC % (2, 2, "2pdirect", "TRUE", "1, 2", 1, ""), expect_violation=True, count=False)
    ctx.model("MaskedDriver", None, cfgtext=MC % (2, 2, "1p", "TRUE", "2", 1, ""), expect_violation=True, count=False)
    ctx.model("MaskedDriver", None, cfgtext=MC % (2, 2, "1p", "TRUE", "1", 1, ""), expect_violation=True, count=False)
    p = plans(ctx, 200 if ctx.thorough else 40)
    schedules(ctx, [(1, 0), (2, 0), (12, 0)] + ([(1, 4), (2, 1), (12, 2)] if ctx.thorough else []), p)
