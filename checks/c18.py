import graph_common as gc

BC = """CONSTANTS N = %d TwoWay = %s Scale = 12 Forward = "%s" Back = "%s"
SPECIFICATION Spec
INVARIANTS PathCounts Dependencies Total
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
APPS = [4]


def check(ctx):
    T, F = "TRUE", "FALSE"
    args = [((3, F, "complement", "previous"), False), ((5, T, "complement", "previous"), False), ((4, T, "any", "previous"), True), ((4, T, "complement", "same"), True)]
    if ctx.thorough:
        args += [((4, F, "complement", "previous"), False), ((6, T, "complement", "previous"), False)]
    ctx.par(gc.programs(ctx, APPS) + gc.models(ctx, "BC", BC, args), 8)
    gc.validate(ctx, APPS, [4000] if ctx.thorough else [400], "BCTrace", "betweenness")
