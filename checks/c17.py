import graph_common as gc

TRUSS = """CONSTANTS N = %d MaxK = %d AtTwo = "%s" Stop = "%s"
SPECIFICATION Spec
INVARIANTS Largest AsDefined Bounded
PROPERTIES Shrinks Ends
CHECK_DEADLOCK FALSE
"""
APPS = [3]


def check(ctx):
    args = [((4, 5, "kept", "same"), False), ((4, 5, "dropped", "same"), True), ((4, 5, "kept", "few"), True)]
    if ctx.thorough:
        args.append(((5, 6, "kept", "same"), False))
    ctx.par(gc.programs(ctx, APPS) + gc.models(ctx, "KTruss", TRUSS, args), 8)
    gc.validate(ctx, APPS, [6000] if ctx.thorough else [500], "KTrussTrace", "k-truss")
