import graph_common as gc

TRI = """CONSTANTS N = %d Loops = %s OneWay = %s AnyRelabelling = %s FirstKept = "%s" Merge = "%s"
SPECIFICATION Spec
INVARIANTS LowerTriangle AllTriangles ByDefinition
CHECK_DEADLOCK FALSE
"""
APPS = [1, 2]


def check(ctx):
    T, F = "TRUE", "FALSE"
    args = [((3, T, F, T, "guarded", "product"), False), ((4, F, F, F, "guarded", "product"), False), ((5, F, T, F, "guarded", "product"), False),
            ((3, T, F, T, "one", "product"), True), ((4, F, T, F, "guarded", "mask"), True)]
    if ctx.thorough:
        args += [((4, F, T, T, "guarded", "product"), False), ((4, T, T, F, "guarded", "product"), False), ((6, F, T, F, "guarded", "product"), False)]
    ctx.par(gc.programs(ctx, APPS) + gc.models(ctx, "Triangles", TRI, args), 8)
    gc.validate(ctx, APPS, [4000, 3000] if ctx.thorough else [420, 300], "TrianglesTrace", "triangles")
