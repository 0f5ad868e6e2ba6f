def check(ctx):
    T = "CONSTANTS R = 2 C = 2 MaxN = %d Guard = %s Both = %s Behind = %s\nINIT Init\nNEXT Next\nINVARIANTS InBounds Correct\nCHECK_DEADLOCK FALSE\n"
    G = "CONSTANTS MaxV = %d MaxE = 2 FromHalf = %s Retry = %s\nSPECIFICATION Spec\nINVARIANTS InRange Contract\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n"
    n = 6 if ctx.thorough else 5
    jobs = [("Triples", T % (n, "TRUE", "TRUE", "TRUE"), False), ("Triples", T % (3, "FALSE", "TRUE", "TRUE"), True),
            ("Triples", T % (3, "TRUE", "FALSE", "TRUE"), True), ("Triples", T % (3, "TRUE", "TRUE", "FALSE"), True),
            ("RMat", G % (6 if ctx.thorough else 5, "TRUE", "TRUE"), False), ("RMat", G % (4, "FALSE", "TRUE"), True), ("RMat", G % (4, "TRUE", "FALSE"), True)]

    def build():
        objs = ctx.par([lambda n=n: ctx.cobj("gt_" + n, "GTgraph/R-MAT/%s.c" % n) for n in ("utils", "globals", "graph", "init")])
        return ctx.cxx("triples", ["triples.cpp"] + objs)
    exe = ctx.par([build] + [lambda j=j: ctx.model(j[0], None, cfgtext=j[1], expect_violation=j[2], count=not j[2], workers=2, heap="2g") for j in jobs], 4)[0]

    def rec(again=""):
        out = ctx.path("triples%s.json" % again)
        ctx.run(exe, [out])
        return [out]
    ctx.trace("TriplesTrace", "TriplesTrace.cfg", rec(), confirm=lambda: rec("again"), label="triples")
