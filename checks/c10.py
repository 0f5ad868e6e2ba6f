MC = 'CONSTANTS MaxRows = %d MaxWork = %d MaxT = %d Kind = "%s"\nINIT Init\nNEXT Next\nINVARIANT Partitioned\nCHECK_DEADLOCK FALSE\n'


def check(ctx):
    n, w, t = (6, 3, 6) if ctx.thorough else (5, 3, 4)
    for kind in ("driver", "bin"):
        ctx.model("WorkDistMC", None, cfgtext=MC % (n, w, t, kind))
    ctx.model("WorkDistMC", None, cfgtext=MC % (4, 2, 3, "binlast"), expect_violation=True, count=False)
    exes = ctx.par([lambda: ctx.cxx("workdist", "workdist.cpp"), lambda: ctx.controlled("workdist_c", "workdist.cpp", ["-DCONTROLLED"])])

    def rec(again=""):
        def one(e, part):
            out = ctx.path("workdist%d_%d%s.json" % (e, part, again))
            ctx.run(exes[e], [out, str(part)], env={"MALLOC_PERTURB_": "0"} if e else None)
            return out
        return ctx.par([lambda e=e, p=p: one(e, p) for e, p in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2))])
    ctx.trace("WorkDistTrace", "WorkDistTrace.cfg", rec(), confirm=lambda: rec("again"), label="workdist")
