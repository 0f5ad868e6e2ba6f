"""Shared by C16, C17 and C18: builds harness/graphs.cpp for one of the repository's graph programs,
runs it on generated graphs in parallel shards and validates what was recorded."""
import os

SHARDS = 8


def programs(ctx, apps):
    return [lambda a=a: ctx.cxx("graphs%d" % a, "graphs.cpp", ["-DAPP=%d" % a]) for a in apps]


def models(ctx, module, text, args):
    return [lambda a=a, bad=bad: ctx.model(module, None, cfgtext=text % a, expect_violation=bad, count=not bad, workers=2, heap="3g") for a, bad in args]


def validate(ctx, apps, counts, spec, label):
    def record(again=""):
        def one(a, n, s):
            out, d = ctx.path("graphs%d-%d%s.json" % (a, s, again)), ctx.path("g%d-%d%s" % (a, s, again))
            os.makedirs(d, exist_ok=True)
            ctx.run(ctx.path("graphs%d" % a), [out, d, str(s), str(SHARDS), str(n)], timeout=800)
            return out
        return ctx.par([lambda a=a, n=n, s=s: one(a, n, s) for a, n in zip(apps, counts) for s in range(SHARDS)], 8)
    ctx.trace(spec, spec + ".cfg", record(), confirm=lambda: record("again"), label=label)
