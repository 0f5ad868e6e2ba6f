"""C01, C02, C11, C12: recorded products validated with ProductTrace.tla."""
from vlib import CheckError


def product(ctx, groups, label="products", timeout=700):
    """groups: list of (GROUP, VT)"""
    def build_and_run(g, v, tag):
        exe = ctx.cxx("product_%s_%d" % (g, v), "product.cpp", ["-DGROUP=%s" % g, "-DVT=%d" % v])
        out = ctx.path("product_%s_%d.json" % (g, v))
        ctx.run(exe, [out], timeout=timeout)
        return out

    def rerun():
        def one(g, v):
            out = ctx.path("product_%s_%d.again.json" % (g, v))
            ctx.run(ctx.path("product_%s_%d" % (g, v)), [out], timeout=timeout)
            return out
        return ctx.par([lambda g=g, v=v: one(g, v) for g, v in groups])

    files = ctx.par([lambda g=g, v=v: build_and_run(g, v, "") for g, v in groups])
    return ctx.trace("ProductTrace", "ProductTrace.cfg", files, confirm=rerun, label=label)


def record(ctx, src, variants, module, label, timeout=700, cxxkw=None, args=(), fallback=None):
    """Build SRC once per (name, flags), run each to record a trace, validate all with MODULE.
    A rejection is confirmed by recording again before it is reported.  fallback: flags to build with when
    the code under test does not compile in the harness (the harness then records that as well)."""
    def build(exe, flags):
        try:
            return ctx.cxx(exe, src, flags, **(cxxkw or {}))
        except CheckError:
            if not fallback:
                raise
            return ctx.cxx(exe, src, list(flags) + fallback, **(cxxkw or {}))

    def one(name, flags, again):
        exe = "%s_%s" % (label, name)
        path = ctx.path(exe) if again else build(exe, flags)
        out = ctx.path("%s%s.json" % (exe, ".again" if again else ""))
        ctx.run(path, [out] + list(args), timeout=timeout)
        return out
    files = ctx.par([lambda n=n, f=f: one(n, f, False) for n, f in variants])
    return ctx.trace(module, module + ".cfg", files, label=label,
                     confirm=lambda: ctx.par([lambda n=n, f=f: one(n, f, True) for n, f in variants]))
