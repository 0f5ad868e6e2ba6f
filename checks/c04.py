from checks.product_common import record


def check(ctx):
    record(ctx, "history.cpp", [(v, ["-DVT=%d" % v, "-DTRACK_LIVE"]) for v in (0, 1, 3)], "HistoryTrace", "histories")
