from checks.product_common import product
from checks.sched_common import plans, schedules


def check(ctx):
    product(ctx, [(12, v) for v in (0, 1, 2, 3, 4)])
    schedules(ctx, [(12, 1)], plans(ctx))
