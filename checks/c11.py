from checks.product_common import product
from checks.sched_common import plans, schedules


def check(ctx):
    product(ctx, [(111, 0), (111, 1), (111, 2), (111, 4), (112, 0), (112, 1), (112, 3), (113, 2), (114, 2)])
    schedules(ctx, [(111, 0), (112, 0), (113, 2), (114, 2)], plans(ctx), parts=2)
