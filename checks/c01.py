from checks.product_common import product


def check(ctx):
    product(ctx, [(1, v) for v in (0, 1, 2, 3, 4, 5)])
