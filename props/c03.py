from props._net import drive as net_drive
from props._queue import drive


def run_case(ctx, i):
    if i % 6 == 5:
        net_drive(ctx, ctx.rng.choice(['mix', 'tight', 'std', 'info']))
    else:
        drive(ctx, weights={'delay': 4, 'data': 0.1})
