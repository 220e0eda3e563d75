from props._net import drive as net_drive
from props._queue import drive


def run_case(ctx, i):
    if i % 6 == 5:
        net_drive(ctx, ctx.rng.choice(['mix', 'tight', 'greedy', 'std', 'res']))
    else:
        drive(ctx, weights={'servers': 3, 'delay': 1.5, 'data': 0.1})
