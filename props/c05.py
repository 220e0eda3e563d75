from props._net import drive as net_drive
from props._queue import drive


def run_case(ctx, i):
    if i % 6 == 5:
        net_drive(ctx, ctx.rng.choice(['tight', 'tight', 'mix', 'res', 'info']), max_agents=ctx.rng.choice([8, 20, 1000]))
    else:
        drive(ctx, kinds=('loss', 'loss', 'res', 'info'), weights={'data': 0.1})
