from props._net import drive as net_drive
from props._queue import drive


def run_case(ctx, i):
    if i % 6 == 5:
        net_drive(ctx)
    else:
        drive(ctx)
