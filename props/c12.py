from props import c38
from props._net import drive


def run_case(ctx, i):
    if i % 6 == 5:
        c38.run_case(ctx, i)  # the same from the records alone
    else:
        drive(ctx)
