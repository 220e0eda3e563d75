from props._net import drive as net_drive
from props._queue import drive
from vlib import mon as M


def run_case(ctx, i):
    if i % 6 == 5:
        net_drive(ctx, max_agents=M.INF)
    else:
        drive(ctx, weights={'inactive': 3, 'active': 4, 'cap': 1, 'data': 0.1})
