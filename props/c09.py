import numpy as np
import queueing_tool as qt

from props._net import drive as net_drive
from props._queue import drive


def run_case(ctx, i):
    if i % 6 == 5:
        acting(ctx)
    else:
        drive(ctx, kinds=('std', 'loss', 'info'), weights={'servers': 12, 'bad': 2, 'data': 0.1})


def acting(ctx):
    """Agents change the number of servers of the queue they are at."""
    rng = ctx.rng

    def on_act(agent, queue, kind):
        if kind in (0, 2) and queue.edge[0] != queue.edge[1] and rng.random() < 0.15 and \
                not isinstance(queue, (qt.ResourceQueue, qt.NullQueue)):
            queue.set_num_servers(rng.choice([1, 2, 3, 6, np.infty]))
            ctx.count('op_servers_by_agent')

    def setup(net, m):
        m.servers_may_change = True
    net_drive(ctx, rng.choice(['std', 'tight', 'greedy', 'info']), on_act=on_act, setup=setup, loops=False,
              agents=['agent', 'greedy'] if rng.random() < 0.5 else None)
