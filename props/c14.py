import networkx as nx
import numpy as np
import queueing_tool as qt

from props._net import drive
from vlib import mon as M


def run_case(ctx, i):
    if i % 60 == 17:
        return long_lines(ctx)
    drive(ctx, ctx.rng.choice(['greedy', 'greedy', 'tight', 'mix']), agents=['greedy', 'greedy', 'agent'],
          nmin=3, dense=ctx.rng.choice([0.3, 0.6, 0.9]), terminals=ctx.rng.random() < 0.5)


def long_lines(ctx):
    """Many agents at once choose between few slow queues; some of them do not look."""
    rng = ctx.rng
    width = rng.choice([2, 3, 3, 4, 6])
    n = rng.choice([300, 600, 1200])
    ends = list(range(2, 2 + width))
    rng.shuffle(ends)
    back = rng.random() < 0.5
    g = nx.DiGraph()
    g.add_edge(0, 1, edge_type=1)
    for v in ends:
        g.add_edge(1, v, edge_type=2)
    if back:
        for v in ends:
            g.add_edge(v, 0, edge_type=3)
    net = qt.QueueNetwork(g, q_classes={1: qt.QueueServer, 2: rng.choice([qt.QueueServer, qt.LossQueue]),
                                        3: qt.QueueServer}, max_agents=M.INF)
    blind = rng.choice([0, 0.2, 0.5])
    state = {'n': 0}

    class Some(object):
        def __call__(self, agent_id):
            state['n'] += 1
            return (M.HAgent if state['n'] * 7919 % 1000 < blind * 1000 else M.HGreedy)(agent_id)
    gap = rng.choice([0.0, 0.01])
    for k, q in enumerate(net.edge2queue):
        if isinstance(q, qt.NullQueue):
            continue
        first = q.edge[0] == 0
        slow = 0.001 if first else n * rng.choice([0.01, 0.05]) * (k + 1)
        if not first:
            q.set_num_servers(rng.choice([1, 1, 2, 5]))
            if isinstance(q, qt.LossQueue):
                q.buffer = rng.choice([n, np.infty])
        else:
            q.set_num_servers(rng.choice([1, np.infty]))
            q.active_cap = n
        q.arrival_f = M.ArrivalF(k, lambda t: t + gap)
        q.service_f = M.ServiceF(k, lambda t, s=slow: t + s)
        q.AgentFactory = M.Factory(k, Some())
    w = [rng.random() + 0.05 for _ in ends]
    net.set_transitions({1: {v: x / sum(w) for v, x in zip(ends, w)}})
    ctx.desc = '%d agents from 0 over 1 to %r, %g of them blind, gap %g, back %s' % (
        n, ends, blind, gap, back)
    m = M.Mon(ctx, net=net)
    m.op_initialize(edges=[(0, 1)])
    for _ in range(int(2.6 * n)):
        if m.bad_steps > 12 or not m.step_net():
            break
        lines = [len(m.qs[e].waiting) for e in net.out_edges[1]]
        ctx.high('shortest_of_the_lines', min(lines))
        ctx.high('longest_line', max(lines))
    m.check_paths()
    ctx.count('long_lines')
    ctx.count('model_steps', m.steps)
    ctx.sig = ('long', width, n, blind, gap, tuple(m.trace[-50:]))
    ctx.nontrivial = True
