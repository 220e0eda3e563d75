"""Agents are conserved across the network."""
import numpy as np
import queueing_tool as qt

from props import _net

KEY = 'selfloop-over-capacity'


class Named(qt.Agent):
    pass


def over_capacity(ctx):
    """The recorded finding: a queue on a loop that has lost servers while it is full."""
    made = []

    def factory(agent_id):
        made.append(Named(agent_id))
        return made[-1]
    g = qt.adjacency2graph({0: {1: {'edge_type': 1}}, 1: {1: {'edge_type': 2}}}, adjust=0)
    net = qt.QueueNetwork(
        g, q_classes={1: qt.QueueServer, 2: qt.LossQueue},
        q_args={1: {'arrival_f': lambda t: t + 1.0, 'service_f': lambda t: t + 0.25,
                    'active_cap': 3, 'AgentFactory': factory},
                2: {'arrival_f': lambda t: t + 1.0, 'service_f': lambda t: t + 20.0,
                    'num_servers': 3, 'qbuffer': 0}}, adjust_graph=False)
    net.initialize(edge_type=1)
    k = [q.edge[2] for q in net.edge2queue if q.edge[3] == 2][0]
    loop = net.edge2queue[k]
    for _ in range(200):
        if loop.num_system == 3:
            break
        net.simulate(n=1)
    if not ctx.check(loop.num_system == 3, 'the loop holds %d agents, not 3' % loop.num_system):
        return
    loop.set_num_servers(1)
    inside = 3
    for _ in range(12):
        net.simulate(n=1)
        n = sum(q.num_system for q in net.edge2queue)
        if n != inside:
            # exactly the recorded loss: one agent leaves the loop for the loop, and is gone
            if n == inside - 1 and n >= 1 and loop.num_system == n:
                ctx.known[KEY] = ctx.known.get(KEY, 0) + 1
            else:
                ctx.check(False, 'from %d agents the network went to %d' % (inside, n))
            inside = n
    ctx.check(inside >= 1, 'no agent is left, the loop has one server')
    ctx.count('loop_probes')


def run_case(ctx, i):
    if i == 0:
        over_capacity(ctx)
        ctx.sig, ctx.nontrivial = 'probe', True
    else:
        _net.drive(ctx)
