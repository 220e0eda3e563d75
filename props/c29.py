"""Native code never touches memory it does not own.

Runs in two builds of the extensions: with AddressSanitizer and UndefinedBehaviorSanitizer
(a report ends the process, which check.py turns into a violation), and with Cython's bounds
checks switched back on (a failed check surfaces as an exception, also where it cannot be
raised).  Here only the absence of such reports is judged."""
import sys

import numpy as np
import queueing_tool as qt
from queueing_tool.network.priority_queue import PriorityQueue

from vlib import gen, mon as M
from vlib.ctx import StopCase
from props import _net, c28

UNRAISED = []
sys.unraisablehook = lambda u: UNRAISED.append('%s: %s in %r' % (
    getattr(u.exc_type, '__name__', u.exc_type), u.exc_value, u.object))
OUT = 'Out of bounds on buffer access'


class Quiet(object):
    """Takes the case's context but leaves verdicts to the properties they belong to."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.viol = []

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def check(self, ok, msg, tags=None):
        return ok

    def violation(self, tags, msg):
        pass


def scheduler(ctx):
    """Calls with every kind of argument, in every state."""
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 3, 8, 64])
    keys = [(rng.choice([rng.random(), float(rng.randint(0, 3)), float('inf'), float('nan'),
                         -1e308, 1e308]),
             rng.randrange(n) if n and rng.random() < 0.97 else
             rng.choice([n, n + 5, -1, 2 ** 31 - 1, -2 ** 31, 2 ** 40]))
            for _ in range(rng.choice([0, 1, 2, 3, 7, 64, 200]))]
    if rng.random() < 0.5:
        keys = [(t, k) for t, k in keys if 0 <= k < n]
    try:
        pq = PriorityQueue(*[keys, n][:rng.choice([0, 1, 2, 2, 2, 2, 2])])
    except (IndexError, ValueError, TypeError, OverflowError):
        ctx.count('refused_keys')
        return
    ops = []
    for _ in range(rng.choice([10, 60, 400])):
        r = rng.random()
        ctx.count('native_calls')
        try:
            if r < 0.45:
                k = rng.randrange(n) if n and rng.random() < 0.9 else \
                    rng.choice([n, -1, n + 1, 2 ** 31 - 1, -2 ** 31, 2 ** 31])
                pq.push(rng.choice([rng.random(), 2.0, float('inf'), float('nan'), -1e308]), k)
                ops.append(k)
            elif r < 0.8:
                for _ in range(rng.choice([1, 1, 2, 5])):
                    pq.pop()
                ops.append('pop')
            elif r < 0.9:
                list(pq.times), list(pq.edges), list(pq.q_map())
                pq.arraysize, pq.size
            elif r < 0.93:
                a, b = pq.times, pq.edges
                pq.push(1.0, 0 if n else -1)
                list(a), list(b)
                a.append(3.0), b.append(3)
            elif r < 0.95:
                q = pq.q_map()
                q.extend([1.0] * 50)
                pq.pop()
            elif r < 0.97:
                pq.__init__(keys[:3], n)
            else:
                while pq.size and pq.pop() is not None:
                    pass
                pq.pop()
        except (IndexError, ValueError, OverflowError) as e:
            ctx.count('refused')
            if OUT in str(e) and not (n == 0 or r < 0.45):
                ctx.check(False, 'outside an array: %s' % e)
        ctx.state((n, min(pq.size, 70), pq.arraysize))
    ctx.sig = ('scheduler', n, len(keys), tuple(map(str, ops[:60])))


def routing(ctx):
    """The routing choices at every vertex, with tables of every kind."""
    rng = ctx.rng
    net, desc = gen.network(rng, rng.choice(['mix', 'greedy', 'tight']),
                            nmax=rng.choice([4, 7, 12]))
    ctx.desc = desc
    agents = [qt.Agent((0, 0)), qt.GreedyAgent((0, 1)), M.HAgent((0, 2))]
    for _round in range(6):
        table = gen.random_table(rng, net)
        if rng.random() < 0.3:
            # the probabilities of one vertex, possibly of an unsuitable one
            table = {rng.choice([-1, 0, 1, net.nV - 1, net.nV, net.nV + 9]):
                     {rng.choice([-1, 0, 1, net.nV]): rng.choice([1, 0.5, -1, float('nan')])}}
        try:
            if table is not None:
                net.set_transitions(table)
                ctx.count('tables')
            elif rng.random() < 0.5:
                mat = np.random.random((net.nV + rng.choice([0, 0, 1, -1]), net.nV))
                net.set_transitions(mat / mat.sum(axis=1)[:, None])
        except (ValueError, KeyError, IndexError):
            ctx.count('refused_tables')
        for e in sorted(net.g.edges()):
            k = net.g.edge_index[e]
            if not net.out_edges[e[1]]:
                continue
            edge = e + (k, net.g.ep(e, 'edge_type'))
            for a in agents:
                for _ in range(3):
                    a.desired_destination(net, edge)
                    ctx.count('native_calls')
    ctx.sig = ('routing', desc)


def many(ctx):
    """Greedy agents and routing over vertices with many out-edges and long lines."""
    rng = ctx.rng
    n = rng.choice([30, 150, 600])
    adj = {0: list(range(1, n + 1))}
    adj.update({k: [0] for k in range(1, n + 1)})
    g = qt.adjacency2graph(adj, edge_type={u: {w: 1 for w in v}
                                         for u, v in adj.items()})
    greedy = rng.random() < 0.5
    net = qt.QueueNetwork(g, q_classes={1: rng.choice([qt.QueueServer, qt.LossQueue])},
                          q_args={1: {'AgentFactory': qt.GreedyAgent if greedy else qt.Agent,
                                      'arrival_f': lambda t: t + np.random.exponential(0.1),
                                      'service_f': lambda t: t + np.random.exponential(1.0),
                                      'num_servers': 1}},
                          max_agents=rng.choice([10, 3000]))
    net.initialize(nActive=rng.choice([1, n // 2, net.nE]))
    for _ in range(rng.choice([2, 6])):
        net.simulate(n=rng.choice([300, 1500]))
        ctx.count('native_calls', 600)
        c = net.copy() if rng.random() < 0.3 else net
        if rng.random() < 0.3:
            c.initialize(nActive=rng.choice([1, net.nE]))
        net = c
        if rng.random() < 0.2:
            net.clear()
            net.initialize(nActive=rng.choice([1, net.nE]))
    ctx.count('large_networks')
    ctx.sig = ('many', n, greedy, net.num_events)


def run_case(ctx, i):
    del UNRAISED[:]
    kind = ('scheduler', 'scheduler', 'model', 'routing', 'network', 'network')[i % 6]
    if i % 120 == 119:
        kind = 'many'
    q = Quiet(ctx)
    try:
        if kind == 'scheduler':
            scheduler(ctx)
        elif kind == 'model':
            c28.run_case(q, i)
        elif kind == 'routing':
            routing(ctx)
        elif kind == 'many':
            many(ctx)
        else:
            _net.drive(q)
    except StopCase:
        raise
    except Exception as e:
        # a failed bounds check is judged here, other exceptions where they belong
        if OUT in str(e):
            ctx.check(False, 'outside an array: %s' % e)
        ctx.count('ended_early')
    del M.LOG[:]
    ctx.count('kind_' + kind)
    ctx.check(not UNRAISED, lambda: 'in compiled code: %s' % '; '.join(UNRAISED[:3]))
    ctx.desc = '%s %s' % (kind, ctx.desc)
    if ctx.sig is None:
        ctx.sig = q.__dict__.get('sig') or (kind, i)
