"""Networks and queues do not influence each other, nor what they were made from."""
import copy
import random

import numpy as np
import networkx as nx
import queueing_tool as qt

from vlib import gen, mon as M, twin, netops, pic
from vlib.select import selectors

CLS = {'std': qt.QueueServer, 'loss': qt.LossQueue, 'info': qt.InfoQueue,
       'res': qt.ResourceQueue}
QKEYS = ['edge_loop_color', 'edge_color', 'vertex_fill_color', 'vertex_color']
NKEYS = ['vertex_fill_color', 'vertex_color', 'vertex_highlight', 'edge_departure',
         'vertex_active', 'vertex_inactive', 'edge_active', 'edge_inactive', 'bgcolor']


def color(rng):
    return [round(rng.random(), 3) for _ in range(4)]


def defaults():
    d = qt.QueueNetwork
    return (copy.deepcopy(d.default_colors), copy.deepcopy(d.default_q_colors),
            dict(d.default_classes))


class Other(object):
    """Something else that lives in the same process."""
    def __init__(self, rng, net):
        self.net, self.ready, self.rand = net, False, np.random.get_state()
        self.kw = gen.init_kwargs(rng, net)

    def act(self, ctx, rng):
        keep = np.random.get_state()
        np.random.set_state(self.rand)
        try:
            self._act(ctx, rng)
        finally:
            self.rand = np.random.get_state()
            np.random.set_state(keep)

    def _act(self, ctx, rng):
        net = self.net
        if not self.ready:
            net.initialize(**self.kw)
            self.ready = True
            ctx.count('other_initialize')
            return
        how = rng.choice(['sim', 'sim', 'sim', 'sim', 'table', 'qcolor', 'ncolor', 'clear',
                          'data', 'max', 'blocking', 'servers', 'picture', 'copy', 'inactive',
                          'collect', 'graph', 'stop', 'agents', 'attributes'])
        ctx.count('other_' + how)
        q = rng.choice(net.edge2queue)
        if how == 'sim':
            net.simulate(n=rng.choice([1, 5, 30]))
        elif how == 'table':
            t = gen.random_table(rng, net)
            if t:
                net.set_transitions(t)
        elif how == 'qcolor':
            q.colors[rng.choice(QKEYS)] = color(rng)
        elif how == 'ncolor':
            net.colors[rng.choice(NKEYS)] = color(rng)
            net.reset_colors()
        elif how == 'clear':
            net.clear()
            self.ready = False
        elif how == 'data':
            net.start_collecting_data()
            for d in net.get_agent_data().values():
                d[:] = -5
            net.clear_data()
        elif how == 'collect':
            for q in net.edge2queue:
                q.collect_data = not q.collect_data
        elif how == 'max':
            net.max_agents = rng.choice([1, 7, np.infty])
        elif how == 'blocking':
            net.blocking = rng.choice(['BAS', 'RS'])
        elif how == 'servers':
            if not isinstance(q, (qt.NullQueue, qt.ResourceQueue)) and q.edge[0] != q.edge[1]:
                q.set_num_servers(1)
        elif how == 'picture':
            netops.picture(net, rng.choice(['draw', 'active', 'type', 'args']))
        elif how == 'copy':
            c = net.copy()
            c.simulate(n=3)
        elif how == 'inactive':
            q.set_inactive()
        elif how == 'graph':
            v = rng.choice(list(net.g.nodes()))
            net.g.set_vp(v, 'vertex_color', color(rng))
            net.g.set_vp(v, 'note', 'other')
            net.g.set_pos({u: (rng.random(), rng.random()) for u in net.g.nodes()})
        elif how == 'stop':
            q.deactive_t = 0.5
            q.active_cap = 1
        elif how == 'agents':
            for a in q.queue:
                a.blocked += 3
        else:
            if not isinstance(q, qt.NullQueue):
                q.coloring_sensitivity = 9
                q.service_f = lambda t: t + 0.25
                if isinstance(q, qt.LossQueue):
                    q.buffer = np.infty


def strangers(ctx):
    """A network whose run is compared with and without others around it."""
    rng = ctx.rng
    seed = rng.random()
    npseed = rng.randrange(2 ** 31)
    profile = rng.choice(['std', 'mix', 'tight', 'res', 'info', 'greedy'])
    script = None
    runs = []
    before = defaults()
    chunks = rng.choice([5, 12])
    script_seed = rng.random()
    alone = True
    for alone in (True, False):
        np.random.seed(npseed)
        others = []
        if not alone:
            for _ in range(rng.choice([1, 2])):
                others.append(another(ctx, rng, seed))
            np.random.seed(npseed)
        net, desc, kw = twin.same_net(seed, profile=profile)
        ctx.desc = desc
        out = []

        def around(n):
            if alone:
                return
            x = np.random.get_state()
            mark = len(M.LOG)
            for _ in range(rng.choice([0, 1, 2, 4])):
                if rng.random() < 0.05:
                    others.append(another(ctx, rng, seed))
                rng.choice(others).act(ctx, rng)
                ctx.count('interference')
            del M.LOG[mark:]
            np.random.set_state(x)
        around(0)
        del M.LOG[:]
        net.initialize(**kw)
        srng = random.Random(script_seed)
        for c in range(chunks):
            ops = netops.script(srng, net, srng.choice([1, 2, 4]), quiet=True)
            trace = []
            for op in ops:  # others do something between any two operations
                around(c)
                trace += twin.traced(lambda: out.append(netops.apply(net, [op])))
            out.append((trace, netops.full(net),
                        twin.rand_state()))
            ctx.count('states_recorded')
        runs.append(out)
    a, b = runs
    for k, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, tuple):
            ctx.count('compared_events', len(x[0]))
            ctx.check(x[0] == y[0], lambda: 'alone / among others: %s' % twin.first_diff(x[0], y[0]))
            ctx.check(x[1] == y[1], lambda: 'alone / among others: %s' % twin.diff(x[1], y[1]))
            ctx.check(x[2] == y[2], 'other random numbers were drawn among others')
        else:
            ctx.check(x == y, lambda: 'alone / among others: answers %.200r / %.200r' % (x, y))
        if ctx.viol:
            return
    ctx.check(len(a) == len(b), 'another number of steps')
    after = defaults()
    ctx.check(before == after, lambda: 'the defaults of the class changed: %.300r / %.300r' % tuple(
        [(x, y) for x, y in zip(before, after) if x != y][0]))
    ctx.sig = ('strangers', desc)
    ctx.nontrivial = sum(len(x[0]) for x in a if isinstance(x, tuple)) > 20


def another(ctx, rng, seed):
    ctx.count('other_networks')
    keep = np.random.get_state()
    np.random.seed(rng.randrange(2 ** 31))
    try:
        if rng.random() < 0.4:
            net = twin.same_net(seed)[0]
        else:
            net = gen.network(rng, rng.choice(['std', 'mix', 'tight', 'res', 'info', 'greedy']),
                              twin=True)[0]
        o = Other(rng, net)
    finally:
        np.random.set_state(keep)
        del M.LOG[:]
    return o


# ------------------------------------------------------------- the same arguments
def plain_graph(rng, types, terminals=True):
    g = gen.random_digraph(rng, nmin=2, nmax=6, types=types, terminals=terminals)
    h = nx.DiGraph(g)
    if not terminals:
        for v in h.nodes():
            if h.out_degree(v) == 0:
                h.add_edge(v, v, edge_type=types[0])
    if rng.random() < 0.6:
        for v in h.nodes():
            h.nodes[v]['pos'] = (round(rng.random(), 3), round(rng.random(), 3))
    return h


def args_of(rng, g):
    types = sorted({g.adj[u][v]['edge_type'] for u, v in g.edges()} - {0})
    nE = 60
    classes, args, shared = {}, {}, {}
    mine = {QKEYS[k]: color(rng) for k in range(4) if rng.random() < 0.4}
    for t in types:
        k = rng.choice(sorted(CLS))
        if any(u == v and g.adj[u][v]['edge_type'] == t for u, v in g.edges()) and k == 'res':
            k = 'std'
        if t > 4 or rng.random() < 0.7:
            classes[t] = CLS[k]
        else:
            k = 'std' if t == 1 else 'loss'
        kw = {}
        if rng.random() < 0.5:
            kw['num_servers'] = rng.choice([1, 2, 4])
        if rng.random() < 0.5:
            s = rng.choice([0.4, 1.0])
            kw['arrival_f'] = lambda t, s=s: t + np.random.exponential(s)
        if rng.random() < 0.5:
            s = rng.choice([0.4, 1.0])
            kw['service_f'] = lambda t, s=s: t + np.random.uniform(0.1, s)
        if rng.random() < 0.4:
            kw['collect_data'] = True
        if k != 'std' and rng.random() < 0.5:
            kw['qbuffer'] = rng.choice([0, 2])
        if k == 'info':
            kw['net_size'] = nE
            kw['AgentFactory'] = lambda aid, n=nE: qt.InfoAgent(aid, n)
        elif k == 'res':
            pass
        if rng.random() < 0.6:
            # one dictionary of colors for several types
            kw['colors'] = mine
        args[t] = kw
    if 'info' in {k for k, c in CLS.items() if c in classes.values()}:
        # whoever comes to an InfoQueue carries information
        for t, kw in args.items():
            if classes.get(t) is not qt.ResourceQueue:
                kw['AgentFactory'] = lambda aid, n=nE: qt.InfoAgent(aid, n)
        classes = {t: (qt.LossQueue if c is qt.ResourceQueue else c) for t, c in classes.items()}
    kw = {'q_classes': classes, 'q_args': args}
    if rng.random() < 0.4:
        kw['colors'] = {NKEYS[k]: color(rng) for k in range(len(NKEYS)) if rng.random() < 0.3}
    return kw


def deep(kw):
    """Independent dictionaries with the same classes, functions and values."""
    out = {}
    for k, v in kw.items():
        if isinstance(v, dict):
            out[k] = deep(v)
        elif isinstance(v, list):
            out[k] = list(v)
        else:
            out[k] = v
    return out


def graph_copy(g):
    return copy.deepcopy(g)


def graph_facts(g):
    return (list(g.nodes(data=True)), sorted((u, v, dict(d)) for u, v, d in g.edges(data=True)),
            type(g).__name__, dict(g.graph))


def relatives(ctx):
    """Networks made from arguments that others were made from."""
    rng = ctx.rng
    types = rng.choice([(1, 2), (1, 2, 3, 4), (2, 6), (1, 2, 7)])
    caps = rng.random() < 0.25
    adjust = {} if not caps or rng.random() < 0.3 else {'adjust_graph': False}
    g = plain_graph(rng, types, not adjust)
    kw = args_of(rng, g)
    types = tuple(kw['q_args'])
    if rng.random() < 0.3:
        g = qt.QueueNetworkDiGraph(g)
    if caps:
        for v in g.nodes():
            g.nodes[v]['cap'] = rng.randint(1, 5)
    ctx.desc = 'relatives: %r %s' % (sorted(g.edges()), {t: sorted(d) for t, d in
                                                         kw['q_args'].items()})
    npseed = rng.randrange(2 ** 31)
    before = defaults()
    facts = copy.deepcopy(graph_facts(g))
    first = deep(kw)
    netcolors = deep(kw['colors']) if 'colors' in kw else None
    np.random.seed(npseed)
    a = qt.QueueNetwork(graph_copy(g), **first, **adjust)
    init = gen.init_kwargs(rng, a)
    # others are made from the same objects first
    others = []
    for _ in range(rng.choice([1, 2, 3])):
        h = g if rng.random() < 0.5 and not adjust else graph_copy(g)
        use = dict(kw)
        how = rng.choice(['same', 'same', 'classes', 'graph', 'args'])
        ctx.count('relatives_' + how)
        if how == 'classes':
            # other classes with the same arguments
            use['q_classes'] = {t: rng.choice([c for k, c in sorted(CLS.items()) if k != 'std' and
                                               k != 'info' and k != 'res'] + [qt.LossQueue])
                                for t in types if 'net_size' not in kw['q_args'][t]}
            for t in types:
                if 'net_size' in kw['q_args'][t]:
                    use['q_classes'][t] = qt.InfoQueue
        elif how == 'graph':
            h = plain_graph(rng, types, not adjust)
            if adjust:
                for v in h.nodes():
                    h.nodes[v]['cap'] = rng.randint(1, 5)
        elif how == 'args':
            use.pop('colors', None)
        o = qt.QueueNetwork(h, **use, **(adjust if h is not g else {}))
        others.append(Other(rng, o))
    for o in others:
        for _ in range(rng.choice([0, 3, 10])):
            if rng.random() < 0.15:
                o.act(ctx, rng)
            elif o.ready:
                o.net.simulate(n=5)
            else:
                o.act(ctx, rng)
    del M.LOG[:]
    ctx.check(graph_facts(g) == facts, lambda: 'the graph given was changed: %r / %r' % (
        facts[:2], graph_facts(g)[:2]))
    np.random.seed(npseed)
    h = g if not adjust else graph_copy(g)
    if netcolors is not None:
        # this dictionary becomes the network's own
        kw['colors'] = netcolors
    b = qt.QueueNetwork(h, **kw, **adjust)
    s = twin.Rand()

    def compare(when):
        x, y = netops.full(a), netops.full(b)
        ctx.count('relatives_compared')
        return ctx.check(x == y, lambda: '%s: from fresh / from used arguments: %s' % (
            when, twin.diff(x, y)))
    if not compare('new'):
        return
    np.random.seed(npseed)
    a.initialize(**init)
    s = twin.Rand()
    np.random.seed(npseed)
    b.initialize(**init)
    for k in range(rng.choice([3, 8])):
        n = rng.choice([1, 5, 20])
        s.back()
        a.simulate(n=n)
        sa = twin.Rand()
        s.back()
        for o in others:
            o.act(ctx, rng)
            if rng.random() < 0.5:
                o.act(ctx, rng)
        b.simulate(n=n)
        ctx.check(all(np.array_equal(p, q) for p, q in zip(sa.s, twin.Rand().s)),
                  'other random numbers were drawn')
        s = sa
        if not compare('after %d events' % a.num_events):
            return
    ctx.count('relatives_events', a.num_events)
    after = defaults()
    ctx.check(before == after, lambda: 'the defaults of the class changed: %.300r / %.300r' % tuple(
        [(x, y) for x, y in zip(before, after) if x != y][0]))
    ctx.sig = ctx.desc
    ctx.nontrivial = a.num_events > 5


def lonely_queues(ctx):
    """Queues on their own."""
    rng = ctx.rng
    seed = rng.random()
    npseed = rng.randrange(2 ** 31)
    mine = {k: color(rng) for k in QKEYS if rng.random() < 0.5}
    runs = []
    kind = rng.choice(sorted(CLS))
    give = rng.random() < 0.5
    steps = rng.choice([10, 30])
    for alone in (True, False):
        others = []

        def around():
            if alone:
                return
            x = np.random.get_state()
            mark = len(M.LOG)
            for _ in range(rng.choice([0, 1, 3])):
                ctx.count('interference')
                if not others or rng.random() < 0.2:
                    if rng.random() < 0.5:
                        o = twin.same_queue(seed if rng.random() < 0.3 else rng.random())[0]
                    else:
                        o = rng.choice(sorted(CLS.items()))[1](
                            **({'colors': mine if rng.random() < 0.5 else dict(mine)}
                               if rng.random() < 0.6 else {}))
                    o.set_active()
                    others.append(o)
                    continue
                o = rng.choice(others)
                r = rng.random()
                if r < 0.5 and o.next_event_description() != 0:
                    o.simulate(n=rng.choice([1, 9]))
                elif r < 0.6:
                    o.clear()
                    o.set_active()
                elif r < 0.7:
                    o.colors[rng.choice(QKEYS)] = color(rng)
                elif r < 0.8:
                    o.data[(0, 0)] = [[1.0, 2.0, 3.0, 4, 5]]
                    o.clear_data() if hasattr(o, 'clear_data') else None
                elif r < 0.9:
                    o.set_num_servers(2)
                else:
                    copy.deepcopy(o)
            del M.LOG[mark:]
            np.random.set_state(x)
        around()
        np.random.seed(npseed)
        q, _k, desc = twin.same_queue(seed, **({'colors': deep(mine) if alone else mine}
                                               if give else {}))
        ctx.desc = 'lonely: ' + desc
        np.random.seed(npseed)
        around()
        del M.LOG[:]
        q.set_active()
        srng = random.Random(seed)
        out = []
        for _ in range(steps):
            r, n = srng.random(), srng.choice([1, 2, 8])

            def go():
                if q.next_event_description() != 0 and r < 0.9:
                    q.simulate(n=n)
                elif r < 0.95:
                    q.set_inactive()
                else:
                    q.set_active()
            around()
            t = twin.traced(go)
            s = twin.snap_queue(q)
            s['colors'] = {k: netops.colour(c) for k, c in sorted(q.colors.items())}
            s['sensitivity'] = q.coloring_sensitivity
            out.append((t, s, twin.rand_state()))
        runs.append(out)
    for x, y in zip(*runs):
        ctx.count('compared_queue_events', len(x[0]))
        ctx.check(x[0] == y[0], lambda: 'alone / among others: %s' % twin.first_diff(x[0], y[0]))
        ctx.check(x[1] == y[1], lambda: 'alone / among others: %s' % twin.diff(x[1], y[1]))
        ctx.check(x[2] == y[2], 'other random numbers were drawn among others')
        if ctx.viol:
            return
    # a new queue of any class looks the same after all this
    mine2 = deep(mine)
    first = {k: sorted(c(colors=deep(mine2)).colors.items()) for k, c in CLS.items()}
    order = sorted(CLS)
    rng.shuffle(order)
    for k in order:
        ctx.count('new_queues')
        got = sorted(CLS[k](colors=mine2).colors.items())
        ctx.check(got == first[k], lambda: 'colors of a new %s from a dictionary used before (%r): '
                  '%r, from a fresh one: %r' % (k, order, got, first[k]))
    ctx.sig = ctx.desc
    ctx.nontrivial = sum(len(x[0]) for x in runs[0]) > 20


def run_case(ctx, i):
    del M.LOG[:]
    (strangers, relatives, lonely_queues, strangers, relatives)[i % 5](ctx)
    del M.LOG[:]
