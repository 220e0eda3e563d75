"""What is left out means its documented default."""
import random

import numpy as np
import networkx as nx
import queueing_tool as qt

from vlib import gen, mon as M, twin, netops

INF = np.infty


def arrivals(t):
    return t + np.random.exponential(1)


def services(t):
    return t + np.random.exponential(0.9)


BASE = {'num_servers': 1, 'arrival_f': arrivals, 'service_f': services, 'edge': (0, 0, 0, 1),
        'AgentFactory': qt.Agent, 'collect_data': False, 'active_cap': INF, 'deactive_t': INF,
        'coloring_sensitivity': 2}
DOCUMENTED = {
    'std': BASE,
    'loss': dict(BASE, qbuffer=0),
    'info': dict(BASE, net_size=1, AgentFactory=qt.InfoAgent, qbuffer=INF),
    'res': dict(BASE, num_servers=10, AgentFactory=qt.ResourceAgent, qbuffer=0)}
CLS = {'std': qt.QueueServer, 'loss': qt.LossQueue, 'info': qt.InfoQueue,
       'res': qt.ResourceQueue}


DEFAULT_COLORS = {k: dict(c().colors) for k, c in CLS.items()}


def given(rng, kind, edge=None):
    """Some parameters, with values that are not the defaults."""
    kw = {}
    if rng.random() < 0.3:
        kw['num_servers'] = rng.choice([2, 3] + ([INF] if kind != 'res' else []))
    if rng.random() < 0.3:
        s = rng.choice([0.3, 0.7])
        kw['arrival_f'] = lambda t: t + np.random.exponential(s)
    if rng.random() < 0.3:
        s2 = rng.choice([0.5, 2.0])
        kw['service_f'] = lambda t: t + np.random.uniform(0, s2)
    if rng.random() < 0.4:
        kw['collect_data'] = True
    if rng.random() < 0.2:
        kw['active_cap'] = 7
    if rng.random() < 0.2:
        kw['deactive_t'] = 6.0
    if kind != 'std' and rng.random() < 0.3:
        kw['qbuffer'] = rng.choice([1, 3, INF])
    if rng.random() < 0.2:
        kw['coloring_sensitivity'] = 4
    if edge is not None:
        kw['edge'] = edge
    return kw


def look(q):
    s = twin.snap_queue(q)
    s.update(coloring=q.coloring_sensitivity, colors={k: netops.colour(c)
                                                      for k, c in sorted(q.colors.items())},
             agents=[type(a).__name__ for a in q.queue], repr=repr(q).split(' at 0x')[0])
    return s


def queues(ctx):
    rng = ctx.rng
    kind = rng.choice(sorted(CLS))
    edge = None
    if rng.random() < 0.4 and kind != 'info':
        edge = (rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 9), rng.randint(1, 3))
    kw = given(rng, kind, edge)
    full = dict(DOCUMENTED[kind], **kw)
    out = [k for k in full if k not in kw]
    ctx.desc = '%s without %s' % (kind, ', '.join(sorted(out)))
    a = CLS[kind](**kw)
    b = CLS[kind](**full)
    x, y = look(a), look(b)
    ctx.check(x == y, lambda: '%s: left out / given: %s' % (ctx.desc, twin.diff(x, y)))
    ctx.check(a.AgentFactory is full['AgentFactory'], '%s: agents are %r' % (
        ctx.desc, a.AgentFactory))
    for k in ('num_servers', 'edge', 'collect_data', 'active_cap', 'deactive_t',
              'coloring_sensitivity', 'qbuffer'):
        if k in full:
            got = getattr(a, 'buffer' if k == 'qbuffer' else k)
            ctx.check(got == full[k], lambda: '%s: %s is %r, not %r' % (ctx.desc, k, got, full[k]))
    npseed = rng.randrange(2 ** 31)
    np.random.seed(npseed)
    a.set_active()
    s = twin.Rand()
    np.random.seed(npseed)
    b.set_active()
    for _ in range(rng.choice([10, 30])):
        how, n = rng.random(), rng.choice([1, 2, 5, 20])

        def go(q):
            if how < 0.15:
                q.simulate()
            elif how < 0.2:
                q.delay_service()
            elif q.next_event_description() != 0:
                q.simulate(n=n)

        def explicit(q):
            if how < 0.15:
                q.simulate(n=1)
            else:
                go(q)
        s.back()
        go(a)
        sa = twin.Rand()
        s.back()
        explicit(b)
        ctx.count('compared_states')
        x, y = look(a), look(b)
        ctx.check(x == y, lambda: '%s: left out / given: %s' % (ctx.desc, twin.diff(x, y)))
        ctx.check(all(np.array_equal(p, q) for p, q in zip(sa.s, twin.Rand().s)),
                  lambda: '%s: other random numbers were drawn' % ctx.desc)
        s = sa
        if ctx.viol:
            return
    ctx.count('queues')
    ctx.count('queue_events', sum(a.num_arrivals) + a.num_departures)
    for k in out:
        ctx.count('left_out_' + k)
    ctx.sig = (kind, tuple(sorted(kw)), a.num_departures)
    ctx.nontrivial = a.num_departures > 2


def network(ctx):
    rng = ctx.rng
    big = rng.random() < 0.03
    base = gen.random_digraph(rng, nmin=35 if big else 2, nmax=60 if big else 6,
                              types=rng.choice([(1,), (1, 2), (1, 2, 3, 4), (1, 5), (2, 9, 12)]))
    if big:
        ctx.count('big_networks')
    g1, g2 = nx.DiGraph(base), nx.DiGraph(base)
    classes = {0: qt.NullQueue, 1: qt.QueueServer, 2: qt.LossQueue, 3: qt.LossQueue,
               4: qt.LossQueue}
    kinds = {1: 'std', 2: 'loss', 3: 'loss', 4: 'loss'}
    own = {}
    if rng.random() < 0.4:
        t = rng.choice([1, 2, 3, 4])
        own[t] = rng.choice(['std', 'loss', 'res'])
        kinds[t] = own[t]
    for t in {base.edges[e]['edge_type'] for e in base.edges()} - {0, 1, 2, 3, 4}:
        # there is a default for the arguments, but none for the class
        own[t] = kinds[t] = rng.choice(['std', 'loss', 'res'])
        ctx.count('further_types')
    some = {t: given(rng, kinds[t]) for t in kinds if rng.random() < 0.5}
    full = {t: dict(DOCUMENTED[kinds[t]], **some.get(t, {})) for t in kinds}
    for d in full.values():
        d.pop('edge')
    full[0] = {}
    for t in full:
        base_colors = qt.QueueNetwork.default_q_colors.get(t, qt.QueueNetwork.default_q_colors[1])
        if t in some and rng.random() < 0.3:
            # for colors that are given the class of the queue fills the gaps
            mine = {k: [rng.random() for _ in range(4)] for k in base_colors
                    if rng.random() < 0.5}
            some[t]['colors'] = dict(mine)
            base_colors = dict(DEFAULT_COLORS[kinds[t]], **mine)
            ctx.count('colors_given')
        full[t]['colors'] = {k: list(c) for k, c in base_colors.items()}
    crowd = rng.random() < 0.06
    if crowd:
        # so many that the limit matters
        for t in kinds:
            for d in (some.setdefault(t, {}), full[t]):
                d.pop('active_cap', None), d.pop('deactive_t', None)
                d['arrival_f'] = lambda t: t + np.random.exponential(0.001)
                d['service_f'] = lambda t: t + 5 + np.random.exponential(1)
                d['num_servers'] = INF if kinds[1] != 'res' and t == 1 else 2
            if kinds[t] == 'std':
                full[t].update(active_cap=INF, deactive_t=INF)
            else:
                some[t]['qbuffer'] = full[t]['qbuffer'] = INF
                full[t].update(active_cap=INF, deactive_t=INF)
    q1 = {}
    if own or rng.random() < 0.3:
        q1['q_classes'] = {t: CLS[k] for t, k in own.items()}
    if some or rng.random() < 0.3:
        q1['q_args'] = {t: dict(d) for t, d in some.items()}
    if rng.random() < 0.3:
        q1['max_agents'] = 1000
    if rng.random() < 0.3:
        q1['blocking'] = 'BAS'
    colors = {}
    if rng.random() < 0.3:
        colors = {k: [rng.random() for _ in range(4)]
                  for k in sorted(qt.QueueNetwork.default_colors) if rng.random() < 0.4}
        q1['colors'] = dict(colors)
    every = dict(q_classes={**classes, **{t: CLS[k] for t, k in own.items()}}, q_args=full,
                 max_agents=1000, blocking='BAS', adjust_graph=True, seed=None,
                 colors=dict({k: list(c) for k, c in qt.QueueNetwork.default_colors.items()},
                             **colors))
    ctx.desc = 'network of %s with %s%s' % (kinds, sorted(q1), ', crowded' if crowd else '')
    npseed = rng.randrange(2 ** 31)
    np.random.seed(npseed)
    a = qt.QueueNetwork(g1, **q1)
    s = twin.Rand()
    np.random.seed(npseed)
    b = qt.QueueNetwork(g2, **every)
    ctx.check(a.max_agents == b.max_agents == 1000 and a.blocking == b.blocking == 'BAS',
              lambda: '%s: max_agents %r / %r, blocking %r / %r' % (
                  ctx.desc, a.max_agents, b.max_agents, a.blocking, b.blocking))
    how = rng.choice(['none', 'none', 'all', 'some'])
    usable = [k for k, q in enumerate(b.edge2queue) if q.edge[3] != 0]

    def both(f, g, when):
        nonlocal s
        s.back()
        ra = f()
        sa = twin.Rand()
        s.back()
        rb = g()
        ctx.check(ra == rb, lambda: '%s: %s: left out / given: %.300r / %.300r' % (
            ctx.desc, when, ra, rb))
        ctx.check(all(np.array_equal(p, q) for p, q in zip(sa.s, twin.Rand().s)),
                  lambda: '%s: %s: other random numbers were drawn' % (ctx.desc, when))
        if ctx.viol or ((crowd or big) and when == 'simulate' and rng.random() < 0.7):
            s = sa
            return
        x, y = netops.full(a), netops.full(b)
        ctx.count('compared_states')
        ctx.check(x == y, lambda: '%s: %s: left out / given: %s' % (ctx.desc, when,
                                                                     twin.diff(x, y)))
        s = sa
    if how == 'none':
        both(lambda: a.initialize(), lambda: b.initialize(nActive=1), 'initialize')
    elif how == 'all':
        both(lambda: a.initialize(queues=usable), lambda: b.initialize(queues=usable),
             'initialize')
    else:
        both(lambda: a.initialize(edge_type=1) if any(
            q.edge[3] == 1 for q in a.edge2queue) else a.initialize(),
            lambda: b.initialize(edge_type=[1]) if any(
            q.edge[3] == 1 for q in b.edge2queue) else b.initialize(nActive=1), 'initialize')
    allq = list(range(b.nE))
    for _ in range(30 if crowd else rng.choice([10, 25])):
        if ctx.viol:
            return
        r, n = rng.random(), rng.choice([1, 3, 10])
        if crowd:
            n = 100
        if r < 0.15:
            both(lambda: a.simulate(), lambda: b.simulate(n=1), 'simulate()')
        elif r < 0.7 or crowd:
            both(lambda: a.simulate(n=n), lambda: b.simulate(n=n), 'simulate')
        elif r < 0.76:
            both(lambda: a.start_collecting_data(),
                 lambda: b.start_collecting_data(queues=allq), 'start_collecting_data()')
        elif r < 0.78:
            both(lambda: a.stop_collecting_data(),
                 lambda: b.stop_collecting_data(queues=allq), 'stop_collecting_data()')
        elif r < 0.80:
            both(lambda: a.clear_data(), lambda: b.clear_data(queues=allq), 'clear_data()')
        elif r < 0.86:
            both(lambda: a.get_queue_data().tolist(),
                 lambda: b.get_queue_data(queues=allq, return_header=False).tolist(),
                 'get_queue_data()')
        elif r < 0.92:
            both(lambda: {k: np.asarray(v).tolist() for k, v in a.get_agent_data().items()},
                 lambda: {k: np.asarray(v).tolist() for k, v in b.get_agent_data(
                     queues=allq, return_header=False).items()}, 'get_agent_data()')
        elif r < 0.97:
            both(lambda: a.transitions().tolist(),
                 lambda: b.transitions(return_matrix=True).tolist(), 'transitions()')
        else:
            both(lambda: a.reset_colors(), lambda: b.reset_colors(), 'reset_colors()')
    ctx.count('networks')
    ctx.count('network_events', a.num_events)
    if crowd and int(np.sum(a.num_agents)) >= 990:
        ctx.count('crowded_networks')
    ctx.sig = (tuple(sorted(base.edges())), tuple(sorted(q1)), a.num_events)
    ctx.nontrivial = a.num_events > 5


def same_graph(x, y):
    return (sorted(x.nodes()) == sorted(y.nodes()) and sorted(x.edges()) == sorted(y.edges()) and
            {e: x.adj[e[0]][e[1]].get('edge_type') for e in x.edges()} ==
            {e: y.adj[e[0]][e[1]].get('edge_type') for e in y.edges()} and
            all((x.nodes[v].get('pos') is None) == (y.nodes[v].get('pos') is None) and
                (x.nodes[v].get('pos') is None or
                 np.allclose(x.nodes[v]['pos'], y.nodes[v]['pos'])) for v in x.nodes()))


def graphs(ctx):
    rng = ctx.rng
    seed = rng.randrange(2 ** 31)
    n = rng.randint(3, 30)
    how = rng.choice(['types', 'types', 'rank', 'rank', 'random', 'random', 'pagerank', 'adj',
                      'dict', 'matrix', 'big'])
    ctx.desc = '%s(%d) with seed %d' % (how, n, seed)

    def pair(f, g):
        ctx.count('graphs_compared')
        ctx.count('graphs_' + how)
        x, y = f(), g()
        ok = same_graph(x, y) if isinstance(x, nx.Graph) else np.array_equal(x, y) \
            if isinstance(x, np.ndarray) else x == y
        ctx.check(ok, lambda: '%s: leaving out the defaults gives another result' % ctx.desc)
    if how in ('types', 'rank', 'adj', 'dict', 'matrix'):
        g = nx.DiGraph(gen.random_digraph(rng, nmin=2, nmax=12, types=(1,)))
        n = g.number_of_nodes()
        for v in g.nodes():
            g.nodes[v]['pos'] = np.array([rng.random(), rng.random()])
    if how == 'types':
        third, quarter = {k: 1. / 3 for k in (1, 2, 3)}, {k: 0.25 for k in range(4)}
        left = rng.choice([{}, {'proportions': third}, {'loop_proportions': quarter}])
        pair(lambda: qt.set_types_random(nx.DiGraph(g), seed=seed, **left),
             lambda: qt.set_types_random(nx.DiGraph(g), proportions=third,
                                         loop_proportions=quarter, seed=seed))
    elif how == 'rank':
        rank = np.array([rng.random() for _ in range(n)])
        left = rng.choice([{}, {'pType2': 0.1}, {'pType3': 0.1}])
        pair(lambda: qt.set_types_rank(nx.DiGraph(g), rank, seed=seed, **left),
             lambda: qt.set_types_rank(nx.DiGraph(g), rank, pType2=0.1, pType3=0.1, seed=seed))
    elif how == 'random':
        pair(lambda: qt.generate_random_graph(n, seed=seed),
             lambda: qt.generate_random_graph(num_vertices=n, prob_loop=0.5, seed=seed))
    elif how == 'pagerank':
        pair(lambda: qt.generate_pagerank_graph(n, seed=seed),
             lambda: qt.generate_pagerank_graph(num_vertices=n, seed=seed, pType2=0.1,
                                                pType3=0.1))
    elif how == 'big':
        f = qt.generate_random_graph if rng.random() < 0.7 else qt.generate_pagerank_graph
        pair(lambda: f(seed=seed), lambda: f(num_vertices=250, seed=seed))
    elif how == 'adj':
        adj = {v: {w: {'edge_type': rng.randint(1, 3)} for w in g.adj[v]} for v in g.nodes()}
        pair(lambda: qt.adjacency2graph(adj),
             lambda: qt.adjacency2graph(adj, edge_type=None, adjust=1, is_directed=True))
    elif how == 'dict':
        pair(lambda: qt.graph2dict(g), lambda: qt.graph2dict(g, return_dict_of_dict=True))
    else:
        np.random.seed(seed)
        s = twin.Rand()

        def f(**kw):
            s.back()
            return qt.generate_transition_matrix(nx.DiGraph(g), **kw)
        pair(lambda: f(), lambda: f(seed=seed))
    ctx.sig = (how, n, seed)


def run_case(ctx, i):
    del M.LOG[:]
    (queues, network, network, graphs)[i % 4](ctx)
    del M.LOG[:]
