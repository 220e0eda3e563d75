"""Same seed, same run; a cleared network starts over."""
import random

import numpy as np
import networkx as nx
import queueing_tool as qt

from vlib import gen, mon as M, twin, netops

KEY = 'resource-servers-not-restored'


def noise():
    """The state of numpy's stream before seeding must not matter."""
    np.random.seed(random.SystemRandom().randrange(2 ** 31))


# ------------------------------------------------------------------- same seed
def some_seed(rng):
    s = rng.choice([rng.randrange(2 ** 31), rng.randrange(100), 0])
    return rng.choice([int, int, np.int64, np.uint32])(s)


def some_graph(rng):
    r = rng.random()
    if r < 0.35:
        g = gen.random_digraph(rng, types=(1, 2, 3))
        return lambda: g
    if r < 0.55:
        adj = {k: {v: {'edge_type': t} for v, t in d.items()} for k, d in
               ((k, {v: rng.choice([1, 1, 2, 3]) for v in rng.sample(range(5), rng.randint(1, 3))})
                for k in range(5))}
        import copy
        return lambda: copy.deepcopy(adj)
    n, s = rng.randint(3, 9), rng.randrange(10 ** 6)
    if r < 0.8:
        return lambda: qt.generate_random_graph(n, seed=s)
    return lambda: qt.generate_pagerank_graph(n, seed=s)


def networks(ctx):
    rng = ctx.rng
    seed = some_seed(rng)
    mk = some_graph(rng)
    rs = rng.random()
    ma, bl = rng.choice([3, 20, 1000, np.infty]), rng.choice(['BAS', 'RS'])
    defaults = rng.random() < 0.3
    agents = rng.choice([M.HAgent, M.HGreedy, M.HResource])
    kw = {'nActive': rng.randint(1, 4)} if rng.random() < 0.6 else \
        {'edge_type': rng.choice([1, (1, 2, 3)])}
    ctx.desc = 'network from seed %d, max_agents=%r %s %r' % (seed, ma, bl, kw)

    def build():
        r2 = random.Random(rs)
        if defaults:
            args = {t: {'AgentFactory': M.Factory(-1, agents),
                        'collect_data': r2.random() < 0.7} for t in (1, 2, 3)}
            cl = None
        else:
            args = {}
            cl = {}
            for t in (1, 2, 3):
                kind = r2.choice(['std', 'loss', 'res', 'info']) if t > 1 else 'std'
                cl[t] = gen.CLASSES[kind]
                a, _d = gen.twin_time_f(r2)
                s, _d = gen.twin_time_f(r2)
                args[t] = {'arrival_f': M.ArrivalF(-1, a), 'service_f': M.ServiceF(-1, s),
                           'num_servers': r2.choice([1, 2, 4]),
                           'AgentFactory': M.Factory(-1, agents if kind != 'info' else
                                                     gen.info_class(100)),
                           'collect_data': r2.random() < 0.7}
                if kind in ('loss', 'res'):
                    args[t]['qbuffer'] = r2.choice([0, 1, 3])
                if kind == 'info':
                    args[t]['net_size'] = 100
        return qt.QueueNetwork(mk(), q_classes=cl, q_args=args, seed=seed, max_agents=ma,
                               blocking=bl)
    runs = []
    ops = None
    for _ in range(2):
        noise()
        res = {}

        def run():
            net = build()
            res['net'] = net
            try:
                net.initialize(**kw)
            except qt.QueueingToolError:
                res['out'] = 'nothing to initialize'
                return
            res['out'] = netops.apply(net, ops if ops is not None else [])
        if ops is None:
            del M.LOG[:]
            ops = netops.script(random.Random(rs), build(), rng.choice([5, 20, 40]), reinit=False)
        tr = twin.traced(run)
        runs.append((tr, res['out'], netops.full(res['net']), twin.rand_state()))
    a, b = runs
    ctx.count('seeded_networks')
    ctx.count('seeded_events', len(a[0]))
    ctx.check(a[0] == b[0], lambda: 'two runs from one seed: %s' % twin.first_diff(a[0], b[0]))
    ctx.check(a[1] == b[1], 'two runs from one seed returned different data')
    ctx.check(a[2] == b[2], lambda: 'two runs from one seed: %s' % twin.diff(a[2], b[2]))
    ctx.check(a[3] == b[3], 'two runs from one seed used different amounts of randomness')
    ctx.sig = ('seed', seed, len(a[0]))
    ctx.nontrivial = len(a[0]) > 20


def queues(ctx):
    rng = ctx.rng
    seed = some_seed(rng)
    rs = rng.random()
    runs = []
    n = rng.choice([10, 50, 200])
    for _ in range(2):
        noise()
        r2 = random.Random(rs)
        default = r2.random() < 0.3

        def run(out=[]):
            if default:
                kind = r2.choice(['std', 'loss', 'info', 'res'])
                q = gen.CLASSES[kind](
                    edge=(0, 1, 0, 1), seed=seed, collect_data=True,
                    AgentFactory=M.Factory(0, M.HInfo if kind == 'info' else M.HAgent))
            else:
                q, _k, _d = gen.single(r2, twin=True, seed=seed)
            q.set_active()
            q.simulate(n=n)
            out[:] = [twin.snap_queue(q)]
        out = []
        tr = twin.traced(lambda: run(out))
        runs.append((tr, out[0], twin.rand_state()))
    a, b = runs
    ctx.count('seeded_queues')
    ctx.count('seeded_events', len(a[0]))
    ctx.check(a[0] == b[0], lambda: 'two queues from one seed: %s' % twin.first_diff(a[0], b[0]))
    ctx.check(a[1] == b[1], lambda: 'two queues from one seed: %s' % twin.diff(a[1], b[1]))
    ctx.check(a[2] == b[2], 'two queues from one seed used different amounts of randomness')
    ctx.sig = ('queue seed', seed, len(a[0]))
    ctx.desc = 'queue from seed %d, %d events' % (seed, n)
    ctx.nontrivial = len(a[0]) > 10


def generators(ctx):
    rng = ctx.rng
    seed = some_seed(rng)
    n = rng.randint(2, 14)
    base = gen.random_digraph(rng, nmax=8)
    base2 = nx.DiGraph(base)
    rank = np.array([rng.random() for _ in range(base.number_of_nodes())])
    pl = rng.random()
    props = {1: 0.5, 2: 0.25, 3: 0.25}
    p2, p3 = rng.choice([0.1, 0.3]), rng.choice([0.1, 0.4])
    pos = {v: (rng.random(), rng.random()) for v in base.nodes()}

    def rankg():
        g = qt.QueueNetworkDiGraph(nx.DiGraph(base))
        g.set_pos(pos)
        return qt.set_types_rank(g, rank, pType2=p2, pType3=p3, seed=seed)
    makers = {
        'minimal_random_graph': lambda: qt.minimal_random_graph(n, seed=seed),
        'generate_random_graph': lambda: qt.generate_random_graph(n, prob_loop=pl, seed=seed),
        'generate_random_graph with types': lambda: qt.generate_random_graph(
            n, seed=seed, proportions=dict(props), loop_proportions={1: 0.5, 4: 0.5}),
        'generate_pagerank_graph': lambda: qt.generate_pagerank_graph(n, seed=seed),
        'set_types_random': lambda: qt.set_types_random(
            qt.QueueNetworkDiGraph(nx.DiGraph(base2)), proportions=dict(props), seed=seed),
        'set_types_rank': rankg,
        'generate_transition_matrix': lambda: qt.generate_transition_matrix(
            nx.DiGraph(base), seed=seed)}
    for name in sorted(makers):
        f = makers[name]
        out = []
        for _ in range(2):
            noise()
            g = f()
            if isinstance(g, np.ndarray):
                out.append((g.tolist(), twin.rand_state()))
            else:
                out.append((netops.graph_state(g), sorted(g.nodes()), sorted(g.edges()),
                            dict(g.edge_index), twin.rand_state()))
        ctx.count('seeded_generators')
        ctx.check(out[0] == out[1], lambda: '%s is not the same twice for seed %r' % (name, seed))
    ctx.sig = ('generators', int(seed), n)
    ctx.desc = 'generators from seed %d, %d vertices' % (seed, n)


# ------------------------------------------------------------------- clearing
def settings(s):
    """The public state without the drawing colors."""
    return {k: v for k, v in s.items()
            if not (k[0] in 've' and k[1:2].isdigit()) and not k.startswith('g.')
            and k != 'pos'}


def clearing(ctx):
    rng = ctx.rng
    seed = rng.random()
    profile = rng.choice(['std', 'mix', 'tight', 'tight', 'res', 'res', 'info', 'greedy'])
    net, desc, kw = twin.same_net(seed, profile=profile)
    fresh, _d, _k = twin.same_net(seed, profile=profile)
    ctx.desc = 'clear: ' + desc
    npseed = rng.randrange(2 ** 31)
    np.random.seed(npseed)
    servers = [q.num_servers for q in net.edge2queue]
    times = rng.choice([1, 1, 2])
    for _round in range(times):
        if rng.random() < 0.95:
            net.initialize(**kw)
            ops = [op for op in netops.script(rng, net, rng.choice([3, 15, 40]))
                   if op[0] not in ('table', 'blocking', 'max_agents', 'start', 'stop')]
            netops.apply(net, ops)
            if rng.random() < 0.3:
                netops.apply(net, [('step', 400)])
        del M.LOG[:]
        was = [q.num_servers for q in net.edge2queue]
        net.clear()
        ctx.count('clears')
        for k, q in enumerate(net.edge2queue):
            if isinstance(q, qt.ResourceQueue) and was[k] != servers[k] and \
                    q.num_servers == was[k]:
                ctx.known[KEY] = ctx.known.get(KEY, 0) + 1
                q.num_servers = servers[k]
    ctx.check(not M.LOG, 'clearing ran the simulation')
    a, b = settings(netops.full(net)), settings(netops.full(fresh))
    ctx.check(a == b, lambda: 'cleared / new: %s' % twin.diff(a, b))
    ctx.check(net.num_events == 0 and int(np.sum(net.num_agents)) == 0 and
              net.current_time == 0, 'events, agents or time left after clear')
    ctx.check(net.next_event_description() == ('Nothing', None) and net.time == M.INF,
              lambda: 'a cleared network announces %r at %r' % (net.next_event_description(),
                                                                net.time))
    ctx.check(len(net.get_queue_data()) == 0 and not net.get_agent_data(),
              'data left after clear')
    for f, what in ((lambda: net.simulate(n=3), 'simulate(n)'),
                    (lambda: net.simulate(t=1.0), 'simulate(t)'),
                    (lambda: netops.animate(net, 1), 'animate')):
        if what == 'animate' and rng.random() < 0.9:
            continue
        try:
            f()
        except qt.QueueingToolError:
            ctx.count('refused')
        else:
            ctx.check(False, '%s works on a cleared network' % what)
    ctx.check(not M.LOG, 'a cleared network still does something')
    ops = [('init', kw)] + netops.script(rng, net, rng.choice([10, 30]), quiet=True)
    np.random.seed(npseed + 1)
    t1 = twin.traced(lambda: netops.apply(net, ops))
    a = settings(netops.full(net))
    np.random.seed(npseed + 1)
    t2 = twin.traced(lambda: netops.apply(fresh, ops))
    b = settings(netops.full(fresh))
    ctx.count('rerun_events', len(t1))
    ctx.check(t1 == t2, lambda: 'rerun / first run: %s' % twin.first_diff(t1, t2))
    ctx.check(a == b, lambda: 'rerun / first run: %s' % twin.diff(a, b))
    ctx.sig = ('clear', desc, len(t1))
    ctx.nontrivial = len(t1) > 20


def run_case(ctx, i):
    (clearing, clearing, networks, clearing, queues, networks, generators)[i % 7](ctx)
