"""The network puts the right queue on every edge."""
import copy

import numpy as np
import networkx as nx
import queueing_tool as qt

from vlib import gen, mon as M

INF = M.INF


class MyQueue(qt.QueueServer):
    pass


class MyLoss(qt.LossQueue):
    def __init__(self, extra=None, **kw):
        super(MyLoss, self).__init__(**kw)
        self.extra = extra


CLS = {'std': qt.QueueServer, 'loss': qt.LossQueue, 'info': qt.InfoQueue,
       'res': qt.ResourceQueue, 'my': MyQueue, 'myloss': MyLoss}


def arguments(rng, kind):
    """Arguments for a class and the attributes they must become."""
    kw, want = {}, {}

    def put(name, value, attr=None):
        kw[name] = value
        want[attr or name] = value
    if rng.random() < 0.7:
        put('num_servers', rng.choice([1, 2, 5, 11] + ([np.infty] if kind != 'res' else [])))
    if rng.random() < 0.6:
        put('arrival_f', lambda t: t + 1.0)
    if rng.random() < 0.6:
        put('service_f', lambda t: t + 2.0)
    if rng.random() < 0.5:
        put('collect_data', rng.random() < 0.6)
    if rng.random() < 0.4:
        put('active_cap', rng.choice([3, 100]))
    if rng.random() < 0.4:
        put('deactive_t', rng.choice([2.5, 100.0]))
    if rng.random() < 0.4:
        put('coloring_sensitivity', rng.choice([1, 5]))
    if rng.random() < 0.4:
        put('AgentFactory', rng.choice([qt.Agent, qt.GreedyAgent]) if kind != 'info'
            else qt.InfoAgent)
    if kind in ('loss', 'res', 'info', 'myloss') and rng.random() < 0.7:
        put('qbuffer', rng.choice([0, 1, 4, np.infty]), 'buffer')
    if kind == 'info':
        kw['net_size'] = 60
    if kind == 'myloss':
        put('extra', object())
    return kw, want


def build_graph(rng, n, edges, form, typed):
    """The same graph in one of the accepted forms, listed in random order."""
    vs, es = list(range(n)), list(edges.items())
    rng.shuffle(vs)
    rng.shuffle(es)
    pos = {v: (rng.random(), rng.random()) for v in vs} if rng.random() < 0.5 else None
    if form == 'dict':
        adj = {}
        for v in vs:
            adj[v] = {}
        for (u, v), t in es:
            adj[u][v] = {'edge_type': t} if typed and t else {}
        return adj, None
    if form == 'lists':
        adj = {v: [] for v in vs}
        for (u, v), _t in es:
            adj[u].append(v)
        return adj, None
    if form == 'matrix':
        m = np.zeros((n, n), int)
        for (u, v), _t in es:
            m[u, v] = 1
        return m, None
    g = nx.DiGraph()
    g.add_nodes_from(vs)
    for (u, v), t in es:
        if typed and t:
            g.add_edge(u, v, edge_type=t)
        else:
            g.add_edge(u, v)
    if pos:
        nx.set_node_attributes(g, pos, 'pos')
    if form == 'wrapped':
        g = qt.QueueNetworkDiGraph(g)
    if form == 'multi':
        g = nx.MultiDiGraph(g)
    return g, pos


def run_case(ctx, i):
    rng = ctx.rng
    if i % 10 == 9:
        return rejected(ctx)
    base = gen.random_digraph(rng, nmin=1, nmax=rng.choice([4, 8, 14]), types=(1, 2, 3, 4, 6))
    n = base.number_of_nodes()
    edges = {e: base.adj[e[0]][e[1]]['edge_type'] for e in base.edges()}
    form = rng.choice(['dict', 'lists', 'matrix', 'nx', 'nx', 'wrapped', 'undirected'])
    typed = form not in ('lists', 'matrix') and rng.random() < 0.85
    if typed and rng.random() < 0.2:
        # the types of some edges are left out
        edges = {e: t if rng.random() < 0.6 else None for e, t in edges.items()}
        ctx.count('types_in_part')
    if form == 'undirected':
        edges = {(min(e), max(e)): t for e, t in edges.items()}
        g = nx.Graph()
        for (u, v), t in edges.items():
            g.add_edge(u, v, **({'edge_type': t} if typed and t else {}))
        g.add_nodes_from(range(n))
        pos = None
        for (u, v), t in list(edges.items()):
            edges[(v, u)] = t
    else:
        g, pos = build_graph(rng, n, edges, form, typed)
    adjust = rng.random() < 0.85
    if not adjust and (not typed or None in edges.values()):
        ctx.count('types_left_out_unadjusted')
    ends = {u for u, _v in edges}
    caps = {}
    if not adjust and form in ('nx', 'wrapped') and rng.random() < 0.6:
        # a vertex may tell how many servers the queues that lead to it have
        caps = {v: rng.choice([0, 1, 2, 5, 9]) for v in range(n)
                if rng.random() < 0.8}
        for v, c in caps.items():
            g.nodes[v]['cap'] = c
    want = {}
    vertices = set(range(n))
    for (u, v), t in edges.items():
        want[(u, v)] = t or 1 if typed else 1
        if adjust and v not in ends and form not in ('dict', 'lists'):
            want[(u, v)] = 0
    if form in ('dict', 'lists'):
        # a dictionary goes through adjacency2graph first, which adds loops
        for v in vertices - ends:
            want[(v, v)] = 0
    kinds = {}
    q_classes, q_args, attrs = {}, {}, {}
    types = sorted(set(want.values()))
    for t in types + ([5] if rng.random() < 0.3 else []):
        if t == 0:
            continue
        if t in (1, 2, 3, 4) and rng.random() < 0.25:
            kinds[t] = 'std' if t == 1 else 'loss'
        else:
            kinds[t] = rng.choice(sorted(CLS))
            q_classes[t] = CLS[kinds[t]]
        if rng.random() < 0.85:
            q_args[t], attrs[t] = arguments(rng, kinds[t])
    default_all = rng.random() < 0.1 and set(types) <= {0, 1, 2, 3, 4}
    if default_all:
        kinds = {t: 'std' if t == 1 else 'loss' for t in types if t}
        q_args, attrs = {}, {}
    if rng.random() < 0.08:
        q_args, attrs = None, {}
        ctx.count('arguments_left_out')
    kw = {}
    ma, bl = 1000, 'BAS'
    if rng.random() < 0.5:
        ma = kw['max_agents'] = rng.choice([1, 5, 60, np.infty])
    if rng.random() < 0.6:
        kw['blocking'] = rng.choice(['BAS', 'RS', 'rs', 'bas', 'Rs', 'other'])
        bl = 'RS' if kw['blocking'].lower() == 'rs' else 'BAS'
    if not adjust:
        kw['adjust_graph'] = False
    ctx.desc = '%s typed=%s %r classes=%r args=%r' % (
        form, typed, sorted(want.items()), kinds, {t: sorted(a) for t, a in (q_args or {}).items()})
    ctx.count('form_' + form)
    if not default_all:
        kw.update(q_classes=q_classes if rng.random() < 0.9 or q_classes else None,
                  q_args=q_args)
    net = qt.QueueNetwork(g, **kw)
    ctx.count('networks')

    order = sorted(want)
    ctx.check(net.nV == n and net.num_vertices == n and net.num_nodes == n and
              net.g.number_of_nodes() == n and set(net.g.nodes()) == vertices,
              lambda: 'vertices: nV=%r, graph %r, given %d' % (net.nV, list(net.g.nodes()), n))
    ctx.check(net.nE == len(order) and net.num_edges == len(order) and
              len(net.edge2queue) == len(order) and len(net.num_agents) == len(order),
              lambda: 'edges: nE=%r, %d queues, given %d' % (net.nE, len(net.edge2queue),
                                                             len(order)))
    ctx.check(sorted(net.g.edges()) == order, lambda: 'edges %r, given %r'
              % (sorted(net.g.edges()), order))
    ctx.check(dict(net.g.edge_index) == {e: k for k, e in enumerate(order)},
              lambda: 'edge numbers %r' % (net.g.edge_index,))
    if len(net.edge2queue) != len(order):
        return
    for k, e in enumerate(order):
        q = net.edge2queue[k]
        t = want[e]
        ctx.count('queues')
        ctx.check(tuple(q.edge) == e + (k, t), lambda: 'queue %d is on edge %r, should be %r'
                  % (k, q.edge, e + (k, t)))
        ctx.check(net.g.ep(e, 'edge_type') == t, lambda: 'edge %r has type %r in the graph, %r '
                  'was given' % (e, net.g.ep(e, 'edge_type'), t))
        cls = qt.NullQueue if t == 0 else CLS[kinds[t]]
        ctx.check(type(q) is cls, lambda: 'queue %d of type %r is a %s, not a %s'
                  % (k, t, type(q).__name__, cls.__name__))
        if type(q) is not cls:
            continue
        if t == 0:
            ctx.count('terminal_queues')
        for a, v in attrs.get(t, {}).items():
            x = getattr(q, a)
            ctx.count('arguments')
            same = (x is v) if callable(v) or a == 'extra' else x == v
            ctx.check(same, lambda: 'queue %d of type %r has %s=%r, %r was given'
                      % (k, t, a, x, v))
        if t != 0 and 'num_servers' not in attrs.get(t, {}):
            c = max(1, caps.get(e[1], 0)) if caps else 10 if kinds[t] == 'res' else 1
            ctx.count('servers_by_vertex' if caps else 'servers_by_default')
            ctx.check(q.num_servers == c, lambda: 'queue %d on %r has %r servers, not %r%s' % (
                k, e, q.num_servers, c, ' (cap of the vertices: %r)' % caps if caps else ''))
        ctx.check(not q.active and q.num_system == 0 and q.time == INF and
                  q.current_time == 0, 'queue %d is not idle' % k)
    for v in range(n):
        o = [k for k, e in enumerate(order) if e[0] == v]
        ii = [k for k, e in enumerate(order) if e[1] == v]
        ctx.check([int(x) for x in net.out_edges[v]] == o, lambda: 'out-edges of %d: %r, should '
                  'be %r' % (v, net.out_edges[v], o))
        ctx.check([int(x) for x in net.in_edges[v]] == ii, lambda: 'in-edges of %d: %r, should '
                  'be %r' % (v, net.in_edges[v], ii))
        ctx.check(sorted(net.g.out_neighbours(v)) == sorted(order[k][1] for k in o),
                  'out_neighbours(%d)' % v)
    tr = net.transitions(False)
    for v in range(n):
        o = [e[1] for e in order if e[0] == v]
        ctx.check(set(tr[v]) == set(o) and all(abs(p - 1.0 / len(o)) < 1e-12
                                               for p in tr[v].values()),
                  lambda: 'default transitions of %d: %r' % (v, tr[v]))
    for t in set(want.values()):
        ctx.check(sorted(net.g.get_edge_type(t)) == [e for e in order if want[e] == t],
                  'get_edge_type(%r)' % t)
    ctx.check(net.max_agents == ma, lambda: 'max_agents %r' % net.max_agents)
    ctx.check(net.blocking == bl, lambda: 'blocking %r for %r' % (net.blocking,
                                                                  kw.get('blocking')))
    ctx.check(net.current_time == 0 and net.num_events == 0 and
              int(np.sum(net.num_agents)) == 0, 'a new network has a history')
    if pos is not None:
        ctx.count('positions')
        for v in range(n):
            ctx.check(tuple(net.g.vp(v, 'pos')) == pos[v] and tuple(net.g.pos[v]) == pos[v],
                      lambda: 'vertex %d is at %r / %r, given %r'
                      % (v, net.g.vp(v, 'pos'), net.g.pos[v], pos[v]))
    # nothing can be added to, or taken from, the graph of a network
    for how, change in (('add_edge', lambda: net.g.add_edge(0, n)),
                        ('add_node', lambda: net.g.add_node(n + 5)),
                        ('remove_node', lambda: net.g.remove_node(0))):
        try:
            change()
        except nx.NetworkXError:
            ctx.count('changes_refused')
        else:
            ctx.check(False, '%s changed the graph of a network' % how)
            return
    bl2 = rng.choice(['RS', 'rs', 'BAS', 'x'])
    net.blocking = bl2
    ctx.check(net.blocking == ('RS' if bl2.lower() == 'rs' else 'BAS'), 'blocking setter')
    ctx.sig = (form, typed, adjust, tuple(sorted(want.items())))
    ctx.nontrivial = len(order) > 1


def rejected(ctx):
    rng = ctx.rng
    ctx.desc = 'wrong arguments'
    adj = {0: [1], 1: [0]}
    for bad in (5, None.__class__, object(), 3.5, lambda: 0):
        try:
            qt.QueueNetwork(bad)
        except TypeError:
            ctx.count('rejected')
        else:
            ctx.check(False, 'QueueNetwork(%r) is accepted' % (bad,))
    for bad in (1, None, 2.0, ['RS'], True):
        try:
            qt.QueueNetwork(copy.deepcopy(adj), blocking=bad)
        except TypeError:
            ctx.count('rejected')
        else:
            ctx.check(False, 'blocking=%r is accepted' % (bad,))
        net = qt.QueueNetwork(copy.deepcopy(adj), blocking='RS')
        try:
            net.blocking = bad
        except TypeError:
            ctx.count('rejected')
        else:
            ctx.check(False, 'blocking=%r is accepted' % (bad,))
        ctx.check(net.blocking == 'RS', 'a rejected blocking changed it')
    for bad, exc in ((0, ValueError), (-1, ValueError), (1.5, TypeError), ('3', TypeError)):
        c = rng.choice([qt.QueueServer, qt.LossQueue, qt.InfoQueue])
        try:
            c(num_servers=bad)
        except exc:
            ctx.count('rejected')
        else:
            ctx.check(False, '%s(num_servers=%r) is accepted' % (c.__name__, bad))
    ctx.sig = ('rejected',)
