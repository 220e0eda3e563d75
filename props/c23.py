"""Adjacency data, graph and back."""
import copy

import numpy as np
import networkx as nx
import queueing_tool as qt

PROPS = ['length', 'name', 'w']


def random_edges(rng, n):
    p = rng.choice([0.1, 0.3, 0.6])
    return {(u, v): {} for u in range(n) for v in range(n) if rng.random() < p}


def expected(edges, vertices, adjust):
    """Properties by edge after the terminal vertices are adjusted."""
    out = {e: dict(p) for e, p in edges.items()}
    for p in out.values():
        p.setdefault('edge_type', 1)
    ends = {u for u, _v in edges}
    term = set(vertices) - ends
    for v in term:
        if adjust == 2:
            for e in out:
                if e[1] == v:
                    out[e]['edge_type'] = 0
        else:
            out[(v, v)] = {'edge_type': 0}
    return out, term


def look(g):
    return set(g.nodes()), {(u, v): dict(d) for u, v, d in g.edges(data=True)}


def same(a, b):
    return a[0] == b[0] and set(a[1]) == set(b[1]) and all(
        set(a[1][e]) == set(b[1][e]) and all(a[1][e][k] == b[1][e][k] for k in a[1][e])
        for e in a[1])


def run_case(ctx, i):
    rng = ctx.rng
    if i % 12 == 11:
        return rejected(ctx)
    n = rng.choice([1, 2, 3, 4, 6, 9])
    edges = random_edges(rng, n)
    form = rng.choice(['dicts', 'dicts', 'lists', 'matrix'])
    vertices = set(range(n))
    typed = False
    if form == 'dicts':
        for e in edges:
            if rng.random() < 0.4:
                edges[e]['edge_type'] = rng.choice([1, 2, 3, 7])
            for p in PROPS:
                if rng.random() < 0.2:
                    edges[e][p] = rng.choice([0, 1.5, 'x', (1, 2)])
    listed = list(range(n))
    rng.shuffle(listed)
    if form != 'matrix' and rng.random() < 0.4:
        # vertices without out-edges need not be keys, if something leads to them
        ends = {u for u, _v in edges}
        heads = {v for _u, v in edges}
        listed = [v for v in listed if v in ends or v not in heads]
    es = list(edges.items())
    rng.shuffle(es)
    if form == 'matrix':
        adj = np.zeros((n, n), rng.choice([int, float, bool]))
        for e in edges:
            adj[e] = True if adj.dtype == bool else rng.choice(
                [1, 1, 3, -1] if adj.dtype == int else [1, 1, 3, -1, 0.5, -0.25, 1e-12])
    elif form == 'lists':
        adj = {v: [] for v in listed}
        for (u, v), _p in es:
            adj[u].append(v)
    else:
        adj = {v: {} for v in listed}
        for (u, v), p in es:
            adj[u][v] = copy.deepcopy(p)
    if not listed:
        return
    # types given separately
    et = None
    if edges and rng.random() < 0.6:
        typed = True
        pick = {e: rng.choice([1, 2, 3, 4]) for e in edges if rng.random() < 0.6}
        if pick:
            if rng.random() < 0.5:
                et = np.zeros((n, n), int)
                for e, t in pick.items():
                    et[e] = t
            else:
                et = {}
                for e, t in pick.items():
                    et.setdefault(e[0], {})[e[1]] = t
            for e, t in pick.items():
                edges[e]['edge_type'] = t
    adjust = rng.choice([1, 2, None])
    want, term = expected(edges, vertices, adjust)
    kw = {}
    if et is not None:
        kw['edge_type'] = et
    if adjust is not None:
        kw['adjust'] = adjust
    ctx.desc = '%s %r edge_type=%r adjust=%r' % (form, adj if form != 'matrix' else adj.tolist(),
                                                 et, adjust)
    keep = copy.deepcopy(adj)
    g = qt.adjacency2graph(adj, **kw)
    ctx.count('conversions')
    ctx.count('form_' + form)
    if term:
        ctx.count('with_terminals')
    got = look(g)
    ctx.check(isinstance(g, nx.DiGraph), 'adjacency2graph returned %r' % type(g))
    ctx.check(same(got, (vertices, want)), lambda: 'graph %r, expected %r' % (
        (sorted(got[0]), sorted(got[1].items())), (sorted(vertices), sorted(want.items()))))
    # through the graph class
    if form != 'matrix':
        w = qt.QueueNetworkDiGraph(keep)
        plain = {e: {k: v for k, v in p.items()} for e, p in edges.items()}
        for e in plain:
            if typed:
                plain[e].pop('edge_type', None)
                if form == 'dicts' and e[0] in keep and 'edge_type' in keep[e[0]].get(e[1], {}):
                    plain[e]['edge_type'] = keep[e[0]][e[1]]['edge_type']
        want1, _t = expected(plain, vertices, 1)
        if not typed:
            got = look(w)
            ctx.check(same(got, (vertices, want1)), lambda: 'QueueNetworkDiGraph: %r, expected %r'
                      % (sorted(got[1].items()), sorted(want1.items())))
            ctx.count('wrapped')
            ctx.check(dict(w.edge_index) == {e: k for k, e in enumerate(sorted(want1))},
                      'edge numbers of the graph class')
            for e in want1:
                ctx.check(w.is_edge(e) and w.ep(e, 'edge_type') == want1[e]['edge_type'],
                          'edge property of %r' % (e,))
    # and back
    d = qt.graph2dict(g)
    ctx.check({k: set(v) for k, v in d.items()} ==
              {v: {b for a, b in want if a == v} for v in vertices} and
              all(dict(d[u][v]) == p for (u, v), p in want.items()),
              lambda: 'graph2dict: %r, expected %r' % (d, want))
    lists = qt.graph2dict(g, return_dict_of_dict=False)
    ctx.check({k: sorted(v) for k, v in lists.items()} ==
              {v: sorted(b for a, b in want if a == v) for v in vertices},
              lambda: 'graph2dict: %r' % lists)
    d2 = copy.deepcopy({k: {a: dict(b) for a, b in v.items()} for k, v in d.items()})
    g2 = qt.adjacency2graph(d2, adjust=adjust or 1)
    if adjust != 2 or not term:
        ctx.check(same(look(g2), look(g)), 'the graph converted back and again is another')
        ctx.count('round_trips')
    # an undirected graph has its edges both ways
    u = nx.Graph()
    u.add_nodes_from(vertices)
    u.add_edges_from(edges)
    d = qt.graph2dict(u)
    both = {(a, b) for a, b in edges} | {(b, a) for a, b in edges}
    ctx.check({(a, b) for a, x in d.items() for b in x} == both and set(d) == vertices,
              lambda: 'graph2dict of an undirected graph: %r' % d)
    ctx.sig = (form, tuple(sorted(want.items(), key=str)), adjust)
    ctx.nontrivial = len(edges) > 0


def rejected(ctx):
    ctx.desc = 'unsuitable input'
    for bad in (5, None, 'graph', [[0, 1], [1, 0]], [(0, 1)], nx.DiGraph(), object(), 2.5,
                (1, 2), {1, 2}):
        try:
            qt.adjacency2graph(bad)
        except TypeError:
            ctx.count('rejected')
        else:
            ctx.check(False, 'adjacency2graph(%r) is accepted' % (bad,))
    for bad in (5, object(), 2.5):
        for f in (qt.generate_transition_matrix, qt.set_types_random, qt.add_edge_lengths,
                  lambda b: qt.set_types_rank(b, np.array([1.0]))):
            try:
                f(bad)
            except TypeError:
                ctx.count('rejected')
            else:
                ctx.check(False, 'a graph function accepts %r' % (bad,))
    ctx.sig = ('rejected',)
