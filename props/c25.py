"""Edge types are assigned in the proportions asked for."""
import copy
import math

import numpy as np
import networkx as nx
import queueing_tool as qt

from vlib import gen
from props.c13 import nkl, BOUND


def proportions(rng, types):
    ts = rng.sample(types, rng.randint(1, len(types)))
    w = [rng.choice([0, 1, 1, 2, 5]) for _ in ts]
    if not sum(w):
        w[0] = 1
    return {t: x / float(sum(w)) for t, x in zip(ts, w)}


def some_graph(rng, n=None):
    n = n or rng.choice([2, 3, 5, 8])
    p = rng.choice([0.3, 0.6])
    g = nx.DiGraph()
    vs = list(range(n))
    rng.shuffle(vs)
    g.add_nodes_from(vs)
    for u in vs:
        for v in vs:
            if rng.random() < p:
                g.add_edge(u, v)
                if rng.random() < 0.3:
                    g.adj[u][v]['edge_type'] = 9
    return g


def random_types(ctx):
    rng = ctx.rng
    given = rng.random() < 0.8
    props = proportions(rng, [0, 1, 2, 3, 4, 8]) if given else None
    loops = proportions(rng, [0, 1, 2, 5]) if rng.random() < 0.8 else None
    g0 = some_graph(rng)
    form = rng.choice(['nx', 'wrapped', 'dict', 'matrix'])
    ctx.desc = 'random types %r loops %r %s, %d edges' % (props, loops, form,
                                                         g0.number_of_edges())
    kw = {}
    if props is not None:
        kw['proportions'] = dict(props)
    if loops is not None:
        kw['loop_proportions'] = dict(loops)
    want_p = props if props is not None else {k: 1.0 / 3 for k in (1, 2, 3)}
    want_l = loops if loops is not None else {k: 0.25 for k in range(4)}
    cp, cl = {}, {}
    rounds = rng.choice([1, 1, 40])
    edges = set(g0.edges())
    per = {}
    for _ in range(rounds):
        if form == 'wrapped':
            g = qt.QueueNetworkDiGraph(nx.DiGraph(g0))
        elif form == 'dict':
            g = {v: [] for v in g0.nodes()}
            for u, v in g0.edges():
                g[u].append(v)
            for v in list(g):
                if not g[v]:
                    g[v].append(v)      # no terminal vertices to be adjusted
                    edges.add((v, v))
        elif form == 'matrix':
            g = np.zeros((g0.number_of_nodes(),) * 2)
            for e in g0.edges():
                g[e] = 1
        else:
            g = nx.DiGraph(g0)
        r = qt.set_types_random(g, **kw)
        ctx.check(set(r.edges()) == edges and set(r.nodes()) == set(g0.nodes()),
                  lambda: 'typing changed the graph: %r, was %r' % (sorted(r.edges()),
                                                                    sorted(edges)))
        for e in r.edges():
            t = r.ep(e, 'edge_type')
            want, c = (want_l, cl) if e[0] == e[1] else (want_p, cp)
            ctx.count('edges_typed')
            ctx.check(t in want and want[t] > 0, lambda: 'edge %r has type %r, the proportions '
                      'are %r' % (e, t, want))
            c[t] = c.get(t, 0) + 1
            x = per.setdefault(e, {})
            x[t] = x.get(t, 0) + 1
    for c, want, name in ((cp, want_p, 'edges'), (cl, want_l, 'loops')):
        n = sum(c.values())
        for t, p in want.items():
            if n:
                ctx.count('share_tests')
                ctx.check(nkl(c.get(t, 0), n, p if p < 1 - 1e-12 else 1.0) < BOUND,
                          lambda: '%d of %d %s have type %r of proportion %r'
                          % (c.get(t, 0), n, name, t, p))
    if rounds > 20:
        for e, c in per.items():
            want = want_l if e[0] == e[1] else want_p
            for t, p in want.items():
                ctx.check(nkl(c.get(t, 0), rounds, p if p < 1 - 1e-12 else 1.0) < BOUND,
                          lambda: 'edge %r has type %r of proportion %r in %d of %d graphs'
                          % (e, t, p, c.get(t, 0), rounds))
    # proportions that do not sum to one
    for name in ('proportions', 'loop_proportions'):
        bad = {1: 0.5, 2: rng.choice([0.1, 0.49, 0.6, 2.0])}
        try:
            qt.set_types_random(nx.DiGraph(g0), **{name: bad})
        except ValueError:
            ctx.count('rejected')
        else:
            ctx.check(False, '%s=%r is accepted' % (name, bad))
    ctx.sig = ('random', form, tuple(sorted(want_p.items())), tuple(sorted(want_l.items())),
               tuple(sorted(edges)))


def rank_types(ctx):
    rng = ctx.rng
    n = rng.choice([2, 3, 5, 8, 13, 20])
    g0 = some_graph(rng, n)
    pos = {v: (rng.random() * 10, rng.random() * 10) for v in range(n)}
    rank = np.array([rng.choice([0.1, 0.2, 0.3, rng.random()]) for _ in range(n)])
    kw = {}
    p2 = p3 = 0.1
    if rng.random() < 0.85:
        p2 = kw['pType2'] = rng.choice([0.0, 0.1, 0.25, 0.5, 0.9, 1.0])
        p3 = kw['pType3'] = rng.choice([0.0, 0.1, 0.25, 0.5])
    g = qt.QueueNetworkDiGraph(nx.DiGraph(g0))
    if rng.random() < 0.8:
        g.set_pos(pos)
    else:
        for v in range(n):
            g.nodes[v]['pos'] = pos[v]
        g.pos = np.array([pos[v] for v in range(n)])
    before = {v: g.is_edge((v, v)) for v in range(n)}
    plain = {e for e in g0.edges() if e[0] != e[1]}
    ctx.desc = 'rank types n=%d pType2=%r pType3=%r rank=%r' % (n, p2, p3, rank.tolist())
    r = qt.set_types_rank(g, rank, **kw)
    top = int(math.ceil(n * p2))
    dests = {v for v in range(n) if rank[v] >= np.sort(rank)[-top]} if top else set()
    other = int(p3 * n) if top else 0
    ctx.check({e for e in r.edges() if e[0] != e[1]} == plain, 'typing changed edges')
    ctx.check(set(r.edge_index) == set(r.edges()) and sorted(r.edge_index.values()) ==
              list(range(r.number_of_edges())), 'the edge numbers are not those of its edges')
    types = {e: r.ep(e, 'edge_type') for e in r.edges()}
    ctx.check(all(types[e] == 1 for e in plain), 'an edge that is no loop has type %r'
              % sorted({types[e] for e in plain}, key=str))
    special = {e[0]: t for e, t in types.items() if e[0] == e[1] and t != 1}
    ctx.check(all(t in (2, 3) for t in special.values()), lambda: 'types of loops: %r' % special)
    ctx.check(dests <= set(special), lambda: 'vertices %r of highest rank (%r of %d) have no '
              'special loop' % (sorted(dests - set(special)), p2, n))
    ctx.check(len({special[v] for v in dests if v in special}) <= 1,
              lambda: 'vertices of highest rank have different types: %r' % special)
    near = set(special) - dests
    ctx.check(len(near) <= other, lambda: '%d other special loops, %d were asked for'
              % (len(near), other))
    ctx.check(near or not other or len(dests) == n, 'no other special loops, %d were asked for'
              % other)
    ctx.check(not {special[v] for v in near} & {special.get(v) for v in dests},
              lambda: 'types of the two kinds of loops are the same: %r' % special)
    for v in range(n):
        if v not in special:
            ctx.check(r.is_edge((v, v)) == before[v], 'a loop was added to vertex %d' % v)
            if before[v]:
                ctx.count('ordinary_loops')
    ctx.count('rank_graphs')
    ctx.count('top_vertices', len(dests))
    ctx.count('near_vertices', len(near))
    ctx.sig = ('rank', n, p2, p3, tuple(rank.tolist()))


def run_case(ctx, i):
    (random_types if i % 2 else rank_types)(ctx)
