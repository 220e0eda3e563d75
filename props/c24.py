"""Generated random graphs are connected and minimal."""
import math

import numpy as np
import networkx as nx
import queueing_tool as qt

from props.c13 import nkl, BOUND


def positions(ctx, g, n):
    """The positions of the vertices, or None if they are not all there."""
    ok = set(g.nodes()) == set(range(n))
    ctx.check(ok, lambda: 'vertices %r of %d' % (sorted(g.nodes()), n))
    if not ok:
        return None
    pos = {}
    for v in range(n):
        p = g.vp(v, 'pos')
        ctx.check(p is not None and len(p) == 2, 'vertex %d has no position' % v)
        if p is None:
            return None
        pos[v] = (float(p[0]), float(p[1]))
        ctx.check(tuple(float(x) for x in g.pos[v]) == pos[v],
                  lambda: 'vertex %d is at %r and at %r' % (v, pos[v], g.pos[v]))
    return pos


def minimal(pos):
    """The pairs up to the smallest distance that connects all points."""
    n = len(pos)
    pairs = sorted(((pos[a][0] - pos[b][0]) ** 2 + (pos[a][1] - pos[b][1]) ** 2, a, b)
                   for a in range(n) for b in range(a + 1, n))
    comp = {v: {v} for v in range(n)}
    r = 0.0
    for d, a, b in pairs:
        if comp[a] is not comp[b]:
            u = comp[a] | comp[b]
            for v in u:
                comp[v] = u
            r = d
            if len(u) == n:
                break
    tol = 1e-9
    sure = {(a, b) for d, a, b in pairs if d <= r * (1 - tol)}
    may = {(a, b) for d, a, b in pairs if d <= r * (1 + tol)}
    return sure, may


def structure(ctx, g, n, what):
    pos = positions(ctx, g, n)
    if pos is None:
        return None
    ctx.check(g.is_directed(), what + ' is not directed')
    edges = {e for e in g.edges() if e[0] != e[1]}
    bad = [e for e in edges if (e[1], e[0]) not in edges]
    ctx.check(not bad, lambda: '%s is not symmetric: %r' % (what, bad[:3]))
    und = {(min(e), max(e)) for e in edges}
    sure, may = minimal(pos)
    ctx.check(sure <= und <= may, lambda: '%s: %d vertices, missing %r, not needed %r'
              % (what, n, sorted(sure - und)[:3], sorted(und - may)[:3]))
    u = nx.Graph()
    u.add_nodes_from(range(n))
    u.add_edges_from(und)
    ctx.check(n <= 1 or nx.is_connected(u), '%s with %d vertices is not connected' % (what, n))
    ctx.check(set(g.edge_index) == set(g.edges()) and
              sorted(g.edge_index.values()) == list(range(g.number_of_edges())),
              '%s: the edge numbers are not those of its edges' % what)
    ctx.count('graphs')
    ctx.count('pairs', n * (n - 1) // 2)
    ctx.count('edges', len(und))
    if len(und) > n - 1:
        ctx.count('more_than_a_tree')
    return pos


def pagerank(h, n, alpha=0.85):
    m = np.full((n, n), (1 - alpha) / n)
    for v in range(n):
        out = list(h.successors(v))
        for w in out or range(n):
            m[w, v] += alpha / len(out or range(n))
    a = m - np.eye(n)
    a[-1] = 1.0
    b = np.zeros(n)
    b[-1] = 1.0
    return dict(enumerate(np.linalg.solve(a, b)))


def run_case(ctx, i):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3, 4, 5, 7, 10, 15, 25, 40 if rng.random() < 0.3 else 12])
    seed = rng.choice([None, rng.randrange(2 ** 31), 0])
    kw = {} if seed is None else {'seed': seed}
    if i % 1000 == 500:
        n = rng.choice([260, 300, 380])
        ctx.count('large_graphs')
    how = rng.choice(['minimal', 'minimal', 'random', 'rank'])
    ctx.desc = '%s graph with %d vertices, seed %r' % (how, n, seed)
    if how == 'minimal':
        g = qt.minimal_random_graph(n, **kw)
        structure(ctx, g, n, 'minimal_random_graph')
        ctx.check(not any(a == b for a, b in g.edges()), 'the minimal graph has loops')
        pts = {tuple(p) for p in g.pos}
        ctx.check(len(pts) == n, 'vertices share a position')
        if n > 2:
            h = qt.minimal_random_graph(n, **({} if seed is None else {'seed': seed + 1}))
            ctx.check(not np.array_equal(h.pos, g.pos), 'another graph has the same positions')
    elif how == 'random':
        p = rng.choice([0.0, 1.0, 0.5, 0.2, 0.9, None])
        if p is not None:
            kw['prob_loop'] = p
        loops = total = 0
        for r in range(rng.choice([1, 3, max(3, 150 // n)] if n < 200 else [1])):
            if seed is not None:
                kw['seed'] = (seed + r) % (2 ** 31)
            g = qt.generate_random_graph(n, **kw)
            if structure(ctx, g, n, 'generate_random_graph') is None:
                return
            lp = [e for e in g.edges() if e[0] == e[1]]
            loops += len(lp)
            total += n
            if seed is not None:
                m = qt.minimal_random_graph(n, seed=kw['seed'])
                ctx.check({e for e in g.edges() if e[0] != e[1]} == set(m.edges()),
                          'the random-type graph adds more than loops to the minimal one')
                ctx.count('compared_with_minimal')
        q = 0.5 if p is None else p
        ctx.check(nkl(loops, total, q) < BOUND, lambda: '%d loops at %d vertices, probability %r'
                  % (loops, total, q))
        ctx.count('loop_rates')
    else:
        p2, p3 = rng.choice([(None, None), (0.1, 0.1), (0.3, 0.2), (0.0, 0.1), (0.5, 0.0)])
        if p2 is not None:
            kw.update(pType2=p2, pType3=p3)
        g = qt.generate_pagerank_graph(n, **kw)
        if structure(ctx, g, n, 'generate_pagerank_graph') is None:
            return
        p2 = 0.1 if p2 is None else p2
        p3 = 0.1 if p3 is None else p3
        loops = {e[0]: g.ep(e, 'edge_type') for e in g.edges() if e[0] == e[1]}
        ctx.check(all(g.ep(e, 'edge_type') == 1 for e in g.edges() if e[0] != e[1]),
                  'an edge between vertices has a special type')
        h = nx.DiGraph()
        h.add_nodes_from(sorted(g.nodes()))
        h.add_edges_from(e for e in g.edges() if e[0] != e[1])
        rank = pagerank(h, n)
        top = int(math.ceil(n * p2))
        tol = 1e-5
        if top:
            cut = sorted(rank.values())[-top]
            sure = {v for v in rank if rank[v] > cut + tol}
            may = {v for v in rank if rank[v] >= cut - tol}
        else:
            sure, may = set(), set()
        other = int(p3 * n) if top else 0
        special = set(loops)
        ctx.check(sure <= special, lambda: 'vertices %r of highest rank have no loop'
                  % sorted(sure - special))
        ctx.check(len(special - may) <= other, lambda: 'loops at %r, of highest rank are %r and '
                  '%d others were asked for' % (sorted(special), sorted(may), other))
        ctx.check(len(special) <= len(may) + other, lambda: '%d loops' % len(special))
        ctx.check(all(t in (2, 3) for t in loops.values()), lambda: 'types of loops: %r' % loops)
        ctx.count('rank_graphs')
    ctx.sig = (how, n, seed)
    ctx.nontrivial = n > 2
