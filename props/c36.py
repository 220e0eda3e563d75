"""The graph keeps what is put on it."""
import copy
import math

import networkx as nx
import numpy as np
import queueing_tool as qt

from vlib import gen

NAMES = ['load', 'edge_length', 'note', 'edge_type', 'cap']
VNAMES = ['cap', 'note', 'floor', 'name']
COLORS = ['vertex_color', 'vertex_fill_color']


def value(rng):
    return rng.choice([rng.randint(-3, 9), rng.random(), 'x%d' % rng.randint(0, 3), None,
                       (1, 2), [rng.random()], np.int64(4), True])


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.array_equal(a, b)
    return a is b or (type(a) is type(b) and a == b)


class Model(object):
    """What has been put on a graph."""
    def __init__(self, vs, edges):
        self.v = {v: {} for v in vs}
        self.e = {e: {} for e in edges}
        self.index = {e: k for k, e in enumerate(sorted(edges))}
        self.pos = None
        self.colors = set()
        self.frozen = False


def verify(ctx, g, m, when):
    ctx.count('graphs_verified')
    bad = []
    if sorted(g.nodes()) != sorted(m.v):
        bad.append('vertices %r, not %r' % (sorted(g.nodes()), sorted(m.v)))
    if sorted(g.edges()) != sorted(m.e):
        bad.append('edges %r, not %r' % (sorted(g.edges()), sorted(m.e)))
    if dict(g.edge_index) != m.index:
        bad.append('edge numbers %r, not %r' % (dict(g.edge_index), m.index))
    if bad:
        ctx.check(False, '%s: %s' % (when, '; '.join(bad)))
        return
    for v, d in m.v.items():
        for k, x in d.items():
            ctx.count('properties_read')
            ctx.check(same(g.vp(v, k), x), lambda: '%s: property %s of vertex %r is %r, not %r'
                      % (when, k, v, g.vp(v, k), x))
        ctx.check(sorted(g.out_neighbours(v)) == sorted(w for u, w in m.e if u == v),
                  lambda: '%s: out_neighbours(%r) = %r' % (when, v, g.out_neighbours(v)))
    for e, d in m.e.items():
        for k, x in d.items():
            ctx.count('properties_read')
            ctx.check(same(g.ep(e, k), x), lambda: '%s: property %s of edge %r is %r, not %r'
                      % (when, k, e, g.ep(e, k), x))
        ctx.check(bool(g.is_edge(e)), '%s: is_edge(%r) is not True' % (when, e))
    for k in VNAMES + COLORS:
        for v, d in m.v.items():
            if k not in d:
                ctx.check(g.vp(v, k) is None, lambda: '%s: vertex %r has %s=%r' % (
                    when, v, k, g.vp(v, k)))
    for k in NAMES:
        for e, d in m.e.items():
            if k not in d:
                ctx.check(g.ep(e, k) is None, lambda: '%s: edge %r has %s=%r' % (
                    when, e, k, g.ep(e, k)))
    ctx.check(set(g.vertex_properties()) == set(k for d in m.v.values() for k in d),
              lambda: '%s: vertex properties %r' % (when, g.vertex_properties()))
    ctx.check(set(g.edge_properties()) == set(k for d in m.e.values() for k in d),
              lambda: '%s: edge properties %r' % (when, g.edge_properties()))
    n = len(m.v)
    for u in list(range(n + 2)):
        for w in range(n + 2):
            if (u, w) not in m.e:
                ctx.check(not g.is_edge((u, w)), '%s: is_edge(%r) is not False'
                          % (when, (u, w)))
    types = {repr(d.get('edge_type')): d.get('edge_type') for d in m.e.values()}
    for t in list(types.values()) + [77]:
        if t is None or isinstance(t, (list, np.ndarray)):
            continue
        want = sorted(e for e, d in m.e.items() if d.get('edge_type') is not None and
                      not isinstance(d['edge_type'], list) and d['edge_type'] == t)
        got = g.get_edge_type(t)
        ctx.count('types_asked')
        ctx.check(sorted(got) == want, lambda: '%s: get_edge_type(%r) = %r, the edges of that '
                  'type are %r' % (when, t, got, want))
    if m.pos is None:
        ctx.check(g.pos is None, lambda: '%s: there are positions: %r' % (when, g.pos))
    else:
        want = np.array([m.pos[v] for v in sorted(m.v)])
        ctx.check(g.pos is not None and np.shape(g.pos) == want.shape and
                  np.array_equal(g.pos, want), lambda: '%s: positions are %r, not %r' % (
                      when, g.pos, want))
    for k in sorted(m.colors):
        rows = getattr(g, k)
        if k == 'edge_color':
            for e, d in m.e.items():
                ctx.check(d[k] is None or np.array_equal(rows[g.edge_index[e]], d[k]),
                          lambda: '%s: the color drawn for edge %r is %r, not %r' % (
                              when, e, rows[g.edge_index[e]], d[k]))
        else:
            for v, d in m.v.items():
                ctx.check(d[k] is None or np.array_equal(rows[v], d[k]),
                          lambda: '%s: the color drawn for vertex %r is %r, not %r' % (
                              when, v, rows[v], d[k]))


def positions(rng, vs):
    how = rng.choice(['array', 'list', 'tuple'])
    out = {}
    for v in vs:
        p = [rng.uniform(-3, 3), rng.uniform(-3, 3)]
        out[v] = np.array(p) if how == 'array' else tuple(p) if how == 'tuple' else p
    return out


def angle(p, q):
    """Great circle angle between two points given as latitude and longitude."""
    a = (math.sin((q[0] - p[0]) / 2) ** 2 +
         math.cos(p[0]) * math.cos(q[0]) * math.sin((q[1] - p[1]) / 2) ** 2)
    return 2 * math.atan2(math.sqrt(a), math.sqrt(max(0.0, 1 - a)))


def lengths(ctx, rng, g, m, when):
    """Lengths of the edges: they depend on the positions of the ends, and on nothing else."""
    ctx.count('lengths_added')
    r = qt.add_edge_lengths(g)
    ctx.check(r is g, '%s: add_edge_lengths gave another graph' % when)
    got = {e: g.ep(e, 'edge_length') for e in m.e}
    for e in m.e:
        m.e[e]['edge_length'] = got[e]
        p, q = m.pos[e[0]], m.pos[e[1]]
        x = got[e]
        if not ctx.check(isinstance(x, (int, float, np.number)) and np.isfinite(x) and x >= 0,
                         lambda: '%s: edge %r has length %r' % (when, e, x)):
            return
        if e[0] == e[1] or tuple(p) == tuple(q):
            ctx.check(x == 0, lambda: '%s: edge %r between equal places has length %r'
                      % (when, e, x))
        if e[::-1] in got:
            ctx.check(abs(x - got[e[::-1]]) < 2e-3, lambda: '%s: lengths %r of %r and %r of its '
                      'reverse' % (when, x, e, got[e[::-1]]))
    far = [(angle(m.pos[a], m.pos[b]), got[a, b], (a, b)) for a, b in m.e]
    d, x, e = max(far)
    if d > 1e-2:
        scale = x / d
        for d2, x2, e2 in far:
            ctx.count('lengths_compared')
            ctx.check(abs(x2 - scale * d2) < 2e-3 + 1e-3 * d2 / d,
                      lambda: '%s: edge %r of %.4g degrees has length %r, edge %r of %.4g degrees '
                      'has length %r' % (when, e2, d2, x2, e, d, x))


def run_case(ctx, i):
    rng = ctx.rng
    base = gen.random_digraph(rng, nmin=1, nmax=rng.choice([3, 6, 10]), types=(1, 2, 3))
    vs, es = list(base.nodes()), list(base.edges())
    m = Model(vs, es)
    typed = rng.random() < 0.7
    form = rng.choice(['nx', 'nx', 'dict', 'qt', 'undirected'])
    plain = nx.DiGraph()
    plain.add_nodes_from(vs)
    for e in es:
        plain.add_edge(*e)
        if typed:
            t = base.adj[e[0]][e[1]]['edge_type']
            plain.adj[e[0]][e[1]]['edge_type'] = t
            m.e[e]['edge_type'] = t
    if form == 'dict':
        adj = {v: {w: dict(plain.adj[v][w]) for w in plain.adj[v]} for v in vs}
        g = qt.QueueNetworkDiGraph(qt.adjacency2graph(adj, adjust=0)
                                   if rng.random() < 0.3 else adj)
        # loops are put where a vertex has no out-edges
        m = Model(vs, list(g.edges()))
        for e in g.edges():
            t = g.ep(e, 'edge_type')
            m.e[e] = dict(g.adj[e[0]][e[1]])
            ctx.check(e in plain.edges() or e[0] == e[1], 'edge %r is new' % (e,))
            if e in plain.edges() and typed:
                ctx.check(t == plain.adj[e[0]][e[1]]['edge_type'] or t == 0,
                          lambda: 'edge %r has type %r' % (e, t))
        ctx.check(set(plain.edges()) <= set(g.edges()), 'edges are missing')
    else:
        if rng.random() < 0.4:
            m.pos = positions(rng, vs)
            nx.set_node_attributes(plain, m.pos, 'pos')
            for v in vs:
                m.v[v]['pos'] = m.pos[v]
        if form == 'undirected':
            u = nx.Graph(plain)
            for v in vs:
                u.nodes[v].update(plain.nodes[v])
            d = nx.DiGraph(u)
            m2 = Model(vs, list(d.edges()))
            m2.v, m2.pos = m.v, m.pos
            m2.e = {e: dict(d.adj[e[0]][e[1]]) for e in d.edges()}
            m = m2
            g = qt.QueueNetworkDiGraph(u)
        else:
            g = qt.QueueNetworkDiGraph(plain)
            if form == 'qt':
                g = qt.QueueNetworkDiGraph(g)
    ctx.desc = '%s graph on %r with %r' % (form, vs, es)
    verify(ctx, g, m, 'new graph')
    log = []
    for step in range(rng.choice([3, 10, 25])):
        if ctx.viol:
            return
        r = rng.random()
        nodes, edges = sorted(m.v), sorted(m.e)
        if r < 0.25 and edges:
            e, k, x = rng.choice(edges), rng.choice(NAMES), value(rng)
            if k == 'edge_type':
                x = rng.choice([rng.randint(0, 9), np.int64(3), None])
            log.append(('set_ep', e, k, x))
            g.set_ep(e, k, x)
            m.e[e][k] = x
        elif r < 0.45:
            v, k, x = rng.choice(nodes), rng.choice(VNAMES), value(rng)
            if rng.random() < 0.15:
                k, x = 'name', value(rng)
                if hasattr(g, 'name'):
                    k = 'label'
            log.append(('set_vp', v, k, x))
            if k != 'name':
                g.set_vp(v, k, x)
                m.v[v][k] = x
        elif r < 0.52:
            k = rng.choice(VNAMES[:3])
            log.append(('new_vertex_property', k))
            g.new_vertex_property(k)
            for v in nodes:
                m.v[v][k] = None
        elif r < 0.59:
            k = rng.choice(NAMES)
            log.append(('new_edge_property', k))
            g.new_edge_property(k)
            for e in edges:
                m.e[e][k] = None
        elif r < 0.67 and not m.frozen and not m.colors:
            if rng.random() < 0.3 and edges:
                e = rng.choice(edges)          # an edge that is there
            else:
                n = len(nodes)
                e = (rng.choice(nodes), rng.choice(nodes))
            kw = {'edge_type': rng.randint(1, 3)} if rng.random() < 0.5 else {}
            log.append(('add_edge', e, kw))
            g.add_edge(*e, **kw)
            if e not in m.e:
                m.e[e] = {}
                m.index[e] = len(m.index)
            m.e[e].update(kw)
            ctx.count('edges_added')
        elif r < 0.75:
            if rng.random() < 0.75:
                m.pos = positions(rng, nodes)
                p = dict(m.pos)
                items = list(p.items())
                rng.shuffle(items)
                log.append(('set_pos',))
                g.set_pos(dict(items))
            else:
                log.append(('set_pos', None))
                g.set_pos()
                ctx.check(np.shape(g.pos) == (len(nodes), 2) and np.isfinite(g.pos).all(),
                          lambda: 'positions %r' % (g.pos,))
                m.pos = {v: g.vp(v, 'pos') for v in nodes}
            for v in nodes:
                m.v[v]['pos'] = m.pos[v]
            ctx.count('positions_set')
        elif r < 0.80 and edges and m.pos is not None:
            log.append(('add_edge_lengths',))
            lengths(ctx, rng, g, m, 'after %r' % log[-4:])
        elif r < 0.86 and edges:
            k = rng.choice(COLORS + ['edge_color', 'edge_color'])
            log.append(('color', k))
            if k not in m.colors:
                if k == 'edge_color':
                    g.new_edge_property(k)
                    for e in edges:
                        m.e[e][k] = None
                else:
                    g.new_vertex_property(k)
                    for v in nodes:
                        m.v[v][k] = None
                m.colors.add(k)
            for _ in range(rng.randint(1, 4)):
                c = [rng.random() for _ in range(4)]
                if k == 'edge_color':
                    e = rng.choice(edges)
                    g.set_ep(e, k, c)
                    m.e[e][k] = c
                else:
                    v = rng.choice(nodes)
                    g.set_vp(v, k, c)
                    m.v[v][k] = c
            ctx.count('colors_set')
        elif r < 0.90 and not m.frozen:
            log.append(('freeze',))
            g.freeze()
            m.frozen = True
        elif r < 0.95 and m.frozen:
            log.append(('frozen',))
            how = rng.choice(['add', 'node', 'remove'])
            try:
                if how == 'add':
                    g.add_edge(rng.choice(nodes), len(nodes) + 3)
                elif how == 'node':
                    g.add_node(len(nodes) + 5)
                elif edges:
                    g.remove_edge(*rng.choice(edges))
                else:
                    raise nx.NetworkXError()
            except nx.NetworkXError:
                ctx.count('frozen_kept')
            else:
                ctx.check(False, 'a frozen graph was changed (%s)' % how)
        else:
            log.append(('deepcopy',))
            h = copy.deepcopy(g)
            mm = copy.deepcopy(m)
            verify(ctx, h, mm, 'copy after %r' % log[-3:])
            ctx.count('copies')
            if edges and rng.random() < 0.5:
                # the original goes its own way
                g.set_ep(edges[0], 'note', 'elsewhere')
                g.set_vp(nodes[0], 'cap', 'elsewhere')
            g, m = h, mm
        ctx.count('operations')
        verify(ctx, g, m, 'after %r' % (log[-3:],))
    ctx.sig = (form, tuple(es), tuple(x[0] for x in log))
    ctx.nontrivial = len(log) > 2 and len(es) > 0
