"""The transition table is what was set, and stays a probability table."""
import copy

import numpy as np
import networkx as nx
import queueing_tool as qt

from vlib import gen, mon as M


def read(ctx, net, model, what):
    d = net.transitions(False)
    m = net.transitions()
    ctx.check(isinstance(m, np.ndarray) and m.shape == (net.nV, net.nV), 'shape of the matrix')
    ctx.check(set(d) == set(model), lambda: '%s: vertices %r' % (what, sorted(d)))
    for u in model:
        ctx.check({v: float(p) for v, p in d.get(u, {}).items()} == model[u],
                  lambda: '%s: vertex %d has transitions %r, should be %r'
                  % (what, u, dict(d.get(u, {})), model[u]))
        row = {v: float(m[u, v]) for v in range(net.nV)}
        want = {v: model[u].get(v, 0.0) for v in range(net.nV)}
        ctx.check(row == want, lambda: '%s: row %d of the matrix is %r, should be %r'
                  % (what, u, row, want))
        if model[u]:
            ctx.check(abs(sum(model[u].values()) - 1) < 1e-4 and min(model[u].values()) >= 0,
                      'the table of vertex %d is not a distribution' % u)
    ctx.count('tables_read')
    if ctx.rng.random() < 0.3:
        m[:] = 7.0
        for u in d:
            d[u].clear()
        d2 = net.transitions(False)
        ctx.check({u: {v: float(p) for v, p in x.items()} for u, x in d2.items()} == model,
                  'changing what transitions returned changed the table')
        ctx.count('returned_table_changed')


def distribution(rng, targets):
    style = rng.choice(['uniform', 'zeros', 'one', 'random', 'skew', 'tol', 'int'])
    n = len(targets)
    if style in ('one', 'int') or n == 1:
        w = [0.0] * n
        w[rng.randrange(n)] = 1.0
        if style == 'int':
            w = [int(x) for x in w]
    elif style == 'uniform':
        w = [1.0 / n] * n
    elif style == 'zeros':
        w = [rng.choice([0.0, 1.0, 2.0]) for _ in range(n)]
        if not sum(w):
            w[0] = 1.0
        s = sum(w)
        w = [x / s for x in w]
    else:
        w = [rng.random() if style == 'random' else 10.0 ** -rng.randint(0, 5) for _ in range(n)]
        s = sum(w) * (1 + (rng.choice([-2e-6, 2e-6]) if style == 'tol' else 0))
        w = [x / s for x in w]
    return dict(zip(targets, w))


def run_case(ctx, i):
    rng = ctx.rng
    if i % 5 == 4:
        return generated(ctx)
    net, desc = gen.network(rng, 'std', table='none', nmin=1, nmax=rng.choice([3, 6, 10]),
                            ntypes=2)
    ctx.desc = desc[:400]
    outs = {v: sorted(e[1] for e in net.g.out_edges(v)) for v in range(net.nV)}
    model = {v: {w: 1.0 / len(outs[v]) for w in outs[v]} for v in outs}
    read(ctx, net, model, 'new network')
    running = rng.random() < 0.3
    if running:
        net.initialize()
    for _ in range(rng.choice([2, 6, 12])):
        if running:
            net.simulate(n=rng.choice([1, 10]))
            del M.LOG[:]
        before = copy.deepcopy(model)
        op = rng.choice(['dict', 'dict', 'matrix', 'bad', 'bad', 'copy'])
        if op == 'copy':
            net = net.copy()
            read(ctx, net, model, 'copy')
        elif op == 'dict':
            vs = rng.sample(range(net.nV), rng.randint(1, net.nV))
            arg = {}
            for v in vs:
                if not outs[v]:
                    if rng.random() < 0.5:
                        arg[v] = {}
                    continue
                d = distribution(rng, outs[v])
                model[v] = {w: float(d[w]) for w in outs[v]}
                if rng.random() < 0.5:      # edges of probability zero may be left out
                    d = {w: p for w, p in d.items() if p}
                if rng.random() < 0.2:      # and other vertices may be named with zero
                    for w in range(net.nV):
                        d.setdefault(w, 0)
                items = list(d.items())
                rng.shuffle(items)
                arg[v] = dict(items)
            keep = copy.deepcopy(arg)
            net.set_transitions(arg)
            ctx.check(arg == keep, 'set_transitions changed its argument')
            ctx.count('set_dict')
            read(ctx, net, model, 'after set_transitions(%r)' % (arg,))
        elif op == 'matrix':
            m = np.zeros((net.nV, net.nV))
            for v in outs:
                if outs[v]:
                    d = distribution(rng, outs[v])
                    model[v] = {w: float(d[w]) for w in outs[v]}
                    for w, p in d.items():
                        m[v, w] = p
            if (m == m.astype(int)).all() and rng.random() < 0.5:
                m = m.astype(int)
            if rng.random() < 0.2:
                m = np.asfortranarray(m)
            net.set_transitions(m)
            m[:] = 5
            ctx.count('set_matrix')
            read(ctx, net, model, 'after setting a matrix')
        else:
            bad(ctx, net, outs, model)
            model = before
            read(ctx, net, model, 'after a rejected table')
    ctx.sig = (desc,)
    ctx.nontrivial = net.nE > 1


def bad(ctx, net, outs, model):
    rng = ctx.rng
    n = net.nV
    kind = rng.choice(['vertex', 'negative', 'low', 'high', 'nonedge', 'nan', 'type', 'shape',
                       'm_negative', 'm_sum', 'm_shift', 'm_nonedge', 'm_nan', 'empty'])
    vs = [v for v in outs if outs[v]]
    if not vs:
        return
    v = rng.choice(vs)
    exc = ValueError
    if kind == 'vertex':
        arg = {rng.choice([n, n + 5, -1, 'a']): {0: 1.0}}
    elif kind == 'type':
        exc = TypeError
        arg = rng.choice([None, 5, 'x', [[1.0]], [{0: {1: 1.0}}], (1, 2), np.eye(n).tolist()])
    elif kind == 'shape':
        arg = np.ones(rng.choice([(n, n + 1), (n + 1, n + 1), (n, n, 1), (n * n,), (n + 1, n)]))
        arg /= arg.shape[-1]
    elif kind.startswith('m_'):
        arg = np.zeros((n, n))
        for u in vs:
            for w, p in distribution(rng, outs[u]).items():
                arg[u, w] = p
        if kind == 'm_sum':
            arg[v, rng.choice(outs[v])] += rng.choice([0.01, -0.01, 1.0, -0.5])
        elif kind == 'm_shift':
            # what one row lacks another one has too much
            if len(vs) < 2:
                return
            u = rng.choice([x for x in vs if x != v])
            c = rng.choice([0.05, 0.5, 1.0])
            arg[v] *= 1 - c
            arg[u] *= 1 + c
        elif kind == 'm_nan':
            arg[v, rng.choice(outs[v])] = np.nan
        elif kind == 'm_negative':
            if len(outs[v]) < 2:
                return
            a, b = rng.sample(outs[v], 2)
            arg[v] = 0
            arg[v, a], arg[v, b] = 1.5, -0.5
        else:
            free = [w for w in range(n) if w not in outs[v]]
            if not free:
                return
            arg[v] = 0
            arg[v, rng.choice(free)] = 0.25
            arg[v, outs[v][0]] = 0.75
    else:
        d = distribution(rng, outs[v])
        w = rng.choice(outs[v])
        if kind == 'negative':
            if len(outs[v]) < 2:
                return
            a, b = rng.sample(outs[v], 2)
            d = {a: 1.5, b: -0.5}
        elif kind == 'low':
            d = {x: p * rng.choice([0.0, 0.5, 0.99]) for x, p in d.items()}
            if sum(d.values()) > 0.999:
                return
        elif kind == 'high':
            d = {x: p * rng.choice([1.01, 2.0]) for x, p in d.items()}
            if sum(d.values()) < 1.001:
                return
        elif kind == 'nan':
            d[w] = float('nan')
        elif kind == 'empty':
            d = {}
        else:
            free = [x for x in range(n) if x not in outs[v]] + [n + 3]
            d = {outs[v][0]: 0.75, rng.choice(free): 0.25}
        arg = {v: d}
    try:
        net.set_transitions(arg)
    except exc:
        ctx.count('rejected')
        ctx.count('rejected_' + kind)
    except Exception as e:
        ctx.check(False, 'set_transitions(%r) [%s] raised %r instead of %s'
                  % (arg, kind, e, exc.__name__))
    else:
        ctx.check(False, 'set_transitions(%r) [%s] is accepted' % (arg, kind))


def generated(ctx):
    rng = ctx.rng
    g = gen.random_digraph(rng, nmin=1, nmax=rng.choice([4, 9, 16]), types=(1, 2))
    ctx.desc = 'random matrix for %r' % sorted(g.edges())
    n = g.number_of_nodes()
    form = rng.choice(['nx', 'wrapped', 'net', 'undirected'])
    arg = g
    edges = set(g.edges())
    if form == 'wrapped':
        arg = qt.QueueNetworkDiGraph(g)
    elif form == 'undirected':
        arg = nx.Graph()
        arg.add_nodes_from(range(n))
        arg.add_edges_from(edges)
        edges |= {(b, a) for a, b in edges}
    elif form == 'net':
        net = qt.QueueNetwork(g)
        arg = net.g
    m = qt.generate_transition_matrix(arg, **({} if rng.random() < 0.5 else
                                             {'seed': rng.randrange(2 ** 31)}))
    ctx.check(m.shape == (n, n) and (m >= 0).all(), lambda: 'random matrix %r' % m)
    for u in range(n):
        o = [b for a, b in edges if a == u]
        ctx.check(all(m[u, w] == 0 for w in range(n) if w not in o),
                  'the random matrix is positive off the edges of vertex %d' % u)
        if o:
            ctx.check(abs(m[u].sum() - 1) < 1e-9, lambda: 'row %d of the random matrix sums to %r'
                      % (u, m[u].sum()))
    ctx.count('generated')
    if form == 'net':
        net.set_transitions(m)
        read(ctx, net, {u: {w: float(m[u, w]) for a, w in edges if a == u} for u in range(n)},
             'after setting a random matrix')
    ctx.sig = ('generated', form, tuple(sorted(edges)))


