"""A request that is refused changes nothing."""
import io
import random

import numpy as np
import networkx as nx
import queueing_tool as qt

from vlib import gen, mon as M, twin, netops

BADN = [(0, ValueError), (-1, ValueError), (-7, ValueError), (1.5, TypeError), (2.0, TypeError),
        ('2', TypeError), (None, TypeError), ([1], TypeError)]
BADS = [(0, ValueError), (-1, ValueError), (-5, ValueError), (2.5, TypeError), (1.0, TypeError),
        ('2', TypeError), (None, TypeError), (float('nan'), TypeError), ([2], TypeError),
        (np.int64(0), ValueError), (np.float64(3), TypeError)]


def bad_rows(rng, net):
    """A row that is no probability row over the edges of its vertex."""
    v = rng.choice([u for u in range(net.nV) if net.out_edges[u]])
    outs = [e[1] for e in sorted(net.g.out_edges(v))]
    others = [w for w in range(net.nV) if w not in outs]
    how = rng.choice(['sum', 'negative', 'edge', 'key', 'huge', 'none'])
    p = [1.0 / len(outs)] * len(outs)
    if how == 'negative' and len(outs) > 1:
        p[0], p[1] = p[0] + 1.5, p[1] - 1.5
    elif how == 'edge' and others:
        row = dict(zip(outs, p))
        x = rng.choice(outs)
        row[rng.choice(others)] = row[x] / 2
        row[x] /= 2
        return v, row
    elif how == 'key':
        return net.nV + rng.randint(0, 5), dict(zip(outs, p))
    elif how == 'huge':
        p = [x + 1.0 for x in p]
    elif how == 'none':
        p = [0.0] * len(outs)
    else:
        p[rng.randrange(len(p))] += rng.choice([0.01, -0.01, 0.5])
    return v, dict(zip(outs, p))


def matrix(net):
    m = np.zeros((net.nV, net.nV))
    for u, row in net.transitions(False).items():
        for w, p in row.items():
            m[u, w] = p
    return m


def bad_matrix(rng, net):
    m = matrix(net)
    v = rng.choice([u for u in range(net.nV) if net.out_edges[u]])
    outs = [e[1] for e in sorted(net.g.out_edges(v))]
    others = [w for w in range(net.nV) if w not in outs]
    how = rng.choice(['shape', 'sum', 'negative', 'edge', 'two'])
    if how == 'shape':
        s = rng.choice([(net.nV + 1, net.nV + 1), (net.nV, net.nV + 1), (net.nV * net.nV,),
                        (net.nV - 1, net.nV - 1)])
        return np.ones(s) / max(1, s[-1])
    if how == 'negative' and len(outs) > 1:
        m[v, outs[0]] += 2.5
        m[v, outs[1]] -= 2.5
        if min(m[v]) < 0:
            return m
        m[v, outs[0]] += 1
    elif how == 'edge' and others:
        x = max(outs, key=lambda w: m[v, w])
        w = rng.choice(others)
        m[v, w], m[v, x] = m[v, x] / 2, m[v, x] / 2
    else:
        m[v, rng.choice(outs)] += rng.choice([0.5, -0.02])
    return m


def net_refusals(rng, net, ready=True):
    """One request that has to be refused: (name, call, error)."""
    how = rng.choice(['nActive', 'nActive', 'none', 'row', 'row', 'matrix', 'matrix', 'table_type',
                      'blocking', 'servers', 'servers', 'build', 'graphs'] +
                     ([] if ready else ['simulate', 'simulate', 'animate', 'simulate_t']))
    if how == 'nActive':
        n, e = rng.choice(BADN)
        return how, lambda: net.initialize(nActive=n), e
    if how == 'none':
        null = [k for k, q in enumerate(net.edge2queue) if q.edge[3] == 0]
        sel = rng.choice([[], null, tuple(null), np.array(null, int)])
        kw = rng.choice([{'queues': sel}, {'edge_type': max(q.edge[3] for q in net.edge2queue) + 3},
                         {'queues': []}] + ([{'edge_type': 0}] if null else []))
        return how, lambda: net.initialize(**kw), qt.QueueingToolError
    if how == 'row':
        v, row = bad_rows(rng, net)
        table = {v: row}
        if rng.random() < 0.6:
            # among rows that are fine
            good = gen.random_table(rng, net, rng.choice(['uniform', 'zeros', 'some'])) or {}
            keys = [u for u in good if u != v]
            rng.shuffle(keys)
            keys.insert(rng.randint(0, len(keys)), v)
            table = {u: (row if u == v else good[u]) for u in keys}
            if len(table) > 1:
                how = 'rows'
        return how, lambda: net.set_transitions(table), ValueError
    if how == 'matrix':
        m = bad_matrix(rng, net)
        return how, lambda: net.set_transitions(m), ValueError
    if how == 'table_type':
        x = rng.choice([None, 3, 'uniform', [[1.0]], [(0, 1)]])
        return how, lambda: net.set_transitions(x), TypeError
    if how == 'blocking':
        x = rng.choice([None, True, False, 0, 1, ['RS'], b'RS'])
        return how, lambda: setattr(net, 'blocking', x), TypeError
    if how == 'servers':
        ks = [k for k, q in enumerate(net.edge2queue)
              if not isinstance(q, (qt.NullQueue, qt.ResourceQueue))]
        if not ks:
            return net_refusals(rng, net, ready)
        q = net.edge2queue[rng.choice(ks)]
        n, e = rng.choice(BADS)
        return how, lambda: q.set_num_servers(n), e
    if how == 'build':
        r = rng.randrange(4)
        if r == 0:
            return 'build_graph', lambda: qt.QueueNetwork(rng.choice([5, 2.5, object()])), TypeError
        if r == 1:
            return ('build_blocking', lambda: qt.QueueNetwork({0: [1], 1: [0]}, blocking=1),
                    TypeError)
        n, e = rng.choice(BADS)
        if r == 2:
            return ('build_args', lambda: qt.QueueNetwork({0: [1], 1: [0]},
                                                          q_args={1: {'num_servers': n}}), e)
        c = rng.choice([qt.QueueServer, qt.LossQueue, qt.InfoQueue])
        return 'build_queue', lambda: c(num_servers=n), e
    if how == 'graphs':
        r = rng.randrange(4)
        if r == 0:
            return ('graph_type', lambda: rng.choice([
                qt.generate_transition_matrix, qt.set_types_random, qt.add_edge_lengths])(5), TypeError)
        if r == 1:
            return 'adjacency', lambda: qt.adjacency2graph(rng.choice([[1], 'a', 3, None])), TypeError
        g = net.g
        key = rng.choice(['proportions', 'loop_proportions'])
        bad = rng.choice([{1: 0.5, 2: 0.4}, {1: 1.2}, {1: 0.5, 2: 0.6}])
        return 'proportions', lambda: qt.set_types_random(g, **{key: bad}), ValueError
    if how == 'simulate':
        n = rng.choice([1, 5, 100])
        return how, lambda: net.simulate(n=n), qt.QueueingToolError
    if how == 'simulate_t':
        return how, lambda: net.simulate(t=rng.choice([0.1, 10.0])), qt.QueueingToolError
    return how, lambda: netops.animate(net, 3), qt.QueueingToolError


def refused(ctx, name, call, exc, where):
    c0, x = twin.rand_state(), len(M.LOG)
    try:
        call()
    except exc as e:
        ctx.check(type(e) is exc or exc is not ValueError or not isinstance(e, UnicodeError),
                  'strange error')
        ctx.count('refused')
        ctx.count('refused_' + name)
    except Exception as e:
        ctx.check(False, '%s %s: raised %r instead of %s' % (name, where, e, exc.__name__))
    else:
        ctx.check(False, '%s %s: is accepted, %s was expected' % (name, where, exc.__name__))
    ctx.check(twin.rand_state() == c0, lambda: '%s %s: random numbers were drawn' % (name, where))
    ctx.check(len(M.LOG) == x, lambda: '%s %s: something happened: %r' % (
        name, where, M.LOG[x:][:3]))


def networks(ctx):
    rng = ctx.rng
    seed = rng.random()
    profile = rng.choice(['std', 'mix', 'mix', 'tight', 'res', 'info', 'greedy'])
    npseed = rng.randrange(2 ** 31)
    np.random.seed(npseed)
    a, desc, kw = twin.same_net(seed, profile=profile)
    np.random.seed(npseed)
    b, _d, _k = twin.same_net(seed, profile=profile)
    ctx.desc = desc

    def same(when):
        x, y = netops.full(a), netops.full(b)
        ctx.count('states_compared')
        return ctx.check(x == y, lambda: '%s: asked only for what is allowed / also for what is '
                         'refused: %s' % (when, twin.diff(x, y)))

    # before initialize
    np.random.seed(npseed)
    names = []
    for _ in range(rng.choice([0, 2, 4])):
        names.append(net_refusals(rng, b, ready=False))
        refused(ctx, *names[-1], where='before initialize')
    if names and not same('before initialize, after %r' % [x[0] for x in names]):
        return
    np.random.seed(npseed)
    a.initialize(**kw)
    s = twin.Rand()
    np.random.seed(npseed)
    b.initialize(**kw)
    del M.LOG[:]
    events = 0
    for _ in range(rng.choice([4, 8, 15])):
        ops = netops.script(rng, a, rng.choice([1, 1, 3]), quiet=True)
        if rng.random() < 0.06:
            ops.append(('clear',))
        ready = True
        s.back()
        out = {}
        ta = twin.traced(lambda: out.update(a=apply(a, ops)))
        sa = twin.Rand()
        names = []
        before = rng.random() < 0.8

        def asking():
            ready = True
            r = []
            for op in ops:
                for _ in range(rng.choice([1, 2, 4]) if before else 0):
                    names.append(net_refusals(rng, b, ready=ready)[0:3])
                    refused(ctx, *names[-1], where='after %d events' % b.num_events)
                r += apply(b, [op])
                if op[0] == 'clear':
                    ready = False
            for _ in range(rng.choice([1, 2])):
                names.append(net_refusals(rng, b, ready=ready)[0:3])
                refused(ctx, *names[-1], where='after %d events' % b.num_events)
            out['b'] = r
        s.back()
        tb = twin.traced(asking)
        sb = twin.Rand()
        s = sa
        events += len(tb)
        what = [x[0] for x in names]
        ctx.check(ta == tb, lambda: 'without / with refused requests: %s (%r)' % (
            twin.first_diff(ta, tb), what))
        ctx.check(out['a'] == out['b'], lambda: 'the answers differ after %r' % what)
        ctx.check(all(np.array_equal(p, q) for p, q in zip(sa.s, sb.s)),
                  'other random numbers were drawn')
        same(repr(what))
        if ctx.viol:
            return
        if ops[-1][0] == 'clear':
            s.back()
            a.initialize(**kw)
            sa = twin.Rand()
            s.back()
            b.initialize(**kw)
            s = sa
            del M.LOG[:]
            ctx.count('cleared')
    ctx.count('compared_events', events)
    ctx.sig = (desc, a.num_events)
    ctx.nontrivial = events > 20


def apply(net, ops):
    out = []
    for op in ops:
        if op[0] == 'clear':
            net.clear()
        else:
            out += netops.apply(net, [op])
    return out


def queues(ctx):
    rng = ctx.rng
    seed = rng.random()
    a, kind, desc = twin.same_queue(seed, kinds=('std', 'loss', 'info'))
    b, _k, _d = twin.same_queue(seed, kinds=('std', 'loss', 'info'))
    ctx.desc = desc
    npseed = rng.randrange(2 ** 31)
    np.random.seed(npseed)
    a.set_active()
    s = twin.Rand()
    np.random.seed(npseed)
    b.set_active()
    del M.LOG[:]
    n = 0
    for _ in range(rng.choice([20, 60])):
        r = rng.random()
        k = rng.choice([1, 1, 3, 10])

        def go(q):
            if q.next_event_description() != 0:
                if r < 0.8:
                    q.simulate(n=k)
                elif r < 0.9:
                    q.set_inactive() if q.active else q.set_active()
                else:
                    q.set_num_servers(1 + int(10 * r) % 3)
        s.back()
        ta = twin.traced(lambda: go(a))
        sa = twin.Rand()
        s.back()
        x, e = rng.choice(BADS)
        refused(ctx, 'servers', lambda: b.set_num_servers(x), e,
                'with %d in line' % b.number_queued())
        tb = twin.traced(lambda: go(b))
        n += len(tb)
        ctx.check(ta == tb, lambda: 'without / with set_num_servers(%r): %s' % (
            x, twin.first_diff(ta, tb)))
        u, v = twin.snap_queue(a), twin.snap_queue(b)
        ctx.check(u == v, lambda: 'without / with set_num_servers(%r): %s' % (x, twin.diff(u, v)))
        s = sa
        if ctx.viol:
            return
    ctx.count('compared_queue_events', n)
    ctx.sig = (desc, n)
    ctx.nontrivial = n > 20


def run_case(ctx, i):
    del M.LOG[:]
    (queues if i % 5 == 4 else networks)(ctx)
    del M.LOG[:]
