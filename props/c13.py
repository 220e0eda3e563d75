"""Routing: frequencies against the transition table, with a bounded false alarm rate.

For a binomial count k out of n with probability p, P(n KL(k/n || p) >= x) <= 2 exp(-x).
BOUND = 42 keeps the sum over all tests of a run (fewer than 10**7, and n looks where the
number of draws is not fixed) below 1e-9."""
import math

import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M

BOUND = 42.0


def nkl(k, n, p):
    """n times the relative entropy of the observed frequency to p."""
    if p <= 0.0:
        return 0.0 if k == 0 else M.INF
    if p >= 1.0:
        return 0.0 if k == n else M.INF
    x = k / float(n)
    s = 0.0
    if x > 0:
        s += x * math.log(x / p)
    if x < 1:
        s += (1 - x) * math.log((1 - x) / (1 - p))
    return n * s


def judge(ctx, counts, table, what):
    """counts: target vertex -> draws; table: target vertex -> probability"""
    n = sum(counts.values())
    if n == 0:
        return
    ctx.check(set(counts) <= set(table), lambda: '%s: sent to %r, out-edges go to %r'
              % (what, sorted(counts), sorted(table)))
    ctx.count('draws_judged', n)
    for w, p in table.items():
        k = counts.get(w, 0)
        ctx.count('frequency_tests')
        if p == 0.0:
            ctx.check(k == 0, lambda: '%s: %d of %d draws chose target %r of probability zero'
                      % (what, k, n, w))
        else:
            x = nkl(k, n, min(p, 1.0))
            if p >= 1.0 - 1e-9:
                x = 0.0 if k == n else M.INF
            ctx.check(x < BOUND, lambda: '%s: target %r of probability %.5g was chosen %d of %d '
                      'times' % (what, w, p, k, n))


def agents(rng, net):
    out = [qt.Agent((0, 0)), qt.Agent((7, 3)), qt.ResourceAgent((0, 1)),
           qt.InfoAgent((0, 2), net_size=net.nE), M.HAgent((2, 5))]
    rng.shuffle(out)
    return out


def table_of(net):
    return {u: dict(d) for u, d in net.transitions(False).items()}


def set_table(rng, net, t):
    if rng.random() < 0.5 and len(t) == sum(1 for v in range(net.nV) if net.out_edges[v]):
        m = np.zeros((net.nV, net.nV))
        for u, d in t.items():
            for v, p in d.items():
                m[u, v] = p
        net.set_transitions(m)
    else:
        net.set_transitions(t)


def star(rng, n):
    """A vertex with n ways out."""
    adj = {0: list(range(1, n + 1))}
    adj.update({v: [0] for v in range(1, n + 1)})
    return qt.QueueNetwork(qt.adjacency2graph(adj)), 'star with %d ways out' % n


def static(ctx, wide=False):
    rng = ctx.rng
    if wide:
        net, desc = star(rng, rng.choice([100, 130, 260, 300, 420]))
        ctx.count('wide_vertices')
    else:
        net, desc = gen.network(rng, 'std', nmin=2, nmax=rng.choice([4, 8, 12]), table='none',
                                dense=rng.choice([0.4, 0.9]), ntypes=2)
    ctx.desc = 'draws: ' + desc[:500]
    if rng.random() < 0.3:
        net = net.copy()
    if rng.random() < 0.4:
        net.initialize()
        net.simulate(n=rng.choice([5, 50]))
    want = {u: {e[1]: 1.0 / net.g.out_degree(u) for e in net.g.out_edges(u)}
            for u in range(net.nV)}
    ps = agents(rng, net)
    for _round in range(rng.choice([1, 2, 3])):
        if _round or rng.random() < 0.8:
            t = gen.random_table(rng, net, rng.choice(['uniform', 'zeros', 'skew', 'some']))
            if t:
                set_table(rng, net, t)
                for u, d in t.items():
                    want[u] = {e[1]: float(d.get(e[1], 0)) for e in net.g.out_edges(u)}
                ctx.count('tables_set')
        froms = [q.edge for q in net.edge2queue if net.out_edges[q.edge[1]]]
        rng.shuffle(froms)
        froms = froms[:5]
        if not froms:
            return
        per = {}        # vertex -> counts; (edge, vertex) -> counts; pairs
        if wide:
            froms = [e for e in froms if e[1] == 0][:2] + froms[:1]
        n = 20000 if wide else rng.choice([2000, 6000])
        last = {}
        for i in range(n * len(froms)):
            e = froms[i % len(froms)]
            a = ps[(i // 3) % len(ps)]
            v = e[1]
            d = a.desired_destination(net, e)
            f = net.edge2queue[d].edge
            if f[0] != v:
                ctx.violation('C12', 'an agent at vertex %d chose the edge %r' % (v, f))
                ctx.check(False, 'an agent at vertex %d chose the edge %r' % (v, f))
            for key in (('vertex', v), ('edge', e[:2]), ('agent', v, (i // 3) % len(ps)),
                        ('after', v, last.get(v))):
                c = per.setdefault(key, {})
                c[f[1]] = c.get(f[1], 0) + 1
            last[v] = f[1]
            last['any'] = f[1]
        for key, c in per.items():
            v = key[1][1] if key[0] == 'edge' else key[1]
            ctx.count('tests_' + key[0])
            judge(ctx, c, want[v], 'draws at vertex %d %r' % (v, key))
        for v in {e[1] for e in froms}:
            if len(want[v]) == 1:
                ctx.count('single_out_edges')
    ctx.sig = ('static', desc, wide)
    ctx.nontrivial = True


def support(ctx):
    """Tables that sum to one only up to rounding, and edges of probability zero."""
    rng = ctx.rng
    n = rng.choice([2, 3, 4, 5, 8])
    import networkx as nx
    g = nx.DiGraph()
    g.add_edge(n + 1, 0)
    g.add_edge(0, n + 1)
    for w in range(1, n + 1):
        g.add_edge(0, w)
        g.add_edge(w, 0)
    net = qt.QueueNetwork(g)
    k = rng.randint(1, n)
    pos = rng.sample(range(1, n + 2), k)
    vals = {w: math.floor(1e6 / k) / 1e6 for w in pos}
    vals[pos[0]] -= 8e-6 - (1.0 - sum(vals.values()))
    ctx.desc = 'table of vertex 0: %r' % (vals,)
    net.set_transitions({0: vals})
    c = {}
    a = qt.Agent((0, 0))
    e = net.edge2queue[net.g.edge_index[(1, 0)]].edge
    m = 600000
    f = a.desired_destination
    for _ in range(m):
        d = f(net, e)
        c[d] = c.get(d, 0) + 1
    c = {net.edge2queue[d].edge[1]: x for d, x in c.items()}
    s = sum(vals.values())
    judge(ctx, c, {w: vals.get(w, 0.0) / s for w in range(1, n + 2)}, 'rounded table %r' % vals)
    ctx.count('support_draws', m)
    ctx.sig = ('support', n, tuple(sorted(vals.items())))


def choices(log):
    """What agents chose, and where those went that were not asked."""
    asked = {}
    moving = {}
    for e in log:
        if e[0] == 'dest':
            asked[id(e[3])] = e[1]
            yield e
        elif e[0] == 'act' and e[2] == 2:
            if asked.pop(id(e[3]), None) != e[1]:
                moving[id(e[3])] = e[1]
        elif e[0] == 'act' and e[2] == 0 and id(e[3]) in moving:
            yield ('dest', moving.pop(id(e[3])), e[1], e[3], None)


def simulated(ctx):
    """The choices agents make in a simulation."""
    rng = ctx.rng
    del M.LOG[:]
    net, desc = gen.network(rng, rng.choice(['std', 'mix', 'tight']), agents=['agent'],
                            nmin=2, nmax=6, caps=False, max_agents=rng.choice([5, 20, 60]),
                            dense=rng.choice([0.4, 0.8]), terminals=rng.random() < 0.5,
                            blocking=rng.choice(['BAS', 'BAS', 'RS']))
    ctx.desc = 'simulation: ' + desc
    net.initialize(**gen.init_kwargs(rng, net))
    for _ in range(rng.choice([1, 2])):
        t = table_of(net)
        per = {}
        last = {}
        for _k in range(60):
            del M.LOG[:]
            net.simulate(n=50)
            for e in choices(M.LOG):
                if type(e[3]) in (M.HAgent, M.HInfo):
                    u = net.edge2queue[e[1]].edge[1]
                    f = net.edge2queue[e[2]].edge
                    ctx.count('choices_in_simulations')
                    # what this agent chose at this queue before, whether or not it could go
                    was = last.get((e[3].agent_id, e[1]))
                    last[e[3].agent_id, e[1]] = f[1]
                    if was is not None:
                        ctx.count('choices_again')
                    for key in ((u, 'all'), (u, net.edge2queue[e[1]].edge[0]),
                                (u, 'after %s' % was)):
                        c = per.setdefault(key, {})
                        c[f[1]] = c.get(f[1], 0) + 1
        for key, c in per.items():
            judge(ctx, c, t[key[0]], 'in a simulation, choices at vertex %d (%s)' % key)
        t = gen.random_table(rng, net)
        if t:
            net.set_transitions(t)
    del M.LOG[:]
    ctx.sig = ('sim', desc)
    ctx.nontrivial = ctx.counters.get('choices_in_simulations', 0) > 200


def run_case(ctx, i):
    if i % 40 == 0:
        support(ctx)
    elif i % 4 == 1:
        simulated(ctx)
    else:
        static(ctx, wide=i % 40 == 19)
