"""A copied network is complete, independent and has the same future."""
import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M, twin, netops


def spoil(rng, net):
    """Changes a network in every way a user can."""
    how = rng.choice(['run', 'clear', 'queues', 'graph', 'colors', 'table', 'lists', 'data',
                      'attrs', 'agents'])
    if how == 'run':
        net.simulate(n=50)
    elif how == 'clear':
        net.clear()
    elif how == 'queues':
        for q in net.edge2queue:
            q.collect_data = not q.collect_data
            q.active_cap = 3
            q.deactive_t = 0.5
        net.edge2queue.reverse()
    elif how == 'graph':
        for v in net.g.nodes():
            net.g.set_vp(v, 'vertex_fill_color', [0.1, 0.2, 0.3, 0.4])
            net.g.set_vp(v, 'vertex_size', 77)
        for e in list(net.g.edges()):
            net.g.set_ep(e, 'edge_color', [0.1, 0.2, 0.3, 0.4])
        net.g.set_pos({v: (v, 3.5) for v in net.g.nodes()})
        net.g.edge_index[(97, 98)] = 5
    elif how == 'colors':
        for c in net.colors.values():
            c[0] = 0.654
        net.reset_colors()
        for q in net.edge2queue:
            for c in q.colors.values():
                c[1] = 0.321
    elif how == 'table':
        t = gen.random_table(rng, net, 'zeros')
        if t:
            net.set_transitions(t)
    elif how == 'lists':
        for x in net.out_edges + net.in_edges:
            del x[:]
        net.num_agents[:] = 99
    elif how == 'data':
        for q in net.edge2queue:
            for rows in q.data.values():
                rows[-1][2] = -4.0
            q.data.clear()
    elif how == 'attrs':
        net.max_agents, net.blocking = 1, 'RS' if net.blocking == 'BAS' else 'BAS'
        net.nV, net.num_events = 1, 7
    else:
        for q in net.edge2queue:
            for a in q.queue:
                a.blocked += 7
            if hasattr(q, 'net_data'):
                q.net_data[:] = 55.0
            q.queue.clear()
    return how


def line_blocked(net):
    return [[a.blocked for a in q.queue] for q in net.edge2queue]


class Shared(object):
    """One arrival process for several queues, with a state of its own."""
    def __init__(self, scale):
        self.n, self.scale = 0, scale

    def __call__(self, t):
        self.n += 1
        return t + self.scale * (0.5 + self.n * 7 % 5)


def share(ctx, net):
    f = Shared(ctx.rng.choice([0.1, 0.5, 1.0]))
    ks = [k for k, q in enumerate(net.edge2queue) if not isinstance(q, qt.NullQueue)]
    for k in ks:
        if ctx.rng.random() < 0.7:
            net.edge2queue[k].arrival_f = M.ArrivalF(k, f)
    ctx.count('shared_processes')


def run_case(ctx, i):
    rng = ctx.rng
    seed = rng.random()
    profile = rng.choice(['std', 'mix', 'tight', 'res', 'info', 'greedy'])
    net, desc, kw = twin.same_net(seed, profile=profile)
    ctx.desc = desc
    if rng.random() < 0.15 and kw.get('queues', kw.get('nActive')):
        share(ctx, net)
    timed = profile == 'std'
    npseed = rng.randrange(2 ** 31)
    np.random.seed(npseed)
    when = rng.choice(['new', 'init', 'run', 'run', 'run', 'long'])
    if when != 'new':
        net.initialize(**kw)
    if when in ('run', 'long'):
        netops.apply(net, netops.script(rng, net, 60 if when == 'long' else rng.randint(1, 15)))
    del M.LOG[:]
    ctx.count('copy_' + when)
    ctx.count('copies')
    before = netops.full(net)
    lb = line_blocked(net)
    rs = twin.rand_state()
    cp = net.copy()
    ctx.check(twin.rand_state() == rs, 'copying used random numbers')
    ctx.check(cp is not net and isinstance(cp, type(net)), 'copy is %r' % type(cp))
    ctx.check(not M.LOG, 'copying ran the simulation')
    now = netops.full(net)
    ctx.check(now == before, lambda: 'copying changed the original: %s' % twin.diff(before, now))
    c = netops.full(cp)
    ctx.check(c == before, lambda: 'original / copy: %s' % twin.diff(before, c))
    ctx.check(line_blocked(cp) == lb, 'agents in line differ')
    ctx.check([type(q) for q in cp.edge2queue] == [type(q) for q in net.edge2queue],
              'queue classes differ')
    # the same future
    first, second = (net, cp) if rng.random() < 0.5 else (cp, net)
    ops = netops.script(rng, net, rng.choice([5, 15, 40]), timed=timed)
    if when == 'new':
        ops = [('init', kw)] + ops
    for _round in range(2):
        res = {}
        np.random.seed(npseed + 1)
        t1 = twin.traced(lambda: res.update(a=netops.apply(first, ops)))
        r1 = twin.rand_state()
        s1 = netops.full(first)
        if _round == 0:
            now = netops.full(second)
            ctx.check(now == before, lambda: 'running one changed the other: %s'
                      % twin.diff(before, now))
        np.random.seed(npseed + 1)
        t2 = twin.traced(lambda: res.update(b=netops.apply(second, ops)))
        s2 = netops.full(second)
        ctx.count('twin_events', len(t1))
        ctx.check(t1 == t2, lambda: 'different futures: %s' % twin.first_diff(t1, t2))
        ctx.check(twin.rand_state() == r1, 'different amounts of randomness were used')
        ctx.check(res['a'] == res['b'], 'calls on the copy returned something else')
        ctx.check(s1 == s2, lambda: 'different futures: %s' % twin.diff(s1, s2))
        now = netops.full(first)
        ctx.check(now == s1, lambda: 'running one changed the other: %s' % twin.diff(s1, now))
        if ctx.viol:
            return
        ops = netops.script(rng, net, 5, timed=timed)
    # nothing that is done to one shows in the other
    want, lb = netops.full(second), line_blocked(second)
    for _ in range(2):
        how = spoil(rng, first)
        ctx.count('spoil_' + how)
        now = netops.full(second)
        ctx.check(now == want and line_blocked(second) == lb,
                  lambda: 'changing (%s) one changed the other: %s' % (how, twin.diff(want, now)))
        if how in ('clear', 'lists', 'attrs', 'queues', 'agents'):
            break
    del M.LOG[:]
    ctx.sig = (desc, when, len(t1))
    ctx.nontrivial = ctx.counters.get('twin_events', 0) > 20
