"""Initializing activates exactly the queues asked for."""
import copy

import numpy as np
import networkx as nx
import queueing_tool as qt

from vlib import gen, mon as M, netops
from vlib.select import selectors, text as text_of
from props.c13 import nkl, BOUND


def usable(net):
    return {k for k, q in enumerate(net.edge2queue)
            if q.edge[3] != 0 and not isinstance(q, qt.NullQueue)}


def active(net):
    return {k for k, q in enumerate(net.edge2queue) if q.active}


def refused(ctx, net, what):
    for f in (lambda: net.simulate(n=1), lambda: net.simulate(t=0.5), lambda: net.simulate(),
              lambda: netops.animate(net, 1)):
        if f.__code__.co_names[-1] == 'animate' and ctx.rng.random() < 0.8:
            continue
        try:
            f()
        except qt.QueueingToolError:
            ctx.count('refused')
        else:
            ctx.check(False, 'simulating %s is not refused' % what)
    ctx.check(not M.LOG, 'a refused simulation ran')


def scheduled(ctx, net, was, now, calls, news, text):
    """Newly active queues have exactly one arrival scheduled, the others nothing new."""
    for k, q in enumerate(net.edge2queue):
        c = [e for e in calls if e[1] == k]
        n = [e for e in news if e[1] == k]
        if k in now - was:
            ctx.check(len(c) == 1 and len(n) == 1, lambda: '%s: queue %d has %d arrivals '
                      'scheduled' % (text, k, len(n)))
            ctx.count('arrivals_scheduled')
            if len(c) == 1:
                ctx.check(q.time == c[0][4] and q.next_event_description() == 1,
                          lambda: '%s: queue %d announces %r at %r, its arrival is due at %r'
                          % (text, k, q.next_event_description(), q.time, c[0][4]))
        else:
            ctx.check(not c and not n, lambda: '%s: something arrives at queue %d' % (text, k))
        want = 1 if k in now else 0
        if not was:
            ctx.check(int(net.num_agents[k]) == want and q.num_system == 0,
                      lambda: '%s: queue %d has %d agents, %d in the system'
                      % (text, k, net.num_agents[k], q.num_system))
    if now and not was:
        t = min(net.edge2queue[k].time for k in now)
        d = net.next_event_description()
        ctx.check(net.time == t and d[0] == 'Arrival' and net.edge2queue[d[1]].time == t,
                  lambda: '%s: the network announces %r at %r' % (text, d, net.time))


def call(net, kw):
    del M.LOG[:]
    net.initialize(**kw)
    log = list(M.LOG)
    del M.LOG[:]
    return [e for e in log if e[0] == 'arrf'], [e for e in log if e[0] == 'new'], \
        [e for e in log if e[0] not in ('arrf', 'new')]


def selecting(ctx):
    rng = ctx.rng
    net, desc = gen.network(rng, rng.choice(['mix', 'tight', 'res', 'info', 'std']), caps=False,
                            max_agents=rng.choice([1, 2, 3, 5, 1000, M.INF]),
                            nmax=rng.choice([3, 7, 7]))
    ctx.desc = desc
    if rng.random() < 0.15:
        net = net.copy()
    use = usable(net)
    if rng.random() < 0.3:
        refused(ctx, net, 'a new network')
    was = set()
    for _round in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.4:
            n = rng.choice([1, 1, 2, 3, len(use), len(use) + 2, np.int64(2)])
            kw, sel, kind, size = {'nActive': n}, use, 'number', min(int(n), len(use))
            if n == 1 and rng.random() < 0.5:
                kw = {}
        else:
            kw, sel, kind = selectors(rng, net, 'edges')
            if kind == 'all':
                kw, sel = {'queues': range(net.nE)}, set(range(net.nE))
            sel = sel & use
            size = len(sel)
            if rng.random() < 0.2:
                kw['nActive'] = rng.choice([1, 2])      # not used when queues are given
        text = 'initialize(%s)' % text_of(kw, sel)
        ctx.count('by_' + kind)
        if not sel:
            st = net.current_time, net.num_events, active(net)
            try:
                call(net, kw)
            except qt.QueueingToolError:
                ctx.count('nothing_to_initialize')
            else:
                ctx.check(False, '%s has no usable queue and is accepted' % text)
            ctx.check((net.current_time, net.num_events, active(net)) == st,
                      '%s was rejected and changed the network' % text)
            if not was:
                del M.LOG[:]
                refused(ctx, net, 'a network that could not be initialized')
            continue
        calls, news, other = call(net, kw)
        ctx.count('initialized')
        ctx.check(not other, '%s moved agents' % text)
        now = active(net)
        ctx.state((len(use), len(sel), len(now)))
        cut = min(size, net.max_agents)
        ctx.check(was <= now, '%s stopped queues %r' % (text, sorted(was - now)))
        if was:
            # nothing has happened yet: every active queue has one agent
            room = net.max_agents - len(was)
            ctx.check(len(now - was) <= room, lambda: '%s activated %d queues, there was room for '
                      '%r agents' % (text, len(now - was), room))
            if kind != 'number' and len(sel - was) > room:
                ctx.check(len(now - was) == room, lambda: '%s activated %d queues, not %d' % (
                    text, len(now - was), room))
                size = M.INF
        if kind != 'number' and size <= net.max_agents:
            ctx.check(now - was == sel - was, lambda: '%s made %r active, the usable queues '
                      'asked for are %r' % (text, sorted(now - was), sorted(sel - was)))
            ctx.count('exact')
        else:
            if M.INF > size > net.max_agents:
                ctx.count('cut_to_max_agents')
            ctx.check(now - was <= sel, lambda: '%s made %r active, which are not among %r'
                      % (text, sorted(now - was - sel), sorted(sel)))
            if not was:
                ctx.check(len(now) == cut, lambda: '%s made %d queues active, not %d'
                          % (text, len(now), cut))
        scheduled(ctx, net, was, now, calls, news, text)
        if rng.random() < 0.3:
            break
        was = now
        if rng.random() < 0.5:
            net.clear()
            was = set()
            ctx.check(not active(net), 'queues are active after clear')
            del M.LOG[:]
            refused(ctx, net, 'a cleared network')
    del M.LOG[:]
    ctx.sig = (desc, kind)
    ctx.nontrivial = True


def typed(ctx):
    """Edges of type zero are terminal whatever class is given for that type."""
    rng = ctx.rng
    g = gen.random_digraph(rng, 2, 6, types=[1, 2])
    for e in g.edges():
        if g.out_degree(e[1]) == 0 or rng.random() < 0.2:
            g.adj[e[0]][e[1]]['edge_type'] = 0
    cls = {0: rng.choice([qt.QueueServer, qt.LossQueue, qt.NullQueue]),
           1: rng.choice([qt.QueueServer, qt.LossQueue])}
    if rng.random() < 0.5:
        cls[2] = qt.QueueServer
    net = qt.QueueNetwork(g, q_classes=cls, q_args={t: {} for t in (0, 1, 2)})
    use = {k for k, q in enumerate(net.edge2queue) if q.edge[3] != 0}
    ctx.desc = 'classes %r edges %r' % (cls, [q.edge for q in net.edge2queue])
    how = rng.choice([{'queues': range(net.nE)}, {'edge_type': [0, 1, 2]}, {'nActive': net.nE},
                      {'edges': sorted(net.g.edges())}, {'edge_type': 0}, {'edge_type': 1},
                      {'queues': rng.sample(range(net.nE), rng.randint(1, net.nE))}])
    want = set(use)
    if 'edge_type' in how:
        ts = how['edge_type'] if how['edge_type'].__class__ is list else [how['edge_type']]
        want = {k for k in use if net.edge2queue[k].edge[3] in ts}
    elif 'queues' in how:
        want = use & set(how['queues'])
    try:
        net.initialize(**how)
        ok = True
    except qt.QueueingToolError:
        ok = False
    ctx.count('with_class_of_type_zero')
    ctx.check(ok == bool(want), lambda: 'initialize(%r): accepted is %r, usable are %r'
              % (how, ok, sorted(want)))
    if want:
        ctx.check(active(net) == want, lambda: 'initialize(%r) made %r active, the usable queues '
                  'asked for are %r' % (how, sorted(active(net)), sorted(want)))
        ctx.check([int(x) for x in net.num_agents] == [1 if k in want else 0
                                                       for k in range(net.nE)],
                  lambda: 'initialize(%r): agents %r' % (how, list(net.num_agents)))
    ctx.sig = ctx.desc
    ctx.nontrivial = bool(want)


BAD = [(0, ValueError), (-1, ValueError), (-7, ValueError), (1.5, TypeError), (2.0, TypeError),
       (0.5, TypeError), ('2', TypeError), (None, TypeError), ([1], TypeError)]


def wrong(ctx):
    rng = ctx.rng
    net, desc = gen.network(rng, 'mix', caps=False)
    ctx.desc = 'wrong counts: ' + desc
    for n, exc in rng.sample(BAD, 5):
        try:
            call(net, {'nActive': n})
        except exc:
            ctx.count('rejected')
        except Exception as e:
            ctx.check(False, 'initialize(nActive=%r) raised %r instead of %s'
                      % (n, e, exc.__name__))
        else:
            ctx.check(False, 'initialize(nActive=%r) is accepted' % (n,))
        ctx.check(not active(net) and not M.LOG, 'a rejected count activated queues')
    del M.LOG[:]
    refused(ctx, net, 'a network that could not be initialized')
    # a network without usable queues
    g = nx.DiGraph()
    for v in range(rng.randint(1, 4)):
        g.add_edge(v, v, edge_type=0)
    net = qt.QueueNetwork(g)
    for kw in ({}, {'nActive': 3}, {'queues': 0}, {'edge_type': 0}, {'edges': (0, 0)},
               {'edge_type': 5}, {'queues': []}):
        try:
            net.initialize(**kw)
        except qt.QueueingToolError:
            ctx.count('nothing_to_initialize')
        else:
            ctx.check(False, 'initialize(%r) is accepted without usable queues' % kw)
    ctx.sig = ('wrong', desc)


def fair(ctx):
    """The queues chosen by number are random."""
    rng = ctx.rng
    net, desc = gen.network(rng, 'mix', caps=False, max_agents=M.INF, nmax=6)
    use = sorted(usable(net))
    n = rng.randint(1, len(use))
    ctx.desc = 'random %d of %d: %s' % (n, len(use), desc)
    c = dict.fromkeys(use, 0)
    pairs = {}
    rounds = 400
    for _ in range(rounds):
        net.initialize(nActive=n)
        a = active(net)
        ctx.check(len(a) == n and a <= set(use), lambda: 'nActive=%d made %r active' % (n, a))
        for k in a & set(use):
            c[k] += 1
        net.clear()
    for k in use:
        p = n / float(len(use))
        ctx.check(nkl(c[k], rounds, p) < BOUND, lambda: 'queue %d was chosen %d of %d times, '
                  'expected share %.3g' % (k, c[k], rounds, p))
        ctx.count('share_tests')
    del M.LOG[:]
    ctx.sig = ('fair', n, len(use), desc)


def run_case(ctx, i):
    if i % 12 == 5:
        typed(ctx)
    elif i % 60 == 7:
        fair(ctx)
    elif i % 12 == 3:
        wrong(ctx)
    else:
        selecting(ctx)
