"""Watching a simulation does not change it."""
import io
import random

import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M, twin, netops, pic
from vlib.select import selectors

SKIP = ('data', 'collect')


def bare(s):
    """A state without what watching may change: collected data and colors."""
    return {k: v for k, v in s.items() if k.rsplit('.', 1)[-1] not in SKIP}


def everyone(q):
    """The agents waiting, in service and scheduled to arrive, as far as they can be seen."""
    return list(q.queue) + [a for k in ('_departures', '_arrivals') for a in getattr(q, k, ())]


def watch(ctx, rng, net, m):
    """One observation, of any kind."""
    del m[:]
    how = rng.choice(['repr', 'time', 'next', 'table', 'queue_data', 'agent_data', 'start', 'stop',
                      'draw', 'active', 'type', 'args', 'queues', 'counts', 'copy', 'fetch',
                      'shown'])
    if how in ('draw', 'active', 'type', 'args', 'shown') and rng.random() < 0.4:
        how = 'next'
    ctx.count('watch_' + how)
    if how == 'repr':
        repr(net)
        [repr(q) for q in net.edge2queue]
        [repr(a) for q in net.edge2queue for a in everyone(q)]
    elif how == 'time':
        net.time, net.current_time, net.blocking
        [(q.time, q.current_time, q.active) for q in net.edge2queue]
    elif how == 'next':
        net.next_event_description()
        [q.next_event_description() for q in net.edge2queue]
    elif how == 'table':
        t = net.transitions(return_matrix=rng.random() < 0.5)
        if isinstance(t, dict):
            for d in t.values():
                for k in d:
                    d[k] = 0.3
        else:
            t[:] = 0.2
    elif how in ('queue_data', 'agent_data'):
        kw, _s, _k = selectors(rng, net)
        if rng.random() < 0.3:
            kw = dict(kw, return_header=True)
        d = (net.get_queue_data if how == 'queue_data' else net.get_agent_data)(**kw)
        if isinstance(d, tuple):
            d = d[0]
        for x in (d.values() if isinstance(d, dict) else [d]):
            if len(np.shape(x)) == 2:
                np.asarray(x)[:] = -7.0
    elif how in ('start', 'stop'):
        kw, _s, _k = selectors(rng, net)
        (net.start_collecting_data if how == 'start' else net.stop_collecting_data)(**kw)
        m.append('toggled')
    elif how in ('draw', 'active', 'type', 'args'):
        kw = {}
        if rng.random() < 0.3:
            kw['update_colors'] = False
        if rng.random() < 0.3 and how == 'draw':
            kw['pos'] = pic.random_pos(rng, net.g.nodes())
        if how in ('active', 'type'):
            kw = {}
        netops.picture(net, how, **kw)
    elif how == 'shown':
        with pic.Capture():
            net.draw(figsize=(1, 1))
    elif how == 'queues':
        for q in net.edge2queue:
            q.number_queued(), q.at_capacity(), q.num_system, q.num_servers, q.num_arrivals
            getattr(q, 'num_blocked', 0), q.edge, q.coloring_sensitivity
    elif how == 'counts':
        net.num_vertices, net.num_nodes, net.num_edges, net.nV, net.nE, list(net.num_agents)
        list(net.g.edges()), list(net.g.nodes()), net.in_edges, net.out_edges
        [net.g.ep(e, 'edge_type') for e in net.g.edges()]
        net.g.get_edge_type(1), net.g.vertex_properties(), net.g.edge_properties()
    elif how == 'copy':
        net.copy()
    else:
        for q in net.edge2queue:
            d = q.fetch_data(return_header=rng.random() < 0.5)
            if isinstance(d, tuple):
                d = d[0]
            if len(np.shape(d)) == 2 and len(d):
                d[:] = -3.0


def networks(ctx):
    rng = ctx.rng
    seed = rng.random()
    profile = rng.choice(['std', 'mix', 'mix', 'tight', 'res', 'info', 'greedy'])
    a, desc, kw = twin.same_net(seed, profile=profile)
    b, _d, _k = twin.same_net(seed, profile=profile)
    ctx.desc = desc
    npseed = rng.randrange(2 ** 31)
    np.random.seed(npseed)
    a.initialize(**kw)
    s = twin.Rand()
    np.random.seed(npseed)
    toggled = False
    if rng.random() < 0.3:
        # before anything happens
        for _ in range(3):
            flags = []
            watch(ctx, rng, b, flags)
            toggled = toggled or bool(flags)
    b.initialize(**kw)
    del M.LOG[:]
    watches = 0
    for _ in range(rng.choice([8, 15, 30])):
        ops = netops.script(rng, a, rng.choice([1, 1, 3]), quiet=True)
        ops = [op for op in ops if op[0] not in ('queue_data', 'agent_data', 'describe')]
        if rng.random() < 0.06:
            # an animation instead of single steps
            s.back()
            before = b.num_events
            akw = {'t': rng.choice([0.5, 3.0])} if rng.random() < 0.3 else {}
            tb = twin.traced(lambda: netops.animate(b, rng.choice([1, 3, 10]), **akw))
            sb = twin.Rand()
            n = b.num_events - before
            ctx.count('animations')
            ctx.count('animated_events', n)
            s.back()

            def steps():
                for _ in range(n):
                    a.simulate(n=1)
                if n == 0 or b.current_time == M.INF:
                    a.simulate(n=1)
            ta = twin.traced(steps)
            how = ['animate']
            s = twin.Rand()
            ra = rb = None
            a.reset_colors(), b.reset_colors()
        else:
            s.back()
            out = {}
            ta = twin.traced(lambda: out.update(a=netops.apply(a, ops)))
            sa = twin.Rand()
            s.back()
            how = []

            def watched():
                for op in ops:
                    for _ in range(rng.choice([0, 1, 1, 2, 4])):
                        nonlocal toggled, watches
                        flags, x = [], len(M.LOG)
                        c0 = twin.rand_state()
                        watch(ctx, rng, b, flags)
                        watches += 1
                        ctx.check(twin.rand_state() == c0, 'watching used random numbers')
                        ctx.check(len(M.LOG) == x, 'watching made something happen')
                        toggled = toggled or bool(flags)
                    how.append(op[0])
                    netops.apply(b, [op])
            tb = twin.traced(watched)
            sb = twin.Rand()
            s = sa
        ctx.count('watched_events', len(tb))
        ctx.check(ta == tb, lambda: 'unwatched / watched: %s (%r)' % (
            twin.first_diff(ta, tb), how))
        ctx.check(same_rand(s, sb), 'watching changed how many random numbers were used')
        x, y = bare(twin.snap_net(a)), bare(twin.snap_net(b))
        ctx.check(x == y, lambda: 'unwatched / watched: %s (%r)' % (twin.diff(x, y), how))
        if not toggled and not ctx.viol:
            d = [twin.data_of(q) for q in a.edge2queue]
            e = [twin.data_of(q) for q in b.edge2queue]
            ctx.count('data_compared')
            ctx.check(d == e, lambda: 'the data of the watched network differ: %s' % [
                (k, v, y.get(k)) for x, y in zip(d, e) for k, v in x.items()
                if y.get(k) != v][:3])
        if ctx.viol:
            return
    ctx.count('watches', watches)
    ctx.sig = (desc, a.num_events, watches)
    ctx.nontrivial = ctx.counters.get('watched_events', 0) > 20


def same_rand(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a.s, b.s))


def queues(ctx):
    rng = ctx.rng
    seed = rng.random()
    a, _k, desc = twin.same_queue(seed)
    b, _k, _d = twin.same_queue(seed)
    ctx.desc = desc
    npseed = rng.randrange(2 ** 31)
    np.random.seed(npseed)
    a.set_active()
    s = twin.Rand()
    np.random.seed(npseed)
    b.set_active()
    del M.LOG[:]
    toggled, n = False, 0
    for _ in range(rng.choice([20, 60])):
        r = rng.random()
        k = rng.choice([1, 1, 3, 10])

        def go(q):
            if q.next_event_description() != 0:
                if r < 0.8:
                    q.simulate(n=k)
                elif r < 0.9:
                    q.set_inactive() if q.active else q.set_active()
                elif r < 0.95:
                    q.delay_service()
                else:
                    q.set_num_servers(2)
        s.back()
        ta = twin.traced(lambda: go(a))
        sa = twin.Rand()
        s.back()
        how = rng.choice(['repr', 'data', 'fetch', 'time', 'collect', 'copy'])
        ctx.count('watch_queue_' + how)

        def watched():
            nonlocal toggled
            if how == 'repr':
                repr(b), [repr(x) for x in everyone(b)]
            elif how == 'data':
                {k: list(v) for k, v in b.data.items()}
            elif how == 'fetch':
                d = b.fetch_data(return_header=rng.random() < 0.3)
                d = d[0] if isinstance(d, tuple) else d
                if len(np.shape(d)) == 2 and len(d):
                    d[:] = -3.0
            elif how == 'time':
                b.time, b.current_time, b.next_event_description(), b.number_queued()
                b.at_capacity(), b.active, b.num_system, b.num_departures
            elif how == 'collect':
                b.collect_data = not b.collect_data
                toggled = True
            else:
                import copy
                copy.deepcopy(b)
            go(b)
        tb = twin.traced(watched)
        n += len(tb)
        ctx.check(ta == tb, lambda: 'unwatched / watched (%s): %s' % (
            how, twin.first_diff(ta, tb)))
        ctx.check(same_rand(sa, twin.Rand()), 'watching used random numbers')
        x, y = twin.snap_queue(a), twin.snap_queue(b)
        for z in (x, y):
            for key in SKIP if toggled else ():
                z.pop(key, None)
        ctx.check(x == y, lambda: 'unwatched / watched (%s): %s' % (how, twin.diff(x, y)))
        s = sa
        if ctx.viol:
            return
    ctx.count('watched_queue_events', n)
    ctx.sig = (desc, n)
    ctx.nontrivial = n > 20


def run_case(ctx, i):
    del M.LOG[:]
    (queues if i % 4 == 3 else networks)(ctx)
    del M.LOG[:]
