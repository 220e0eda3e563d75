"""A run holds on to nothing it no longer needs."""
import gc
import tracemalloc
import weakref

import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M

LIVE = {}


class Tracked(object):
    """Every agent of these classes is known for as long as something holds it."""
    def __new__(cls, *args, **kwargs):
        a = super(Tracked, cls).__new__(cls)
        k = id(a)
        LIVE[k] = weakref.ref(a, lambda r, k=k: LIVE.pop(k, None))
        return a


class TAgent(Tracked, qt.Agent):
    pass


class TGreedy(Tracked, qt.GreedyAgent):
    pass


class TResource(Tracked, qt.ResourceAgent):
    pass


class TInfo(Tracked, qt.InfoAgent):
    pass


def live():
    """Agents still held by anything at all."""
    n = len(LIVE)
    if n:
        gc.collect()
    return len(LIVE)


def dress(rng, net):
    """Tracked agents and simple times for every queue."""
    nE = net.nE
    kinds = []
    for q in net.edge2queue:
        if isinstance(q, qt.NullQueue):
            continue
        if isinstance(q, qt.InfoQueue):
            c = lambda a, n=nE: TInfo(a, net_size=n)
        else:
            c = rng.choice([TAgent, TAgent, TGreedy, TResource])
        n = q.num_servers if q.num_servers < M.INF else 3
        a, s = rng.choice([0.5, 1.0, 2.0]), rng.choice([0.2, 0.6, 0.9]) * max(1, n)
        q.AgentFactory = c
        q.arrival_f = lambda t, a=a: t + np.random.exponential(a)
        q.service_f = lambda t, s=s: t + np.random.exponential(s)
        q.active_cap = q.deactive_t = M.INF
        kinds.append(getattr(c, '__name__', 'TInfo'))
    return kinds


def build(rng, data=None):
    profile = rng.choice(['std', 'mix', 'mix', 'tight', 'tight', 'res', 'info'])
    net, desc = gen.network(rng, profile, data=False, caps=False, nmax=5,
                            max_agents=rng.choice([3, 8, 20, 20]))
    desc = '%s; %s' % (desc, dress(rng, net))
    if data:
        net.start_collecting_data()
    del M.LOG[:]
    net.initialize(**gen.init_kwargs(rng, net))
    return net, desc


def slack(net):
    return 3 + 2 * net.nE


def present(net):
    return int(np.sum(net.num_agents))


def over(ctx, net, extra=0, what='held'):
    n, p, s = live(), present(net) + extra, slack(net)
    ctx.count('counts')
    ctx.count('most_gone', max(0, gone(net) - n))
    return ctx.check(n <= p + s, lambda: '%d agents are still %s, %d are in the network or '
                     'scheduled; %d events' % (n, what, p, net.num_events))


def gone(net):
    """Agents made so far."""
    return sum(q.num_arrivals[1] for q in net.edge2queue if not isinstance(q, qt.NullQueue))


def run_net(ctx, rng):
    data = rng.random() < 0.35
    net, desc = build(rng, data)
    ctx.desc = desc
    n = rng.choice([400, 800, 1500])
    how = rng.choice(['n', 'n', 'step', 'mixed'])
    for k in range(6):
        if how == 'step':
            for _ in range(n // 6):
                net._simulate_next_event(slow=rng.random() < 0.05)
        else:
            net.simulate(n=n // 6)
        if how == 'mixed':
            r = rng.choice(['copy', 'data', 'repr', 'table', 'blocking'])
            if r == 'copy':
                c = net.copy()
                c.simulate(n=20)
                del c
                ctx.count('copies')
            elif r == 'data':
                net.get_agent_data()
                net.get_queue_data()
            elif r == 'repr':
                [repr(q) for q in net.edge2queue]
                net.next_event_description()
            elif r == 'table':
                t = gen.random_table(rng, net)
                if t:
                    net.set_transitions(t)
            else:
                net.blocking = rng.choice(['BAS', 'RS'])
        if net.current_time == M.INF:
            break
        if not over(ctx, net):
            return
    ctx.count('events', net.num_events)
    ctx.count('agents_gone', max(0, gone(net) - present(net)))
    ctx.count('with_data' if data else 'without_data')
    ctx.nontrivial = gone(net) - present(net) > 3 * slack(net)
    ctx.sig = (desc, net.num_events)
    end = rng.choice(['clear', 'clearqueues', 'drop', 'copy', 'again'])
    s = slack(net)
    ctx.count('end_' + end)
    if end == 'copy':
        p = present(net)
        c = net.copy()
        ctx.check(live() <= p + present(net) + 2 * s, lambda: 'a copy of %d agents makes %d' % (p, live()))
        if rng.random() < 0.5:
            net = c
        del c
        over(ctx, net, what='held after one of two copies was discarded')
    elif end == 'clear':
        net.clear()
        ctx.check(live() <= s, lambda: '%d agents are still held by a cleared network' % live())
    elif end == 'clearqueues':
        for q in net.edge2queue:
            q.clear()
        ctx.check(live() <= s, lambda: '%d agents are still held by cleared queues' % live())
    elif end == 'again':
        net.clear()
        net.initialize(**gen.init_kwargs(rng, net))
        net.simulate(n=100)
        over(ctx, net, what='held after starting over')
    del net
    ctx.check(live() <= 3, lambda: '%d agents are still held after the network is gone' % live())


def run_queue(ctx, rng):
    q, kind, desc = gen.single(rng, caps=False)
    c = {'info': TInfo,
         'res': TResource}.get(kind, rng.choice([TAgent, TGreedy]))
    n = q.num_servers if q.num_servers < M.INF else 3
    s = rng.choice([0.3, 0.7, 0.9]) * max(1, n)
    q.AgentFactory = c
    q.arrival_f = lambda t: t + np.random.exponential(1.0)
    q.service_f = lambda t: t + np.random.exponential(s)
    q.collect_data = rng.random() < 0.35
    ctx.desc = desc
    q.set_active()
    del M.LOG[:]

    def there():
        # who waits, who is served, and who is announced
        return max(q.num_system + q.num_arrivals[1] - q.num_arrivals[0], q.num_system + 1)

    for k in range(5):
        if rng.random() < 0.5:
            q.simulate(n=150)
        elif kind == 'res':
            q.simulate(n=100)
        else:
            q.simulate(t=60)
        if q.time == M.INF:
            break
        p = q.num_system + 2
        ctx.count('counts')
        if kind == 'loss' or kind == 'info' or kind == 'res':
            p += 1
        ctx.check(live() <= p + 4, lambda: '%d agents are still held, %d are at the queue: %r'
                  % (live(), q.num_system, q))
    made = q.num_arrivals[1]
    ctx.count('queue_agents_gone', max(0, made - q.num_system))
    ctx.count('queue_events', q.num_departures + q.num_arrivals[0])
    ctx.nontrivial = made - q.num_system > 30
    ctx.sig = (desc, made)
    if rng.random() < 0.5:
        d = q.copy()
        d.simulate(n=30)
        del d
        ctx.check(live() <= q.num_system + 7, lambda: '%d agents are still held after a copy was '
                  'discarded, %d are at the queue' % (live(), q.num_system))
    else:
        q.clear()
        ctx.check(live() <= 3, lambda: '%d agents are still held by a cleared queue' % live())
        ctx.count('queues_cleared')
    del q, c
    ctx.check(live() <= 2, lambda: '%d agents are still held after the queue is gone' % live())


def run_memory(ctx, rng):
    """The memory in use does not grow with the number of events."""
    net, desc = build(rng, False)
    ctx.desc = 'memory: ' + desc
    net.simulate(n=500)
    n = 2500
    gc.collect()
    tracemalloc.start()
    try:
        net.simulate(n=n)
        gc.collect()
        a, e, p = tracemalloc.get_traced_memory()[0], net.num_events, present(net)
        net.simulate(n=n)
        gc.collect()
        b, f, m = tracemalloc.get_traced_memory()[0], net.num_events, present(net)
    finally:
        tracemalloc.stop()
    ctx.sig = ('memory', desc, f)
    ctx.nontrivial = f - e > n / 2
    if f - e < n / 2:
        return
    ctx.count('memory_runs')
    ctx.count('memory_events', f - e)
    # more agents may be present than before, and tables may have been enlarged
    room = 5000 + 1200 * max(0, m - p) + 100 * net.nE + f - e
    ctx.check(b - a < room, lambda: 'memory grew by %d bytes in %d events, with %d agents present'
              % (b - a, f - e, present(net)))


def run_case(ctx, i):
    rng = ctx.rng
    del M.LOG[:]
    gc.collect()
    LIVE.clear()
    r = rng.random()
    if r < 0.15:
        run_memory(ctx, rng)
    elif r < 0.4:
        run_queue(ctx, rng)
    else:
        run_net(ctx, rng)
    del M.LOG[:]
