"""A copied queue is independent and has the same future; a cleared queue is like new."""
import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M, twin

KEY = 'resource-servers-not-restored'


def build(seed, **kw):
    return twin.same_queue(seed, **kw)


def ops(rng, n):
    """A script of operations, applied alike to several queues."""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.75:
            out.append(('step', rng.choice([1, 1, 3, 10])))
        elif r < 0.80:
            out.append(('active',))
        elif r < 0.84:
            out.append(('inactive',))
        elif r < 0.90:
            out.append(('servers', rng.choice([1, 2, 3, 5])))
        elif r < 0.94:
            out.append(('delay',))
        elif r < 0.97:
            out.append(('toggle',))
        else:
            out.append(('fetch',))
    return out


def apply(q, script):
    for op in script:
        if op[0] == 'step':
            q.simulate(n=op[1])
        elif op[0] == 'active':
            q.set_active()
        elif op[0] == 'inactive':
            q.set_inactive()
        elif op[0] == 'servers':
            if not isinstance(q, qt.ResourceQueue):
                q.set_num_servers(op[1])
        elif op[0] == 'delay':
            q.delay_service()
        elif op[0] == 'toggle':
            q.collect_data = not q.collect_data
        elif op[0] == 'fetch':
            q.fetch_data()


def spoil(rng, q):
    """Changes a queue in every way a user can."""
    q.simulate(n=rng.choice([5, 40]))
    how = rng.choice(['clear', 'servers', 'attrs', 'data', 'colors', 'more'])
    if how == 'clear':
        q.clear()
    elif how == 'servers':
        q.set_num_servers(9)
    elif how == 'attrs':
        q.active_cap, q.deactive_t, q.collect_data = 1, 0.5, not q.collect_data
        if hasattr(q, 'buffer'):
            q.buffer = 17
    elif how == 'data':
        for rows in q.data.values():
            rows[-1][0] = -5.0
        q.data.clear()
    elif how == 'colors':
        for c in q.colors.values():
            c[0] = 0.4321
    else:
        for a in q.queue:
            a.blocked += 10
        if isinstance(q, qt.InfoQueue):
            q.net_data[:] = 77.0
        q.queue.clear()
    return how


def full_snap(q):
    s = twin.snap_queue(q)
    s['colors'] = {k: list(v) for k, v in q.colors.items()}
    s['line_blocked'] = [a.blocked for a in q.queue]
    s['color'] = [list(q._current_color(w)) for w in (0, 1, 2)] if hasattr(q, '_current_color') \
        else None
    return s


def run_case(ctx, i):
    (copying if i % 2 == 0 else clearing)(ctx)


def start(ctx, **kw):
    rng = ctx.rng
    seed = rng.random()
    kw['caps'] = rng.random() < 0.4
    q, kind, desc = build(seed, **kw)
    ctx.desc = desc
    npseed = rng.randrange(2 ** 31)
    return rng, seed, kw, q, kind, desc, npseed


def copying(ctx):
    rng, seed, kw, q, kind, desc, npseed = start(ctx)
    np.random.seed(npseed)
    colors = None
    if rng.random() < 0.7:
        q.set_active()
        apply(q, ops(rng, rng.choice([0, 5, 20, 60])))
    before = full_snap(q)
    rs = twin.rand_state()
    c = q.copy()
    ctx.count('copies')
    ctx.check(type(c) is type(q) and c is not q, 'copy is a %r' % type(c))
    ctx.check(twin.rand_state() == rs, 'copying used random numbers')
    ctx.check(full_snap(q) == before, lambda: 'copying changed the original: %s'
              % twin.diff(before, full_snap(q)))
    sc = full_snap(c)
    ctx.check(sc == before, lambda: 'original / copy: %s' % twin.diff(before, sc))
    first, second = (q, c) if rng.random() < 0.5 else (c, q)
    script = [('active',)] + ops(rng, rng.choice([10, 40]))
    np.random.seed(npseed + 1)
    t1 = twin.traced(lambda: apply(first, script))
    s1 = full_snap(first)
    ctx.check(full_snap(second) == before, lambda: 'running one changed the other: %s'
              % twin.diff(before, full_snap(second)))
    np.random.seed(npseed + 1)
    t2 = twin.traced(lambda: apply(second, script))
    s2 = full_snap(second)
    ctx.count('twin_events', len(t1))
    ctx.check(t1 == t2, lambda: 'different futures: %s' % twin.first_diff(t1, t2))
    ctx.check(s1 == s2, lambda: 'different futures: %s' % twin.diff(s1, s2))
    ctx.check(full_snap(first) == s1, 'running the second changed the first')
    # whatever happens to one does not show in the other
    np.random.seed(npseed + 2)
    how = spoil(rng, first)
    del M.LOG[:]
    ctx.count('spoil_' + how)
    ctx.check(full_snap(second) == s2, lambda: 'changing (%s) one changed the other: %s'
              % (how, twin.diff(s2, full_snap(second))))
    third = second.copy()
    np.random.seed(npseed + 3)
    t1 = twin.traced(lambda: apply(second, script))
    np.random.seed(npseed + 3)
    t2 = twin.traced(lambda: apply(third, script))
    ctx.check(t1 == t2, lambda: 'different futures: %s' % twin.first_diff(t1, t2))
    ctx.sig = ('copy', desc, len(t1), str(s1['current_time']))
    ctx.nontrivial = ctx.counters.get('twin_events', 0) > 20


def clearing(ctx):
    rng, seed, kw, q, kind, desc, npseed = start(
        ctx, **({'agent': 'resource'} if ctx.rng.random() < 0.4 else {}))
    fresh, _k, _d = build(seed, **kw)
    script = [op for op in ops(rng, rng.choice([5, 30, 60])) if op[0] != 'servers']
    servers = q.num_servers
    np.random.seed(npseed)
    q.set_active()
    twin.traced(lambda: apply(q, script))
    q.collect_data = fresh.collect_data
    if isinstance(q, qt.InfoQueue):
        # what agents coming from elsewhere would have told it
        for k in range(len(q.net_data)):
            if rng.random() < 0.5:
                q.net_data[k] = [rng.random(), rng.choice([1, 2]), rng.choice([0, 1, 5])]
                ctx.count('informed')
    was = q.num_servers
    q.clear()
    ctx.count('clears')
    if kind == 'res' and was != servers and q.num_servers == was:
        # taken resources are not given back by clear
        ctx.known[KEY] = ctx.known.get(KEY, 0) + 1
        q.num_servers = servers
    ctx.check(q.num_servers == servers, 'clear changed %r servers to %r' % (was, q.num_servers))
    s, f = full_snap(q), full_snap(fresh)
    ctx.check(s == f, lambda: 'cleared / new: %s' % twin.diff(s, f))
    ctx.check(q.fetch_data().shape[0] == 0, 'data left after clear')
    np.random.seed(npseed + 1)
    quiet = twin.traced(lambda: q.simulate(n=3))
    ctx.check(not quiet, 'a cleared queue still does something: %r' % quiet[:3])
    q.clear()
    script = [('active',)] + ops(rng, rng.choice([10, 60]))
    np.random.seed(npseed + 2)
    t1 = twin.traced(lambda: apply(q, script))
    np.random.seed(npseed + 2)
    t2 = twin.traced(lambda: apply(fresh, script))
    s, f = full_snap(q), full_snap(fresh)
    ctx.count('rerun_events', len(t1))
    ctx.check(t1 == t2, lambda: 'rerun / first run: %s' % twin.first_diff(t1, t2))
    ctx.check(s == f, lambda: 'rerun / first run: %s' % twin.diff(s, f))
    ctx.sig = ('clear', desc, len(t1), str(s['current_time']))
    ctx.nontrivial = len(t1) > 20
