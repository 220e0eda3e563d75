"""Single queue: how far simulate goes, and the clock."""
import numpy as np
import queueing_tool as qt

from props._queue import drive
from vlib import mon as M, twin


def run_case(ctx, i):
    if i % 3 == 0:
        drive(ctx)
    else:
        contract(ctx)


def contract(ctx):
    rng = ctx.rng
    seed = rng.random()
    caps = rng.random() < 0.5
    a, kind, desc = twin.same_queue(seed, caps=caps)
    b, _k, _d = twin.same_queue(seed, caps=caps)
    npseed = rng.randrange(2 ** 31)
    ctx.desc = desc
    for q in (a, b):
        np.random.seed(npseed)
        q.set_active()
    calls = []
    total = 0
    for step in range(rng.randint(3, 8)):
        r = rng.random()
        if r < 0.35:
            kw = {'n': rng.choice([0, 1, 2, 7, 30, 100])}
        elif r < 0.6:
            kw = {'t': rng.choice([0.0, 0.5, 1.0, 3.0, 10.0, rng.random() * 20])}
        elif r < 0.8:
            kw = {'nA': rng.choice([0, 1, 2, 5, 25])}
        else:
            kw = {'nD': rng.choice([0, 1, 2, 5, 25])}
        if rng.random() < 0.1:
            for q in (a, b):
                np.random.seed(npseed + 7)
                q.set_inactive()
        if rng.random() < 0.2:
            for q in (a, b):
                np.random.seed(npseed + 9)
                q.set_active()
        if rng.random() < 0.25 and hasattr(a, '_add_arrival'):
            # an agent sent here, as networks do
            when = max(a.current_time, 0.0) + rng.choice([0.0, 0.7, 3.0, 25.0])
            for q in (a, b):
                g = M.HAgent((q.edge[2] + 50, step))
                if isinstance(q, qt.InfoQueue):
                    g = M.HInfo((q.edge[2] + 50, step), len(q.net_data))
                g._time = when
                q._add_arrival(g)
            ctx.count('agents_sent')
        calls.append(kw)
        npseed += 1
        np.random.seed(npseed)
        ta = twin.traced(lambda: a.simulate(**kw))
        np.random.seed(npseed)
        tb = []
        t0, na0, nd0 = b.current_time, b.num_arrivals[1], b.num_departures
        done = 0
        while True:
            if b.time == M.INF:
                break
            if 'n' in kw and done >= kw['n']:
                break
            if 't' in kw and b.current_time >= t0 + kw['t']:
                break
            if 'nA' in kw and b.num_arrivals[1] >= na0 + kw['nA']:
                break
            if 'nD' in kw and b.num_departures >= nd0 + kw['nD']:
                break
            tb += twin.traced(b.next_event)
            done += 1
            if done > 20000:
                ctx.count('too_long')
                return
        total += done
        ctx.count('contract_calls')
        ctx.count('contract_' + sorted(kw)[0])
        ctx.count('contract_events', done)
        ctx.check(ta == tb, lambda: 'simulate(%r) from %r on: %s (first that of simulate, '
                  'then single steps up to the goal)' % (kw, t0, twin.first_diff(ta, tb)))
        sa, sb = twin.snap_queue(a), twin.snap_queue(b)
        ctx.check(sa == sb, lambda: 'after simulate(%r): %s' % (kw, twin.diff(sa, sb)))
        ev = len([e for e in ta if e[0] == 'loss' or (e[0] == 'act' and e[2] in (0, 2))])
        ctx.check(ev == done, lambda: 'simulate(%r) performed %d events, should be %d'
                  % (kw, ev, done))
        if 't' in kw:
            ctx.check(a.current_time >= t0 + kw['t'] or a.time == M.INF,
                      lambda: 'simulate(%r) ran from %r to %r' % (kw, t0, a.current_time))
        if ctx.viol:
            return
    ctx.sig = (kind, desc, tuple(sorted(map(str, calls))), total)
    ctx.nontrivial = total >= 10
