"""Network: time order, announcements, and how far simulate goes."""
import numpy as np
import queueing_tool as qt

from props._net import drive
from vlib import mon as M, twin


def run_case(ctx, i):
    if i % 3 < 2:
        drive(ctx)
    else:
        contract(ctx)


def contract(ctx):
    rng = ctx.rng
    seed = rng.random()
    o = {'caps': rng.random() < 0.5}
    a, desc, kw0 = twin.same_net(seed, **o)
    b, _d, _k = twin.same_net(seed, **o)
    ctx.desc = desc
    npseed = rng.randrange(2 ** 31)
    for net in (a, b):
        np.random.seed(npseed)
        net.initialize(**kw0)
    total = 0
    calls = []
    reached = 0.0
    for step in range(rng.randint(2, 6)):
        r = rng.random()
        if r < 0.5:
            kw = {'n': rng.choice([0, 1, 2, 7, 30, 120])}
        else:
            kw = {'t': rng.choice([0.0, 0.5, 1.0, 3.0, 10.0, rng.random() * 15])}
        calls.append(kw)
        npseed += 1
        n0 = a.num_events
        np.random.seed(npseed)
        t0 = b.current_time
        tb, done, steps, over = [], 0, 0, False
        clock = t0
        while True:
            if 'n' in kw and steps >= kw['n']:
                break
            if 't' in kw and not b.current_time < t0 + kw['t']:
                break
            e0 = b.num_events
            ev = twin.traced(lambda: b.simulate(n=1))
            tb += ev
            steps += 1
            real = [e for e in ev if e[0] in ('loss', 'dest') or (e[0] == 'act' and e[2] == 0)]
            done += 1 if real else 0
            ctx.check((b.num_events - e0) == (1 if real else 0),
                      lambda: 'event counter moved by %d in a step with events %r'
                      % (b.num_events - e0, ev))
            ctx.check(b.current_time >= clock, lambda: 'clock went back from %r to %r'
                      % (clock, b.current_time))
            clock = b.current_time
            if clock < M.INF:
                ctx.check(clock >= reached, lambda: 'after everything was over at %r, and '
                          'started again, there is an event at %r' % (reached, clock))
                reached = max(reached, clock)
            if not real:
                over = True
                ctx.check(b.current_time == M.INF, lambda: 'nothing happened at %r'
                          % b.current_time)
            if steps > 5000:        # e.g. queues that block each other for good
                ctx.count('too_long')
                return
        np.random.seed(npseed)
        ta = twin.traced(lambda: a.simulate(**kw))
        total += done
        ctx.count('contract_calls')
        ctx.count('contract_' + sorted(kw)[0])
        ctx.count('contract_events', done)
        ctx.count('contract_exhausted', int(over))
        ctx.check(a.num_events - n0 == done, lambda: 'simulate(%r) counted %d events, '
                  'single steps made %d' % (kw, a.num_events - n0, done))
        ctx.check(ta == tb, lambda: 'simulate(%r) from %r on: %s (first that of simulate, '
                  'then single steps up to the goal)' % (kw, t0, twin.first_diff(ta, tb)))
        sa, sb = twin.snap_net(a), twin.snap_net(b)
        ctx.check(sa == sb, lambda: 'after simulate(%r): %s' % (kw, twin.diff(sa, sb)))
        if 't' in kw:
            ctx.check(a.current_time >= t0 + kw['t'],
                      lambda: 'simulate(%r) ran from %r to %r' % (kw, t0, a.current_time))
        if 'n' in kw and a.time < M.INF:
            ctx.check(a.num_events - n0 == kw['n'], lambda: 'simulate(%r) made %d events'
                      % (kw, a.num_events - n0))
        if ctx.viol:
            break
        if over:
            # nothing is left; both are set up again
            more = rng.choice([0, 1, 3, 20])
            for net in (a, b):
                for q in net.edge2queue:
                    if not isinstance(q, qt.NullQueue):
                        q.active_cap = q.num_arrivals[1] + more
                        q.deactive_t = M.INF
                np.random.seed(npseed)
                net.initialize(**kw0)
            ctx.count('contract_revived', int(a.time < M.INF))
    ctx.sig = (desc, tuple(map(str, calls)), total)
    ctx.nontrivial = total >= 10
