"""Poisson random measures have the requested intensity.

The time of the next arrival after t is T when 1 - exp(-(L(T) - L(t))), L being the integral of
the rate, is uniform, whatever came before.  The monitor transforms every time drawn with the
exact integral and compares the observed distribution with the uniform one: a difference above
sqrt(ln(2/d)/2n) has probability at most d (Dvoretzky, Kiefer, Wolfowitz; Massart), a sum of
n bounded martingale differences above c*sqrt(2n ln(2/d)) likewise (Azuma)."""
import bisect
import math

import numpy as np
import queueing_tool as qt

from vlib import mon as M

FALSE = 1e-13       # false alarm probability of one test


class Periodic(object):
    """Linear pieces repeated with a period: (width, rate at the left end, at the right end)."""
    def __init__(self, pieces):
        self.pieces = pieces
        self.x = [0.0]
        self.c = [0.0]
        for w, a, b in pieces:
            self.x.append(self.x[-1] + w)
            self.c.append(self.c[-1] + w * (a + b) / 2.0)
        self.period, self.mass = self.x[-1], self.c[-1]
        self.max = max(max(a, b) for _w, a, b in pieces)

    def __call__(self, t):
        s = t % self.period
        j = min(bisect.bisect_right(self.x, s) - 1, len(self.pieces) - 1)
        w, a, b = self.pieces[j]
        return a + (b - a) * (s - self.x[j]) / w

    def integral(self, t):
        n = np.floor(t / self.period)
        s = t - n * self.period
        x = np.asarray(self.x)
        j = np.clip(np.searchsorted(x, s, side='right') - 1, 0, len(self.pieces) - 1)
        w, a, b = np.asarray(self.pieces, float).T
        d = s - x[j]
        return n * self.mass + np.asarray(self.c)[j] + a[j] * d + (b - a)[j] / w[j] * d * d / 2

    def __repr__(self):
        return 'Periodic(%r)' % [tuple(round(z, 3) for z in p) for p in self.pieces]


class Sine(object):
    def __init__(self, a, b, w, p):
        self.a, self.b, self.w, self.p = a, b, w, p
        self.max, self.period = a + b, 2 * math.pi / w

    def __call__(self, t):
        return self.a + self.b * math.sin(self.w * t + self.p)

    def integral(self, t):
        return self.a * t - self.b / self.w * np.cos(self.w * t + self.p)

    def __repr__(self):
        return 'Sine(%.3g,%.3g,%.3g,%.3g)' % (self.a, self.b, self.w, self.p)


class Ramp(object):
    """Nothing until t0, then growing up to a top at t1."""
    def __init__(self, t0, t1, top):
        self.t0, self.t1, self.max = t0, t1, top
        self.period = max(1.0, t1)

    def __call__(self, t):
        return 0 if t <= self.t0 else self.max if t >= self.t1 else \
            self.max * (t - self.t0) / (self.t1 - self.t0)

    def integral(self, t):
        d = np.clip(t - self.t0, 0, self.t1 - self.t0)
        return self.max * (d * d / (2 * (self.t1 - self.t0)) + np.maximum(t - self.t1, 0))

    def __repr__(self):
        return 'Ramp(%.3g,%.3g,%.3g)' % (self.t0, self.t1, self.max)


def a_rate(rng):
    k = rng.choice(['const', 'sine', 'steps', 'steps', 'gaps', 'tent', 'saw', 'ramp'])
    s = rng.choice([0.05, 1.0, 1.0, 4.0, 50.0])      # time scale
    f = rng.choice([0.2, 1.0, 1.0, 5.0]) / s
    if k == 'const':
        c = rng.choice([1, 2, f, 0.37 * f])
        return k, Periodic([(1.0, c, c)])
    if k == 'sine':
        a = f * rng.uniform(0.5, 2)
        return k, Sine(a, a * rng.choice([1.0, 0.9, 0.3]), rng.choice([1, 6.283185, 0.3]) / s,
                       rng.uniform(0, 6))
    if k == 'steps':
        return k, Periodic([(s * rng.uniform(0.2, 2), c, c) for c in
                            (f * rng.uniform(0.05, 3) for _ in range(rng.randint(2, 6)))])
    if k == 'gaps':
        p = []
        for _ in range(rng.randint(1, 3)):
            c = f * rng.uniform(0.2, 2)
            p += [(s * rng.uniform(0.2, 1), c, c), (s * rng.uniform(0.2, 3), 0, 0)]
        if rng.random() < 0.5:
            p.reverse()
        return k, Periodic(p)
    if k == 'tent':
        a, b = f * rng.uniform(0, 0.5), f * rng.uniform(1, 3)
        a = rng.choice([0, a])
        return k, Periodic([(s, a, b), (s * rng.uniform(0.3, 2), b, a)])
    if k == 'saw':
        b = f * rng.uniform(0.5, 3)
        return k, Periodic([(s, 0, b)] if rng.random() < 0.5 else [(s, b, 0)])
    t0 = s * rng.uniform(0, 3)
    return k, Ramp(t0, t0 + s * rng.uniform(0.01, 4), f)


def tests(ctx, u, start, what):
    """u: uniform numbers expected, one after the other; start: what is known before each."""
    n = len(u)
    ctx.count('times_judged', n)

    def dkw(x, label):
        if len(x) < 300:
            return
        x = np.sort(x)
        k = np.arange(1, len(x) + 1)
        d = max((k / len(x) - x).max(), (x - (k - 1) / len(x)).max())
        eps = math.sqrt(math.log(2 / FALSE) / (2 * len(x)))
        ctx.count('distribution_tests')
        ctx.check(d < eps, lambda: '%s: %s: the next arrival is off by %.4f in distribution, '
                  'chance allows %.4f (%d times)' % (what, label, d, eps, len(x)))
    dkw(u, 'all')
    order = np.argsort(start, kind='stable')
    for j in range(4):
        part = order[j * n // 4:(j + 1) * n // 4]
        dkw(u[part], 'starting at %.4g to %.4g of the period' % (
            start[part[0]], start[part[-1]]))
    prod = (u[1:] - 0.5) * (u[:-1] - 0.5)
    lim = 0.25 * math.sqrt(2 * len(prod) * math.log(2 / FALSE))
    ctx.count('independence_tests')
    ctx.check(abs(prod.sum()) < lim, lambda: '%s: one arrival depends on the one before (%.1f, '
              'chance allows %.1f)' % (what, prod.sum(), lim))


def silence(ctx):
    """Rates that are zero for a very long time."""
    rng = ctx.rng
    top = rng.choice([0.01, 1.0, 40.0])
    gap = rng.choice([1500, 15000, 60000]) / top
    width = gap * rng.choice([0.001, 0.01])
    rate = Periodic([(width, top, top), (gap, 0.0, 0.0)])
    n = int(600000 * (1 if ctx.tier == 'quick' else 5) / (gap * top)) + 4
    t = rng.choice([0.0, width, width + 0.5 * gap])
    ctx.desc = '%r, %d times' % (rate, n)
    for _ in range(n):
        s = qt.poisson_random_measure(t, rate, top)
        ctx.check(s > t, lambda: 'after %r came %r, which is not later' % (t, s))
        ctx.check(rate(s) > 0, lambda: 'after %r came %r, where the rate is zero' % (t, s))
        ctx.count('times_with_zero_rates')
        if math.floor(s / rate.period) > math.floor(t / rate.period):
            ctx.count('silences')
        ctx.high('candidates', int((s - t) * top))
        t = s if rng.random() < 0.3 else s + width
    ctx.sig = (repr(rate), t)
    ctx.nontrivial = True


def run_case(ctx, i):
    if i % 20 == 3:
        return silence(ctx)
    rng = ctx.rng
    kind, rate = a_rate(rng)
    top = rate.max * (1 if rng.random() < 0.8 else rng.choice([1.5, 4]))
    n = rng.choice([6000, 20000, 60000] if ctx.tier == 'quick' else [20000, 100000, 400000])
    if top > 5 * rate.max / 2:
        n //= 2
    mode = rng.choice(['chain', 'chain', 'same', 'jump', 'queue'])
    if kind == 'ramp' and mode in ('chain', 'queue'):
        mode = 'jump'
    base = rng.choice([0, 0.0, 0, 3.7, -2.5, 1000.0])
    if isinstance(rate, Ramp) or mode == 'queue':
        base = 0.0
    ctx.desc = '%r rate_max=%r mode=%s base=%r n=%d' % (rate, top, mode, base, n)
    ctx.count('rate_' + kind)
    ctx.count('mode_' + mode)
    prm = qt.poisson_random_measure
    frm, to = [], []
    if mode == 'chain':
        t = base
        for _ in range(n):
            s = prm(t, rate, top)
            frm.append(t)
            to.append(s)
            t = s
            if t - base > 1e7 * rate.period:
                break
    elif mode == 'same':
        t = base + rate.period * rng.random()
        for _ in range(n):
            frm.append(t)
            to.append(prm(t, rate, top))
    elif mode == 'jump':
        for _ in range(n):
            t = base + rate.period * rng.random() * rng.choice([1, 1, 3])
            frm.append(t)
            to.append(prm(t, rate, top))
    else:
        n = n // 4
        q = qt.QueueServer(arrival_f=lambda t: prm(t, rate, top), num_servers=np.infty,
                           service_f=lambda t: t, collect_data=True)
        q.set_active()
        q.simulate(nA=n)
        a = np.sort(q.fetch_data()[:, 0])
        ctx.count('arrivals_of_queues', len(a))
        frm, to = a[:-1], a[1:]
    frm, to = np.asarray(frm, float), np.asarray(to, float)
    if not ctx.check(bool(np.isfinite(to).all()), 'the next arrival is not a finite time'):
        return
    bad = np.flatnonzero(to <= frm)
    ctx.check(not len(bad), lambda: 'after %r came %r, which is not later' % (
        frm[bad[0]], to[bad[0]]))
    r = np.array([rate(x) for x in to])
    bad = np.flatnonzero(~(r > 0))
    ctx.check(not len(bad), lambda: 'after %r came %r, where the rate is zero' % (
        frm[bad[0]], to[bad[0]]))
    if (r == 0).any() or kind in ('gaps', 'ramp', 'saw', 'tent'):
        ctx.count('times_with_zero_rates', len(to))
    mass = rate.integral(to) - rate.integral(frm)
    u = -np.expm1(-mass)
    tests(ctx, u, frm % rate.period if not isinstance(rate, Ramp) else frm, repr(rate))
    ctx.sig = (repr(rate), mode, n)
