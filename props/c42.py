"""With exponential times a network is the Markov chain of queueing theory.

Before every event the state of the network says how long the wait for it is (the sum R of the
rates of all pending outside arrivals and busy servers; exactly exponential), and which event it
is (in proportion to the rates), whatever happened before.  So over a run

  u = 1 - exp(-R dt)         are independent and uniform,
  1{event is k} - rate_k/R   is a martingale difference, in every subset of states.

Uniformity is judged by the DKW inequality, martingales by Freedman's with the predictable
variance, each at exp(-42): 10**6 tests in a run stay far below 1e-9.  Nothing needs to be
stationary and no long run average has to converge."""
import math

import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M

BOUND = 42.0


def large(s, v, b=1.0):
    """Is a martingale s with predictable variance v and steps below b out of its range?

    Freedman: P(|s| >= x and variance <= w for some time) <= 2 exp(-x^2 / (2 (w + b x / 3))).
    The variance is rounded up to one of a few hundred values, which costs 6 of the exponent."""
    w = 1.05 * v + 1.0
    return s * s / (2.0 * (w + b * abs(s) / 3.0)) > BOUND + 6.0


class Wave(object):
    """A rate that goes up and down, with its integral."""
    def __init__(self, a, w):
        self.a, self.w = a, w

    def __call__(self, t):
        return self.a * (1.0 + 0.9 * math.sin(self.w * t))

    def integral(self, s, t):
        return self.a * ((t - s) - 0.9 * (math.cos(self.w * t) - math.cos(self.w * s)) / self.w)

    def arrival_f(self):
        top = 1.9 * self.a
        return lambda t: qt.poisson_random_measure(t, self, top)


class Flat(object):
    def __init__(self, a):
        self.a = a

    def __call__(self, t):
        return self.a

    def integral(self, s, t):
        return self.a * (t - s)


class Judge(object):
    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what
        self.u = []
        self.mart = {}
        self.events = 0

    def add(self, key, x, v, b=1.0):
        m = self.mart.get(key)
        if m is None:
            m = self.mart[key] = [0.0, 0.0, 0, b]
        m[0] += x
        m[1] += v
        m[2] += 1

    def event(self, rates, R, u, k, flat, level):
        """The event k happened; rates: event -> rate at that instant."""
        self.events += 1
        if self.u:
            d = self.u[-1] - 0.5
            self.add(('one after the other',), (u - 0.5) * d, d * d / 12.0, 0.25)
        self.u.append(u)
        self.add(('time', level), u - 0.5, 1 / 12.0, 0.5)
        if flat:
            self.add(('time before', k), u - 0.5, 1 / 12.0, 0.5)
        if not self.ctx.check(rates.get(k, 0.0) > 0.0, lambda: '%s: %r happened, possible are %r' % (
                self.what, k, rates)):
            return False
        for e, r in rates.items():
            p = r / R
            x = (1.0 if e == k else 0.0) - p
            self.add(('event', e), x, p * (1 - p))
        return True

    def level(self, key, hit, p):
        self.add(key, (1.0 if hit else 0.0) - p, p * (1 - p))

    def verdict(self):
        ctx = self.ctx
        n = len(self.u)
        if n >= 50:
            u = np.sort(np.array(self.u))
            i = np.arange(n)
            d = max((u - i / float(n)).max(), ((i + 1) / float(n) - u).max())
            ctx.count('uniform_tests')
            ctx.check(d < math.sqrt(BOUND / (2.0 * n)), lambda: '%s: the times between events '
                      'differ from exponential ones by %.4f over %d events (bound %.4f)' % (
                          self.what, d, n, math.sqrt(BOUND / (2.0 * n))))
        for key, (s, v, m, b) in sorted(self.mart.items(), key=repr):
            ctx.count('rate_tests')
            ctx.check(not large(s, v, b), lambda: '%s: %r: %+.1f from what the rates say, over %d '
                      'events, standard deviation %.1f' % (self.what, key, s, m, math.sqrt(v)))


def equip(rng, q, default=False):
    """Exponential times; returns (arrival rate, service rate)."""
    if default:
        return Flat(1.0), 1 / 0.9
    lam = rng.choice([0.2, 0.5, 1.0, 2.0])
    n = q.num_servers if q.num_servers < M.INF else 3
    mu = rng.choice([0.3, 0.8, 1.2, 3.0]) / max(1, n) * rng.choice([1.0, 2.0])
    if rng.random() < 0.25:
        a = Wave(lam, rng.choice([0.3, 1.0, 4.0]))
        q.arrival_f = a.arrival_f()
    else:
        a = Flat(lam)
        q.arrival_f = lambda t, m=1.0 / lam: t + np.random.exponential(m)
    q.service_f = lambda t, m=1.0 / mu: t + np.random.exponential(m)
    return a, mu


def busy(q):
    return q.num_system - q.number_queued()


def network(ctx, rng, n):
    profile = rng.choice(['std', 'mix', 'tight', 'tight', 'res', 'greedy'])
    default = rng.random() < 0.15
    net, desc = gen.network(rng, profile, data=False, caps=False, nmax=rng.choice([3, 5]),
                            blocking='RS', max_agents=rng.choice([5, 12, 30]))
    rate = {}
    kinds = rng.choice([['agent'], ['agent'], ['agent', 'greedy'], ['agent', 'resource']])
    for k, q in enumerate(net.edge2queue):
        if isinstance(q, qt.NullQueue):
            continue
        if default:
            d = qt.QueueServer()
            q.arrival_f, q.service_f = d.arrival_f, d.service_f
        rate[k] = equip(rng, q, default)
        q.active_cap = q.deactive_t = M.INF
        c = rng.choice(kinds)
        q.AgentFactory = {'agent': qt.Agent, 'greedy': qt.GreedyAgent,
                          'resource': qt.ResourceAgent}[c]
        if isinstance(q, qt.InfoQueue):
            q.AgentFactory = qt.InfoAgent
    desc = '%s; rates %s' % (desc, {k: (a.a, type(a).__name__, round(m, 3))
                                    for k, (a, m) in rate.items()})
    ctx.desc = desc
    net.initialize(**gen.init_kwargs(rng, net))
    del M.LOG[:]
    table = {u: dict(d) for u, d in net.transitions(False).items()}
    greedy = 'greedy' in kinds
    came = {k: 0 for k in rate}
    J = Judge(ctx, 'network')
    qs = {k: net.edge2queue[k] for k in rate}
    t = 0.0
    held = {}
    step = (lambda: net._simulate_next_event(slow=False)) if rng.random() < 0.5 else \
        (lambda: net.simulate(n=1))
    for _ in range(n):
        pend = [k for k in rate if qs[k].num_arrivals[1] > came[k]]
        b = {k: busy(q) for k, q in qs.items()}
        kind, e = net.next_event_description()
        if e is None:
            break
        dep0 = qs[e].num_departures if e in qs else 0
        arr0 = {k: q.num_arrivals[0] for k, q in qs.items()}
        blk0 = {k: getattr(q, 'num_blocked', 0) for k, q in qs.items()}
        step()
        s, t = t, net.current_time
        if not t < M.INF:
            break
        work = sum(b[k] * rate[k][1] for k in rate)
        total = work * (t - s) + sum(rate[k][0].integral(s, t) for k in pend)
        rates = {('Departure', k): b[k] * rate[k][1] for k in rate if b[k] > 0}
        flat = True
        for k in pend:
            rates['Arrival', k] = rate[k][0](t)
            flat = flat and isinstance(rate[k][0], Flat)
        R = sum(rates.values())
        u = -math.expm1(-total)
        level = sum(b.values())
        if not J.event(rates, R, u, (kind, e), flat, min(level, 8)):
            return
        for k in rate:
            if b[k]:
                J.level(('service', k, min(b[k], 6)), (kind, e) == ('Departure', k),
                        b[k] * rate[k][1] / R)
        if kind == 'Arrival':
            came[e] += 1
        if kind == 'Departure' and not greedy:
            v = qs[e].edge[1]
            way = chosen(net, qs, e, arr0, blk0)
            ctx.count('choices')
            if way is not None:
                ctx.count('choices_seen')
                w = net.edge2queue[way].edge[1]
                again = held.get(e, False)
                for x, p in table[v].items():
                    if 0 < p < 1:
                        J.level(('route', v, x), x == w, p)
                        J.level(('route again' if again else 'route at first', e, x), x == w, p)
                if again:
                    ctx.count('choices_again')
            held[e] = qs[e].num_departures == dep0
    J.verdict()
    ctx.count('events', J.events)
    ctx.count('networks')
    ctx.count('default_networks', default)
    ctx.sig = ('net', desc)
    ctx.nontrivial = J.events > 1000


def chosen(net, qs, e, arr0, blk0):
    """The edge taken or tried by the agent at e, if it can be told from what has been counted."""
    out = net.out_edges[qs[e].edge[1]]
    if any(isinstance(net.edge2queue[k], qt.ResourceQueue) for k in out):
        return None             # an agent that gives back its resource is not counted
    if sum(isinstance(net.edge2queue[k], qt.NullQueue) for k in out) > 1:
        return None             # nor can several exits be told apart
    to = [k for k in out if k in qs and qs[k].num_arrivals[0] > arr0[k]]
    to += [k for k in out if getattr(net.edge2queue[k], 'num_blocked', 0) > blk0.get(k, 0)]
    if not to:
        to = [k for k in out if isinstance(net.edge2queue[k], qt.NullQueue)]
    return to[0] if len(to) == 1 else None


def one_queue(ctx, rng, n):
    q, kind, desc = gen.single(rng, kinds=('std', 'loss', 'loss', 'info'), caps=False)
    default = rng.random() < 0.2
    if default:
        q = type(q)(num_servers=q.num_servers, edge=q.edge,
                    **dict({'qbuffer': q.buffer} if kind != 'std' else {},
                           **({'net_size': 30} if kind == 'info' else {})))
    q.AgentFactory = qt.InfoAgent if kind == 'info' else qt.Agent
    a, mu = equip(rng, q, default)
    q.active_cap = q.deactive_t = M.INF
    q.collect_data = False
    ctx.desc = '%s rates %r %r' % (desc, (a.a, type(a).__name__), mu)
    q.set_active()
    J = Judge(ctx, 'queue')
    t = 0.0
    came = 0
    change = rng.random() < 0.5
    for _ in range(n):
        if q.number_queued() > 300:
            break
        b = busy(q)
        pend = q.num_arrivals[1] > came
        kind = q.next_event_description()
        if kind == 0:
            break
        q.simulate(n=1)
        s, t = t, q.current_time
        rates = {}
        if b:
            rates[2] = b * mu
        if pend:
            rates[1] = a(t)
        R = sum(rates.values())
        total = b * mu * (t - s) + (a.integral(s, t) if pend else 0.0)
        if not J.event(rates, R, -math.expm1(-total), kind, isinstance(a, Flat), min(b, 8)):
            return
        if kind == 1:
            came += 1
        J.level(('service', min(b, 8)), kind == 2, rates.get(2, 0.0) / R)
        if change and rng.random() < 0.02:
            q.set_num_servers(rng.choice([1, 2, 3, 4, 6]))
    J.verdict()
    ctx.count('queue_events', J.events)
    ctx.count('queues')
    ctx.sig = ('queue', ctx.desc)
    ctx.nontrivial = J.events > 1000


def run_case(ctx, i):
    n = 20000 if ctx.tier == 'quick' else 60000
    np.random.seed(ctx.np_seed)
    (one_queue if ctx.rng.random() < 0.3 else network)(ctx, ctx.rng, n)
