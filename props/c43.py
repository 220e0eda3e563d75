"""The unit of time, the rest of the world and the place of a queue make no difference."""
import random

import networkx as nx
import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M, twin

CL = {'std': qt.QueueServer, 'loss': qt.LossQueue, 'res': qt.ResourceQueue}


class Times(object):
    """Times from a stream of its own, in units of c."""
    def __init__(self, key, kind, scale, c=1.0, origin=None):
        self.r = random.Random('times/%s' % key)
        self.kind, self.scale, self.c, self.origin = kind, scale, c, origin

    def step(self, t):
        r, s = self.r, self.scale
        if self.kind == 'exp':
            return r.expovariate(1.0) * s
        if self.kind == 'gamma':
            return r.gammavariate(3.0, s / 3)
        if self.kind == 'uniform':
            return r.uniform(0.2, 1.8) * s
        # depends on the time of day
        return r.expovariate(1.0) * s * (1.5 if int(t) % 2 else 0.5)

    def __call__(self, t):
        if self.origin is not None:
            # multiples of 1/1024, so that sums are exact
            u = max(t - self.origin, 0.0)
            return u + round(self.step(u) * 1024) / 1024.0 + self.origin
        u = t / self.c
        return (u + self.step(u)) * self.c


class Own(object):
    """Goes its own way, which depends on nothing but who it is and how often it has chosen."""
    def __init__(self, agent_id=(0, 0)):
        super(Own, self).__init__(agent_id)
        self.way = None

    def desired_destination(self, network, edge):
        out = network.out_edges[edge[1]]
        names = getattr(network, 'names', None)
        if names:
            out = sorted(out, key=names.get)
        return out[self.way.randrange(len(out))]


class OAgent(Own, qt.Agent):
    pass


class OResource(Own, qt.ResourceAgent):
    pass


def maker(cls, key, k):
    def make(aid):
        a = cls(aid)
        if isinstance(a, Own):
            a.way = random.Random('way/%s/%d/%d' % (key, k, aid[1]))
        return a
    return make


class Part(object):
    """A piece of a network: its graph, and what is on its edges."""
    def __init__(self, rng, name, nmax=4, kinds=('std', 'std', 'loss', 'loss', 'res')):
        self.name = name
        self.types = {t: rng.choice(kinds) for t in (1, 2, 3)}
        self.g = gen.random_digraph(rng, nmin=2, nmax=nmax, types=[1, 2, 3],
                                    no_loop_types=[t for t in (1, 2, 3)
                                                   if self.types[t] == 'res'] if not all(
                                        v == 'res' for v in self.types.values()) else [1, 2])
        if all(v == 'res' for v in self.types.values()):
            self.types[3] = 'std'
        self.edges = sorted(self.g.edges())
        # edges into vertices without out-edges lead out of the network
        self.set = {}
        for k, (u, v) in enumerate(self.edges):
            t = self.g.edges[u, v]['edge_type']
            kind = self.types.get(t)
            n = rng.choice([1, 1, 2, 3])
            o = {'kind': kind, 'n': n, 'buffer': rng.choice([0, 1, 2, 5]),
                 'a': (rng.choice(['exp', 'gamma', 'uniform', 'dep']),
                       rng.choice([0.5, 1.0, 2.0])),
                 's': (rng.choice(['exp', 'gamma', 'uniform', 'dep']),
                       rng.choice([0.2, 0.6, 0.9]) * n),
                 'cap': rng.choice([np.infty, np.infty, 3, 30]),
                 'dt': rng.choice([np.infty, np.infty, 15.0]),
                 'agent': rng.choice([OAgent, OAgent, qt.GreedyAgent, OResource])}
            if kind == 'res':
                o['agent'] = OResource
            self.set[k] = o
        self.start = rng.sample(range(len(self.edges)), rng.randint(1, len(self.edges)))
        self.data = rng.random() < 0.8

    def dress(self, net, shift=0, c=1.0, name=None, origin=None):
        """Puts everything on a network, of which this is the part from there on."""
        for k, (u, v) in enumerate(self.edges):
            e = (name[u], name[v]) if name else (u + shift, v + shift)
            q = net.edge2queue[net.g.edge_index[e]]
            if isinstance(q, qt.NullQueue):
                q.collect_data = self.data
                continue
            o = self.set[k]
            key = '%s/%d' % (self.name, k)
            q.num_servers = o['n']
            if hasattr(q, 'buffer'):
                q.buffer = o['buffer']
            if hasattr(q, 'max_servers'):
                q.max_servers = 2 * o['n']
            q.arrival_f = Times(key + 'a', o['a'][0], o['a'][1], c, origin)
            q.service_f = Times(key + 's', o['s'][0], o['s'][1], c, origin)
            q.active_cap = o['cap']
            q.deactive_t = o['dt'] * c + (origin or 0.0)
            q.AgentFactory = maker(o['agent'], self.name, k)
            q.collect_data = self.data

    def classes(self, base=0):
        return {t + base: CL[kind] for t, kind in self.types.items()}

    def renumbered(self, name, rng):
        """The same graph with other numbers, listed in another order."""
        g = nx.DiGraph()
        vs, es = list(self.g.nodes()), list(self.g.edges())
        rng.shuffle(vs)
        rng.shuffle(es)
        g.add_nodes_from(name[v] for v in vs)
        for u, v in es:
            g.add_edge(name[u], name[v], edge_type=self.g.edges[u, v]['edge_type'])
        return g

    def graph(self, shift=0, base=0):
        g = nx.DiGraph()
        g.add_nodes_from([v + shift for v in self.g.nodes()])
        for u, v in self.g.edges():
            t = self.g.edges[u, v]['edge_type']
            g.add_edge(u + shift, v + shift, edge_type=t + base if t else 0)
        return g

    def __repr__(self):
        return '%s: edges %s types %s from %s' % (
            self.name, ' '.join('%d-%d/%d n=%d b=%s %s' % (
                u, v, self.g.edges[u, v]['edge_type'], self.set[k]['n'], self.set[k]['buffer'],
                self.set[k]['agent'].__name__) for k, (u, v) in enumerate(self.edges)),
            self.types, self.start)


def build(parts, bases, blocking='RS', c=1.0):
    """One network of all these parts."""
    g = nx.DiGraph()
    classes, shifts, n = {}, [], 0
    for p, b in zip(parts, bases):
        h = p.graph(n, b)
        g.add_nodes_from(h.nodes())
        g.add_edges_from(h.edges(data=True))
        classes.update(p.classes(b))
        shifts.append(n)
        n += p.g.number_of_nodes()
    net = qt.QueueNetwork(g, q_classes=classes, blocking=blocking, max_agents=np.infty)
    for p, s in zip(parts, shifts):
        p.dress(net, shift=s, c=c)
    start = []
    for p, s in zip(parts, shifts):
        for k in p.start:
            u, v = p.edges[k]
            e = net.g.edge_index[(u + s, v + s)]
            if not isinstance(net.edge2queue[e], qt.NullQueue):
                start.append(e)
    return net, shifts, start


def queues(p, net, shift):
    """The queues of the part in the order of its own edges."""
    return [net.edge2queue[net.g.edge_index[(u + shift, v + shift)]] for u, v in p.edges]


def look(qs, c=1.0, origin=0.0):
    """Everything to be seen at these queues, edges numbered among themselves."""
    first = {q.edge[2]: k for k, q in enumerate(qs)}
    out = {}

    def aid(a):
        return (first.get(a[0], ('?', a[0])), a[1])
    for k, q in enumerate(qs):
        s = twin.snap_queue(q)
        for x in ('time', 'current_time', 'deactive_t'):
            s[x] = (s[x] - origin if s[x] else 0.0) / c
        s['line'] = [aid(a) for a in s['line']]
        s['data'] = {aid(a): [tuple((x - origin if x else 0.0) / c for x in r[:3]) + tuple(r[3:])
                              for r in rows]
                     for a, rows in s['data'].items()}
        s.pop('edge')
        for x, y in s.items():
            out['q%d.%s' % (k, x)] = y
    return out


def run_until(net, t, limit=3000):
    """All events up to and including the time."""
    n = 0
    while n < limit and net.time <= t:
        net.simulate(n=1)
        n += 1
    return n


def no_start(ctx, start):
    if not start:
        ctx.nontrivial = False
        ctx.count('nothing_to_start')
    return not start


def units(ctx, rng):
    """The same network in other units of time."""
    p = Part(rng, 'part%d' % rng.randrange(10 ** 9), nmax=rng.choice([3, 6]))
    c = 2.0 ** rng.choice([-60, -40, -20, -7, -3, -1, 1, 2, 5, 10, 30, 60])
    ctx.desc = 'units of %g: %r' % (c, p)
    a, _s, start = build([p], [0])
    b, _s, _t = build([p], [0], c=c)
    if no_start(ctx, start):
        return
    a.initialize(queues=start)
    b.initialize(queues=start)
    ev = 0
    for _ in range(rng.choice([4, 10, 20])):
        r = rng.random()
        if r < 0.5:
            n = rng.choice([1, 5, 40])
            a.simulate(n=n)
            b.simulate(n=n)
        elif r < 0.8:
            t = rng.choice([0.5, 3.0, 10.0])
            if a.num_events < 3000:
                a.simulate(t=t)
                b.simulate(t=t * c)
                ctx.count('units_time_goals')
        else:
            k = rng.randrange(a.nE)
            for net in (a, b):
                q = net.edge2queue[k]
                if not isinstance(q, qt.NullQueue) and hasattr(q, 'buffer'):
                    q.buffer = 3
        x, y = look(a.edge2queue), look(b.edge2queue, c)
        ctx.count('units_compared')
        for s, net, f in ((x, a, 1.0), (y, b, c)):
            s.update({'num_events': net.num_events, 'now': net.current_time / f,
                      'then': net.time / f, 'next': tuple(net.next_event_description()),
                      'num_agents': [int(z) for z in net.num_agents]})
        if not ctx.check(x == y, lambda: 'in units of %g: %s' % (c, twin.diff(x, y))):
            return
        if a.time == M.INF:
            break
    ev = a.num_events
    ctx.count('units_events', ev)
    ctx.sig = ('units', ctx.desc)
    ctx.nontrivial = ev > 20


def parts(ctx, rng):
    """Several networks in one, next to each other, against each alone."""
    m = rng.choice([2, 2, 3])
    key = rng.randrange(10 ** 9)
    ps = [Part(rng, 'part%d/%d' % (key, i), nmax=rng.choice([3, 5])) for i in range(m)]
    bases = [3 * i for i in range(m)]
    ctx.desc = 'parts: %r' % (ps,)
    net, shifts, start = build(ps, bases)
    alone = []
    for p in ps:
        a, _s, st = build([p], [0])
        alone.append((a, st))
    if not all(st for _a, st in alone):
        return no_start(ctx, [])
    net.initialize(queues=start)
    for a, st in alone:
        a.initialize(queues=st)
    t = 0.0
    for _ in range(rng.choice([3, 6])):
        t += rng.choice([0.7, 3.0, 9.0])
        n = run_until(net, t, 6000)
        if n == 6000:
            break
        ctx.count('parts_events', n)
        for p, s, (a, _st) in zip(ps, shifts, alone):
            if run_until(a, t, 6000) == 6000:
                return
            x, y = look(queues(p, net, s)), look(queues(p, a, 0))
            ctx.count('parts_compared')
            if not ctx.check(x == y, lambda: '%s among others / alone, at %g: %s' % (
                    p.name, t, twin.diff(x, y))):
                return
    ctx.check(int(np.sum(net.num_agents)) == sum(int(np.sum(a.num_agents)) for a, _s in alone),
              lambda: 'agents: %r and %r' % (net.num_agents, [a.num_agents for a, _s in alone]))
    ctx.sig = ('parts', ctx.desc)
    ctx.nontrivial = net.num_events > 20


def place(ctx, rng):
    """A queue of a network, and a queue of its own that gets the same arrivals."""
    p = Part(rng, 'part%d' % rng.randrange(10 ** 9), nmax=5, kinds=('std', 'std', 'loss'))
    for k, (u, v) in enumerate(p.edges):
        # nobody is held up by a queue that is full: the finite ones have arrivals from outside only
        if any(e[1] == u for e in p.edges):
            p.set[k]['buffer'] = np.infty
    ctx.desc = 'place: %r' % (p,)
    p.data = True
    net, _s, start = build([p], [0])
    if no_start(ctx, start):
        return
    net.initialize(queues=start)
    n = run_until(net, rng.choice([5.0, 20.0, 40.0]), 2000)
    now = net.current_time
    if not now < M.INF:
        return
    ctx.count('place_events', n)
    for k, q in enumerate(net.edge2queue):
        if isinstance(q, qt.NullQueue) or q.edge[0] == q.edge[1]:
            continue        # on a loop agents come at the very time others go
        rows = q.fetch_data()
        if len(rows) < 3 or len(set(rows[:, 0])) < len(rows):
            continue
        times = sorted(rows[:, 0])
        todo = list(times)
        o = p.set[k]
        more = {'qbuffer': o['buffer']} if o['kind'] == 'loss' else {}
        lost = int((rows[:, 1] == 0).sum()) if more else 0
        ctx.count('place_losses', lost)
        alone = type(q)(
            num_servers=o['n'], collect_data=True,
            arrival_f=lambda t, todo=todo: todo.pop(0) if todo else M.INF,
            service_f=Times('%s/%ds' % (p.name, k), o['s'][0], o['s'][1]), **more)
        alone.set_active()
        m = 0
        while alone.time <= now and m < 5000:
            alone.simulate(n=1)
            m += 1
        d = alone.fetch_data()
        ctx.count('place_queues')
        ctx.count('place_visits', len(rows))
        if not ctx.check(len(d) == len(rows) and (d[:, :5] == rows[:, :5]).all(), lambda:
                         'queue %d in the network and alone, %d servers: %s' % (
                             k, o['n'], [(x.tolist(), y.tolist()) for x, y in zip(rows, d)
                                         if not (x[:5] == y[:5]).all()][:2] or
                             (len(rows), len(d)))):
            return
        ctx.check((alone.num_system, alone.number_queued(), alone.num_departures) ==
                  (q.num_system, q.number_queued(), q.num_departures),
                  lambda: 'queue %d in the network and alone: %r, %r' % (k, q, alone))
    ctx.sig = ('place', ctx.desc)
    ctx.nontrivial = n > 20


def same_steps(ctx, rng, a, b, what, compare, time_goals):
    """Takes both through the same calls and compares them."""
    for _ in range(rng.choice([4, 10, 25])):
        r = rng.random()
        if r < 0.7 or not time_goals or not 0 < a.current_time < M.INF or a.num_events > 3000:
            n = rng.choice([1, 1, 5, 40])
            a.simulate(n=n)
            b.simulate(n=n)
        else:
            t = rng.choice([0.5, 3.0, 10.0])
            a.simulate(t=t)
            b.simulate(t=t)
            ctx.count(what + '_time_goals')
        ctx.count(what + '_compared')
        x, y = compare(a, 0), compare(b, 1)
        if not ctx.check(x == y, lambda: '%s: %s' % (what, twin.diff(x, y))):
            return
        if a.time == M.INF:
            break
    ctx.count(what + '_events', a.num_events)
    ctx.sig = (what, ctx.desc)
    ctx.nontrivial = a.num_events > 20


def overall(net, origin, ids):
    k, e = net.next_event_description()
    return {'num_events': net.num_events,
            'now': net.current_time - origin if net.current_time else 0.0,
            'then': net.time - origin, 'next': (k, ids.get(e)),
            'agents': int(np.sum(net.num_agents))}


def later(ctx, rng):
    """The same network with a clock that starts at another time."""
    p = Part(rng, 'part%d' % rng.randrange(10 ** 9), nmax=rng.choice([3, 6]))
    at = [2.0 ** 10, 2.0 ** rng.choice([11, 14, 20, 28, 31, 40])]
    ctx.desc = 'from %g and %g: %r' % (at[0], at[1], p)
    nets = []
    for o in at:
        net, _s, start = build([p], [0])
        p.dress(net, origin=o)
        if no_start(ctx, start):
            return
        net.initialize(queues=start)
        nets.append(net)
    ids = {k: k for k in range(nets[0].nE)}

    def compare(net, i):
        s = look(net.edge2queue, 1.0, at[i])
        s.update(overall(net, at[i], ids))
        return s
    same_steps(ctx, rng, nets[0], nets[1], 'later', compare, True)


def numbers(ctx, rng):
    """The same network with its vertices numbered differently."""
    p = Part(rng, 'part%d' % rng.randrange(10 ** 9), nmax=rng.choice([3, 6, 13]))
    for o in p.set.values():
        if o['agent'] is qt.GreedyAgent:
            o['agent'] = OAgent         # they take the first of equals
    n = p.g.number_of_nodes()
    name = list(range(n))
    rng.shuffle(name)
    blocking = rng.choice(['RS', 'BAS'])
    ctx.desc = 'numbered %r, %s: %r' % (name, blocking, p)
    nets, lists = [], []
    for nm in (list(range(n)), name):
        net = qt.QueueNetwork(p.renumbered(nm, rng), q_classes=p.classes(), blocking=blocking,
                              max_agents=np.infty)
        p.dress(net, name=nm)
        es = [net.g.edge_index[(nm[u], nm[v])] for u, v in p.edges]
        net.names = {e: k for k, e in enumerate(es)}
        start = [es[k] for k in p.start if not isinstance(net.edge2queue[es[k]], qt.NullQueue)]
        if no_start(ctx, start):
            return
        net.initialize(queues=start)
        nets.append(net)
        lists.append([net.edge2queue[e] for e in es])
    # the little delays of blocked agents come in the same order
    state = [np.random.get_state()] * 2

    class Turn(object):
        """Draws for one network do not disturb the other."""
        def __init__(self, net, i):
            self.net, self.i = net, i

        def simulate(self, **kw):
            np.random.set_state(state[self.i])
            self.net.simulate(**kw)
            state[self.i] = np.random.get_state()

        def __getattr__(self, x):
            return getattr(self.net, x)

    def compare(net, i):
        s = look(lists[i])
        s.update(overall(net, 0.0, net.names))
        return s
    same_steps(ctx, rng, Turn(nets[0], 0), Turn(nets[1], 1), 'numbers', compare, False)


def run_case(ctx, i):
    rng = ctx.rng
    r = rng.random()
    (units if r < 0.25 else parts if r < 0.5 else place if r < 0.65 else later if r < 0.8
     else numbers)(ctx, rng)
    del M.LOG[:]
