"""Generated workloads.  Every choice comes from the case's own random stream; the
library's numpy stream is seeded once per case and never touched by the harness."""
import math

import numpy as np
import networkx as nx
import queueing_tool as qt

from vlib import mon as M

INF = float('inf')
INFINITIES = [np.infty, math.inf, float('inf'), np.float64('inf')]


# --------------------------------------------------------------- times
def time_f(rng, kind=None, scale=1.0):
    """A function of the current time returning a later (or equal) time."""
    if kind is None:
        kind = rng.choice(['exp', 'exp', 'grid', 'grid', 'snap', 'const', 'dep', 'burst'])
    r = rng
    if kind == 'exp':
        rate = r.choice([0.3, 0.7, 1.0, 2.0, 5.0]) / scale
        return (lambda t: t + r.expovariate(rate)), 'exp(%.3g)' % rate
    if kind == 'grid':
        steps = r.choice([[0.5, 1.0], [0.0, 0.5, 1.0], [0.5, 0.5, 1.0, 1.5, 3.0],
                          [0.0, 0.0, 1.0, 2.0]])
        steps = [x * scale for x in steps]
        return (lambda t: t + r.choice(steps)), 'grid%r' % (steps,)
    if kind == 'snap':
        top = r.choice([1, 2, 4])
        return (lambda t: (math.floor(t * 2) + r.randint(1, top)) / 2.0), 'snap(%d)' % top
    if kind == 'const':
        c = r.choice([0.25, 0.5, 1.0, 1.0, 2.0]) * scale
        return (lambda t: t + c), 'const(%.3g)' % c
    if kind == 'burst':
        p = r.choice([0.5, 0.7])
        gap = r.choice([1.0, 3.0]) * scale
        return (lambda t: t if r.random() < p else t + gap), 'burst(%.2g,%.2g)' % (p, gap)
    if kind == 'long':
        return (lambda t: t + 20 + r.expovariate(0.2)), 'long'
    a = r.choice([0.1, 0.4, 1.0]) * scale
    return (lambda t: t + a + 0.7 * (1 + math.sin(t)) * a), 'dep(%.2g)' % a


def twin_time_f(rng, kind=None, scale=1.0):
    """Like time_f, but with numpy's global stream only and no state of its own."""
    if kind is not None:
        kind = {'snap': 'grid', 'long': 'exp'}.get(kind, kind)
        scale = scale * 20 if kind == 'exp' else scale
    k = kind or rng.choice(['exp', 'exp', 'gamma', 'grid', 'const', 'dep'])
    if k == 'exp':
        m = rng.choice([0.3, 0.8, 1.0, 2.0]) * scale

        def f(t):
            return t + np.random.exponential(m)
    elif k == 'gamma':
        m = rng.choice([0.2, 0.5]) * scale

        def f(t):
            return t + np.random.gamma(3, m)
    elif k == 'grid':
        m = scale

        def f(t):
            return t + m * 0.5 * np.random.randint(0, 4)
    elif k == 'const':
        m = rng.choice([0.5, 1.0]) * scale

        def f(t):
            return t + m
    else:
        m = rng.choice([0.3, 1.0]) * scale

        def f(t):
            return t + m * (1.2 + np.sin(t)) * np.random.uniform(0.2, 1.0)
    return f, '%s(%.3g)' % (k, m)


def later(f, start):
    """The arrivals of f, the first of them after start."""
    return lambda t: f(t if t >= start else start)


# --------------------------------------------------------------- one queue
CLASSES = {'std': qt.QueueServer, 'loss': qt.LossQueue, 'info': qt.InfoQueue,
           'res': qt.ResourceQueue}


def queue_kwargs(rng, kind, caps=True):
    kw = {}
    kw['num_servers'] = rng.choice([1, 1, 2, 2, 3, 4, 7, np.infty if kind != 'res' else 5])
    if kw['num_servers'] == INF:
        kw['num_servers'] = rng.choice(INFINITIES)
    if kind in ('loss', 'res', 'info'):
        kw['qbuffer'] = rng.choice([0, 0, 1, 2, 3, 10, np.infty])
    if caps and rng.random() < 0.3:
        kw['active_cap'] = rng.choice([0, 1, 2, 5, 12, 20, 40])
    if caps and rng.random() < 0.2:
        kw['deactive_t'] = rng.choice([0.0, 0.5, 1.0, 3.0, 5.0, 7.3, 20.0])
    if rng.random() < 0.6:
        kw['collect_data'] = True
    return kw


def single(rng, kinds=('std', 'loss', 'loss', 'info', 'res'), caps=True, on_act=None,
           edge=None, twin=False, agent=None, **fix):
    tf = twin_time_f if twin else time_f
    kind = rng.choice(list(kinds))
    kw = queue_kwargs(rng, kind, caps)
    kw.update(fix)
    k = rng.choice([0, 0, 3, 17])
    edge = edge or (rng.randint(0, 4), rng.randint(0, 4), k, rng.choice([1, 1, 2]))
    load = rng.choice([0.4, 0.8, 1.0, 1.5])
    n = kw['num_servers']
    n = 3 if n == INF else n
    af, ad = tf(rng, scale=1.0)
    sf, sd = tf(rng, scale=max(0.25, load * n) if rng.random() < 0.7 else 1.0)
    if not twin and rng.random() < 0.05:
        start = rng.choice([1e3, 1e6, 1.7e9, 1e12])
        af, ad = later(af, start), '%s from %g' % (ad, start)
        if 'deactive_t' in kw and 'deactive_t' not in fix:
            kw['deactive_t'] += start
    if kind == 'info':
        kw['net_size'] = edge[2] + rng.choice([1, 3])
        cls = M.HInfo
    else:
        cls = M.HAgent
        if agent == 'resource' and kind == 'res':
            cls = M.HResource
    q = CLASSES[kind](edge=edge, arrival_f=M.ArrivalF(edge[2], af),
                      service_f=M.ServiceF(edge[2], sf),
                      AgentFactory=M.Factory(edge[2], cls, on_act), **kw)
    desc = '%s edge=%r %s arrivals=%s services=%s' % (
        kind, edge, ' '.join('%s=%s' % x for x in sorted(kw.items())), ad, sd)
    return q, kind, desc


def crowd(rng, q, n, twin=False):
    """Make it likely that some n agents are at the queue at once."""
    gap = rng.choice([0.0, 0.01, 0.01, 0.1])
    slow = n * rng.choice([0.002, 0.01, 0.1])
    if gap == 0.0:
        q.active_cap = n
    start = q.arrival_f(0)
    del M.LOG[:]
    arr = [lambda t: max(t, start) + gap, lambda t: max(t, start) + rng.expovariate(20)][
        gap > 0 and rng.random() < 0.5]
    ser = [lambda t: t + slow, lambda t: t + rng.expovariate(1.0 / slow),
           lambda t: t + 0.02 * rng.randint(0, 9)][rng.randint(0, 2)]
    if twin:
        arr = [lambda t: max(t, start) + gap,
               lambda t: max(t, start) + np.random.exponential(0.05)][gap > 0 and rng.random() < 0.5]
        ser = [lambda t: t + slow, lambda t: t + np.random.exponential(slow),
               lambda t: t + 0.02 * np.random.randint(0, 10)][rng.randint(0, 2)]
    k = q.edge[2]
    q.arrival_f, q.service_f = M.ArrivalF(k, arr), M.ServiceF(k, ser)
    if hasattr(q, 'buffer') and rng.random() < 0.8:
        q.buffer = rng.choice([n, n // 2, np.infty])
    if rng.random() < 0.3 and not isinstance(q, qt.ResourceQueue):
        q.set_num_servers(n // 2)
    q.deactive_t = INF
    if q.active_cap < INF:
        q.active_cap = n
    return 'crowd of %d: gap=%g slow=%g servers=%s buffer=%s cap=%s' % (
        n, gap, slow, q.num_servers, getattr(q, 'buffer', '-'), q.active_cap)


# --------------------------------------------------------------- graphs
def random_digraph(rng, nmin=2, nmax=7, terminals=True, loops=True, types=(1,), dense=None,
                   no_loop_types=()):
    """A directed graph on 0..n-1 with the edge property 'edge_type', its vertices and
    edges listed in random order."""
    n = rng.randint(nmin, nmax)
    p = dense if dense is not None else rng.choice([0.15, 0.3, 0.5, 0.9])
    edges = {}
    for u in range(n):
        for v in range(n):
            if u != v and rng.random() < p:
                edges[(u, v)] = rng.choice(types)
            elif u == v and loops and rng.random() < 0.25:
                edges[(u, v)] = rng.choice([t for t in types if t not in no_loop_types])
    order = list(range(n))
    rng.shuffle(order)
    for i in range(n):        # nobody is left out
        a, b = order[i], order[(i + 1) % n]
        if a != b and not any(e[0] == a for e in edges):
            edges[(a, b)] = rng.choice(types)
        if a != b and not any(e[1] == b for e in edges):
            edges[(a, b)] = rng.choice(types)
    term = set()
    if terminals and n > 1:
        for v in rng.sample(range(n), rng.randint(0, max(1, n // 3))):
            how = rng.random()
            if how < 0.6:       # a vertex without out-edges
                if any(e[0] != v for e in edges):
                    edges = {e: t for e, t in edges.items() if e[0] != v}
                    term.add(v)
            else:               # a terminal loop, possibly next to other out-edges
                edges[(v, v)] = 0
    if not any(t != 0 and e[1] not in term for e, t in edges.items()):
        # there has to be a queue that can be active
        vs = [v for v in range(n) if v not in term] or [0]
        a = vs[0]
        edges[(a, a)] = [t for t in types if t not in no_loop_types][0]
        for b in range(n):
            if b != a and not any(e[0] == b for e in edges) and b not in term:
                edges[(b, a)] = types[0]
    items = list(edges.items())
    rng.shuffle(items)
    vs = list(range(n))
    rng.shuffle(vs)
    g = nx.DiGraph()
    g.add_nodes_from(vs)
    for (u, v), t in items:
        g.add_edge(u, v, edge_type=t)
    for v in list(g.nodes()):        # every vertex is an end point of something
        if g.degree(v) == 0:
            w = [x for x in vs if x != v and x not in term] or [v]
            g.add_edge(w[0], v, edge_type=types[0])
    return g


def random_table(rng, net, style=None):
    """A transition dictionary for a network (some vertices may be left alone)."""
    style = style or rng.choice(['none', 'uniform', 'zeros', 'skew', 'some', 'zeros'])
    if style == 'none':
        return None
    out = {}
    for v in range(net.nV):
        oe = sorted(net.g.out_edges(v))
        if not oe or (style == 'some' and rng.random() < 0.5):
            continue
        if style == 'zeros':
            w = [rng.choice([0, 0, 1, 2]) for _e in oe]
            if sum(w) == 0:
                w[rng.randrange(len(w))] = 1
        elif style == 'skew':
            w = [10.0 ** -rng.randint(0, 4) for _e in oe]
        else:
            w = [rng.random() + 0.01 for _e in oe]
        s = float(sum(w))
        out[v] = {e[1]: x / s for e, x in zip(oe, w)}
    return out


def network(rng, profile='mix', agents=None, on_act=None, twin=False, **o):
    """A network with hooks on every queue.  Returns (net, description)."""
    kinds = {'mix': ['std', 'loss', 'loss', 'info', 'res', 'std'],
             'tight': ['loss', 'loss', 'loss', 'std', 'res'],
             'res': ['res', 'res', 'std', 'loss'],
             'info': ['info', 'info', 'std', 'loss'],
             'greedy': ['std', 'std', 'loss', 'info'],
             'std': ['std']}[profile]
    ntypes = o.get('ntypes') or rng.choice([1, 2, 3, 4])
    tf = twin_time_f if twin else time_f
    types = list(range(1, ntypes + 1))
    tk = {t: rng.choice(kinds) for t in types}
    if profile in ('res', 'info'):
        tk[1] = kinds[0]
    if set(tk.values()) == {'res'}:
        types.append(ntypes + 1)
        tk[ntypes + 1] = rng.choice(['std', 'loss'])
    g = random_digraph(rng, nmin=o.get('nmin', 2), nmax=o.get('nmax', 7),
                       terminals=o.get('terminals', True), types=types,
                       loops=o.get('loops', True),
                       dense=o.get('dense'),
                       no_loop_types=[t for t in types if tk[t] == 'res'])
    if profile == 'mix' and rng.random() < 0.1:
        cl = {}
    q_classes = {t: CLASSES[tk[t]] for t in types}
    nE = g.number_of_edges()
    q_args = {}
    for t in types:
        kw = {}
        kind = tk[t]
        if profile == 'tight':
            kw['num_servers'] = rng.choice([1, 1, 2, 3])
        else:
            kw['num_servers'] = rng.choice([1, 1, 2, 3, 5, np.infty if kind != 'res' else 2])
        if kind in ('loss', 'res', 'info'):
            kw['qbuffer'] = rng.choice([0, 0, 1, 2] if profile == 'tight'
                                       else [0, 1, 2, 5, np.infty])
        if kind == 'info':
            kw['net_size'] = nE
        q_args[t] = kw
    blocking = o.get('blocking') or rng.choice(['BAS', 'RS'])
    if o.get('max_agents') is not None:
        ma = o['max_agents']
    else:
        ma = rng.choice([1, 2, 3, 5, 8, 15, 40, 1000, INF])
    kwargs = {}
    net = qt.QueueNetwork(g, q_classes=dict(q_classes), q_args=q_args, max_agents=ma,
                          blocking=blocking, **kwargs)
    ak = agents or (['resource', 'resource', 'agent'] if profile == 'res' else
                    ['info'] if profile == 'info' else
                    ['greedy', 'greedy', 'agent'] if profile == 'greedy' else
                    ['agent', 'agent', 'greedy', 'resource', 'routed'])
    grid = rng.random() < 0.4
    # clocks may count the seconds since 1970
    start = o.get('start')
    if start is None:
        start = rng.choice([1e3, 1e6, 1.7e9, 1.7e9, 1e12]) if rng.random() < 0.08 else 0.0
    lines = []
    for k, q in enumerate(net.edge2queue):
        if isinstance(q, qt.NullQueue):
            continue
        if o.get('data', rng.random() < 0.6):
            q.collect_data = True
        n = q.num_servers if q.num_servers < INF else 3
        kd = rng.choice(['grid', 'snap', 'const']) if grid else None
        af, ad = tf(rng, kd, scale=rng.choice([0.5, 1.0, 2.0]))
        sf, sd = tf(rng, kd, scale=rng.choice([0.3, 0.7, 1.0]) * max(1, n))
        if o.get('quiet') and rng.random() < 0.5:
            af, ad = tf(rng, 'long')
        c = rng.choice(ak)
        if isinstance(q, qt.InfoQueue):
            c = 'info'
        cls = M.AGENTS[c]
        if c == 'info':
            cls = info_class(nE)
        if start:
            af = later(af, start)
        q.arrival_f, q.service_f = M.ArrivalF(k, af), M.ServiceF(k, sf)
        q.AgentFactory = M.Factory(k, cls, on_act)
        if o.get('caps', True) and rng.random() < 0.3:
            q.active_cap = rng.choice([0, 1, 2, 5, 20])
        if o.get('caps', True) and rng.random() < 0.2:
            q.deactive_t = start + rng.choice([0.0, 2.0, 5.0, 9.5])
        lines.append('%d:%s/%s n=%s b=%s %s a=%s s=%s cap=%s dt=%s' % (
            k, q.edge[:2] + q.edge[3:], M.name_of(q), q.num_servers,
            getattr(q, 'buffer', '-'), c, ad, sd, q.active_cap, q.deactive_t))
    if o.get('data') is None and rng.random() < 0.5:
        for q in net.edge2queue:
            if isinstance(q, qt.NullQueue):
                q.collect_data = True
    if o.get('crowd'):
        for q in net.edge2queue:
            if not isinstance(q, qt.NullQueue):
                lines.append('%d ' % q.edge[2] + crowd(rng, q, o['crowd'], twin))
    table = random_table(rng, net, o.get('table'))
    if table:
        net.set_transitions(table)
    desc = '%s blocking=%s max_agents=%s start=%g vertices=%r edges: %s; table=%s' % (
        profile, blocking, ma, start, list(g.nodes()), '; '.join(lines), table)
    return net, desc


def info_class(nE):
    def make(agent_id, net_size=nE):
        return M.HInfo(agent_id, nE)
    return make


def init_kwargs(rng, net):
    """Arguments for initialize that select at least one usable queue."""
    use = [k for k, q in enumerate(net.edge2queue) if not isinstance(q, qt.NullQueue)]
    if rng.random() < 0.5:
        return {'nActive': rng.randint(1, len(use) + 1)}
    sel = rng.sample(use, rng.randint(1, len(use)))
    return {'queues': sel}
