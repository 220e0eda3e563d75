"""Comparing two runs: normalised traces and public states."""
import random

import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M


def norm(e):
    a = e[3]
    x = e[2]
    val = e[4]
    if e[0] == 'new':
        x = tuple(x[0])
    elif e[0] == 'info':
        val = (val[2].tolist(), val[5])
    return (e[0], e[1], x, None if a is None else tuple(a.agent_id), val)


def traced(do):
    """Calls do and returns the events it caused."""
    del M.LOG[:]
    do()
    out = [norm(e) for e in M.LOG]
    del M.LOG[:]
    return out


def data_of(q):
    return {tuple(a): [tuple(float(x) for x in r) for r in rows] for a, rows in q.data.items()}


def snap_queue(q):
    s = {'class': type(q).__name__, 'edge': tuple(q.edge), 'num_servers': q.num_servers,
         'num_system': q.num_system, 'queued': q.number_queued(),
         'line': [tuple(a.agent_id) for a in q.queue], 'time': q.time,
         'current_time': q.current_time, 'num_arrivals': list(q.num_arrivals),
         'num_departures': q.num_departures, 'active': bool(q.active),
         'next': q.next_event_description(), 'num_blocked': getattr(q, 'num_blocked', None),
         'buffer': getattr(q, 'buffer', None), 'collect': q.collect_data,
         'active_cap': q.active_cap, 'deactive_t': q.deactive_t, 'data': data_of(q),
         'full': bool(q.at_capacity()), 'over_max': getattr(q, 'over_max', None),
         'max_servers': getattr(q, 'max_servers', None)}
    if isinstance(q, qt.InfoQueue):
        s['net_data'] = q.net_data.tolist()
    return s


def snap_net(net, initialized=True):
    s = {'num_events': net.num_events, 'current_time': net.current_time,
         'time': net.time, 'next': tuple(net.next_event_description()),
         'num_agents': [int(x) for x in net.num_agents], 'blocking': net.blocking,
         'max_agents': net.max_agents, 'nV': net.nV, 'nE': net.nE,
         'transitions': {u: dict(d) for u, d in net.transitions(False).items()},
         'edges': sorted(net.g.edges()), 'edge_index': dict(net.g.edge_index),
         'out_edges': [list(x) for x in net.out_edges],
         'in_edges': [list(x) for x in net.in_edges]}
    for k, q in enumerate(net.edge2queue):
        for a, b in snap_queue(q).items():
            s['q%d.%s' % (k, a)] = b
    return s


def diff(a, b, n=4):
    keys = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
    return ', '.join('%s: %.120r / %.120r' % (k, a.get(k), b.get(k)) for k in keys[:n])


def first_diff(x, y):
    for i, (a, b) in enumerate(zip(x, y)):
        if a != b:
            return 'event %d: %r / %r' % (i, a, b)
    if len(x) != len(y):
        i = min(len(x), len(y))
        return 'event %d: %r / %r' % (i, (x[i:] or ['end'])[0], (y[i:] or ['end'])[0])
    return ''


def same_queue(seed, **kw):
    """Builds the same queue every time it is called."""
    return gen.single(random.Random(seed), twin=True, **kw)


def same_net(seed, **kw):
    rng = random.Random(seed)
    net, desc = gen.network(rng, rng.choice(['mix', 'tight', 'res', 'info', 'greedy'])
                            if 'profile' not in kw else kw.pop('profile'), twin=True, **kw)
    return net, desc, gen.init_kwargs(rng, net)


class Rand(object):
    """Saves and restores numpy's global random state."""
    def __init__(self):
        self.s = np.random.get_state()

    def back(self):
        np.random.set_state(self.s)


def rand_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])
