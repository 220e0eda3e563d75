"""An agent's recorded visits form one continuous journey."""
import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M


def journey(ctx, net, aid, rows, lost):
    """One agent's rows in order; returns the edge it is waiting at, or None."""
    e = [int(r[5]) for r in rows]
    who = 'agent %r' % (aid,)

    def see():
        return [(round(float(r[0]), 4), round(float(r[1]), 4), round(float(r[2]), 4),
                 '->'.join(map(str, net.edge2queue[int(r[5])].edge[:2]))) for r in rows[-6:]]
    ctx.check(e[0] == aid[0], lambda: '%s starts on edge %d: %r' % (who, e[0], see()))
    at = None
    for i, r in enumerate(rows):
        q = net.edge2queue[e[i]]
        last = i == len(rows) - 1
        if isinstance(q, qt.NullQueue):
            ctx.check(last, lambda: '%s goes on after leaving the network: %r' % (who, see()))
            ctx.count('journeys_ended')
            continue
        done = r[2] > 0
        if r[1] > 0 and not ctx.check(r[0] <= r[1] and (not done or r[1] <= r[2]),
                                      lambda: '%s: times out of order: %r' % (who, see())):
            return
        if not done:
            if not ctx.check(last, lambda: '%s arrives elsewhere without having left: %r' % (
                    who, see())):
                return
            at = e[i]
            continue
        ctx.check(r[1] > 0 or r[0] == 0 or r[2] == r[0], lambda: '%s left without service: %r' % (who, see()))
        if last:
            continue
        n = rows[i + 1]
        ctx.count('links')
        if not ctx.check(n[0] == r[2], lambda: '%s left at %r and arrived at %r: %r' % (
                who, r[2], n[0], see())):
            return
        ctx.check(net.edge2queue[e[i + 1]].edge[0] == q.edge[1],
                  lambda: '%s jumps: %r' % (who, see()))
    ctx.count('journeys')
    ctx.count('visits', len(rows))
    return at


def audit(ctx, net, whole):
    if whole:
        data = net.get_agent_data()
        rows = net.get_queue_data()
        ctx.check(sum(len(d) for d in data.values()) == len(rows),
                  lambda: '%d rows by agent, %d by queue' % (
                      sum(len(d) for d in data.values()), len(rows)))
        ctx.check(sorted(map(tuple, rows.tolist())) == sorted(
            tuple(r) for d in data.values() for r in d.tolist()),
            'rows by agent and by queue differ')
    else:
        data = {}
        for k in range(net.nE):
            for a, d in net.get_agent_data(queues=k).items():
                data.setdefault(a, []).extend(d.tolist())
        data = {a: np.array(sorted(d, key=lambda r: r[0])) for a, d in data.items()}
    waiting = {}
    started = {}
    for aid, rows in data.items():
        rows = [tuple(r) for r in np.asarray(rows).tolist()]
        started.setdefault(aid[0], []).append(aid[1])
        t = [r[0] for r in rows]
        if not ctx.check(t == sorted(t), lambda: 'agent %r: rows are not in order: %r' % (aid, t)):
            return
        if len(set(t)) < len(t):
            ctx.count('tied')
            continue
        at = journey(ctx, net, aid, rows, None)
        if at is not None:
            waiting.setdefault(at, set()).add(tuple(aid))
        if ctx.viol:
            return
    tied = {tuple(a) for a, d in data.items() if len({r[0] for r in np.asarray(d).tolist()}) < len(d)}
    for k, q in enumerate(net.edge2queue):
        if isinstance(q, qt.NullQueue):
            continue
        n = sorted(started.get(k, []))
        # who comes from outside is counted when the arrival is scheduled
        m = q.num_arrivals[1]
        ctx.check(n == list(range(len(n))) and len(n) <= m and (m == 0 or n or
                                                              not m > 3),
                  lambda: 'edge %d: %d agents come from outside, recorded are %r' % (
                      k, m, n[:30]))
        inside = {tuple(a.agent_id) for a in q.queue}
        w = waiting.get(k, set())
        ctx.count('whereabouts')
        # the agents at the queue are among those that have not left; the others were lost
        ctx.check(inside - tied <= w, lambda: 'edge %d: in line are %r, waiting by the data are %r'
                  % (k, sorted(inside), sorted(w)))
        lost = getattr(q, 'num_blocked', 0)
        if not tied:
            ctx.check(q.num_system <= len(w) <= q.num_system + lost,
                      lambda: 'edge %d: %d agents, %d losses, and by the data %d have not left'
                      % (k, q.num_system, lost, len(w)))


def run_case(ctx, i):
    rng = ctx.rng
    del M.LOG[:]
    profile = rng.choice(['std', 'mix', 'mix', 'tight', 'tight', 'res', 'info', 'greedy'])
    o = {}
    if rng.random() < 0.1:
        o['nmax'] = 14
    if rng.random() < 0.008:
        o.update(nmax=3, crowd=rng.choice([200, 400, 1100]), max_agents=M.INF)
        ctx.count('crowds')
    net, desc = gen.network(rng, profile, **o)
    ctx.desc = desc
    net.start_collecting_data()
    net.initialize(**gen.init_kwargs(rng, net))
    steps = rng.choice([30, 120, 400, 400])
    if 'crowd' in o:
        steps = 3 * o['crowd']
    for k in range(steps):
        if net.current_time == M.INF or net.time == M.INF:
            break
        net.simulate(n=rng.choice([1, 3]))
        del M.LOG[:]
        r = rng.random() * ('crowd' in o and 10 or 1)
        if r < 0.01:
            audit(ctx, net, rng.random() < 0.6)
        elif r < 0.02:
            t = gen.random_table(rng, net)
            if t:
                net.set_transitions(t)
        elif r < 0.025:
            net.blocking = rng.choice(['BAS', 'RS'])
        elif r < 0.03:
            net.start_collecting_data()
        elif r < 0.034:
            # what has been recorded does not change by being copied
            net = net.copy()
            ctx.count('copies')
        if ctx.viol:
            return
    audit(ctx, net, True)
    audit(ctx, net, False)
    ctx.count('events', net.num_events)
    ctx.sig = (desc, net.num_events)
    ctx.nontrivial = net.num_events > 20
    del M.LOG[:]
