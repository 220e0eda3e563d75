"""An agent is told of and asked about everything that happens to it, exactly once."""
import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M

TOLD = []


class Told(object):
    """Writes down every call it gets, in the order of the calls."""
    def queue_action(self, queue, *args, **kwargs):
        TOLD.append(('act', tuple(self.agent_id), queue, args, queue.current_time,
                     queue.num_system, self))
        super(Told, self).queue_action(queue, *args, **kwargs)

    def add_loss(self, qedge, *args, **kwargs):
        TOLD.append(('loss', tuple(self.agent_id), qedge, args, self.blocked, None, self))
        super(Told, self).add_loss(qedge, *args, **kwargs)

    def desired_destination(self, network, edge):
        d = self.choose(network, edge)
        TOLD.append(('asked', tuple(self.agent_id), network, edge, d, None, self))
        return d

    def choose(self, network, edge):
        return super(Told, self).desired_destination(network, edge)


class TAgent(Told, qt.Agent):
    pass


class TGreedy(Told, qt.GreedyAgent):
    pass


class TResource(Told, qt.ResourceAgent):
    pass


class TInfo(Told, qt.InfoAgent):
    pass


class TOwn(Told, qt.Agent):
    """Its own rule: the edge it has used least, numpy integers and all."""
    def choose(self, network, edge):
        out = network.out_edges[edge[1]]
        u = self.__dict__.setdefault('used', {})
        k = min(out, key=lambda e: (u.get(e, 0), -e))
        u[k] = u.get(k, 0) + 1
        return k


def rows_of(q):
    """What the queue recorded: agent -> its rows in the order they were made."""
    return {tuple(a): [list(map(float, r)) for r in rows] for a, rows in q.data.items()}


def match(ctx, queues, log, net=None):
    """The calls against the records: one story per agent and queue."""
    per = {}
    for n, (what, aid, where, args, x, y, agent) in enumerate(log):
        if what == 'act':
            ks = [k for k, q in enumerate(queues) if q is where]
            if not ctx.check(len(ks) == 1, lambda: 'agent %r was told of a queue that is none of '
                             'those of the network: %r' % (aid, where)):
                return
            if not ctx.check(len(args) == 1 and args[0] in (0, 1, 2), lambda:
                             'agent %r was told %r' % (aid, args)):
                return
            per.setdefault((ks[0], aid), []).append((args[0], x, y))
            ctx.count('told_%d' % args[0])
        elif what == 'loss':
            k = [k for k, q in enumerate(queues) if tuple(q.edge) == tuple(where)]
            if not ctx.check(len(k) == 1, lambda: 'agent %r was turned away at %r' % (aid, where)):
                return
            per.setdefault((k[0], aid), []).append(('loss', None, None))
            ctx.count('told_loss')
        else:
            if not ctx.check(where is net, lambda: 'agent %r was asked with %r' % (aid, where)):
                return
            k = [k for k, q in enumerate(queues) if tuple(q.edge) == tuple(args)]
            if not ctx.check(len(k) == 1, lambda: 'agent %r was asked for the way on from %r'
                             % (aid, args)):
                return
            per.setdefault((k[0], aid), []).append(('asked', x, None))
            ctx.count('asked')
    rec = {}
    for k, q in enumerate(queues):
        if isinstance(q, qt.NullQueue):
            continue
        for aid, rows in rows_of(q).items():
            rec[k, aid] = rows
    for key in sorted(set(per) | set(rec)):
        k, aid = key
        q = queues[k]
        if isinstance(q, qt.NullQueue):
            continue
        calls, rows = per.get(key, []), rec.get(key, [])
        who = 'agent %r at %r' % (aid, q)
        # a time of zero in the records may also mean "not yet"
        want = []
        for r in rows:
            v = [('in', r[0], True)]
            if r[1] > 0 or r[0] == 0:
                v.append(('served', r[1], r[1] > 0))
            if r[2] > 0 or r[0] == 0:
                v.append(('out', r[2], r[2] > 0))
            if isinstance(q, qt.ResourceQueue) and r[0] == r[1] == r[2]:
                v[0] = ('given', r[0], True)
            want.append(v)
        if not story(ctx, who, q, want, calls, net):
            return
        ctx.count('stories')


def story(ctx, who, q, want, calls, net):
    """One agent's calls at one queue against its records there."""
    def bad(msg):
        return lambda: '%s: %s: recorded %r, told %r' % (who, msg, want[-4:], told[-12:])
    told, calls = calls, list(calls)
    for visit in want:
        gone = False
        for what, t, sure in visit:
            if gone:
                break
            if what == 'given' and not (calls and calls[0][0] in (0, 'loss')):
                # it gave its resource back and is gone: nothing is promised about that
                while calls and calls[0][1] == t and calls[0][0] in (1, 2):
                    calls.pop(0)
                gone = True
                continue
            if (what == 'in' or t == 0) and calls and calls[0][0] == 'loss':
                if not ctx.check(hasattr(q, 'num_blocked') and not any(
                        x[2] for x in visit[1:]), bad('turned away and yet there')):
                    return False
                calls.pop(0)
                ctx.count('losses')
                gone = True
                continue
            kind = {'in': 0, 'given': 0, 'served': 1, 'out': 2}[what]
            if not sure and (not calls or calls[0][0] not in (kind, 'asked')):
                gone = True
                continue
            if kind == 2 and net is not None:
                n = 0
                while calls and calls[0][0] == 'asked':
                    calls.pop(0)
                    n += 1
                if not sure and not calls:
                    ctx.count('still_blocked', n)
                    gone = True
                    continue
                if not ctx.check(n >= 1, bad('left without being asked where to')):
                    return False
                ctx.count('asked_again', n - 1)
            if not ctx.check(calls and calls[0][0] == kind, bad('was not told %d' % kind)):
                return False
            c = calls.pop(0)
            if not ctx.check(c[1] == t, bad('was told %d at %r, not at %r' % (kind, c[1], t))):
                return False
            ctx.count('calls_matched')
    # blocked here and still there
    while calls and calls[0][0] == 'asked':
        calls.pop(0)
        ctx.count('still_blocked')
    return ctx.check(not calls, bad('was told more than happened'))


def balance(ctx, queues, log):
    """Being asked ends in a departure or in being blocked, and both sides count the blocks."""
    per, tot = {}, 0
    for what, aid, _w, args, _x, _y, a in log:
        n = per.setdefault(id(a), [a, aid, 0])
        d = {'asked': 1, 'loss': 1}.get(what, -1 if args == (2,) else 0)
        # information agents keep losses in their own statistics
        n[2] += 0 if what == 'loss' and isinstance(a, qt.InfoAgent) else d
        tot += d
    for a, aid, n in per.values():
        ctx.check(a.blocked == n, lambda: 'agent %r has been blocked %d times and knows of %d' % (
            aid, n, a.blocked))
    b = sum(getattr(q, 'num_blocked', 0) for q in queues)
    ctx.check(b == tot, lambda: 'agents have been blocked %d times, the queues know of %d' % (tot, b))
    ctx.count('balances')


def one_queue(ctx, rng):
    q, kind, desc = gen.single(rng, caps=False)
    q.AgentFactory = {'info': TInfo, 'res': rng.choice([TResource, TAgent])}.get(
        kind, rng.choice([TAgent, TGreedy]))
    q.collect_data = True
    ctx.desc = desc
    q.set_active()
    del TOLD[:], M.LOG[:]
    for k in range(rng.choice([20, 80, 200])):
        if q.time == M.INF:
            break
        n0 = q.num_system
        mark = len(TOLD)
        q.simulate(n=1)
        see_inside(ctx, TOLD[mark:], {id(q): n0}, [q])
        if rng.random() < 0.03 and kind != 'res':
            q.set_num_servers(rng.choice([1, 2, 3, 5]))
    match(ctx, [q], TOLD)
    ctx.count('queue_events', len(TOLD))
    ctx.sig = (desc, len(TOLD))
    ctx.nontrivial = len(TOLD) > 20


def see_inside(ctx, log, before, queues):
    for what, aid, q, args, t, n, agent in log:
        if what != 'act' or args[:1] == (1,):
            continue
        if id(q) not in before or isinstance(q, qt.NullQueue):
            continue
        b = before[id(q)]
        if args[0] == 0 and sum(1 for c in log if c[0] == 'act' and c[2] is q and
                                c[3][:1] == (2,)) == 0:
            ctx.count('counted_inside')
            ctx.check(n == b + 1, lambda: 'agent %r is told of its arrival at %r when %d are '
                      'there, after %d before' % (aid, q, n, b))
        elif args[0] == 2:
            ctx.count('counted_inside')
            ctx.check(n == b - 1, lambda: 'agent %r is told of its departure from %r when %d are '
                      'there, after %d before' % (aid, q, n, b))


def network(ctx, rng):
    profile = rng.choice(['std', 'mix', 'mix', 'tight', 'tight', 'res', 'info', 'greedy'])
    o = {'nmax': 12} if rng.random() < 0.1 else {}
    net, desc = gen.network(rng, profile, data=True, **o)
    for q in net.edge2queue:
        if isinstance(q, qt.NullQueue):
            continue
        c = rng.choice([TAgent, TAgent, TGreedy, TResource, TOwn])
        if isinstance(q, qt.InfoQueue) or profile == 'info':
            c = TInfo
        if c is TInfo:
            c = info(net.nE) if not isinstance(q, qt.InfoQueue) else c
        q.AgentFactory = c
    ctx.desc = desc
    net.start_collecting_data()
    net.initialize(**gen.init_kwargs(rng, net))
    del TOLD[:], M.LOG[:]
    queues = list(net.edge2queue)
    for k in range(rng.choice([30, 150, 400])):
        before = {id(q): q.num_system for q in queues}
        mark = len(TOLD)
        net.simulate(n=1)
        if net.current_time == M.INF:
            break
        see_inside(ctx, TOLD[mark:], before, queues)
        r = rng.random()
        if r < 0.01:
            t = gen.random_table(rng, net)
            if t:
                net.set_transitions(t)
        elif r < 0.02:
            net.blocking = rng.choice(['BAS', 'RS'])
    match(ctx, queues, TOLD, net)
    balance(ctx, queues, TOLD)
    ctx.count('events', net.num_events)
    ctx.sig = (desc, net.num_events)
    ctx.nontrivial = net.num_events > 20


def info(nE):
    def make(aid, *args):
        return TInfo(aid, nE)
    return make


def run_case(ctx, i):
    (one_queue if ctx.rng.random() < 0.3 else network)(ctx, ctx.rng)
    del TOLD[:], M.LOG[:]
