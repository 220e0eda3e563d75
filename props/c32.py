"""What information queues and agents know, against the observations really made."""
import numpy as np
import queueing_tool as qt

from props._net import drive
from vlib import mon as M


class Info(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.truth = {}
        self.q = {}
        self.a = {}
        self.keep = []

    def setup(self, net, m):
        self.nE = net.nE
        self.truth = {k: set() for k in range(net.nE)}
        self.blank = np.full((net.nE, 3), -1.0)
        for k, q in enumerate(net.edge2queue):
            if isinstance(q, qt.InfoQueue):
                self.q[k] = q.net_data.copy()
                self.ctx.check(self.q[k].shape == (net.nE, 3) and (self.q[k] == -1).all(),
                               'a new information queue knows %r' % (q.net_data,))

    def newest(self, k, what, got, old, r, *sources):
        """got is the newest of the sources (rows: time, servers, load)"""
        top = max(s[0] for s in sources)
        ok = got[0] == top and any(tuple(got) == tuple(s) for s in sources if s[0] == top)
        self.ctx.check(ok, lambda: '%s at queue %d knows %r of queue %d, newest known is %r'
                       % (what, k, tuple(got), r, [tuple(s) for s in sources]))
        if old is not None and got[0] < old[0]:
            self.ctx.check(False, '%s at queue %d: knowledge of queue %d became older: %r -> %r'
                           % (what, k, r, tuple(old), tuple(got)))

    def true_rows(self, who, table):
        for r in range(self.nE):
            row = tuple(float(x) for x in table[r])
            if row[0] != -1:
                self.ctx.check(row in self.truth[r], lambda: '%s believes %r about queue %d, '
                               'which was never observed' % (who, row, r))
            else:
                self.ctx.check(row == (-1.0, -1.0, -1.0), lambda: '%s has %r' % (who, row))

    def after(self, net, m):
        ctx = self.ctx
        batch = m.last
        touched = {}
        for e in batch:
            if e[0] == 'new' and isinstance(e[3], qt.InfoAgent):
                self.a[id(e[3])] = np.full((self.nE, 3), -1.0)
                self.keep.append(e[3])
                ctx.check(e[3].net_data.shape == (self.nE, 3) and (e[3].net_data == -1).all(),
                          'a new agent knows %r' % (e[3].net_data,))
        for e in batch:
            if e[0] == 'loss' and e[1] in self.q:
                touched.setdefault(e[1], []).append(e[3])
            if e[0] != 'info':
                continue
            _x, k, kind, ag, (isq, pre, post, qpre, qpost, now) = e
            last = self.a.get(id(ag), self.blank)
            ctx.count('info_actions')
            ctx.check(np.array_equal(pre, last), lambda: 'agent %r changed what it knows by '
                      'itself' % (ag.agent_id,))
            self.a[id(ag)] = post
            if not isq:
                ctx.check(np.array_equal(pre, post), lambda: 'agent %r learned something at the '
                          'ordinary queue %d' % (ag.agent_id, k))
                continue
            now = tuple(float(x) for x in now)
            self.truth[k].add(now)
            ctx.count('info_kind_%s' % kind)
            ctx.check(tuple(post[k]) == now, lambda: 'agent %r at queue %d (action %r) knows %r '
                      'of it, its state is %r' % (ag.agent_id, k, kind, tuple(post[k]), now))
            for r in range(self.nE):
                if r != k:
                    self.newest(k, 'agent %r' % (ag.agent_id,), post[r], pre[r], r,
                                pre[r], qpre[r])
                    if pre[r][0] != qpre[r][0]:
                        ctx.count('info_exchanged')
            self.true_rows('agent %r' % (ag.agent_id,), post)
            ctx.check(np.array_equal(ag.get_beliefs(), ag.net_data[:, 2]),
                      'get_beliefs is not the load column')
            if kind == 0:
                touched.setdefault(k, [])
                prev, end = self.q[k], net.edge2queue[k].net_data
                # what the queue has learned when it met the agent
                for r in range(self.nE):
                    if r == k and tuple(end[r]) == now:
                        continue
                    self.newest(k, 'queue', end[r], prev[r], r, prev[r], last[r])
                    if last[r][0] > prev[r][0]:
                        ctx.count('info_learned_by_queue')
            else:
                touched.setdefault(k, [])
        for k, old in self.q.items():
            new = net.edge2queue[k].net_data
            if not touched and not np.array_equal(old, new):
                ctx.check(False, 'queue %d changed what it knows without meeting anybody' % k)
            if (new[:, 0] < old[:, 0]).any():
                ctx.check(False, 'queue %d: knowledge became older: %r -> %r'
                          % (k, old.tolist(), new.tolist()))
            if k in touched:
                self.true_rows('queue %d' % k, new)
            elif not np.array_equal(old, new):
                ctx.check(False, 'queue %d changed what it knows without meeting anybody' % k)
            self.q[k] = new.copy()


def run_case(ctx, i):
    info = Info(ctx)
    rng = ctx.rng
    drive(ctx, 'info', agents=rng.choice([['info'], ['info', 'info', 'agent']]),
          setup=info.setup, after=info.after, caps=rng.random() < 0.3,
          steps=rng.choice([40, 100, 200]), weights={'data': 0.1})
