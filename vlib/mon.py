"""Online monitors: an executable model of one queue, composed into a network model.

The model follows what is *observed* at the boundary (agent callbacks, calls of the
supplied functions) and judges every observed step against the specification and the
public state against the model.  Nothing here looks at how the code is written, at the
order of callbacks inside one event, or at private attributes.
"""
import collections
import math

import numpy as np
import queueing_tool as qt

INF = float('inf')
LOG = []
RETRY = 1e-6      # "right after": a blocked agent retries within this much of the departure


class HookMixin(object):
    on_act = None

    def queue_action(self, queue, *args, **kwargs):
        kind = args[0] if args else None
        LOG.append(('act', queue.edge[2], kind, self, queue.current_time))
        super(HookMixin, self).queue_action(queue, *args, **kwargs)
        if self.on_act is not None:
            self.on_act(self, queue, kind)

    def add_loss(self, qedge, *args, **kwargs):
        LOG.append(('loss', qedge[2], None, self, None))
        super(HookMixin, self).add_loss(qedge, *args, **kwargs)

    def desired_destination(self, network, edge):
        d = self.choose(network, edge)
        LOG.append(('dest', edge[2], d, self, None))
        return d

    def choose(self, network, edge):
        return super(HookMixin, self).desired_destination(network, edge)


class HAgent(HookMixin, qt.Agent):
    pass


class HGreedy(HookMixin, qt.GreedyAgent):
    """Also records the lines it could see when it chose."""
    def choose(self, network, edge):
        seen = [(e, network.edge2queue[e].number_queued()) for e in network.out_edges[edge[1]]]
        d = super(HGreedy, self).choose(network, edge)
        LOG.append(('greedy', edge[2], d, self, seen))
        return d


class HResource(HookMixin, qt.ResourceAgent):
    pass


class HInfo(HookMixin, qt.InfoAgent):
    """Also records what it and the queue knew before and after they met."""
    def queue_action(self, queue, *args, **kwargs):
        isq = isinstance(queue, qt.InfoQueue)
        pre = self.net_data.copy()
        qpre = queue.net_data.copy() if isq else None
        super(HInfo, self).queue_action(queue, *args, **kwargs)
        s = queue.num_servers
        LOG.append(('info', queue.edge[2], args[0] if args else None, self,
                    (isq, pre, self.net_data.copy(), qpre,
                     queue.net_data.copy() if isq else None,
                     (queue.current_time, s, queue.num_system / s if s else None))))


class HRouted(HookMixin, qt.Agent):
    """An agent with its own rule: a deterministic walk."""
    def choose(self, network, edge):
        out = network.out_edges[edge[1]]
        self.hops = getattr(self, 'hops', 0) + 1
        d = out[(self.hops * 7 + self.agent_id[1]) % len(out)]
        # rules of users may well use numpy
        return np.int64(d) if self.agent_id[1] % 2 else d


AGENTS = {'agent': HAgent, 'greedy': HGreedy, 'resource': HResource, 'info': HInfo,
          'routed': HRouted}


class Stream(object):
    """A random stream of its own, so that the harness never touches numpy's."""
    def __init__(self, rng):
        self.r = rng


class ArrivalF(object):
    def __init__(self, k, f):
        self.k, self.f = k, f

    def __call__(self, t):
        v = self.f(t)
        LOG.append(('arrf', self.k, t, None, v))
        return v


class ServiceF(object):
    def __init__(self, k, f):
        self.k, self.f = k, f

    def __call__(self, t):
        v = self.f(t)
        LOG.append(('srvf', self.k, t, None, v))
        return v


class Factory(object):
    def __init__(self, k, cls, on_act=None):
        self.k, self.cls, self.on_act = k, cls, on_act

    def __call__(self, *args):
        a = self.cls(*args)
        if self.on_act is not None:
            a.on_act = self.on_act
        LOG.append(('new', self.k, args, a, None))
        return a


def name_of(q):
    for c, n in ((qt.NullQueue, 'null'), (qt.ResourceQueue, 'res'), (qt.InfoQueue, 'info'),
                 (qt.LossQueue, 'loss')):
        if isinstance(q, c):
            return n
    return 'std'


class QT(object):
    """The model of one queue."""
    def __init__(self, k, q):
        self.k, self.q = k, q
        self.kind = name_of(q)
        self.waiting = collections.deque()
        self.serving = {}        # id(agent) -> [agent, lo, hi] : when it departs
        self.pending = {}        # id(agent) -> [agent, time]   : outside arrivals to come
        self.n_arr = self.n_dep = self.n_new = self.n_block = 0
        self.next_ct = None      # last value of the arrival function
        self.late = False        # that was at or after the stopping time
        self.active = bool(q.active)
        self.servers = q.num_servers
        self.over = getattr(q, 'over_max', 0)
        self.rows = []           # the records the queue should hold
        self.by_agent = collections.OrderedDict()
        self.open = {}           # id(agent) -> row of the current visit, if recorded
        self.retry = set()       # id of agents in service that are blocked
        self.soft = False        # the cap was lowered; the next arrival finds out

    def capacity(self, servers=None):
        if self.kind in ('loss', 'res', 'info'):
            return (self.q.num_servers if servers is None else servers) + self.q.buffer
        return INF

    def system(self):
        return len(self.waiting) + len(self.serving)

    def full(self, servers=None):
        return self.system() >= self.capacity(servers)

    def cands(self):
        out = [(t, t, self.k, 'arr', a) for a, t in self.pending.values() if t < INF]
        out += [(lo, hi, self.k, 'dep', a) for a, lo, hi in self.serving.values() if lo < INF]
        return out

    def add_row(self, agent, row):
        r = [tuple(agent.agent_id)] + row
        self.rows.append(r)
        self.by_agent.setdefault(r[0], []).append(r)
        return r

    def clear_data(self):
        self.rows = []
        self.by_agent = collections.OrderedDict()
        self.open = {}


def announce_ok(t, cands):
    """Is t the time of the earliest candidate?"""
    if not cands:
        return t == INF
    return any(c[0] <= t <= c[1] for c in cands) and not any(c[1] < t for c in cands)


class Mon(object):
    """Monitor of one queue (net is None) or of a network."""

    def __init__(self, ctx, net=None, q=None):
        self.ctx = ctx
        self.net = net
        self.reached = 0.0      # time of the last event of the network
        if net is not None:
            self.qs = {k: QT(k, qq) for k, qq in enumerate(net.edge2queue)}
            self.BT = 'C15' if net.blocking == 'BAS' else 'C16'
        else:
            self.qs = {q.edge[2]: QT(q.edge[2], q)}
            self.BT = None
        self.blocked_exp = {}     # id(agent) -> (agent, number of blocks)
        self.carry = {}           # id(agent) -> agent carrying a resource
        self.total_res = None
        self.paths = collections.OrderedDict()   # agent_id -> list of (edge, arr, dep)
        self.keep = []
        self.steps = 0
        self.last = []
        self.trace = []
        self.bad_steps = 0
        self.where = {}           # id(agent) -> k ; every live agent
        self.gone = {}
        self.extra = ()           # properties that also own a fault seen now

    # ------------------------------------------------------------------ helpers
    def v(self, tags, msg):
        tags = (tags,) if isinstance(tags, str) else tuple(tags)
        self.ctx.violation(tags + tuple(self.extra), 'step %d: %s' % (self.steps, msg))
        self.bad_steps += 1

    def take(self):
        out = list(LOG)
        del LOG[:]
        self.last = out
        return out

    def all_cands(self):
        out = []
        for m in self.qs.values():
            out += m.cands()
        return out

    def ord(self):
        return 'C10' if self.net is not None else 'C06'

    # ----------------------------------------------------------- outside arrivals
    def outside_calls(self, batch, now, activating=(), tol=()):
        """Arrival function and factory calls of one step; now(k) is the time of the
        event at queue k."""
        for k, m in self.qs.items():
            calls = [e for e in batch if e[0] == 'arrf' and e[1] == k]
            news = [e for e in batch if e[0] == 'new' and e[1] == k]
            made = 0
            if k in activating and m.late and not calls and now(k) < m.next_ct < m.q.deactive_t:
                # the arrival that was too late once, but is not any more
                calls = [('arrf', k, now(k), None, m.next_ct)]
                m.next_ct = None
                self.ctx.count('stopping_time_moved')
            for e in calls:
                t, val = e[2], e[4]
                self.ctx.count('arrival_f_calls')
                if not (m.active or k in activating):
                    self.v('C04', 'arrival function of inactive queue %d called' % k)
                if t != now(k):
                    self.v('C04', 'arrival function of queue %d called with %r at time %r'
                           % (k, t, now(k)))
                if m.next_ct is not None and t < m.next_ct:
                    self.v('C04', 'arrival function of queue %d called at %r before the arrival '
                           'due at %r' % (k, t, m.next_ct))
                m.next_ct = val
                m.late = not val < m.q.deactive_t
                if not m.late:
                    made += 1
                    if made > len(news):
                        self.v('C04', 'no agent was created for the arrival of queue %d at %r'
                               % (k, val))
                        continue
                    n = news[made - 1]
                    ag = n[3]
                    ident = n[2][0]
                    if tuple(ident) != (k, m.n_new):
                        self.v('C04', 'agent %r of queue %d should be number %d'
                               % (ident, k, m.n_new))
                    if m.n_new >= m.q.active_cap:
                        if m.soft:
                            m.soft = False
                        else:
                            self.v('C04', 'queue %d accepted more than active_cap=%r arrivals'
                                   % (k, m.q.active_cap))
                    m.n_new += 1
                    m.pending[id(ag)] = [ag, val]
                    self.keep.append(ag)
                    self.where[id(ag)] = k
                    self.ctx.count('agents_created')
                else:
                    self.ctx.count('stopping_time_reached')
            if len(news) > made:
                self.v('C04', 'queue %d created %d agents for %d arrivals'
                       % (k, len(news), made))
                for n in news[made:]:
                    self.keep.append(n[3])
                    m.n_new += 1

    def check_active(self, k, was, presum, batch=(), here=True):
        """The active flag may only have changed for a documented reason."""
        m = self.qs[k]
        now_active = bool(m.q.active)
        cap = m.n_new >= m.q.active_cap
        late = m.late
        if was and not now_active:
            # the maximum switches off only queues that take part in the event
            full = here and self.net is not None and presum > self.net.max_agents - 1
            called = any(e[0] == 'arrf' and e[1] == k for e in batch)
            if not (cap or (late and called) or full):
                self.v(('C04', 'C17'), 'queue %d became inactive without a reason' % k)
            self.ctx.count('deactivated_max' if full and not cap and not (late and called)
                           else 'deactivated_own')
        elif not was and now_active:
            self.v(('C04', 'C17'), 'queue %d became active by itself' % k)
        if now_active:
            if not m.pending and m.kind != 'null':
                self.v('C04', 'active queue %d has no next outside arrival' % k)
            if m.n_new >= m.q.active_cap and not m.soft:
                self.v('C04', 'queue %d is active with its arrival cap reached' % k)
            if any(e[0] == 'arrf' and e[1] == k and e[4] >= m.q.deactive_t for e in batch):
                self.v('C04', 'queue %d is active after its stopping time' % k)
        else:
            m.soft = False
        m.active = now_active

    def change_cap(self, k, n):
        m = self.qs[k]
        m.q.active_cap = n
        m.soft = m.active and m.n_new >= n
        self.ctx.count('caps_changed')

    # ----------------------------------------------------------------- services
    def start_services(self, batch, T, pre, rs=None):
        for k, m in self.qs.items():
            acts = [e for e in batch if e[0] == 'act' and e[2] == 1 and e[1] == k]
            calls = [e for e in batch if e[0] == 'srvf' and e[1] == k]
            if rs == k:
                if len(calls) < 1:
                    self.v('C16', 'blocked agent at queue %d was not served again' % k)
                calls = calls[1:]
            if len(calls) != len(acts):
                self.v('C03', 'queue %d: %d services started, service function called %d times'
                       % (k, len(acts), len(calls)))
            cap = max(pre[k], m.q.num_servers)
            for i, e in enumerate(acts):
                a = e[3]
                self.ctx.count('services')
                if m.waiting and m.waiting[0] is a:
                    m.waiting.popleft()
                elif any(w is a for w in m.waiting):
                    self.v('C02', 'queue %d: agent %r was served before %r which came first'
                           % (k, a.agent_id, m.waiting[0].agent_id))
                    m.waiting = collections.deque(w for w in m.waiting if w is not a)
                else:
                    self.v(('C01', 'C02'), 'queue %d: agent %r starts service but was not waiting'
                           % (k, a.agent_id))
                if len(m.serving) >= cap:
                    self.v(('C02', 'C09') + ((self.BT,) if m.retry else ()),
                           'queue %d: service started with %d in service and %r '
                           'servers' % (k, len(m.serving), cap))
                if i < len(calls):
                    if calls[i][2] != T:
                        self.v('C03', 'queue %d: service function called with %r for a service '
                               'starting at %r' % (k, calls[i][2], T))
                    m.serving[id(a)] = [a, calls[i][4], calls[i][4]]
                else:
                    m.serving[id(a)] = [a, T, INF]
                row = m.open.get(id(a))
                if row is not None and m.q.collect_data:
                    row[2] = T

    def arrive(self, k, a, T, pre_servers):
        m = self.qs[k]
        m.n_arr += 1
        self.where[id(a)] = k
        m.open.pop(id(a), None)
        if m.q.collect_data:
            will_wait = 0 if m.system() + 1 <= pre_servers else 1
            # services that started in this same event, before the arrival (self loops)
            begun = max(0, min(len(m.waiting), pre_servers - len(m.serving)))
            m.open[id(a)] = m.add_row(a, [T, 0, 0, len(m.waiting) - begun + will_wait,
                                          m.system() + 1])
        m.waiting.append(a)
        self.paths.setdefault(tuple(a.agent_id), []).append([k, T, None])

    def lost(self, k, a, T):
        m = self.qs[k]
        m.n_block += 1
        # (information agents keep their losses in a table of their own)
        if not isinstance(a, qt.InfoAgent) and a.blocked != self.exp_blocked(a, 1):
            self.v('C05', 'agent %r turned away at queue %d counts %d blocks, observed %d'
                   % (a.agent_id, k, a.blocked, self.exp_blocked(a)))
        if m.q.collect_data:
            m.add_row(a, [T, 0, 0, len(m.waiting), m.system()])
        self.gone[id(a)] = True
        self.where.pop(id(a), None)

    # ---------------------------------------------------------------- post state
    def post(self, k, T=None, pre_servers=None):
        self.extra = (self.BT,) if self.BT and k in self._blocked_only else ()
        try:
            self._post(k, T, pre_servers)
        finally:
            self.extra = ()

    def _post(self, k, T=None, pre_servers=None):
        m, q = self.qs[k], self.qs[k].q
        if m.kind == 'null':
            if q.num_system != 0 or q.number_queued() != 0:
                self.v(('C01', 'C11'), 'terminal queue %d holds agents' % k)
            return
        sysn = m.system()
        if q.num_system != sysn:
            self.v('C01', 'queue %d reports %r in the system, %d waiting + %d in service are there'
                   % (k, q.num_system, len(m.waiting), len(m.serving)))
        if q.number_queued() != len(m.waiting) or len(q.queue) != len(m.waiting):
            gone = len(q.queue) < len(m.waiting) and self.net is not None
            self.v(('C01',) + (('C11',) if gone else ()),
                   'queue %d reports %d waiting, should be %d'
                   % (k, q.number_queued(), len(m.waiting)))
        elif any(x is not y for x, y in zip(q.queue, m.waiting)):
            self.v('C02', 'queue %d: waiting line out of order' % k)
        if list(q.num_arrivals) != [m.n_arr, m.n_new]:
            self.v(('C01', 'C04') if q.num_arrivals[1] != m.n_new else 'C01',
                   'queue %d reports arrivals %r, observed %r'
                   % (k, q.num_arrivals, [m.n_arr, m.n_new]))
        if q.num_departures != m.n_dep:
            self.v('C01', 'queue %d reports %d departures, observed %d'
                   % (k, q.num_departures, m.n_dep))
        if m.waiting and len(m.serving) < q.num_servers:
            self.v(('C02', 'C09'), 'queue %d: %d wait while %d of %r servers work'
                   % (k, len(m.waiting), len(m.serving), q.num_servers))
        if m.kind in ('loss', 'res', 'info'):
            if q.num_blocked != m.n_block:
                self.v(('C05',) + ((self.BT,) if self.BT else ()),
                       'queue %d reports %d blocked, observed %d' % (k, q.num_blocked, m.n_block))
            if q.at_capacity() != m.full():
                self.v('C05', 'queue %d: at_capacity() is %r with %d of %r places taken'
                       % (k, q.at_capacity(), sysn, m.capacity()))
        elif q.at_capacity():
            self.v('C05', 'infinite queue %d says it is full' % k)
        c = m.cands()
        if not announce_ok(q.time, c):
            self.v(('C06', 'C10', 'C09'), 'queue %d announces its next event at %r, due: %r'
                   % (k, q.time, sorted(x[:2] for x in c)[:3]))
        else:
            des = q.next_event_description()
            kinds = {1 if x[3] == 'arr' else 2 for x in c if x[0] <= q.time <= x[1]} or {0}
            if des not in kinds:
                self.v(('C06', 'C10'), 'queue %d announces event kind %r, due: %r'
                       % (k, des, kinds))
            # the announced time may pin down when a blocked agent retries
            hit = [x for x in c if x[0] <= q.time <= x[1]]
            if len(hit) == 1 and hit[0][3] == 'dep' and hit[0][0] != hit[0][1]:
                m.serving[id(hit[0][4])][1:] = [q.time, q.time]
        if T is not None and q.current_time != T:
            self.v(('C06', 'C10'), 'queue %d had an event at %r but its clock says %r'
                   % (k, T, q.current_time))
        if self.net is not None:
            want = sysn + len(m.pending)
            if self.net.num_agents[k] != want:
                self.v('C11', 'num_agents[%d] is %d, should be %d'
                       % (k, self.net.num_agents[k], want))
        self.ctx.state((m.kind, min(q.num_servers, 5), min(len(m.waiting), 4),
                        min(len(m.serving), 5), bool(q.active), m.full(), len(m.pending) > 0))

    def servers_expected(self, k, pre, expect, why):
        q = self.qs[k].q
        if q.num_servers != expect:
            self.v('C31' if self.qs[k].kind == 'res' else ('C09', 'C31'),
                   'queue %d: %r servers became %r, should be %r (%s)'
                   % (k, pre, q.num_servers, expect, why))

    # --------------------------------------------------------------- single queue
    def step_queue(self, do):
        (k, m), = self.qs.items()
        q = m.q
        self.steps += 1
        cands = m.cands()
        pre_servers, was = q.num_servers, bool(q.active)
        before = (q.current_time, q.time, q.next_event_description(), q.num_system)
        del LOG[:]
        do()
        batch = self.take()
        T = q.current_time
        act = [e for e in batch if e[0] in ('act', 'loss')]
        if not cands:
            if act:
                self.v(('C06', 'C01'), 'something happened though nothing was due: %r' % (act,))
            if q.current_time != before[0] or q.time != INF:
                self.v('C06', 'idle queue moved its clock from %r to %r (next %r)'
                       % (before[0], q.current_time, q.time))
            self.post(k)
            return False
        self.ctx.count('events')
        deps = [e for e in act if e[0] == 'act' and e[2] == 2]
        arrs = [e for e in act if e[0] == 'act' and e[2] == 0]
        loss = [e for e in act if e[0] == 'loss']
        if len(deps) + len(arrs) + len(loss) != 1:
            self.v(('C06', 'C01') + (('C05',) if m.full() and before[2] == 1 else ()), 'one event should have happened: %r' % (
                [(e[0], e[2], e[3].agent_id) for e in act],))
        if T < before[0]:
            self.v('C06', 'clock went back from %r to %r' % (before[0], T))
        late = [c for c in cands if c[1] < T]
        if late:
            self.v(('C06', 'C03' if late[0][3] == 'dep' else 'C04'),
                   'event due at %r was passed over, clock is %r' % (late[0][:2], T))
        if T != before[1]:
            self.v('C06', 'event at %r was announced for %r' % (T, before[1]))
        if (deps and before[2] != 2) or ((arrs or loss) and before[2] != 1):
            self.v('C06', 'announced kind %r, happened %r' % (before[2], [e[:3] for e in act]))
        for e in deps:
            self.depart(k, e[3], T)
        for e in arrs + loss:
            a = e[3]
            p = m.pending.pop(id(a), None)
            if p is None:
                self.v(('C01', 'C04'), 'agent %r arrives that was not due' % (a.agent_id,))
            elif p[1] != T:
                self.v('C04', 'arrival due at %r happened at %r' % (p[1], T))
            if e[0] == 'loss':
                self.ctx.count('losses')
                if not m.full():
                    self.v('C05', 'arrival turned away with %d of %r places taken'
                           % (m.system(), m.capacity()))
                self.lost(k, a, T)
            else:
                self.ctx.count('arrivals')
                if m.full():
                    self.v('C05', 'arrival let in with %d of %r places taken'
                           % (m.system(), m.capacity()))
                self.arrive(k, a, T, pre_servers)
        self.extra = ('C05',) if loss else ()
        self.outside_calls(batch, lambda _k: T)
        self.start_services(batch, T, {k: pre_servers})
        self.check_active(k, was, 0, batch)
        self.post(k, T)
        self.log_step(batch, T)
        return True

    def is_retry(self, c):
        return c[3] == 'dep' and id(c[4]) in self.qs[c[2]].retry

    def depart(self, k, a, T):
        m = self.qs[k]
        it = m.serving.pop(id(a), None)
        if it is None:
            self.v(('C01', 'C11'), 'agent %r departs from queue %d without being in service there'
                   % (a.agent_id, k))
        elif not it[1] <= T <= it[2]:
            self.v(('C03', self.BT) if id(a) in m.retry else 'C03',
                   'agent %r leaves queue %d at %r, its service ends at %r'
                   % (a.agent_id, k, T, it[1:]))
        self.ctx.count('departures')
        m.n_dep += 1
        m.retry.discard(id(a))
        row = m.open.pop(id(a), None)
        if row is not None and m.q.collect_data:
            row[3] = T
        p = self.paths.get(tuple(a.agent_id))
        if p and p[-1][0] == k:
            p[-1][2] = T
        self.where.pop(id(a), None)

    def log_step(self, batch, T):
        if len(self.trace) < 4000:
            self.trace.append((T,) + tuple((e[0], e[1], e[2] if e[0] in ('act', 'dest') else 0)
                                           for e in batch))

    # operations on one queue
    def op_set_active(self):
        (k, m), = self.qs.items()
        was = bool(m.q.active)
        del LOG[:]
        m.q.set_active()
        batch = self.take()
        capped = m.n_new >= m.q.active_cap
        if was and batch:
            self.v('C04', 'activating an active queue did something')
        self.outside_calls(batch, lambda _k: m.q.current_time,
                           activating=() if (was or capped) else (k,))
        if not was and m.q.active:
            m.active = True
            was = True
        elif not was and not m.q.active:
            late = m.late and not m.next_ct < m.q.deactive_t
            if not (m.n_new >= m.q.active_cap or late):
                self.v('C04', 'set_active did not activate queue %d' % k)
            m.active = False
        if [e for e in batch if e[0] in ('act', 'srvf', 'loss')]:
            self.v(('C04', 'C01'), 'set_active moved agents')
        self.check_active(k, bool(m.q.active), 0, batch)
        self.post(k)
        self.ctx.count('op_set_active')

    def op_set_inactive(self):
        (k, m), = self.qs.items()
        del LOG[:]
        m.q.set_inactive()
        batch = self.take()
        if m.q.active or batch:
            self.v('C04', 'set_inactive: active is %r, calls %r' % (m.q.active, batch))
        m.active = False
        self.post(k)
        self.ctx.count('op_set_inactive')

    def op_servers(self, n, use=None):
        (k, m), = self.qs.items()
        q = m.q
        pre = q.num_servers
        busy, wait = len(m.serving), len(m.waiting)
        T = q.current_time
        del LOG[:]
        (use or q.set_num_servers)(n)
        batch = self.take()
        if q.num_servers != n:
            self.v('C09', 'set_num_servers(%r) left %r servers' % (n, q.num_servers))
        started = len([e for e in batch if e[0] == 'act' and e[2] == 1])
        want = min(max(n - busy, 0), wait)
        if started != want:
            self.v('C09', '%r -> %r servers with %d in service and %d waiting started %d services'
                   % (pre, n, busy, wait, started))
        if [e for e in batch if e[0] in ('loss', 'arrf', 'new') or (e[0] == 'act' and e[2] != 1)]:
            self.v('C09', 'set_num_servers did more than start services')
        if q.current_time != T:
            self.v(('C09', 'C06'), 'set_num_servers moved the clock')
        self.extra = ('C09',)
        self.start_services(batch, T, {k: n})
        self._post(k)
        self.extra = ()
        self.ctx.count('op_servers')
        if n > pre and started:
            self.ctx.count('op_servers_started')
        if n < busy:
            self.ctx.count('op_servers_below_busy')

    def op_lower(self, k, n):
        """Fewer servers at a queue of a network."""
        m = self.qs[k]
        q = m.q
        c = q.current_time
        del LOG[:]
        q.set_num_servers(n)
        batch = self.take()
        if q.num_servers != n:
            self.v('C09', 'set_num_servers(%r) left %r servers' % (n, q.num_servers))
        if batch:
            self.v('C09', 'removing servers did %r' % ([e[:3] for e in batch],))
        if q.current_time != c:
            self.v('C09', 'set_num_servers moved the clock')
        self.extra = ('C09',)
        self._post(k)
        self.extra = ()
        self.ctx.count('op_lower')

    def op_servers_bad(self, n, exc):
        (k, m), = self.qs.items()
        q = m.q
        before = self.public(q)
        try:
            q.set_num_servers(n)
        except exc:
            pass
        except Exception as e:
            self.v('C09', 'set_num_servers(%r) raised %r' % (n, e))
        else:
            self.v('C09', 'set_num_servers(%r) was accepted' % (n,))
        if self.public(q) != before:
            self.v('C09', 'rejected set_num_servers(%r) changed the queue' % (n,))
        self.take()
        self.ctx.count('op_servers_bad')

    @staticmethod
    def public(q):
        return (q.num_servers, q.num_system, q.number_queued(), q.time, q.current_time,
                list(q.num_arrivals), q.num_departures, q.active, q.next_event_description())

    def op_delay(self, t=None):
        (k, m), = self.qs.items()
        if not m.serving:
            before = self.public(m.q)
            m.q.delay_service() if t is None else m.q.delay_service(t)
            if self.public(m.q) != before or [e for e in self.take() if e[0] != 'arrf']:
                self.v('C03', 'delay_service on an idle queue did something')
            return
        first = min(x[1] for x in m.serving.values())
        who = [x for x in m.serving.values() if x[1] == first]
        if len(who) > 1:
            return
        del LOG[:]
        if t is None:
            m.q.delay_service()
        else:
            m.q.delay_service(t)
        batch = self.take()
        calls = [e for e in batch if e[0] == 'srvf']
        if t is None:
            if len(calls) != 1 or calls[0][2] != first:
                self.v('C03', 'delay_service called the service function %r, expected once at %r'
                       % ([e[2] for e in calls], first))
            else:
                who[0][1:] = [calls[0][4]] * 2
        else:
            if calls:
                self.v('C03', 'delay_service(t) called the service function')
            who[0][1:] = [t, t]
        if [e for e in batch if e[0] != 'srvf']:
            self.v('C03', 'delay_service moved agents')
        self.post(k)
        self.ctx.count('op_delay')

    def check_data(self, k, tags='C07'):
        """The records of queue k against the observed history."""
        m, q = self.qs[k], self.qs[k].q
        self.ctx.count('data_checks')
        self.ctx.count('rows_checked', len(m.rows))
        dat, header = q.fetch_data(return_header=True)
        plain = q.fetch_data()
        dat = np.asarray(dat)
        if header != 'arrival,service,departure,num_queued,num_total,q_id':
            self.v(tags, 'header %r' % header)
        if dat.shape != (len(m.rows), 6):
            self.v(tags, 'queue %d returns data of shape %r for %d visits'
                   % (k, dat.shape, len(m.rows)))
            return
        if not np.array_equal(dat, np.asarray(plain)):
            self.v(tags, 'fetch_data differs with and without header')
        got = [tuple(float(x) for x in r) for r in dat]
        want = sorted(tuple(float(x) for x in r[1:]) + (float(q.edge[2]),) for r in m.rows)
        if sorted(got) != want:
            d = [(g, w) for g, w in zip(sorted(got), want) if g != w][:2]
            self.v(tags, 'records of queue %d differ from the history: %r' % (k, d))
        if any(got[i][0] > got[i + 1][0] for i in range(len(got) - 1)):
            self.v(tags, 'records of queue %d are not ordered by arrival' % k)
        have = {tuple(a): [tuple(float(x) for x in r) for r in rows]
                for a, rows in q.data.items()}
        exp = {a: [tuple(float(x) for x in r[1:]) for r in rows]
               for a, rows in m.by_agent.items()}
        if have != exp:
            bad = [a for a in set(have) | set(exp) if have.get(a) != exp.get(a)][:2]
            self.v(tags, 'queue %d: records by agent differ for %r: %r, history %r'
                   % (k, bad, [have.get(a) for a in bad], [exp.get(a) for a in bad]))

    # -------------------------------------------------------------------- network
    def op_initialize(self, **kw):
        net = self.net
        del LOG[:]
        was = {k for k, m in self.qs.items() if m.q.active}
        now = clock = net.current_time
        if now == INF:
            now = max([self.reached] + [m.q.current_time for m in self.qs.values()])
        at = {k: max(now, m.q.current_time) for k, m in self.qs.items()}
        net.initialize(**kw)
        batch = self.take()
        chosen = [k for k, m in self.qs.items() if m.q.active or
                  any(e[0] in ('arrf', 'new') and e[1] == k for e in batch)]
        for k in chosen:
            m = self.qs[k]
            if m.kind == 'null':
                self.v('C21', 'terminal queue %d was activated' % k)
        self.outside_calls(batch, lambda k: at[k], activating=chosen)
        for k, m in self.qs.items():
            if k in was and not m.q.active:
                self.v('C21', 'initialize stopped queue %d' % k)
            if k not in was and m.q.active and 'queues' in kw and k not in kw['queues']:
                self.v('C21', 'initialize(%r) activated queue %d' % (kw, k))
            m.active = bool(m.q.active)
            self.post(k)
        if [e for e in batch if e[0] in ('act', 'srvf', 'loss')]:
            self.v('C21', 'initialize moved agents')
        t = net.current_time
        if clock < INF and t != clock:
            self.v('C10', 'initialize moved the clock from %r to %r' % (clock, t))
        if t < self.reached:
            self.v('C10', 'initialize moved the clock back to %r, there was an event at %r'
                   % (t, self.reached))
        elif clock == INF and not self.all_cands() and t != INF:
            self.v('C10', 'initialized with nothing left to happen, the clock says %r' % t)
        elif clock == INF and self.all_cands() and not t <= net.time < INF:
            # "infinite" says that nothing is left
            self.v('C10', 'initialized, the next event is at %r, the clock says %r'
                   % (net.time, t))
        self.total()
        return chosen

    def total(self):
        s = int(np.sum(self.net.num_agents))
        if s > self.net.max_agents:
            self.v('C17', '%d agents in the network, at most %r are allowed'
                   % (s, self.net.max_agents))
        if s == self.net.max_agents:
            self.ctx.count('at_max_agents')
        return s

    def exp_blocked(self, a, inc=0):
        x = self.blocked_exp.get(id(a), (a, 0))[1] + inc
        self.blocked_exp[id(a)] = (a, x)
        return x

    def step_net(self, do=None):
        net = self.net
        self.steps += 1
        ctx = self.ctx
        cands = self.all_cands()
        ann_t, ann = net.time, net.next_event_description()
        if not announce_ok(ann_t, cands):
            self.v(('C10', self.BT) if any(self.is_retry(c) for c in cands) else 'C10',
                   'network announces its next event at %r, due %r'
                   % (ann_t, sorted(c[:3] for c in cands)[:3]))
        else:
            ok = {('Arrival' if c[3] == 'arr' else 'Departure', c[2]) for c in cands
                  if c[0] <= ann_t <= c[1]} or {('Nothing', None)}
            if tuple(ann) not in ok:
                self.v('C10', 'network announces %r, due %r' % (ann, ok))
        pre_events, pre_clock = net.num_events, net.current_time
        pre = {k: m.q.num_servers for k, m in self.qs.items()}
        was = {k: bool(m.q.active) for k, m in self.qs.items()}
        presum = int(np.sum(net.num_agents))
        del LOG[:]
        if do is None:
            net.simulate(n=1)
        else:
            do()
        batch = self.take()
        T = net.current_time
        att = [e for e in batch if e[0] == 'dest']
        act2 = [e for e in batch if e[0] == 'act' and e[2] == 2]
        act0 = [e for e in batch if e[0] == 'act' and e[2] == 0]
        loss = [e for e in batch if e[0] == 'loss']
        if not cands:
            if act2 or act0 or loss or att:
                self.v(('C10', 'C11'), 'something happened in an exhausted network')
            if net.num_events != pre_events or T != INF:
                self.v('C10', 'exhausted network: %d events counted, clock %r'
                       % (net.num_events - pre_events, T))
            return False
        ctx.count('events')
        if net.num_events != pre_events + 1:
            self.v('C10', 'event counter went from %d to %d' % (pre_events, net.num_events))
        if T < INF:
            self.reached = max(self.reached, T)
        if T < pre_clock:
            self.v('C10', 'clock went back from %r to %r' % (pre_clock, T))
        if T != ann_t and not any(c[0] < c[1] for c in cands):
            self.v('C10', 'event at %r was announced for %r' % (T, ann_t))
        late = [c for c in cands if c[1] < T]
        if late:
            late.sort(key=lambda c: not self.is_retry(c))
            self.v(('C10', self.BT) if self.is_retry(late[0]) else 'C10', '%s at queue %d due at %r was passed over, clock is %r'
                   % (late[0][3], late[0][2], late[0][:2], T))
        touched = set()
        rs = None
        lost_at = None
        if att:
            k, d, a = att[-1][1:4]
            if tuple(ann) != ('Departure', k):
                self.v('C10', 'announced %r but agent %r wanted to leave %d'
                       % (ann, a.agent_id, k))
            ctx.count('ties' if len([c for c in cands if c[0] <= T]) > 1 else 'no_ties')
            touched |= self.attempt(k, d, a, T, act2, act0, loss, batch, pre)
            if self._rs is not None:
                rs = self._rs
        else:
            if len(act0) + len(loss) != 1 or act2:
                full = ann[0] == 'Arrival' and ann[1] in self.qs and self.qs[ann[1]].full()
                self.v(('C10', 'C11') + (('C05',) if full else ()), 'an event was counted but %s' % (
                    'nothing happened' if not (act0 or loss or act2) else
                    'this happened: %r' % [(e[0], e[1], e[2], e[3].agent_id)
                                           for e in act2 + act0 + loss]))
            for e in act2:
                self.depart(e[1], e[3], T)
                touched.add(e[1])
            for e in act0 + loss:
                k, a = e[1], e[3]
                m = self.qs[k]
                touched.add(k)
                p = m.pending.pop(id(a), None)
                if p is None:
                    self.v(('C01', 'C04', 'C11'), 'agent %r arrives at queue %d but was not due'
                           % (a.agent_id, k))
                elif p[1] != T:
                    self.v(('C04', 'C10'), 'arrival due at %r happened at %r' % (p[1], T))
                if tuple(ann) != ('Arrival', k):
                    self.v('C10', 'announced %r but an arrival at %d happened' % (ann, k))
                if e[0] == 'loss':
                    ctx.count('losses')
                    lost_at = k
                    if not m.full(pre[k]):
                        self.v('C05', 'queue %d: arrival turned away with %d of %r places taken'
                               % (k, m.system(), m.capacity(pre[k])))
                    self.lost(k, a, T)
                else:
                    ctx.count('arrivals')
                    if m.full(pre[k]):
                        self.v('C05', 'queue %d: arrival let in with %d of %r places taken'
                               % (k, m.system(), m.capacity(pre[k])))
                    self.arrive(k, a, T, pre[k])
        self.outside_calls(batch, lambda _k: T)
        self.start_services(batch, T, pre, rs)
        for k in self.qs:
            self.extra = ('C05',) if k == lost_at else ()
            self.check_active(k, was[k], presum, batch, k in touched)
        self.extra = ()
        for k in self.qs:
            self.post(k, T if (k in touched and k not in self._blocked_only) else None)
        for k, m in self.qs.items():
            if m.kind != 'res' and m.q.num_servers != pre[k] and not self.servers_may_change:
                self.v(('C09', 'C31'), 'queue %d: servers went from %r to %r'
                       % (k, pre[k], m.q.num_servers))
        self.total()
        self.log_step(batch, T)
        self._blocked_only = set()
        return True

    servers_may_change = False
    _blocked_only = frozenset()
    _rs = None

    def attempt(self, k, d, a, T, act2, act0, loss, batch, pre):
        """Agent a, whose service at queue k is over, wants to go to queue d."""
        net, ctx = self.net, self.ctx
        m = self.qs[k]
        self._rs = None
        self._blocked_only = set()
        touched = {k}
        out = [net.g.edge_index[e] for e in sorted(net.g.out_edges(m.q.edge[1]))]
        if d not in out:
            self.v('C12', 'agent at edge %r chose edge %r, not an out-edge of %d'
                   % (m.q.edge, d, m.q.edge[1]))
        self.greedy(k, d, a, batch)
        it = m.serving.get(id(a))
        if it is None:
            self.v(('C11', 'C12'), 'agent %r leaves queue %d but is not in service there'
                   % (a.agent_id, k))
        elif not it[1] <= T <= it[2]:
            self.v(('C03', 'C10') + ((self.BT,) if id(a) in m.retry else ()),
                   'agent %r wants to leave queue %d at %r, due %r' % (a.agent_id, k, T, it[1:]))
        if d not in self.qs:
            return touched
        t = self.qs[d]
        full = t.full(pre[d]) and d != k
        moved = bool(act2)
        if full and not moved:
            # it must stay
            ctx.count('blocked_' + net.blocking)
            if id(a) in m.retry:
                ctx.count('blocked_again')
            if act0 or loss or [e for e in batch if e[0] == 'act']:
                self.v((self.BT, 'C11'), 'agents moved during a blocked attempt: %r' % (
                    [(e[0], e[1], e[2], e[3].agent_id) for e in act0 + loss],))
            if [e for e in batch if e[0] in ('arrf', 'new')]:
                self.v((self.BT, 'C04'), 'outside arrivals were created in a blocked attempt')
            t.n_block += 1
            if a.blocked != self.exp_blocked(a, 1):
                self.v(self.BT, 'agent %r counts %d blocks, observed %d'
                       % (a.agent_id, a.blocked, self.exp_blocked(a)))
            srv = [e for e in batch if e[0] == 'srvf']
            if net.blocking == 'BAS':
                if srv:
                    self.v(('C15', 'C03'), 'blocked agent was served again')
                nd = [x for x in t.serving.values()]
                lo = min([x[1] for x in nd] or [INF])
                hi = min([x[2] for x in nd] or [INF])
                if it is not None:
                    # after that departure, even if the times are large
                    it[1:] = [np.nextafter(lo, INF), hi + max(RETRY, 4 * np.spacing(hi))
                              if hi < INF else INF]
                m.retry.add(id(a))
            else:
                self._rs = k
                mine = [e for e in srv if e[1] == k]
                if len(srv) != 1 or len(mine) != 1:
                    self.v('C16', 'blocked agent at %d: service function called %r'
                           % (k, [(e[1], e[2]) for e in srv]))
                if mine:
                    if mine[0][2] != T:
                        self.v('C16', 'blocked agent serves again from %r at time %r'
                               % (mine[0][2], T))
                    if it is not None:
                        it[1:] = [mine[0][4]] * 2
                m.retry.add(id(a))
            self._blocked_only = {k}
            return touched
        if full and moved:
            self.v((self.BT, 'C05'), 'agent %r moved to the full queue %d' % (a.agent_id, d))
        elif not full and not moved:
            self.v((self.BT, 'C11', 'C12'), 'agent %r did not move to queue %d which has room'
                   % (a.agent_id, d))
            # find out what was done to it instead
            srv = [e for e in batch if e[0] == 'srvf' and e[1] == k]
            if it is not None:
                it[1:] = [srv[0][4]] * 2 if srv else [T, INF]
            if srv:
                self._rs = k
            if hasattr(t.q, 'num_blocked'):
                t.n_block = t.q.num_blocked
            self.blocked_exp[id(a)] = (a, a.blocked)
            self._blocked_only = {k}
            return touched
        if id(a) in m.retry:
            ctx.count('moved_after_block')
        if a.blocked != self.exp_blocked(a) and not loss:
            self.v(self.BT, 'agent %r counts %d blocks, observed %d'
                   % (a.agent_id, a.blocked, self.exp_blocked(a)))
            self.blocked_exp[id(a)] = (a, a.blocked)
        ctx.count('hops')
        for e in act2:
            if e[3] is not a or e[1] != k:
                self.v(('C12', 'C11'), 'agent %r chose to leave queue %d but %r left queue %d'
                       % (a.agent_id, k, e[3].agent_id, e[1]))
        if len(act2) != 1:
            self.v(('C12', 'C11', 'C01'), '%d departures in one event' % len(act2))
        for e in act2:
            self.depart(e[1], e[3], T)
        # resources
        carrying = id(a) in self.carry
        if m.kind == 'res':
            if isinstance(a, qt.ResourceAgent) and not carrying and pre[k] > 0:
                self.carry[id(a)] = a
                carrying = True
                ctx.count('resources_taken')
                self._take = (k, pre[k] - 1)
            else:
                self._take = (k, pre[k])
        else:
            self._take = None
        touched.add(d)
        if t.kind == 'null':
            ctx.count('exits')
            if act0 or loss:
                self.v(('C12', 'C11'), 'agent %r took a terminal edge but shows up at %r'
                       % (a.agent_id, [(e[0], e[1]) for e in act0 + loss]))
            if t.q.collect_data:
                t.add_row(a, [T, 0, 0, 0, 0])
            self.paths.setdefault(tuple(a.agent_id), []).append([d, T, 0])
            self.gone[id(a)] = True
        elif t.kind == 'res' and carrying and isinstance(a, qt.ResourceAgent):
            ctx.count('resources_returned')
            if act0 or loss:
                self.v('C31', 'agent %r returned a resource but stays' % (a.agent_id,))
            self.carry.pop(id(a), None)
            self.gone[id(a)] = True
            base = self._take[1] if d == k else pre[d]
            if t.q.collect_data:
                t.add_row(a, [T, T, T, len(t.waiting), t.system()])
            self._give = (d, base + 1)
        else:
            if len(act0) != 1 or loss or act0[0][3] is not a or act0[0][1] != d:
                self.v(('C12', 'C11') + (('C15', 'C16') if loss else ()) +
                       (('C14',) if isinstance(a, qt.GreedyAgent) else ()),
                       'agent %r left queue %d for %d, observed %r' % (
                           a.agent_id, k, d, [(e[0], e[1], e[3].agent_id) for e in act0 + loss]))
            if not act0 and not loss:
                self.gone[id(a)] = True
        for e in loss:
            self.lost(e[1], e[3], T)
        for e in act0:
            if e[3] is not a:
                p = self.qs[e[1]].pending.pop(id(e[3]), None)
                if p is None:
                    self.v(('C01', 'C11'), 'agent %r appears at queue %d'
                           % (e[3].agent_id, e[1]))
            self.arrive(e[1], e[3], T, pre[e[1]])
            touched.add(e[1])
        # resource accounting
        for r, rm in self.qs.items():
            if rm.kind != 'res':
                continue
            want = pre[r]
            if r == k and self._take is not None:
                want = self._take[1]
            g = getattr(self, '_give', None)
            if g is not None and g[0] == r:
                want = g[1]
                if want > rm.q.max_servers:
                    rm.over += 1
                    ctx.count('resources_over_max')
            if rm.q.over_max != rm.over:
                self.v('C31', 'queue %d: over_max is %r, observed %d deposits beyond %r'
                       % (r, rm.q.over_max, rm.over, rm.q.max_servers))
                rm.over = rm.q.over_max
            self.servers_expected(r, pre[r], want, 'agent %r moved %d -> %d'
                                  % (a.agent_id, k, d))
        self._give = None
        return touched

    def greedy(self, k, d, a, batch):
        seen = [e for e in batch if e[0] == 'greedy' and e[3] is a]
        if not seen:
            return
        self.ctx.count('greedy_choices')
        lines = [(self.net.g.edge_index[e], None) for e in
                 sorted(self.net.g.out_edges(self.qs[k].q.edge[1]))]
        lines = [(e, len(self.qs[e].waiting)) for e, _x in lines]
        if len(lines) > 1:
            self.ctx.count('greedy_real_choices')
            low = min(x[1] for x in lines)
            if len([x for x in lines if x[1] == low]) > 1:
                self.ctx.count('greedy_ties')
            if lines[0][1] > low:
                self.ctx.count('greedy_not_first')
        best = min(lines, key=lambda x: x[1])[0]
        if sorted(seen[-1][4]) != sorted(lines):
            self.v(('C14', 'C01'), 'lines seen are %r, really %r' % (seen[-1][4], lines))
        if d != best or len(seen) != 1:
            self.v('C14', 'greedy agent at vertex %d chose edge %d among the lines %r'
                   % (self.qs[k].q.edge[1], d, lines))

    _take = None
    _give = None

    def check_paths(self):
        """Offline: consecutive visits of an agent form a path in the graph and in time."""
        idx = {v: e for e, v in self.net.g.edge_index.items()}
        for aid, p in self.paths.items():
            for x, y in zip(p, p[1:]):
                self.ctx.count('path_links')
                if idx[x[0]][1] != idx[y[0]][0]:
                    self.v('C12', 'agent %r went from edge %r to edge %r'
                           % (aid, idx[x[0]], idx[y[0]]))
                if x[2] != y[1]:
                    self.v('C12', 'agent %r left at %r and joined at %r' % (aid, x[2], y[1]))
