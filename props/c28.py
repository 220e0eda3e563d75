"""The event scheduler returns the latest times in order."""
import heapq
from collections import Counter

from queueing_tool.network.priority_queue import PriorityQueue

INF = float('inf')


class Model(object):
    """The entries given and not yet returned or overtaken.  A key is pending from the
    moment it is given a time until that time is returned."""
    def __init__(self, ctx, keys, n):
        self.ctx, self.n = ctx, n
        self.q = [INF] * n
        self.entries = Counter()
        self.pending = {}
        for t, k in keys:
            self.given(t, k)

    def given(self, t, k):
        self.q[k] = t
        self.entries[(t, k)] += 1
        self.pending[k] = t

    def popped(self, got):
        """Judges what pop returned."""
        ctx = self.ctx
        want = min(self.pending.values()) if self.pending else None
        if got is None:
            ctx.count('popped_nothing')
            ctx.check(want is None, lambda: 'pop returned nothing, %r are due' % self.pending)
            self.entries.clear()
            self.pending.clear()
            return
        ok = isinstance(got, tuple) and len(got) == 2
        if not ctx.check(ok, 'pop returned %r' % (got,)):
            return
        t, k = got
        if not ctx.check(0 <= k < self.n and self.entries.get((t, k), 0) > 0,
                         lambda: 'pop returned %r, which is not an entry (due: %r)' % (
                             got, self.pending)):
            return
        ctx.check(self.q[k] == t, lambda: 'pop returned %r, the time of %d is %r' % (
            got, k, self.q[k]))
        if want is not None:
            ctx.check(t <= want, lambda: 'pop returned %r before %r, due first' % (
                got, [(x, y) for y, x in self.pending.items() if x == want]))
        if self.pending.get(k) == t:
            ctx.count('popped_pending')
            del self.pending[k]
        else:
            # the same time was given twice: it may be returned twice
            ctx.count('popped_again')
            ctx.check(self.given_twice(t, k), lambda: '%r was returned twice' % (got,))
        stale = sum(c for (x, y), c in self.entries.items() if x < t)
        ctx.count('overtaken_entries', stale)
        for e in [e for e in self.entries if e[0] < t]:
            del self.entries[e]
        self.entries[(t, k)] -= 1
        if not self.entries[(t, k)]:
            del self.entries[(t, k)]

    def given_twice(self, t, k):
        return self.entries.get((t, k), 0) > 0

    def look(self, pq, before, op):
        """The public attributes after an operation."""
        ctx = self.ctx
        times, edges = list(pq.times), list(pq.edges)
        ctx.check(list(pq.q_map()) == self.q, lambda: 'after %s q_map() is %r, not %r' % (
            op, list(pq.q_map()), self.q))
        ok = 0 <= pq.size == len(times) == len(edges) <= pq.arraysize
        ctx.check(ok, lambda: 'after %s size is %r with %d times, %d edges, capacity %r' % (
            op, pq.size, len(times), len(edges), pq.arraysize))
        held = Counter(zip(times, edges))
        ctx.check(all(held.get((t, k), 0) > 0 for k, t in self.pending.items()),
                  lambda: 'after %s an entry of %r is missing from %r' % (
                      op, self.pending, sorted(held)))
        ctx.check(all(c <= self.entries.get(e, 0) for e, c in held.items()),
                  lambda: 'after %s %r are held, only %r were given' % (
                      op, dict(held), dict(self.entries)))
        if times:
            ctx.check(times[0] == min(times), lambda: 'after %s the first of %r is not the least'
                      % (op, times))
        if op == 'push':
            ctx.check(pq.size == before + 1, 'push changed size from %d to %d' % (
                before, pq.size))
        # entries the scheduler has let go of may not come back
        self.entries = Counter({e: held[e] for e in self.entries if held.get(e, 0) > 0})


def a_time(rng, style, now):
    if style == 'grid':
        return now + rng.randint(0, 3)
    if style == 'any':
        return rng.uniform(-5, 5)
    if style == 'few':
        return float(rng.randint(0, 2))
    if style == 'wild':
        return rng.choice([0.0, -0.0, 1e-300, -1e300, 1e300, 5.0, INF, -INF, 1e-7, 3.0])
    return now + rng.expovariate(1.0)


def large(ctx):
    """Very many entries, against a lazy heap of the standard library."""
    rng = ctx.rng
    n = rng.choice([3, 300, 5000, 40000])
    total = rng.choice([3000, 40000, 70000, 140000])
    given = [(rng.random(), k) for k in range(n)] if rng.random() < 0.7 else []
    ctx.desc = 'large: %d keys, %d pushes, %d at first' % (n, total, len(given))
    pq = PriorityQueue(list(given), n)
    latest = dict((k, t) for t, k in given)
    heap = sorted(given)
    drop = rng.choice([0.0, 0.3, 0.7])
    now, done = 0.0, 0

    def pop():
        while heap and latest.get(heap[0][1]) != heap[0][0]:
            heapq.heappop(heap)
        want = heapq.heappop(heap) if heap else None
        if want:
            del latest[want[1]]
        got = pq.pop()
        ctx.check(got == want, lambda: 'pop returned %r, %r is due' % (got, want))
        return want

    for _ in range(total):
        k, t = rng.randrange(n), now + rng.expovariate(1.0)
        pq.push(t, k)
        latest[k] = t
        heapq.heappush(heap, (t, k))
        ctx.high('entries', pq.size)
        if rng.random() < drop:
            got = pop()
            done += 1
            now = got[0] if got else now
        if ctx.viol:
            return
    while pop() is not None:
        done += 1
        if ctx.viol:
            return
    ctx.check(pq.size == 0, lambda: 'an empty scheduler has size %d' % pq.size)
    ctx.count('large', 1)
    ctx.count('pushes', total)
    ctx.sig = ('large', n, total, done)
    ctx.nontrivial = True


def run_case(ctx, i):
    if i % 1000 == 17:
        return large(ctx)
    rng = ctx.rng
    n = rng.choice([1, 1, 2, 3, 5, 10, 40])
    style = rng.choice(['event', 'event', 'grid', 'any', 'few', 'wild'])
    given = []
    kind = rng.choice(['empty', 'none', 'all', 'some', 'repeated'])
    if kind == 'all':
        given = [(a_time(rng, style, 0.0), k) for k in range(n)]
        rng.shuffle(given)
    elif kind == 'some':
        given = [(a_time(rng, style, 0.0), k) for k in rng.sample(range(n), rng.randint(0, n))]
    elif kind == 'repeated':
        given = [(a_time(rng, style, 0.0), rng.randrange(n)) for _ in range(rng.randint(0, 3 * n))]
    ctx.desc = 'n=%d style=%s given=%r' % (n, style, given[:30])
    ctx.count('start_' + kind)
    pq = PriorityQueue(None if kind == 'none' else list(given), n)
    m = Model(ctx, given, n)
    m.look(pq, 0, 'init')
    if ctx.viol:
        return
    now, sig = 0.0, []
    mode = rng.choice(['mixed', 'network', 'network', 'fill', 'drain'])
    p = {'mixed': 0.5, 'network': 0.5, 'fill': 0.8, 'drain': 0.3}[mode]
    last_cap = pq.arraysize
    for _ in range(rng.choice([10, 30, 100, 300])):
        size = pq.size
        if mode == 'network' and sig:
            # what a simulation does: return an event, give its queue and others new times
            got = pq.pop()
            m.popped(got)
            m.look(pq, size, 'pop')
            if got is not None and -1e200 < got[0] < INF:
                now = got[0]
            for k in {rng.randrange(n) for _ in range(rng.randint(1, 3))} | (
                    {got[1]} if got is not None and rng.random() < 0.8 else set()):
                t = a_time(rng, style, now)
                size = pq.size
                pq.push(t, k)
                m.given(t, k)
                m.look(pq, size, 'push')
                ctx.count('pushes')
            sig.append(got)
        elif rng.random() < p or not sig and mode == 'network':
            t, k = a_time(rng, style, now), rng.randrange(n)
            if rng.random() < 0.05:
                t = m.q[k]      # the same time again
            pq.push(t, k)
            m.given(t, k)
            m.look(pq, size, 'push')
            ctx.count('pushes')
            sig.append((t, k))
        elif rng.random() < 0.05:
            bad = rng.choice([-1, n, n + 1, -n, n + 1000, -2 ** 31, 2 ** 31 - 1])
            try:
                pq.push(1.0, bad)
            except (IndexError, ValueError, KeyError, OverflowError):
                ctx.count('rejected')
            else:
                ctx.check(False, 'push accepted key %d of %d' % (bad, n))
            m.look(pq, size, 'rejected push')
        else:
            got = pq.pop()
            m.popped(got)
            m.look(pq, size, 'pop')
            if got is not None and style in ('event', 'grid'):
                now = max(now, got[0])
            sig.append(got)
        if pq.arraysize > last_cap:
            ctx.count('growths')
            last_cap = pq.arraysize
        ctx.state((min(n, 3), min(pq.size, 40), min(len(m.pending), 10)))
        if ctx.viol:
            return
    # until nothing is left everything that is due comes, in order
    left, last = len(m.pending), -INF
    due = sorted(m.pending.values())
    out = []
    for _ in range(pq.size + 1):
        size = pq.size
        got = pq.pop()
        again = got is not None and m.pending.get(got[1]) != got[0]
        m.popped(got)
        m.look(pq, size, 'pop')
        if got is None or ctx.viol:
            break
        if not again:
            out.append(got[0])
        ctx.check(got[0] >= last, '%r came after %r' % (got, last))
        last = got[0]
    ctx.count('drained')
    ctx.count('drained_entries', left)
    ctx.check(out == due, lambda: 'drained %r, due were %r' % (out, due))
    ctx.check(pq.pop() is None and pq.pop() is None, 'something came from an empty scheduler')
    ctx.check(pq.size == 0, 'an empty scheduler has size %d' % pq.size)
    ctx.sig = (n, style, tuple(map(repr, sig[:60])))
    ctx.nontrivial = len(sig) >= 10
