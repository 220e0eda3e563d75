import numpy as np
import queueing_tool as qt

from props._net import drive as net_drive
from props._queue import drive


def returning(ctx):
    """Customers that come again under their own names: the records of a customer are those of
    all its visits, one after the other."""
    rng = ctx.rng
    cls = rng.choice([qt.QueueServer, qt.LossQueue, qt.LossQueue])
    servers, buf = rng.choice([1, 1, 2, 4]), rng.choice([0, 0, 1, 3])
    names = rng.choice([2, 5, 20, 60])
    rate, n, seed = rng.choice([0.5, 1.0, 2.0, 4.0]), rng.choice([40, 150, 400]), \
        rng.randrange(2 ** 31)
    ctx.desc = 'returning: %s(%d servers, buffer %d), %d names, rate %r, %d steps, seed %d' % (
        cls.__name__, servers, buf, names, rate, n, seed)

    def run(name):
        seen = []

        def factory(agent_id):
            agent = qt.Agent(agent_id=name(agent_id))
            seen.append(agent)
            return agent
        kw = {'qbuffer': buf} if cls is qt.LossQueue else {}
        q = cls(num_servers=servers, arrival_f=lambda t: t + np.random.exponential(1 / rate),
                service_f=lambda t: t + np.random.exponential(1.0), AgentFactory=factory,
                collect_data=True, **kw)
        np.random.seed(seed)
        q.set_active()
        q.simulate(n=n)
        return q, seen
    one, agents = run(lambda i: i)
    many, _ = run(lambda i: (i[0], i[1] % names))
    want, last = {}, {}
    for a in agents:
        rows = one.data.get(a.agent_id)
        if not rows:
            continue
        k = (a.agent_id[0], a.agent_id[1] % names)
        row = [float(x) for x in rows[0]]
        if not last.get(k, -1.0) < row[0]:
            ctx.count('returned_too_soon')
            ctx.sig = ('returning', ctx.desc)
            return
        lost = cls is qt.LossQueue and sum(a.blocked.values() if hasattr(a.blocked, 'values')
                                           else [a.blocked]) > 0
        last[k] = row[0] if lost else row[2] or float('inf')
        ctx.count('visits_again', int(k in want))
        ctx.count('losses_again', int(k in want and lost))
        want.setdefault(k, []).append(row)
    got = {k: [[float(x) for x in r] for r in rows] for k, rows in many.data.items()}
    ctx.count('returning_runs')
    ctx.check(got == want, lambda: 'records of returning customers: %r' % [
        (k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want))
        if got.get(k) != want.get(k)][:1])
    ctx.sig = ('returning', ctx.desc)


def run_case(ctx, i):
    if i % 12 == 7:
        returning(ctx)
    elif i % 6 == 5:
        net_drive(ctx, weights={'data': 3, 'toggle': 2})
    else:
        drive(ctx, weights={'data': 3, 'toggle': 1.5}, collect_data=True)
