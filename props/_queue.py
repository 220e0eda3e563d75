"""Histories of one queue, watched by the online monitor (C01-C05, C07, C09)."""
import numpy as np

from vlib import gen, mon as M

BAD = [(0, ValueError), (-1, ValueError), (-5, ValueError), (2.5, TypeError), (1.0, TypeError),
       ('2', TypeError), (None, TypeError), (float('nan'), TypeError), ([2], TypeError),
       (np.int64(0), ValueError), (np.float64(3), TypeError), (-np.infty, TypeError)]


def drive(ctx, kinds=('std', 'loss', 'loss', 'info', 'res'), weights=None, steps=None,
          caps=True, **fix):
    rng = ctx.rng
    del M.LOG[:]
    q, kind, desc = gen.single(rng, kinds, caps=caps, **fix)
    crowd = 0
    if caps and not fix and rng.random() < 0.006:
        crowd = rng.choice([150, 300, 600, 1100, 2200, 3300])
        desc += '; ' + gen.crowd(rng, q, crowd)
        ctx.count('crowds')
    ctx.desc = desc
    m = M.Mon(ctx, q=q)
    k = q.edge[2]
    model = m.qs[k]
    w = {'step': 60, 'event': 8, 'inactive': 1.0, 'active': 1.5, 'servers': 1.2, 'bad': 0.2,
         'delay': 1.0, 'data': 0.7, 'toggle': 0.7, 'cleardata': 0.25, 'cap': 0.5,
         'buffer': 0.4 if kind != 'std' else 0}
    w.update(weights or {})
    if kind == 'res':
        w['servers'] = w['bad'] = 0
    names, ws = zip(*sorted(w.items()))
    m.op_set_active()
    n = steps or rng.choice([30, 60, 120, 250, 250 if rng.random() < 0.9 else 2500])
    if crowd:
        n = crowd * 2 + 200
        ws = [0.02 * x if a not in ('step', 'event') else x for a, x in zip(names, ws)]
    idle = 0
    for _ in range(n):
        if m.bad_steps > 12:
            break
        op = rng.choices(names, ws)[0]
        if op == 'step':
            idle = 0 if m.step_queue(lambda: q.simulate(n=1)) else idle + 1
            if idle:
                if rng.random() < 0.7:
                    m.op_set_active()
                if idle > 6:
                    break
        elif op == 'event':
            m.step_queue(q.next_event)
        elif op == 'inactive':
            m.op_set_inactive()
        elif op == 'active':
            m.op_set_active()
        elif op == 'servers':
            busy = len(model.serving)
            n = rng.choice([1, 2, 3, 5, 8, np.infty, max(1, busy - 1), max(1, busy),
                            busy + 1, busy + 2])
            if n == np.infty:
                n = rng.choice(gen.INFINITIES)
                ctx.count('op_servers_infinite')
            elif rng.random() < 0.25:
                n = rng.choice([np.int64, np.int32, np.uint16])(n)
                ctx.count('op_servers_numpy')
            m.op_servers(n)
        elif op == 'bad':
            m.op_servers_bad(*rng.choice(BAD))
        elif op == 'delay':
            if rng.random() < 0.5:
                m.op_delay()
            else:
                t = q.time if q.time < M.INF else q.current_time
                m.op_delay(t + rng.choice([0.5, 1.0, 2.5, rng.random()]))
        elif op == 'data':
            m.check_data(k)
        elif op == 'toggle':
            q.collect_data = not q.collect_data
        elif op == 'cleardata':
            q.data = {}
            model.clear_data()
        elif op == 'cap':
            # the limits are ordinary attributes
            if rng.random() < 0.6:
                m.change_cap(k, max(0, model.n_new + rng.choice([-4, -1, 0, 1, 3, 3, 20])))
            else:
                q.deactive_t = q.current_time + rng.choice([0.0, 1.0, 4.0, 30.0, M.INF])
                if rng.random() < 0.5:
                    m.op_set_active()
        elif op == 'buffer':
            q.buffer = rng.choice([0, 0, 1, 2, 4, 12, np.infty])
            m.post(k)
            ctx.count('op_buffer')
        if crowd:
            ctx.high('longest_line', len(model.waiting))
            ctx.high('most_in_service', len(model.serving))
    m.check_data(k)
    ctx.count('model_steps', m.steps)
    ctx.sig = (desc.split(' ')[0], tuple(m.trace[:300]))
    ctx.nontrivial = ctx.counters.get('events', 0) >= 10
    return m, q, model
