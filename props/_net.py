"""Histories of networks, watched by the online monitor."""
import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M


def drive(ctx, profile=None, steps=None, weights=None, on_act=None, setup=None, after=None,
          **o):
    rng = ctx.rng
    del M.LOG[:]
    profile = profile or rng.choice(['mix', 'mix', 'tight', 'tight', 'res', 'info', 'greedy'])
    if 'nmax' not in o and rng.random() < 0.04:
        o['nmax'] = 16
    crowd = 0
    if rng.random() < 0.006 and not (set(o) & {'max_agents', 'quiet'}):
        if rng.random() < 0.7:
            crowd = rng.choice([150, 300, 300, 600, 1100])
            o['nmax'] = 3
            o['crowd'] = crowd
            o['max_agents'] = M.INF
        else:
            o['nmin'], o['nmax'] = 18, rng.choice([20, 26, 34])
            o.setdefault('dense', rng.choice([0.15, 0.3, 0.3, 0.5]))
            ctx.count('many_edges')
    net, desc = gen.network(rng, profile, on_act=on_act, **o)
    if crowd:
        ctx.count('crowds')
    if rng.random() < (0.5 if crowd else 0.08):
        # a network that was cleared is a new one
        net.clear()
        desc += '; clear()'
        ctx.count('cleared_first')
    ctx.desc = desc
    m = M.Mon(ctx, net=net)
    if setup is not None:
        setup(net, m)
    kw = gen.init_kwargs(rng, net)
    m.op_initialize(**kw)
    ctx.desc = '%s; initialize(%r)' % (desc, kw)
    w = {'step': 80, 'data': 0.4, 'toggle': 0.5, 'cleardata': 0.2, 'blocking': 0.0, 'table': 0.2,
         'buffer': 0.4, 'lower': 0.2, 'cap': 0.2, 'max': 0.15, 'init': 0.2}
    w.update(weights or {})
    names, ws = zip(*sorted(w.items()))
    n = steps or rng.choice([40, 80, 150, 300, 300 if rng.random() < 0.9 else 1500])
    if crowd:
        n = crowd * 3
        ws = [0.02 * x if a != 'step' else x for a, x in zip(names, ws)]
    elif 'nmin' in o and o['nmin'] == 18:
        n = min(n, 150)
    alive = True
    revive = rng.choice([0, 0, 1, 1, 3]) if 'max_agents' not in o and w['init'] else 0
    for _ in range(n):
        if not alive and revive > 0 and m.bad_steps <= 12:
            # everybody is gone: the network is set up for more
            revive -= 1
            for k, x in m.qs.items():
                if x.kind != 'null':
                    m.change_cap(k, x.n_new + rng.choice([0, 1, 2, 8]))
                    net.edge2queue[k].deactive_t = M.INF
            m.op_initialize(**gen.init_kwargs(rng, net))
            ctx.count('revived')
            alive = True
        if m.bad_steps > 12 or not alive:
            break
        op = rng.choices(names, ws)[0]
        if op == 'step':
            alive = m.step_net()
            if after is not None:
                after(net, m)
        elif op == 'data':
            k = rng.randrange(net.nE)
            m.check_data(k, ('C07', 'C18'))
        elif op == 'toggle':
            sel = rng.sample(range(net.nE), rng.randint(1, net.nE))
            (net.start_collecting_data if rng.random() < 0.6 else
             net.stop_collecting_data)(queues=sel)
        elif op == 'cleardata':
            sel = rng.sample(range(net.nE), rng.randint(1, net.nE))
            net.clear_data(queues=sel)
            for k in sel:
                m.qs[k].clear_data()
        elif op == 'blocking':
            net.blocking = rng.choice(['BAS', 'RS'])
            m.BT = 'C15' if net.blocking == 'BAS' else 'C16'
        elif op == 'table':
            t = gen.random_table(rng, net)
            if t:
                net.set_transitions(t)
        elif op == 'buffer':
            # not on loops: an agent that comes round to an overfull queue is a finding of C11
            ks = [k for k, q in enumerate(net.edge2queue)
                  if isinstance(q, qt.LossQueue) and q.edge[0] != q.edge[1]]
            if ks:
                k = rng.choice(ks)
                net.edge2queue[k].buffer = rng.choice([0, 0, 1, 2, 5, np.infty])
                m.post(k)
                ctx.count('op_buffer')
        elif op == 'lower':
            # fewer servers never start a service, so no clock is involved
            ks = [k for k, q in enumerate(net.edge2queue) if q.num_servers > 1 and
                  m.qs[k].kind not in ('null', 'res') and q.edge[0] != q.edge[1]]
            if ks:
                k = rng.choice(ks)
                n = net.edge2queue[k].num_servers
                m.op_lower(k, rng.choice([1, max(1, (n if n < M.INF else 9) - 1)]))
        elif op == 'cap':
            k = rng.randrange(net.nE)
            if m.qs[k].kind != 'null':
                if rng.random() < 0.7:
                    m.change_cap(k, max(0, m.qs[k].n_new + rng.choice([-3, -1, 0, 1, 3, 20])))
                else:
                    net.edge2queue[k].deactive_t = net.current_time + rng.choice([0.0, 1.0, 4.0, 30.0])
        elif op == 'init':
            m.op_initialize(**gen.init_kwargs(rng, net))
            ctx.count('op_init_midway')
        elif op == 'max':
            net.max_agents = int(np.sum(net.num_agents)) + rng.choice([0, 1, 2, 5, 100])
            ctx.count('op_max')
        if crowd:
            ctx.high('longest_line', max(len(x.waiting) for x in m.qs.values()))
            ctx.high('most_in_service', max(len(x.serving) for x in m.qs.values()))
    ctx.high('edges', net.nE)
    if not alive:
        ctx.count('exhausted')
        m.step_net()
    for k in range(net.nE):
        m.check_data(k, ('C07', 'C18'))
    m.check_paths()
    ctx.count('model_steps', m.steps)
    ctx.sig = (profile, net.nV, net.nE, tuple(m.trace[:300]))
    ctx.nontrivial = ctx.counters.get('events', 0) >= 10
    return net, m
