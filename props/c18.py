"""Selecting queues and retrieving data, against the monitor's own records."""
import copy

import numpy as np
import queueing_tool as qt

from vlib import mon as M
from vlib.select import selectors, text
from props._net import drive

HEADER = 'arrival,service,departure,num_queued,num_total,q_id'


def rows_of(m, sel):
    return sorted(tuple(float(x) for x in r[1:]) + (float(k),)
                  for k in sel for r in m.qs[k].rows)


def flags(net):
    return [bool(q.collect_data) for q in net.edge2queue]


def retrieve(ctx, net, m):
    rng = ctx.rng
    before = [copy.deepcopy(q.data) for q in net.edge2queue]
    kw, sel, kind = selectors(rng, net)
    kw2 = text(kw, sel)
    header = rng.random() < 0.5
    ctx.count('sel_' + kind)
    if rng.random() < 0.5:
        out = net.get_queue_data(return_header=header, **kw)
        if header:
            ctx.check(isinstance(out, tuple) and len(out) == 2 and out[1] == HEADER,
                      lambda: 'header %r' % (out[1:],))
            out = out[0]
        ctx.count('queue_data')
        ctx.check(isinstance(out, np.ndarray) and out.ndim == 2 and out.shape[1] == 6,
                  lambda: 'queue data of shape %r' % (getattr(out, 'shape', out),))
        got = sorted(tuple(float(x) for x in r) for r in out)
        want = rows_of(m, sel)
        ctx.count('rows', len(want))
        ctx.check(got == want, lambda: 'get_queue_data(%s) returned %d rows, the records of '
                  'queues %r are %d; first difference %r' % (
                      kw2, len(got), sorted(sel), len(want),
                      [(g, w) for g, w in zip(got + [None] * 3, want + [None] * 3)
                       if g != w][:1]))
        for k in sel:
            a = [r[0] for r in out if r[5] == k]
            ctx.check(a == sorted(a), 'records of queue %d are not ordered by arrival' % k)
    else:
        out = net.get_agent_data(return_header=header, **kw)
        if header:
            ctx.check(isinstance(out, tuple) and len(out) == 2 and out[1] == HEADER,
                      lambda: 'header %r' % (out[1:],))
            out = out[0]
        ctx.count('agent_data')
        want = {}
        for k in sel:
            for r in m.qs[k].rows:
                want.setdefault(tuple(r[0]), []).append(
                    tuple(float(x) for x in r[1:]) + (float(k),))
        ctx.check({tuple(a) for a in out} == set(want), lambda: 'get_agent_data(%s): agents %r, '
                  'queues %r recorded %r' % (kw2, sorted(map(tuple, out))[:5], sorted(sel),
                                             sorted(want)[:5]))
        for a, d in out.items():
            d = np.asarray(d)
            w = want.get(tuple(a), [])
            ctx.count('rows', len(w))
            if len(w) > 16:
                ctx.count('agents_with_many_records')
            if len(w) > 1:
                ctx.count('agents_with_several_records')
            if len({r[5] for r in w}) > 1:
                ctx.count('agents_at_several_queues')
            ok = d.ndim == 2 and d.shape == (len(w), 6)
            ctx.check(ok, lambda: 'agent %r has data of shape %r for %d records'
                      % (a, d.shape, len(w)))
            if ok:
                got = [tuple(float(x) for x in r) for r in d]
                ctx.check(sorted(got) == sorted(w), lambda: 'agent %r: %r, recorded %r'
                          % (a, got[:4], sorted(w)[:4]))
                t = [r[0] for r in got]
                ctx.check(t == sorted(t), lambda: 'data of agent %r is not ordered by time: %r'
                          % (a, t))
    ctx.check(all(q.data == b for q, b in zip(net.edge2queue, before)),
              'retrieving data changed it')


def command(ctx, net, m):
    rng = ctx.rng
    kw, sel, kind = selectors(rng, net)
    kw2 = text(kw, sel)
    f = flags(net)
    rows = [dict(q.data) for q in net.edge2queue]
    what = rng.choice(['start', 'stop', 'clear'])
    ctx.count(what + '_' + kind)
    ctx.count('commands')
    if what == 'clear':
        net.clear_data(**kw)
        for k in sel:
            m.qs[k].clear_data()
            ctx.check(len(net.edge2queue[k].data) == 0,
                      'clear_data(%s) left data at queue %d' % (kw2, k))
        for k in set(range(net.nE)) - sel:
            ctx.check(net.edge2queue[k].data == rows[k],
                      'clear_data(%s) changed the data of queue %d' % (kw2, k))
        ctx.check(flags(net) == f, 'clear_data changed what is collected')
    else:
        getattr(net, what + '_collecting_data')(**kw)
        want = [(what == 'start') if k in sel else f[k] for k in range(net.nE)]
        ctx.check(flags(net) == want, lambda: '%s_collecting_data(%s): %r, should be %r'
                  % (what, kw2, flags(net), want))
        ctx.check([q.data for q in net.edge2queue] == rows, 'starting or stopping changed data')


def run_case(ctx, i):
    rng = ctx.rng
    rate = 0.03
    long = rng.random() < 0.06       # agents with many visits
    drive(ctx, after=lambda net, m: (command(ctx, net, m) if rng.random() < rate else
                                     retrieve(ctx, net, m) if rng.random() < rate else None),
          steps=900 if long else rng.choice([40, 80, 150]), data=long or rng.random() < 0.7,
          max_agents=rng.choice([2, 6]) if long else None, nmax=4 if long else 7,
          weights={'toggle': 0.2, 'cleardata': 0.1, 'data': 0.2})
