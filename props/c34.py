"""Drawings show the state of the network truthfully.

Every figure that is saved, shown or grabbed is read back from its artists: the places of the
vertices and the ends and colors of the lines, compared with what the documentation says about
the current state."""
import io

import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M, netops, pic


def own_colors(rng, net):
    """Different colors everywhere, so that mixing them up shows."""
    def c():
        return [round(rng.uniform(0.1, 1), 3), round(rng.uniform(0.1, 1), 3),
                round(rng.uniform(0.1, 1), 3), round(rng.uniform(0.3, 1), 3)]
    if rng.random() < 0.5:
        for q in net.edge2queue:
            q.colors = {k: c() for k in ('edge_loop_color', 'edge_color', 'vertex_fill_color',
                                         'vertex_color', 'vertex_pen_color')}
            if rng.random() < 0.4:
                q.coloring_sensitivity = rng.choice([1, 3, 10])
    if rng.random() < 0.5:
        net.colors.update({k: c() for k in (
            'vertex_fill_color', 'vertex_color', 'vertex_highlight', 'vertex_active',
            'vertex_inactive', 'edge_active', 'edge_inactive')})
        net.colors['bgcolor'] = [round(rng.random(), 2) for _ in range(3)] + [1.0]


def a_network(ctx):
    rng = ctx.rng
    net, desc = gen.network(rng, rng.choice(['std', 'mix', 'mix', 'tight', 'res', 'info']),
                            terminals=True)
    ctx.desc = desc
    # nothing that a user can see of a generated network depends on its hooks
    own_colors(rng, net)
    net.initialize(**gen.init_kwargs(rng, net))
    net.simulate(n=rng.choice([1, 5, 30, 100]))
    return net


def judge(ctx, shown, pos, want, what, edges=None):
    ctx.count('pictures')
    ctx.count('elements_drawn', len(pos) + len(edges or (want[0] if want else ())))
    bad = pic.mismatch(shown, pos, want, edges)
    ctx.check(bad is None, lambda: '%s: %s' % (what, bad))


LINE = {'linewidths': [2.5, (4,), [1.0, 3.0]], 'linestyle': ['dashed', 'dotted', '-.'],
        'zorder': [-3, 4], 'hatch': ['/', 'x'], 'colors': ['r', [0.1, 0.2, 0.3, 0.4]],
        'antialiaseds': [(0,)], 'pickradius': [11]}
DOT = {'s': [20, 99], 'zorder': [5, -1], 'linewidths': [3, 0.5], 'c': ['b', 'g'],
       'edgecolors': ['k', [0.5, 0.25, 0.75, 1.0]], 'marker': ['s', '^'], 'hatch': ['o'],
       'antialiaseds': [False]}


def some(rng, choices):
    keys = rng.sample(sorted(choices), rng.randint(0, len(choices)))
    return {k: rng.choice(choices[k]) for k in keys}


def rgba(c):
    import matplotlib.colors
    return matplotlib.colors.to_rgba(c)


def judge_args(ctx, s, lkw, dkw, what):
    """The artists look the way the user asked."""
    def same(name, got, want):
        ctx.count('arguments')
        ctx.check(got == want, lambda: '%s: %s is %r, asked for %r' % (what, name, got, want))
    if 'linewidths' in lkw:
        same('line width', s.line_widths, [float(x) for x in np.ravel(lkw['linewidths'])])
    if 'linestyle' in lkw:
        same('dashed lines', s.line_styles[0][1] is not None, lkw['linestyle'] != '-')
    if 'zorder' in lkw:
        same('line zorder', s.line_z, lkw['zorder'])
    if 'hatch' in lkw:
        same('line hatch', s.hatch[0], lkw['hatch'])
    if 'pickradius' in lkw:
        same('pickradius', s.lines.get_pickradius(), lkw['pickradius'])
    if 'antialiaseds' in lkw:
        same('line antialiasing', [bool(x) for x in np.ravel(s.lines.get_antialiased())],
             [bool(x) for x in lkw['antialiaseds']])
    if 's' in dkw:
        same('vertex size', s.dot_sizes, [float(dkw['s'])])
    if 'linewidths' in dkw:
        same('vertex line width', s.dot_widths, [float(dkw['linewidths'])])
    if 'zorder' in dkw:
        same('vertex zorder', s.dot_z, dkw['zorder'])
    if 'hatch' in dkw:
        same('vertex hatch', s.hatch[1], dkw['hatch'])
    if 'marker' in dkw:
        same('marker', s.marker[0] < 10, True)
    if 'antialiaseds' in dkw:
        same('vertex antialiasing', [bool(x) for x in np.ravel(s.dots.get_antialiased())],
             [bool(dkw['antialiaseds'])])


def override(want, lkw, dkw):
    """The colors expected when the user gave some."""
    edges, fill, pen = want
    if 'colors' in lkw:
        edges = {e: rgba(lkw['colors']) for e in edges}
    if 'c' in dkw:
        fill = {v: rgba(dkw['c']) for v in fill}
    if 'edgecolors' in dkw and pen is not None:
        pen = {v: rgba(dkw['edgecolors']) for v in pen}
    return edges, fill, pen


def drawings(ctx):
    rng = ctx.rng
    net = a_network(ctx)
    for _ in range(rng.choice([2, 4])):
        how = rng.choice(['draw', 'draw', 'draw', 'active', 'type', 'nofile'])
        if rng.random() < 0.3:
            # positions of the user, kept from then on
            net.g.set_pos(pic.random_pos(rng, net.g.nodes()))
            ctx.count('positions_set')
        pos = pic.positions(net)
        lkw = some(rng, LINE) if rng.random() < 0.6 else {}
        dkw = some(rng, DOT) if rng.random() < 0.6 else {}
        kw = {'line_kwargs': dict(lkw) if lkw or rng.random() < 0.5 else None,
              'scatter_kwargs': dict(dkw) if dkw or rng.random() < 0.5 else None}
        if rng.random() < 0.3:
            p = pic.random_pos(rng, net.g.nodes())
            kw['pos'] = dict(p)
            pos = pic.positions(net, p)
        bg = net.colors['bgcolor']
        if rng.random() < 0.4:
            bg = kw['bgcolor'] = [round(rng.random(), 2) for _ in range(3)] + [1.0]
        size = kw['figsize'] = rng.choice([(1, 1), (2, 1), (1.5, 2.5)])
        save = {}
        if rng.random() < 0.5:
            save['dpi'] = rng.choice([20, 50])
        if rng.random() < 0.2:
            save['facecolor'] = rng.choice(['r', 'b'])
        if rng.random() < 0.1:
            save['transparent'] = True
        if rng.random() < 0.2:
            save['format'] = rng.choice(['png', 'svg', 'pdf'])
        kw.update(save)
        out = io.BytesIO()
        if how != 'nofile':
            kw['fname'] = out
        else:
            kw = {k: v for k, v in kw.items() if k not in save}
        want = pic.load_colors(net)
        et = None
        with pic.Capture() as cap:
            if how in ('draw', 'nofile'):
                net.draw(**kw)
            elif how == 'active':
                want = pic.active_colors(net)
                net.show_active(**kw)
            else:
                et = rng.choice([0, 1, 1, 2, 3, 99])
                want = pic.type_colors(net, et)
                net.show_type(et, **kw)
        ctx.count('shown_' + how)
        what = '%s(%r)' % (how if et is None else 'type %d' % et, kw)
        if not ctx.check(len(cap.got) == 1, '%s: %d pictures' % (what, len(cap.got))):
            return
        s = cap.got[0]
        judge(ctx, s, pos, override(want, lkw, dkw), what)
        judge_args(ctx, s, lkw, dkw, what)
        ctx.check(pic.close(s.bg, rgba(bg)), lambda: '%s: the background is %r' % (what, s.bg))
        ctx.check(pic.close(s.size, size), lambda: '%s: the figure measures %r' % (what, s.size))
        if how != 'nofile':
            data = out.getvalue()
            f = save.get('format', 'png')
            ok = {'png': data[:4] == b'\x89PNG', 'svg': b'<svg' in data[:2000],
                  'pdf': data[:4] == b'%PDF'}[f]
            ctx.check(ok, lambda: '%s: the file starts with %r' % (what, data[:20]))
            if f == 'png' and 'dpi' in save and ok:
                px = pic.png_size(data)
                w = tuple(int(x * save['dpi']) for x in size)
                ctx.count('files_measured')
                ctx.check(px == w, lambda: '%s: the picture has %r pixels, not %r' % (
                    what, px, w))
            if 'facecolor' in save:
                got = cap.saved[0][1].get('facecolor')
                ctx.check(got == save['facecolor'], lambda: '%s: saved with facecolor %r' % (
                    what, got))
        # afterwards the graph holds the colors of the load again
        shown_state(ctx, net, 'after ' + what)
        net.simulate(n=rng.choice([1, 5, 40]))
        if ctx.viol:
            return


def shown_state(ctx, net, what):
    """The colors kept in the graph are those of the current state, under both names."""
    g = net.g
    edges, fill, pen = pic.load_colors(net)
    ctx.count('states_compared')
    for e in g.edges():
        ctx.check(pic.close(g.ep(e, 'edge_color'), edges[e]), lambda: '%s: edge %r has %r, not %r'
                  % (what, e, g.ep(e, 'edge_color'), edges[e]))
    for v in g.nodes():
        ctx.check(pic.close(g.vp(v, 'vertex_fill_color'), fill[v]),
                  lambda: '%s: vertex %d is filled with %r, not %r' % (
                      what, v, g.vp(v, 'vertex_fill_color'), fill[v]))
        ctx.check(pic.close(g.vp(v, 'vertex_color'), pen[v]),
                  lambda: '%s: vertex %d is drawn in %r, not %r' % (
                      what, v, g.vp(v, 'vertex_color'), pen[v]))
    if ctx.viol:
        return
    la, da = g.lines_scatter_args()
    by = {}
    for p, c in zip(la['segments'], np.asarray(la['colors'])):
        by[tuple(map(tuple, np.round(np.asarray(p, float), 9)))] = c
    pos = {v: tuple(np.round(p, 9)) for v, p in pic.positions(net).items()}
    if len(set(pos.values())) == len(pos):
        for e in g.edges():
            c = by.get((pos[e[0]], pos[e[1]]))
            ctx.check(c is not None and pic.close(c, edges[e]), lambda:
                      '%s: lines_scatter_args gives edge %r %r, not %r' % (what, e, c, edges[e]))


def animations(ctx):
    rng = ctx.rng
    net = a_network(ctx)
    lkw = some(rng, {k: LINE[k] for k in ('linewidths', 'linestyle', 'zorder')}) \
        if rng.random() < 0.4 else {}
    dkw = some(rng, {k: DOT[k] for k in ('s', 'marker', 'zorder')}) if rng.random() < 0.4 else {}
    kw = {'line_kwargs': lkw or None, 'scatter_kwargs': dkw or None}
    if rng.random() < 0.3:
        net.g.set_pos(pic.random_pos(rng, net.g.nodes()))
    pos = pic.positions(net)
    if rng.random() < 0.3:
        p = pic.random_pos(rng, net.g.nodes())
        kw['pos'] = dict(p)
        pos = pic.positions(net, p)
    if rng.random() < 0.3:
        kw['bgcolor'] = [0.25, 0.5, 0.75, 1.0]
    w = netops.NullWriter()
    seen = []

    def on_frame(fig):
        s = pic.Shown(fig)
        what = 'frame %d of animate(%r)' % (w.frames, kw)
        judge(ctx, s, pos, pic.load_colors(net), what)
        judge_args(ctx, s, lkw, dkw, what)
        ctx.check(pic.close(s.bg, rgba(kw.get('bgcolor', net.colors['bgcolor']))),
                  lambda: '%s: the background is %r' % (what, s.bg))
        seen.append(net.num_events)
        ctx.count('frames')
    w.on_frame = on_frame
    n = rng.choice([5, 20, 60])
    netops.animate(net, n, w, **kw)
    ctx.check(len(seen) == n, 'animate(frames=%d) drew %d frames' % (n, len(seen)))
    live = sum(b > a for a, b in zip(seen, seen[1:]))
    ctx.count('frames_with_events', live)
    shown_state(ctx, net, 'after animate')


def kept_colors(ctx):
    """Without an update of the colors, a drawing shows those that were there before."""
    rng = ctx.rng
    net, desc = gen.network(rng, rng.choice(['std', 'mix', 'res', 'info']), terminals=True)
    ctx.desc = 'kept colors: ' + desc
    kw = {'figsize': (1, 1), 'update_colors': False}
    by = {tuple(q.edge[:2]): q for q in net.edge2queue}
    pos = pic.positions(net)

    def shown(what, want, **kw):
        with pic.Capture() as cap:
            net.draw(fname=io.BytesIO(), **kw)
        if ctx.check(len(cap.got) == 1, '%s: %d pictures' % (what, len(cap.got))):
            judge(ctx, cap.got[0], pos, want, what)
    # nobody is there yet: everything has its plain color
    edges = {e: q.colors['edge_loop_color' if e[0] == e[1] else 'edge_color']
             for e, q in by.items()}
    fill, pen = {}, {}
    for v in net.g.nodes():
        q = by.get((v, v))
        fill[v] = net.colors['vertex_fill_color'] if q is None else pic.queue_color(q, 'fill')
        pen[v] = net.colors['vertex_color'] if q is None else pic.queue_color(q, 'pen')
    shown('a new network', (edges, fill, pen), **kw)
    ctx.count('new_networks_drawn')
    net.initialize(**gen.init_kwargs(rng, net))
    net.simulate(n=rng.choice([1, 5, 30]))
    for _ in range(3):
        want = pic.load_colors(net)
        shown('updated', want)
        net.simulate(n=rng.choice([1, 5, 30]))
        shown('not updated since', want, **kw)
        ctx.count('drawn_as_kept')
        if ctx.viol:
            return


def graphs(ctx):
    """Graphs that are not of a network."""
    rng = ctx.rng
    g0 = gen.random_digraph(rng, types=[1, 2])
    p = pic.random_pos(rng, g0.nodes())
    how = rng.choice(['given', 'set', 'argument', 'none'])
    if how == 'given':
        for v, x in p.items():
            g0.nodes[v]['pos'] = x
    g = qt.QueueNetworkDiGraph(g0)
    if how == 'set':
        g.set_pos(dict(p))
    lkw = some(rng, LINE) if rng.random() < 0.5 else {}
    dkw = some(rng, DOT) if rng.random() < 0.5 else {}
    lkw.setdefault('colors', 'r')       # a graph has no colors of its own
    dkw.setdefault('c', 'b')
    dkw.setdefault('edgecolors', 'k')
    kw = {'line_kwargs': dict(lkw), 'scatter_kwargs': dict(dkw), 'figsize': (1, 2)}
    if how == 'argument':
        kw['pos'] = dict(p)
    if rng.random() < 0.5:
        kw['fname'] = io.BytesIO()
    with pic.Capture() as cap:
        g.draw_graph(**kw)
    what = 'draw_graph(%r) positions %s' % (kw, how)
    ctx.desc = what
    ctx.count('graphs_drawn')
    if how == 'none':
        order = sorted(g.nodes())
        p = {v: g.pos[i] for i, v in enumerate(order)}
    if not ctx.check(len(cap.got) == 1, '%s: %d pictures' % (what, len(cap.got))):
        return
    pos = {v: tuple(float(x) for x in p[v]) for v in g.nodes()}
    want = ({e: rgba(lkw['colors']) for e in g.edges()}, {v: rgba(dkw['c']) for v in g.nodes()},
            {v: rgba(dkw['edgecolors']) for v in g.nodes()})
    judge(ctx, cap.got[0], pos, want, what)
    judge_args(ctx, cap.got[0], lkw, dkw, what)
    ctx.check(pic.close(cap.got[0].bg, (1, 1, 1, 1)), '%s: background %r' % (what,
                                                                          cap.got[0].bg))


def run_case(ctx, i):
    del M.LOG[:]
    if i % 12 == 5:
        kept_colors(ctx)
    else:
        {0: animations, 1: animations, 2: graphs}.get(i % 6, drawings)(ctx)
    ctx.sig = (ctx.desc, i % 12)
    del M.LOG[:]
