"""Scripts of operations applied alike to several networks, and full public states."""
import io
import random

import matplotlib
import matplotlib.animation
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import queueing_tool as qt

from vlib import gen, mon as M, twin
from vlib.select import selectors


def colour(c):
    return None if c is None else [float(x) for x in np.ravel(np.asarray(c, float))]


def graph_state(g):
    s = {'pos': None if g.pos is None else np.asarray(g.pos).tolist(),
         'vprops': sorted(g.vertex_properties()), 'eprops': sorted(g.edge_properties())}
    for v in sorted(g.nodes()):
        s['v%d' % v] = {k: (colour(x) if 'color' in k or k == 'pos' else x)
                        for k, x in g.nodes[v].items()}
    for e in sorted(g.edges()):
        s['e%d-%d' % e] = {k: (colour(x) if k == 'edge_color' else x)
                           for k, x in g.adj[e[0]][e[1]].items()}
    for a in ('edge_color', 'vertex_color', 'vertex_fill_color'):
        x = getattr(g, a)
        s['g.' + a] = None if x is None else [colour(c) for c in x]
    return s


def full(net):
    s = twin.snap_net(net)
    s.update(graph_state(net.g))
    s['colors'] = {k: colour(c) for k, c in net.colors.items()}
    s['repr'] = repr(net)
    for k, q in enumerate(net.edge2queue):
        s['q%d.colors' % k] = {n: colour(c) for n, c in q.colors.items()}
        s['q%d.repr' % k] = repr(q).split(' at 0x')[0]
    return s


def script(rng, net, n, quiet=False, reinit=True, timed=False):
    """Operations as (name, arguments); net tells only the sizes."""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.62:
            out.append(('step', rng.choice([1, 1, 2, 5, 20])))
        elif r < 0.66 and timed:
            out.append(('time', rng.choice([0.1, 1.0])))
        elif r < 0.71:
            t = gen.random_table(rng, net)
            out.append(('table', t) if t else ('step', 3))
        elif r < 0.74:
            out.append(('blocking', rng.choice(['BAS', 'RS'])))
        elif r < 0.79:
            out.append((rng.choice(['start', 'stop', 'clear_data', 'queue_data', 'agent_data']),
                        rng.random()))
        elif r < 0.82:
            out.append(('max_agents', rng.choice([5, 50, np.infty])))
        elif r < 0.85:
            out.append(('colors',))
        elif r < 0.88:
            out.append(('describe',))
        elif r < 0.90 and reinit:
            out.append(('init', gen.init_kwargs(rng, net)))
        elif r < 0.905 and not quiet:
            out.append(('draw', rng.choice(['draw', 'active', 'type', 'args'])))
        elif r < 0.91 and not quiet:
            out.append(('animate', rng.choice([2, 5])))
        else:
            out.append(('step', 1))
    return out


def apply(net, ops):
    """Runs a script; returns everything the calls returned."""
    out = []
    for op in ops:
        a = op[0]
        if a == 'step':
            net.simulate(n=op[1])
        elif a == 'time':
            if net.time < M.INF and net.current_time < M.INF:
                net.simulate(t=op[1])
        elif a == 'table':
            net.set_transitions(op[1])
        elif a == 'blocking':
            net.blocking = op[1]
        elif a in ('start', 'stop', 'clear_data', 'queue_data', 'agent_data'):
            kw, _sel, _kind = selectors(random.Random(op[1]), net)
            f = {'start': net.start_collecting_data, 'stop': net.stop_collecting_data,
                 'clear_data': net.clear_data, 'queue_data': net.get_queue_data,
                 'agent_data': net.get_agent_data}[a]
            r = f(**kw)
            if a == 'queue_data':
                out.append(np.asarray(r).tolist())
            elif a == 'agent_data':
                out.append({tuple(k): np.asarray(v).tolist() for k, v in r.items()})
        elif a == 'max_agents':
            net.max_agents = op[1]
        elif a == 'colors':
            net.reset_colors()
        elif a == 'describe':
            out.append((repr(net), net.time, net.current_time, net.next_event_description(),
                        net.transitions(False), net.transitions(True).tolist(),
                        net.nV, net.num_edges, net.num_vertices, net.num_nodes))
        elif a == 'init':
            net.initialize(**op[1])
        elif a == 'draw':
            picture(net, op[1])
        elif a == 'animate':
            animate(net, op[1])
    return out


def picture(net, how='draw', **kw):
    kw.setdefault('fname', io.BytesIO())
    kw.setdefault('figsize', (1, 1))
    try:
        if how == 'draw':
            net.draw(**kw)
        elif how == 'active':
            net.show_active(**kw)
        elif how == 'type':
            net.show_type(kw.pop('edge_type', 1), **kw)
        else:
            net.g.lines_scatter_args()
    finally:
        plt.close('all')


class NullWriter(matplotlib.animation.AbstractMovieWriter):
    """Grabs frames without writing anything."""
    def __init__(self, fps=5, metadata=None, codec=None, bitrate=None):
        super().__init__(fps=fps, metadata=metadata, codec=codec, bitrate=bitrate)
        self.frames = 0
        self.on_frame = None

    def setup(self, fig, outfile, dpi=None):
        self.fig, self.outfile = fig, outfile
        self.dpi = dpi or 10

    def grab_frame(self, **kw):
        self.frames += 1
        if self.on_frame is not None:
            self.on_frame(self.fig)

    def finish(self):
        pass


def animate(net, frames, writer=None, **kw):
    w = writer or NullWriter()
    try:
        net.animate(filename='none', writer=w, frames=frames, figsize=(1, 1), repeat=False, **kw)
    finally:
        plt.close('all')
    return w
