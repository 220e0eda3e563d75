"""What a drawing shows, read from the figure itself, and what it should show."""
import io

import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.figure import Figure
import queueing_tool as qt

from vlib import netops


class Shown(object):
    """The artists of a figure."""
    def __init__(self, fig):
        ax = fig.axes[0]
        self.fig = fig
        self.size = tuple(float(x) for x in fig.get_size_inches())
        self.bg = tuple(float(x) for x in ax.get_facecolor())
        lines = [c for c in ax.collections if isinstance(c, LineCollection)]
        dots = [c for c in ax.collections if isinstance(c, PathCollection)]
        self.n = (len(fig.axes), len(lines), len(dots))
        self.lines = lines[0] if lines else None
        self.dots = dots[0] if dots else None
        self.segments = [np.asarray(s, float) for s in self.lines.get_segments()]
        self.line_colors = np.asarray(self.lines.get_colors(), float)
        self.offsets = np.asarray(self.dots.get_offsets(), float)
        self.fill = np.asarray(self.dots.get_facecolors(), float)
        self.pen = np.asarray(self.dots.get_edgecolors(), float)
        self.line_widths = [float(x) for x in np.ravel(self.lines.get_linewidths())]
        self.line_styles = self.lines.get_linestyles()
        self.line_z = self.lines.get_zorder()
        self.dot_sizes = [float(x) for x in np.ravel(self.dots.get_sizes())]
        self.dot_widths = [float(x) for x in np.ravel(self.dots.get_linewidths())]
        self.dot_z = self.dots.get_zorder()
        self.hatch = (self.lines.get_hatch(), self.dots.get_hatch())
        self.marker = self.dots.get_paths()[0].vertices.shape


class Capture(object):
    """Reads every figure that is saved or shown."""
    def __enter__(self):
        self.got, self.saved = [], []
        self.savefig, self.show, self.ion, self.ioff = Figure.savefig, plt.show, plt.ion, plt.ioff

        def savefig(fig, fname, *a, **kw):
            self.got.append(Shown(fig))
            self.saved.append((fname, kw))
            return self.savefig(fig, fname, *a, **kw)

        def show(*a, **kw):
            self.got.append(Shown(plt.gcf()))
        Figure.savefig, plt.show = savefig, show
        plt.ion = plt.ioff = lambda *a, **kw: None
        return self

    def __exit__(self, *exc):
        Figure.savefig, plt.show = self.savefig, self.show
        plt.ion, plt.ioff = self.ion, self.ioff
        plt.close('all')


# ---------------------------------------------------------------- what should be shown
def shade(color, f, alpha):
    return [color[0] * f, color[1] * f, color[2] * f, alpha]


def queue_color(q, part):
    """part: 'edge', 'loop' (the line of a loop), 'pen' or 'fill' (of a loop's vertex)."""
    c = q.colors
    if isinstance(q, qt.ResourceQueue):
        if part == 'pen':
            return c['vertex_pen_color']
        top = 5.0 if q.max_servers <= 1 else 3.0 * q.max_servers
        f = 1.0 - min(q.num_servers / top, 0.9) / 0.9
        if part == 'loop':
            return shade(c['edge_loop_color'], f, 0.0)
        return shade(c['vertex_fill_color'], f, 1.0) if part == 'fill' else \
            shade(c['edge_color'], f, 0.5)
    if part == 'pen':
        return c['vertex_color']
    if part == 'loop':
        return c['edge_loop_color']
    if isinstance(q, qt.NullQueue):
        return c['vertex_fill_color'] if part == 'fill' else c['edge_color']
    f = 1.0 - min(q.num_system / (q.coloring_sensitivity * q.num_servers + 1.0), 1.0)
    return shade(c['vertex_fill_color'], f, 1.0) if part == 'fill' else \
        shade(c['edge_color'], f, 0.5)


def load_colors(net):
    """(edge -> color, vertex -> fill color, vertex -> pen color) of the current load."""
    by = {tuple(q.edge[:2]): q for q in net.edge2queue}
    edges = {e: queue_color(q, 'loop' if e[0] == e[1] else 'edge') for e, q in by.items()}
    fill, pen = {}, {}
    for v in net.g.nodes():
        loop = by.get((v, v))
        pen[v] = net.colors['vertex_color'] if loop is None else queue_color(loop, 'pen')
        if loop is not None and loop.edge[3] != 0:
            fill[v] = queue_color(loop, 'fill')
            continue
        into = [q for e, q in by.items() if e[1] == v]
        n, cap = sum(q.num_system for q in into), sum(q.num_servers for q in into)
        f = 1.0 - min(n / (2.0 * cap + 2.0), 1.0)
        fill[v] = shade(net.colors['vertex_fill_color'], f, 1.0)
    return edges, fill, pen


def active_colors(net):
    c = net.colors
    by = {tuple(q.edge[:2]): q for q in net.edge2queue}
    edges = {e: c['edge_active' if q.active else 'edge_inactive'] for e, q in by.items()}
    fill = {v: c['vertex_active' if any(q.active for e, q in by.items() if e[1] == v)
                 else 'vertex_inactive'] for v in net.g.nodes()}
    return edges, fill, None


def type_colors(net, et):
    c = net.colors
    by = {tuple(q.edge[:2]): q for q in net.edge2queue}
    edges = {e: c['edge_active' if q.edge[3] == et else 'edge_inactive'] for e, q in by.items()}
    fill = {v: c['vertex_highlight' if (v, v) in by and by[(v, v)].edge[3] == et
                 else 'vertex_inactive'] for v in net.g.nodes()}
    return edges, fill, None


def close(a, b, tol=1e-6):
    return a is not None and len(a) == len(b) and \
        all(abs(float(x) - float(y)) <= tol for x, y in zip(a, b))


def per(colors, i):
    """Color of the i-th element; matplotlib repeats the colors it was given."""
    return colors[i % len(colors)] if len(colors) else None


def mismatch(shown, pos, want, edges=None):
    """None, or what is wrong with the places and colors shown."""
    if shown.n != (1, 1, 1):
        return 'axes, sets of lines and sets of dots: %r' % (shown.n,)
    key = {tuple(np.round(p, 9)): v for v, p in pos.items()}
    if len(shown.offsets) != len(pos):
        return '%d vertices are drawn, not %d' % (len(shown.offsets), len(pos))
    seen = {}
    for i, p in enumerate(shown.offsets):
        v = key.get(tuple(np.round(p, 9)))
        if v is None or v in seen:
            return 'a vertex is drawn at %r; positions: %r' % (list(p), pos)
        seen[v] = i
    edges = set(edges if edges is not None else want[0])
    lines = {}
    if len(shown.segments) != len(edges):
        return '%d lines are drawn for %d edges' % (len(shown.segments), len(edges))
    for i, s in enumerate(shown.segments):
        e = tuple(key.get(tuple(np.round(x, 9))) for x in s)
        if e not in edges or e in lines:
            return 'a line is drawn from %r to %r (vertices %r)' % (list(s[0]), list(s[-1]), e)
        lines[e] = i
    if want is None:
        return None
    for e, i in sorted(lines.items()):
        got = per(shown.line_colors, i)
        if want[0] is not None and not close(got, want[0][e]):
            return 'edge %r is drawn in %r, not %r' % (e, got, list(want[0][e]))
    for v, i in sorted(seen.items()):
        for name, colors, w in (('filled', shown.fill, want[1]), ('drawn', shown.pen, want[2])):
            if w is not None and not close(per(colors, i), w[v]):
                return 'vertex %d is %s in %r, not %r' % (v, name, per(colors, i), list(w[v]))
    return None


def positions(net, pos=None):
    """vertex -> place, of distinct places"""
    if pos is not None:
        return {v: tuple(float(x) for x in pos[v]) for v in net.g.nodes()}
    order = sorted(net.g.nodes())
    return {v: tuple(float(x) for x in net.g.pos[i]) for i, v in enumerate(order)}


def random_pos(rng, nodes):
    nodes = list(nodes)
    places = rng.sample([(x / 4.0, y / 4.0) for x in range(-9, 9) for y in range(-9, 9)],
                        len(nodes))
    rng.shuffle(nodes)      # the order in which they are listed does not matter
    return dict(zip(nodes, places))


def png_size(data):
    if data[:8] != b'\x89PNG\r\n\x1a\n':
        return None
    return int.from_bytes(data[16:20], 'big'), int.from_bytes(data[20:24], 'big')
