"""Every documented way of naming queues, and which queues it means."""
import numpy as np


def selectors(rng, net, edge_key='edge'):
    """(arguments, set of edge numbers, kind)"""
    nE = net.nE
    edges = [q.edge[:2] for q in net.edge2queue]
    types = sorted({q.edge[3] for q in net.edge2queue})
    kind = rng.choice(['int', 'npint', 'list', 'tuple', 'array', 'range', 'iter', 'set',
                       'edge', 'edge_list', 'edge_tuple', 'edge_one', 'edge_array', 'edge_lists',
                       'edge_np', 'type', 'type_list', 'type_tuple', 'type_set', 'type_none', 'type_any', 'edge_set', 'keys',
                       'all', 'empty', 'type_np', 'nparray1'])
    some = rng.sample(range(nE), rng.randint(1, nE))
    one = rng.randrange(nE)
    if rng.random() < 0.3:
        one = 0
    if kind == 'int':
        return {'queues': one}, {one}, kind
    if kind == 'npint':
        return {'queues': np.int64(one)}, {one}, kind
    if kind == 'list':
        return {'queues': some}, set(some), kind
    if kind == 'tuple':
        return {'queues': tuple(some)}, set(some), kind
    if kind == 'set':
        return {'queues': set(some)}, set(some), kind
    if kind == 'array':
        return {'queues': np.array(some)}, set(some), kind
    if kind == 'nparray1':
        return {'queues': np.array([one])}, {one}, kind
    if kind == 'range':
        k = rng.randint(0, nE)
        return {'queues': range(k)}, set(range(k)), kind
    if kind == 'iter':
        return {'queues': (x for x in some)}, set(some), kind
    if kind == 'keys':
        return {'queues': dict.fromkeys(some).keys()}, set(some), kind
    if kind == 'empty':
        return {'queues': []}, set(), kind
    if kind == 'edge':
        return {edge_key: edges[one]}, {one}, kind
    if kind == 'edge_np':
        return {edge_key: np.array(edges[one])}, {one}, kind
    if kind == 'edge_one':
        return {edge_key: [edges[one]]}, {one}, kind
    if kind == 'edge_list':
        return {edge_key: [edges[k] for k in some]}, set(some), kind
    if kind == 'edge_lists':
        return {edge_key: [list(edges[k]) for k in some]}, set(some), kind
    if kind == 'edge_tuple':
        return {edge_key: tuple(edges[k] for k in some)}, set(some), kind
    if kind == 'edge_set':
        return {edge_key: {edges[k] for k in some}}, set(some), kind
    if kind == 'edge_array':
        return {edge_key: np.array([edges[k] for k in some])}, set(some), kind
    if kind == 'all':
        return {}, set(range(nE)), kind
    pick = rng.sample(types, rng.randint(1, len(types)))
    if kind == 'type':
        pick = pick[:1]
        arg = pick[0]
    elif kind == 'type_np':
        pick = pick[:1]
        arg = np.int64(pick[0])
    elif kind == 'type_none':
        pick, arg = [97], 97
    elif kind == 'type_list':
        arg = list(pick) + ([97] if rng.random() < 0.3 else [])
        if rng.random() < 0.3:
            arg += [pick[0]]
    elif kind == 'type_any':
        how = rng.randrange(6)
        if how == 0:
            pick = [t for t in types if min(pick) <= t <= max(pick)]
            arg = range(min(pick), max(pick) + 1)
        else:
            arg = [lambda: frozenset(pick), lambda: (t for t in pick), lambda: np.array(pick),
                   lambda: dict.fromkeys(pick).keys(), lambda: iter(pick)][how - 1]()
    elif kind == 'type_tuple':
        arg = tuple(pick)
    else:
        arg = set(pick)
    sel = {k for k, q in enumerate(net.edge2queue) if q.edge[3] in pick}
    return {'edge_type': arg}, sel, kind


def text(kw, sel):
    """The arguments in words, also when they can be read only once."""
    (name, x), = list(kw.items())[:1] or [('queues', 'all')]
    return '%s=%r, that is %r' % (name, x, sorted(sel))
