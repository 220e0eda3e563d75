"""Union-find against a naive partition."""
from queueing_tool.union_find import UnionFind


def deep(ctx):
    """Sets of equal size are merged, and merged again, with hardly a question in between."""
    rng = ctx.rng
    n = rng.choice([64, 256, 1024, 2048])
    items = list(range(n))
    rng.shuffle(items)
    u = UnionFind(list(items))
    groups = [[x] for x in items]
    ctx.desc = 'deep sets of %d elements' % n
    stop = rng.choice([1, 1, 2, 4])
    any_member = rng.random() < 0.4
    while len(groups) > stop:
        rng.shuffle(groups)
        new = []
        for a, b in zip(groups[::2], groups[1::2]):
            x, y = (rng.choice(a), rng.choice(b)) if any_member else (a[0], b[0])
            u.union(x, y)
            ctx.count('unions')
            new.append(a + b)
            # the one that leads now comes first, so that no path gets shorter
            f = u.find(a[0]) if not any_member else a[0]
            if f in b and not any_member:
                new[-1] = b + a
        groups = new + ([groups[-1]] if len(groups) % 2 else [])
    ctx.check(u.nClusters == len(groups), lambda: 'nClusters is %r, there are %d sets'
              % (u.nClusters, len(groups)))
    order = sorted(items) if rng.random() < 0.3 else rng.sample(items, n)
    for g in groups:
        inside = set(g)
        leads = {}
        for x in [x for x in order if x in inside]:
            leads.setdefault(u.find(x), x)
            ctx.count('finds')
            ctx.count('deep_finds')
        ctx.check(len(leads) == 1 and set(leads) <= inside, lambda: 'a set of %d elements has the '
                  'leaders %r' % (len(g), sorted(leads)[:5]))
        ctx.check(u.size(g[0]) == len(g), lambda: 'size is %r, not %d' % (u.size(g[0]), len(g)))
    ctx.sig = ('deep', tuple(items[:20]), any_member)
    ctx.nontrivial = True


def run_case(ctx, i):
    if i % 40 == 7:
        return deep(ctx)
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 8, 20, 60, 200 if rng.random() < 0.3 else 10])
    kind = rng.choice(['int', 'str', 'tuple', 'mixed', 'big'])
    items = {'int': list(range(n)), 'str': ['s%d' % k for k in range(n)],
             'tuple': [(k % 3, k) for k in range(n)],
             'mixed': [k if k % 2 else ('x', k) for k in range(n)],
             'big': [10 ** 9 - 7 * k for k in range(n)]}[kind]
    rng.shuffle(items)
    u = UnionFind(list(items))
    part = {x: {x} for x in items}
    ctx.desc = '%d %s elements' % (n, kind)
    sets = n
    ops = rng.choice([3, n, 2 * n, 3 * n])
    shape = rng.choice(['any', 'any', 'chain', 'star', 'pairs', 'self'])
    trace = []
    style = rng.choice(['often', 'sometimes', 'end'])

    def look(xs):
        lead = {}
        for x in xs:
            f = u.find(x)
            ctx.count('finds')
            ctx.check(f in part and f in part[x], lambda: 'the leader %r of %r is not in its set '
                      '%r' % (f, x, sorted(part[x], key=str)[:8]))
            s = u.size(x)
            ctx.check(s == len(part[x]), lambda: 'size of the set of %r is %r, it has %d elements'
                      % (x, s, len(part[x])))
            ctx.check(u.find(x) == f, 'asking changed the leader of %r' % (x,))
            lead[x] = f
        ids = {}
        for x in xs:
            k = id(part[x])
            ctx.check(ids.setdefault(k, lead[x]) == lead[x],
                      lambda: '%r has leader %r, another of its set has %r'
                      % (x, lead[x], ids[k]))
        ctx.check(len(set(ids.values())) == len(ids), 'elements of different sets have one leader')
        ctx.check(u.nClusters == sets, lambda: 'nClusters is %r, there are %d sets'
                  % (u.nClusters, sets))
    look(items[:10])
    for k in range(ops):
        if shape == 'chain':
            a, b = items[k % n], items[(k + 1) % n]
        elif shape == 'star':
            a, b = items[0], items[rng.randrange(n)]
        elif shape == 'pairs':
            s = 1 << (k % 8)
            a = rng.randrange(n)
            a, b = items[a], items[(a + s) % n]
        else:
            a, b = rng.choice(items), rng.choice(items)
            if shape == 'self' and rng.random() < 0.5:
                b = a
        if rng.random() < 0.5:
            a, b = b, a
        u.union(a, b)
        ctx.count('unions')
        if part[a] is not part[b]:
            s = part[a] | part[b]
            for x in s:
                part[x] = s
            sets -= 1
        else:
            ctx.count('unions_within_a_set')
        trace.append((a, b))
        ctx.check(u.nClusters == sets, lambda: 'after %d unions nClusters is %r, there are %d '
                  'sets' % (k + 1, u.nClusters, sets))
        if style == 'often':
            look(rng.sample(items, min(n, 12)))
        elif style == 'sometimes' and rng.random() < 0.1:
            look([a, b] + rng.sample(items, min(n, 5)))
    look(items)
    ctx.state((n, sets))
    ctx.sig = (kind, tuple(map(str, trace[:200])))
    ctx.nontrivial = len(trace) > 2 and n > 2
