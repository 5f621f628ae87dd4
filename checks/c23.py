"""C23 least common ancestors."""
from itertools import combinations, product
from mc.core import lib
from mc.gen import kind, parent_maps, shard

RULE = ('every labelled rooted tree with 2..6 (quick) or 7 nodes in two insertion orders and several node types, every node set up to size 3; '
        'families of larger and deeper trees; every map on <=5 nodes that is not a tree')


def ancestors(par, x):
    out = [x]
    while out[-1] in par:
        out.append(par[out[-1]])
    return out


def oracle(par, nodes):
    A = {}
    def lca(x, y):
        a = A.get(x)
        if a is None:
            a = A[x] = set(ancestors(par, x))
        while y not in a:
            y = par[y]
        return y
    return lca


def verify(ctx, par, nodes, name, full=True):
    """par: child number -> parent number."""
    L = lib('lca')
    P = {name(x): name(p) for x, p in par.items()}
    ctx.case(P)
    f = oracle(par, nodes)
    O = L.LCA(P)
    pairs = [(x, y) for x in nodes for y in nodes] if full else full_pairs(nodes)
    want = {}
    for x, y in pairs:
        want[x, y] = name(f(x, y))
        ctx.t += 1
        got = O(name(x), name(y))
        if got != want[x, y]:
            ctx.check(False, 'common ancestor of', name(x), name(y), 'given as', got, 'instead of', want[x, y])
    if full:
        for x in nodes:
            ctx.t += 1
            ctx.equal(O(name(x)), name(x), 'common ancestor of a single node')
        for t in combinations(nodes, 3):
            ctx.t += 1
            w = f(f(t[0], t[1]), t[2])
            if O(*[name(x) for x in t]) != name(w):
                ctx.check(False, 'common ancestor of', t)
        ctx.equal(O(*[name(x) for x in nodes]), name(next(x for x in nodes if x not in par)), 'common ancestor of all nodes')
    for sel in ([pairs, pairs[::3], pairs[::-1][1::2], []] if full else [pairs]):
        F = L.OfflineLCA(P, [(name(x), name(y)) for x, y in sel])
        for x, y in sel:
            ctx.t += 2
            if F[name(x)][name(y)] != want[x, y] or F[name(y)][name(x)] != want[x, y]:
                ctx.check(False, 'offline common ancestor of', name(x), name(y), 'given as', F[name(x)][name(y)], F[name(y)][name(x)])


def full_pairs(nodes):
    n = len(nodes)
    return [(nodes[i * 7 % n], nodes[(i * i + 3 * i) % n]) for i in range(min(n, 400))] + \
        [(nodes[i], nodes[-1 - i]) for i in range(min(n, 100))] + [(nodes[0], nodes[-1]), (nodes[n // 2], nodes[n // 2])]


def trees(ctx, n, vk, rev, i, k):
    name = kind(vk)
    for root, par in shard(parent_maps(n), i, k):
        items = sorted(par.items(), reverse=rev)
        verify(ctx, dict(items), list(range(n)), name)


def families(n):
    yield 'path', {i: i - 1 for i in range(1, n)}
    yield 'htap', {i: i + 1 for i in range(n - 1)}
    yield 'star', {i: 0 for i in range(1, n)}
    yield 'binary', {i: (i - 1) // 2 for i in range(1, n)}
    yield 'ternary', {i: (i - 1) // 3 for i in range(1, n)}
    yield 'caterpillar', {i: i - 2 if i % 2 == 0 else i - 1 for i in range(1, n)}
    yield 'broom', {i: i - 1 if i < n // 2 else n // 2 - 1 for i in range(1, n)}
    yield 'sqrt', {i: int(i ** .5) - (i == 1) for i in range(1, n)}
    yield 'mul', {i: i * i * 7 % i if i > 1 else 0 for i in range(1, n)}
    yield 'mix', {i: (i * 5 + 3) % i for i in range(1, n)}
    yield 'recent', {i: i - 1 - (i * i % min(i, 3)) for i in range(1, n)}


def larger(ctx, ns, vk):
    name = kind(vk)
    for n in ns:
        for what, par in families(n):
            verify(ctx, par, list(range(n)), name, n <= 24)


def factories(ctx, n):
    L = lib('lca')
    for root, par in parent_maps(n):
        f = oracle(par, range(n))
        for fac in (L.RestrictedRangeMin, L.LogarithmicRangeMin, L.RangeMin, L.PrecomputedRangeMin):
            ctx.case(par, fac.__name__)
            O = L.LCA(par, fac)
            for x in range(n):
                for y in range(n):
                    ctx.t += 1
                    ctx.equal(O(x, y), f(x, y), 'common ancestor of', x, y)


def nontrees(ctx, n, vk):
    """Every partial parent map on n nodes that is not a tree."""
    L = lib('lca')
    name = kind(vk)
    for t in product([None] + list(range(n)), repeat=n):
        par = {x: p for x, p in enumerate(t) if p is not None}
        nodes = set(par) | set(par.values())
        roots = [x for x in nodes if x not in par]
        ok = len(roots) == 1
        if ok:
            for x in nodes:
                seen = set()
                while x in par and x not in seen:
                    seen.add(x)
                    x = par[x]
                if x in par:
                    ok = False
        P = {name(x): name(p) for x, p in par.items()}
        ctx.case(P)
        if ok:
            L.LCA(P)
            L.OfflineLCA(P, [])
            ctx.t += 2
        else:
            ctx.raises(ValueError, L.LCA, P)
            ctx.raises(ValueError, L.OfflineLCA, P, [])
        ctx.outcome(ok)


def deep(ctx, n):
    for what, par in families(n):
        verify(ctx, par, list(range(n)), kind('int'), False)


def huge(ctx, n):
    """Trees whose tours fill hundreds of blocks."""
    L = lib('lca')
    for what, par in families(n):
        if what in ('path', 'htap', 'caterpillar', 'broom', 'recent'):
            continue
        ctx.case(what, n)
        f = oracle(par, range(n))
        O = L.LCA(par)
        pairs = full_pairs(list(range(n)))
        F = L.OfflineLCA(par, pairs)
        for x, y in pairs:
            ctx.t += 3
            w = f(x, y)
            ctx.check(O(x, y) == w == O(y, x), 'common ancestor of', x, y, 'given as', O(x, y), O(y, x), 'instead of', w)
            ctx.check(F[x][y] == w == F[y][x], 'offline common ancestor of', x, y)


def units(tier):
    q = tier == 'quick'
    U = []
    for n in (2, 3, 4, 5):
        for vk in ('int', 'U', 'mix', 'str'):
            for rev in (False, True):
                U.append(('t%d-%s-%d' % (n, vk, rev), trees, dict(n=n, vk=vk, rev=rev, i=0, k=1)))
    for i in range(8):
        U.append(('t6-%d' % i, trees, dict(n=6, vk=('int', 'U')[i % 2], rev=i % 4 > 1, i=i, k=8)))
        if not q:
            U.append(('t7-%d' % i, trees, dict(n=7, vk=('int', 'U')[i % 2], rev=False, i=i, k=8)))
    for i in range(4):
        U.append(('fam-int-%d' % i, larger, dict(ns=list(range(2 + i, 25, 4)), vk='int')))
        U.append(('fam-U-%d' % i, larger, dict(ns=list(range(2 + i, 25, 4)), vk='U')))
    U.append(('fam-big', larger, dict(ns=[31, 32, 33, 63, 64, 65, 128, 129, 200, 257, 513, 700], vk='int')))
    U.append(('fam-bigU', larger, dict(ns=[31, 32, 33, 34, 63, 64, 65, 128, 129, 200, 257, 513, 700], vk='U')))
    U += [('huge%d' % n, huge, dict(n=n)) for n in (5000, 40000)]
    U.append(('deep', deep, dict(n=2600)))
    U.append(('factories', factories, dict(n=4)))
    for n in (1, 2, 3, 4, 5):
        U.append(('bad%d' % n, nontrees, dict(n=n, vk='int' if n % 2 else 'U')))
    return U
