"""C19 topological order, acyclicity, closure, reachability."""
from itertools import permutations, product
from mc.core import lib
from mc.gen import digraphs, kind, rename, contain, natural_dags, large_digraphs
from mc.oracle import reach

RULE = ('all labelled digraphs with loops on <=4 vertices (and without loops on 5), every candidate order of small ones; closure by Warshall; '
        'digraphs of up to 66 vertices with large degrees, labelled several ways; stars of 400 arrows and paths of 5000 vertices')


def verify(ctx, G, R=None):
    po, ar = lib('partial_order'), lib('acyclic_reachability')
    R = R or reach(G)
    acyc = all(v not in R[v] for v in R)
    ctx.t += 4
    ctx.equal(bool(po.isAcyclic(G)), acyc, 'isAcyclic')
    TC = po.TransitiveClosure(G)
    ctx.equal({v: set(TC[v]) for v in TC}, {v: R[v] - {v} for v in R}, 'transitive closure')
    ctx.outcome(acyc, len(G))
    if not acyc:
        ctx.raises(ValueError, po.TopologicalOrder, G)
        ctx.raises(ValueError, ar.Reachability, G)
        return False
    L = list(po.TopologicalOrder(G))
    pos = {v: i for i, v in enumerate(L)}
    ctx.check(len(L) == len(G) == len(pos) and set(L) == set(G), 'order', L, 'does not list the vertices')
    ctx.check(all(pos[v] < pos[w] for v in G for w in G[v]), 'order', L, 'has a backward edge')
    ctx.check(po.isTopologicalOrder(G, L), 'own order', L, 'is not accepted')
    X = ar.Reachability(G)
    for v in G:
        for w in G:
            if bool(X.reachable(v, w)) != (v == w or w in R[v]):
                ctx.check(False, 'reachable', (v, w), 'is', X.reachable(v, w))
    ctx.t += len(G) ** 2
    return True


def orders(ctx, G, lists):
    po = lib('partial_order')
    vs = set(G)
    for L in lists:
        L = list(L)
        ctx.t += 1
        pos = {v: i for i, v in enumerate(L)}
        want = len(L) == len(vs) and set(L) == vs and all(pos[v] < pos[w] for v in G for w in G[v])
        if bool(po.isTopologicalOrder(G, L)) != want:
            ctx.check(False, 'isTopologicalOrder of', L, 'should be', want)


def small(ctx, n, loops, i, k, full, perms):
    for G0 in digraphs(n, loops, i, k):
        for vk, c in ([('int', 'list')] + ([('U', 'set'), ('mix', 'dict'), ('str', 'tuple')] if full else [])):
            G = contain(rename(G0, kind(vk)), c)
            ctx.case(G)
            verify(ctx, G)
            if full:
                names = list(G) + ['stranger']
                orders(ctx, G, (L for m in range(n + 2) for L in product(names, repeat=m)))
            elif perms:
                orders(ctx, G, permutations(G))
                orders(ctx, G, (list(G)[:-1], list(G) + [0], [0, 1, 2, 2], [0, 0, 1, 2, 3], [0, 1, 2, 3, 4], [1, 0, 2, 9]))


def dags(ctx, n, i, k):
    """All naturally labelled DAGs under affine and reversing renamings of the vertices."""
    for j, G0 in enumerate(natural_dags(n)):
        if j % k != i:
            continue
        for p in (lambda v: v, lambda v: n - 1 - v, lambda v: (v * 3 + 1) % n if n % 3 else (v * 5 + 2) % n):
            order = sorted(G0, key=p)
            G = {p(v): sorted((p(w) for w in G0[v]), reverse=n % 2 == 0) for v in order}
            ctx.case(G)
            verify(ctx, G)


def large(ctx, i, k):
    for j, (name, G) in enumerate(large_digraphs()):
        if j % k == i:
            ctx.case(name)
            verify(ctx, G)


def deep(ctx, n):
    po, ar = lib('partial_order'), lib('acyclic_reachability')
    for name, f in (('path', lambda i: [i + 1] if i + 1 < n else []), ('reverse path', lambda i: [i - 1] if i else []),
                    ('skips', lambda i: [j for j in (i + 1, i + 5) if j < n]), ('cycle', lambda i: [(i + 1) % n]),
                    ('late cycle', lambda i: [i + 1] if i + 1 < n else [n - 3])):
        G = {i: f(i) for i in range(n)}
        ctx.case(name, n)
        ctx.t += 2
        cyc = 'cycle' in name
        ctx.equal(bool(po.isAcyclic(G)), not cyc, 'isAcyclic')
        if cyc:
            ctx.raises(ValueError, po.TopologicalOrder, G)
            continue
        L = po.TopologicalOrder(G)
        pos = {v: i for i, v in enumerate(L)}
        ctx.check(len(L) == n == len(pos) and all(pos[v] < pos[w] for v in G for w in G[v]), 'bad order')
        X = ar.Reachability(G)
        for a in range(0, n, 37):
            for b in range(0, n, 41):
                ctx.t += 1
                ctx.equal(bool(X.reachable(a, b)), a >= b if name == 'reverse path' else a <= b, 'reachable', (a, b))


def broad(ctx):
    """Stars and two-layer graphs with up to 400 arrows out of or into one vertex."""
    for n in (65, 130, 400):
        out = {0: list(range(1, n)), **{i: [] for i in range(1, n)}}
        into = {**{i: [n - 1] for i in range(n - 1)}, n - 1: []}
        forked = {0: list(range(2, n)), **{i: [1] if i == n - 1 else [] for i in range(1, n)}}
        back = {0: list(range(1, n)), **{i: [0] if i == n - 1 else [] for i in range(1, n)}}
        for name, G in (('out', out), ('into', into), ('forked', forked), ('back', back)):
            for turned in (False, True):
                H = {v: G[v][::-1] for v in reversed(G)} if turned else G
                ctx.case(name, n, turned)
                verify(ctx, H)


def units(tier):
    q = tier == 'quick'
    U = [('n%d' % n, small, dict(n=n, loops=True, i=0, k=1, full=True, perms=True)) for n in range(4)]
    U += [('n4-%d' % i, small, dict(n=4, loops=True, i=i, k=16, full=False, perms=True)) for i in range(16)]
    U += [('n5-%d' % i, small, dict(n=5, loops=False, i=i, k=16, full=False, perms=False)) for i in range(16)]
    U += [('dag5', dags, dict(n=5, i=0, k=1))]
    U += [('dag6-%d' % i, dags, dict(n=6, i=i, k=8)) for i in range(8)]
    if not q:
        U += [('dag7-%d' % i, dags, dict(n=7, i=i, k=64)) for i in range(64)]
    U += [('large-%d' % i, large, dict(i=i, k=4)) for i in range(4)]
    U.append(('deep', deep, dict(n=1500)))
    U.append(('deeper', deep, dict(n=5000)))
    U.append(('broad', broad, {}))
    return U
