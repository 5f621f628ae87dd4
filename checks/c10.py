"""C10 strong connectivity and condensation."""
from mc.core import lib
from mc.gen import digraphs, kind, rename, contain, large_digraphs
from mc.oracle import reach

RULE = ('all labelled digraphs with loops on <=4 vertices and without loops on 5 vertices; compared with mutual reachability by Warshall closure; '
        'large structured digraphs with known components')


def expected(G):
    R = reach(G)
    cls = {}
    for v in G:
        cls[v] = frozenset([v] + [w for w in R[v] if v in R[w]])
    return cls


def verify(ctx, G, cls):
    sc = lib('strong_connectivity')
    want = set(cls.values())
    S = sc.StronglyConnectedComponents(G)
    C = list(S)
    ctx.t += 2
    ctx.equal(len(S), len(want), 'number of components')
    ctx.equal(sorted(len(c) for c in C), sorted(len(c) for c in want), 'component sizes')
    ctx.equal({frozenset(c) for c in C}, want, 'components')
    for c in C:
        for v in c:
            got = c[v]
            if set(got) != {w for w in G[v] if w in c} or len(got) != len(set(got)):
                ctx.check(False, 'component', c, 'is not the induced subgraph')
    D = sc.Condensation(G)
    wd = {c: set() for c in want}
    for v in G:
        for w in G[v]:
            if cls[v] != cls[w]:
                wd[cls[v]].add(cls[w])
    ctx.equal({k: set(D[k]) for k in D}, wd, 'condensation')
    ctx.outcome(len(want))


def small(ctx, n, loops, i, k, full):
    for G0 in digraphs(n, loops, i, k):
        for vk, c in ([('int', 'list')] + ([('U', 'set'), ('mix', 'dict'), ('str', 'tuple')] if full else [])):
            G = contain(rename(G0, kind(vk)), c)
            ctx.case(G)
            verify(ctx, G, expected(G))
        if full:
            G = {v: list(reversed(G0[v])) for v in reversed(list(G0))}
            ctx.case(G)
            verify(ctx, G, expected(G))


def big(ctx, n):
    def check(name, G):
        ctx.case(name, n)
        verify(ctx, G, expected(G))
    # functional graphs and two-generator graphs
    for a in range(1, n):
        for b in range(0, n, 3):
            check((a, b), {i: [(a * i + b) % n] for i in range(n)})
            check((a, b, '2'), {i: [(a * i + b) % n, (i * i + a) % n] for i in range(n)})
            check((a, b, 'drop'), {i: [j for j in ((i + a), (i - b)) if 0 <= j < n] for i in range(n)})


def large(ctx, i, k):
    for j, (name, G) in enumerate(large_digraphs()):
        if j % k == i:
            ctx.case(name)
            verify(ctx, G, expected(G))


def deep(ctx, n):
    F = frozenset
    ctx.case('cycle', n)
    verify(ctx, {i: [(i + 1) % n] for i in range(n)}, {i: F(range(n)) for i in range(n)})
    ctx.case('path', n)
    verify(ctx, {i: [i + 1] if i + 1 < n else [] for i in range(n)}, {i: F([i]) for i in range(n)})
    ctx.case('reverse path', n)
    verify(ctx, {i: [i - 1] if i else [] for i in range(n)}, {i: F([i]) for i in range(n)})
    for k in (2, 3, 7):
        m = n // k * k
        ctx.case('chain of cycles', n, k)
        G = {i: [i - i % k + (i % k + 1) % k] + ([i + 1] if i % k == k - 1 and i + 1 < m else []) for i in range(m)}
        verify(ctx, G, {i: F(range(i - i % k, i - i % k + k)) for i in range(m)})
        ctx.case('chain of cycles backwards', n, k)
        G = {i: ([i - 1] if i % k == 0 and i else []) + [i - i % k + (i % k + 1) % k] for i in range(m)}
        verify(ctx, G, {i: F(range(i - i % k, i - i % k + k)) for i in range(m)})


def units(tier):
    q = tier == 'quick'
    U = [('n%d' % n, small, dict(n=n, loops=True, i=0, k=1, full=True)) for n in range(4)]
    U += [('n4-%d' % i, small, dict(n=4, loops=True, i=i, k=8, full=not q)) for i in range(8)]
    U += [('n5-%d' % i, small, dict(n=5, loops=False, i=i, k=16, full=False)) for i in range(16)]
    U += [('big%d' % n, big, dict(n=n)) for n in (6, 7, 8, 11, 16)]
    U += [('large-%d' % i, large, dict(i=i, k=4)) for i in range(4)]
    U.append(('deep', deep, dict(n=2500)))
    return U
