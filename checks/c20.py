"""C20 path and chain decompositions, antichains."""
from itertools import permutations
from mc.core import lib
from mc.gen import natural_dags, digraphs, large_digraphs, kind, affine, series_parallel, shard
from mc.oracle import reach

RULE = ('all labelled acyclic graphs on <=5 vertices (naturally labelled ones under all permutations), naturally labelled ones on 6 vertices under several '
        'renamings; every series-parallel order on up to 9 (quick) or 10 elements; path count against matching DP, antichain size against brute force over vertex subsets')


def maxmatch(rows):
    best = {0: 0}
    for r in rows:
        new = dict(best)
        for S, k in best.items():
            m = r & ~S
            while m:
                b = m & -m
                m ^= b
                if new.get(S | b, -1) < k + 1:
                    new[S | b] = k + 1
        best = new
    return max(best.values())


def numbers(G):
    """(minimum paths, maximum antichain) of a DAG on range(n), by brute force."""
    n = len(G)
    R = reach(G)
    paths = n - maxmatch([sum(1 << w for w in G[v]) for v in range(n)])
    comp = [sum(1 << w for w in range(n) if w in R[v] or v in R[w]) for v in range(n)]
    best = 0
    ok = [True] * (1 << n)
    for S in range(1, 1 << n):
        v = S.bit_length() - 1
        T = S & ~(1 << v)
        ok[S] = ok[T] and not comp[v] & T
        if ok[S]:
            best = max(best, bin(S).count('1'))
    return paths, best, R


def verify(ctx, G, paths, anti, R):
    po = lib('partial_order')
    ctx.t += 3
    P = [list(p) for p in po.MinimumPathDecomposition(G)]
    flat = [v for p in P for v in p]
    ctx.check(len(flat) == len(G) and set(flat) == set(G) and all(P), 'paths', P, 'do not partition the vertices')
    ctx.check(all(b in G[a] for p in P for a, b in zip(p, p[1:])), 'paths', P, 'leave the graph')
    ctx.equal(len(P), paths, 'number of paths', P)
    C = [list(p) for p in po.MinimumChainDecomposition(G)]
    flat = [v for p in C for v in p]
    ctx.check(len(flat) == len(G) and set(flat) == set(G) and all(C), 'chains', C, 'do not partition the vertices')
    ctx.check(all(b in R[a] for p in C for a, b in zip(p, p[1:])), 'chains', C, 'are not chains')
    ctx.equal(len(C), anti, 'number of chains', C)
    A = po.MaximumAntichain(G)
    L = list(A)
    ctx.check(len(set(L)) == len(L) and set(L) <= set(G), 'antichain', A)
    ctx.check(not any(b in R[a] for a in L for b in L), 'antichain', A, 'has comparable elements')
    ctx.equal(len(L), anti, 'size of antichain', A)
    ctx.outcome(paths, anti)


def named(ctx, G0, p, vk, num, cont=list):
    n = len(G0)
    inv = sorted(range(n), key=lambda v: p[v])
    name = lambda v: vk(p[v])
    G = {name(v): cont(sorted((name(w) for w in G0[v]), key=lambda x: str(x), reverse=bool(p[0] & 1))) for v in inv}
    ctx.case(G)
    paths, anti, R = num
    verify(ctx, G, paths, anti, {name(v): {name(w) for w in R[v]} for v in R})


def dags(ctx, n, i, k, how):
    ident = kind('int')
    for j, G0 in enumerate(natural_dags(n)):
        if j % k != i:
            continue
        num = numbers(G0)
        if how == 'all':
            for p in permutations(range(n)):
                named(ctx, G0, p, ident, num)
            named(ctx, G0, tuple(range(n)), kind('U'), num, set)
            named(ctx, G0, tuple(reversed(range(n))), kind('mix'), num, lambda L: {x: 1 for x in L})
            named(ctx, G0, tuple(reversed(range(n))), kind('str'), num, tuple)
        else:
            perms = affine(n)
            for p in [perms[0], perms[-1], perms[len(perms) // 2], tuple(reversed(range(n))), tuple(range(1, n)) + (0,),
                      tuple(range(0, n, 2)) + tuple(range(1, n, 2))][:how]:
                named(ctx, G0, p, ident, num)


def sp(ctx, n, i, k, hows):
    """Series-parallel orders given by their Hasse diagrams; the width is known from the construction."""
    for m, E, width, lo, hi in shard(series_parallel(n), i, k):
        G0 = {v: [] for v in range(n)}
        for a, b in E:
            G0[a].append(b)
        paths = n - maxmatch([sum(1 << w for w in G0[v]) for v in range(n)])
        num = paths, width, reach(G0)
        for p in [tuple(range(n)), tuple(reversed(range(n))), tuple(range(0, n, 2)) + tuple(range(1, n, 2))][:hows]:
            named(ctx, G0, p, kind('int'), num)
        named(ctx, G0, tuple(range(n)), kind('U'), num, set)


def cyclic(ctx, n):
    po = lib('partial_order')
    for G in digraphs(n):
        R = reach(G)
        if any(v in R[v] for v in R):
            ctx.case(G)
            ctx.raises(ValueError, po.MaximumAntichain, G)


def large(ctx, n):
    """Products of chains, disjoint chains, crowns, long paths: known widths."""
    po = lib('partial_order')
    for k in (1, 2, 3, 5):
        m = n // k
        for rev in (False, True):
            # k disjoint chains of length m, interleaved numbering
            G = {i: [i + k] if i + k < k * m else [] for i in range(k * m)}
            if rev:
                G = {i: G[i] for i in reversed(list(G))}
            ctx.case('chains', k, m, rev)
            P = list(po.MinimumPathDecomposition(G))
            ctx.t += 1
            ctx.equal(sorted(sorted(p) for p in P), sorted([c + k * j for j in range(m)] for c in range(k)), 'paths')
    for a, b in ((3, 4), (4, 4), (5, 3), (6, 6)):
        name = lambda i, j: i * b + j
        G = {name(i, j): [name(x, y) for x, y in ((i + 1, j), (i, j + 1)) if x < a and y < b] for i in range(a) for j in range(b)}
        R = reach(G)
        for order in (sorted(G), sorted(G, reverse=True), sorted(G, key=lambda v: v * 7 % (a * b + 1))):
            H = {v: G[v] for v in order}
            ctx.case('grid', a, b, order)
            rows = [sum(1 << w for w in G[v]) for v in sorted(G)]
            pc = None
            C = list(po.MinimumChainDecomposition(H))
            A = po.MaximumAntichain(H)
            ctx.t += 2
            ctx.equal(len(C), min(a, b), 'chains of a grid')
            ctx.equal(len(set(A)), min(a, b), 'antichain of a grid')
            ctx.check(not any(y in R[x] for x in A for y in A), 'antichain', A)
            ctx.check(sorted(v for c in C for v in c) == sorted(G) and all(y in R[x] for c in C for x, y in zip(c, c[1:])), 'chains', C)
    for m in (3, 5, 8):
        G = {i: [m + j for j in range(m) if j != i] for i in range(m)}
        G.update({m + j: [] for j in range(m)})
        R = reach(G)
        ctx.case('crown', m)
        verify(ctx, G, m, m, R)


def kuhn(G):
    """Size of a maximum matching between the vertices as tails and the vertices as heads."""
    M = {}

    def grow(v, seen):
        for w in G[v]:
            if w not in seen:
                seen.add(w)
                if w not in M or grow(M[w], seen):
                    M[w] = v
                    return True
        return False
    return sum(grow(v, set()) for v in G)


def wide(ctx, i, k):
    """Acyclic graphs of up to 66 vertices; the numbers come from simple augmenting paths (Dilworth's theorem)."""
    for j, (name, G) in enumerate(large_digraphs(True)):
        if j % k == i:
            ctx.case(name)
            R = reach(G)
            verify(ctx, G, len(G) - kuhn(G), len(G) - kuhn(R), R)


def units(tier):
    q = tier == 'quick'
    U = [('n%d' % n, dags, dict(n=n, i=0, k=1, how='all')) for n in range(5)]
    U += [('n5-%d' % i, dags, dict(n=5, i=i, k=8, how='all')) for i in range(8)]
    U += [('n6-%d' % i, dags, dict(n=6, i=i, k=16, how=3 if q else 6)) for i in range(16)]
    if not q:
        U += [('n7-%d' % i, dags, dict(n=7, i=i, k=128, how=1)) for i in range(128)]
    for n in range(1, 10 if q else 11):
        k = 1 if n < 8 else 4 if n == 8 else 16
        U += [('sp%d-%d' % (n, i), sp, dict(n=n, i=i, k=k, hows=1 if q and n > 8 else 3)) for i in range(k)]
    U += [('cyc%d' % n, cyclic, dict(n=n)) for n in (1, 2, 3)]
    U += [('wide-%d' % i, wide, dict(i=i, k=4)) for i in range(4)]
    U.append(('large', large, dict(n=400)))
    return U
