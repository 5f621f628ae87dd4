"""C14 bipartite matching and imperfections."""
from itertools import zip_longest, combinations, combinations_with_replacement, permutations
from mc.core import lib
from mc.gen import kind, CONTAINERS

RULE = ('all 0/1 incidence matrices a x b up to 4x4, 3x5, 5x3, 2x7 and 6x2, 4x5 and 5x4 (thorough: 5x5) up to the order of rows; matching size against brute force, certificate against its definition, '
        'imperfections against all perfect matchings; long augmenting paths; crowds of up to 150 vertices competing for few partners; all graphs within 2 edges of graphs that force deep backtracking')


def maxmatch(rows):
    """rows: list of bitmasks; size of a maximum matching by DP over column sets."""
    best = {0: 0}
    for r in rows:
        new = dict(best)
        for S, k in best.items():
            m = r & ~S
            while m:
                b = m & -m
                m ^= b
                if new.get(S | b, -1) < k + 1:
                    new[S | b] = k + 1
        best = new
    return max(best.values())


def perfect_edges(rows, n):
    """Edges (i, j) in some perfect matching, and set of perfect matchings."""
    out = []
    for p in permutations(range(n)):
        if all(rows[i] >> p[i] & 1 for i in range(n)):
            out.append(p)
    return out


def verify_matching(ctx, G, size, VV):
    bm = lib('bipartite_matching')
    M, A, B = bm.matching(G)
    ctx.t += 1
    A, B = list(A), list(B)
    ctx.check(all(w in VV and M[w] in G and w in G[M[w]] for w in M), 'matching', M, 'uses a non-edge')
    ctx.check(len({M[w] for w in M}) == len(M), 'matching', M, 'matches a vertex twice')
    ctx.equal(len(M), size, 'size of matching', M)
    SA, SB = set(A), set(B)
    ctx.check(len(SA) == len(A) and len(SB) == len(B) and SA <= set(G) and SB <= set(VV), 'independent set', A, B)
    ctx.check(not any(w in SB for u in A for w in G[u]), 'set', A, B, 'is not independent')
    ctx.equal(len(A) + len(B), len(G) + len(VV) - size, 'size of independent set', A, B)


def one(ctx, a, b, rows, uk, wk, cont, rev):
    bm = lib('bipartite_matching')
    f = CONTAINERS[cont]
    cols = range(b - 1, -1, -1) if rev else range(b)
    us = range(a - 1, -1, -1) if rev else range(a)
    G = {uk(i): f([wk(j) for j in cols if rows[i] >> j & 1]) for i in us}
    ctx.case(G)
    used = [j for j in range(b) if any(r >> j & 1 for r in rows)]
    VV = {wk(j) for j in used}
    size = maxmatch(rows)
    verify_matching(ctx, G, size, VV)
    R = bm.imperfections(G)
    ctx.t += 1
    ctx.check(set(R) <= set(G), 'imperfections at a foreign vertex', R)
    got = {(u, w) for u in R for w in R[u]}
    edges = {(i, j) for i in range(a) for j in range(b) if rows[i] >> j & 1}
    ctx.outcome(size == a == len(used), size)
    if not (size == a == len(used)):
        ctx.equal(got, {(uk(i), wk(j)) for i, j in edges}, 'imperfections without a perfect matching')
        return
    col = {j: k for k, j in enumerate(used)}
    small = [sum(1 << col[j] for j in used if r >> j & 1) for r in rows]
    pm = perfect_edges(small, a)
    good = {(i, used[p[i]]) for p in pm for i in range(a)}
    ctx.equal(got, {(uk(i), wk(j)) for i, j in edges - good}, 'imperfect edges')
    un = {uk(i): i for i in range(a)}
    wn = {wk(j): j for j in used}
    for u in R:
        for w in R[u]:
            S = R[u][w]
            X = {un[x] for x in S}
            Y = {wn[y] for x in S for y in S[x]}
            ctx.check(w in {wk(y) for y in Y} and u not in S, 'subgraph', S, 'of edge', (u, w))
            for x in S:
                ctx.equal(set(S[x]), {wk(j) for j in Y if rows[un[x]] >> j & 1}, 'induced neighbours of', x, 'for', (u, w))
            for p in pm:
                ctx.check({used[p[i]] for i in X} == Y, 'vertices', S, 'of edge', (u, w), 'can be matched elsewhere')


def matrices(ctx, a, b, i, k, full=False):
    ident, U = (lambda x: x), kind('U')
    for m in range(i, 1 << (a * b), k):
        rows = [m >> (r * b) & ((1 << b) - 1) for r in range(a)]
        one(ctx, a, b, rows, ident, ident, 'list', False)
        if full:
            one(ctx, a, b, rows, U, lambda j: 'v%d' % j, 'set', True)
            one(ctx, a, b, rows, kind('mix'), kind('mix'), 'dict', False)
            one(ctx, a, b, rows, kind('str'), lambda j: j - 1, 'tuple', True)


def multisets(ctx, a, b, i, k):
    """Incidence matrices up to the order of their rows, in ascending and descending order."""
    def ident(x):
        return x
    for n, rows in enumerate(combinations_with_replacement(range(1 << b), a)):
        if n % k == i:
            one(ctx, a, b, rows, ident, ident, 'list', False)
            one(ctx, a, b, rows, ident, ident, 'tuple', True)


def long_paths(ctx, n, tail):
    """Alternating chains that greedy matching gets wrong, with the unmatched vertex first, last or in the middle."""
    for sh in range(4):
        for rev in (False, True):
            for mid in (0, n // 2, n - 1):
                ctx.case(n, tail, sh, rev, mid)
                G = {}
                order = list(range(n))
                if rev:
                    order.reverse()
                order.remove(mid)
                order.append(mid)
                for i in order:
                    G[i] = [i - 1, i] if i else [0]
                    if sh & 1:
                        G[i].reverse()
                if sh & 2:
                    # a second chain the other way round
                    for i in order:
                        G[n + i] = [n + i + 1, n + i] if i + 1 < n else [n + i]
                k = len(G)
                for t in range(tail):
                    G['x', t] = [0]
                verify_matching(ctx, G, k, {w for u in G for w in G[u]})
    ctx.case('ladder', n)
    G = {i: [j for j in (i + 1, i, i - 1) if 0 <= j < n] for i in range(n)}
    verify_matching(ctx, G, n, set(range(n)))
    ctx.case('imperfections of a chain', n)
    m = min(n, 300)
    R = lib('bipartite_matching').imperfections({i: [i - 1, i] if i else [0] for i in range(m)})
    ctx.equal({(u, w) for u in R for w in R[u]}, {(i, i - 1) for i in range(1, m)}, 'imperfect edges of a chain')


def circ(ctx, n):
    """Circulant bipartite graphs with every set of three shifts, plus a few pendant vertices."""
    for S in combinations(range(n), 3):
        for extra in (0, 2):
            ctx.case(n, S, extra)
            G = {i: [(i * 3 + s) % n for s in S] for i in range(n)}
            for e in range(extra):
                G['e', e] = [(7 * e) % n, (7 * e + 1) % n]
            rows = [sum(1 << w for w in set(G[u])) for u in G]
            verify_matching(ctx, {u: sorted(set(G[u])) for u in G}, maxmatch(rows), {w for u in G for w in G[u]})


# Graphs whose augmenting path search has to give up long partial paths before it succeeds.
BACKTRACK = [[[3], [4, 6, 7], [1, 2, 5], [0, 5, 8], [5, 6], [0, 1], [2, 3, 6, 7], [0, 1, 2, 8], [3, 8]],
             [[2, 6], [5, 7], [1, 3, 5], [2, 6, 8], [1, 2, 4, 5], [2, 4], [0, 1, 6], [0, 2]],
             [[0, 1, 4], [2, 3, 4], [3, 6], [0, 1, 3, 7, 8], [1, 5], [2, 4], [2, 5], [0]]]


def kuhn(rows):
    """Size of a maximum matching by plain augmenting path search."""
    owner = {}

    def place(i, seen):
        for j in rows[i]:
            if j not in seen:
                seen.add(j)
                if j not in owner or place(owner[j], seen):
                    owner[j] = i
                    return True
        return False
    return sum(place(i, set()) for i in range(len(rows)))


def near(ctx, base, dist, i, k):
    """Every graph that differs from a base graph in at most dist edges."""
    rows = BACKTRACK[base]
    pairs = [(r, c) for r in range(len(rows)) for c in range(9)]
    for d in range(dist + 1):
        for n, F in enumerate(combinations(pairs, d)):
            if n % k != i:
                continue
            R = [list(r) for r in rows]
            for r, c in F:
                if c in R[r]:
                    R[r].remove(c)
                else:
                    R[r].append(c)
            size = kuhn(R)
            G = dict(enumerate(R))
            ctx.case(G)
            verify_matching(ctx, G, size, {c for r in R for c in r})


def crowd(ctx, n):
    """Many vertices competing for few partners, before, after and among vertices with partners of their own."""
    for few in (1, 2, 5):
        for pos in ('before', 'after', 'among'):
            for own in (0, 1, 3):
                ctx.case(n, few, pos, own)
                crowded = [(('c', i), [('f', (i + j) % few) for j in range(min(few, 2))]) for i in range(n)]
                private = [(('p', i), [('f', i % few)] + [('q', (i + j) % n) for j in range(own)]) for i in range(n)]
                if not own:     # pairs that a greedy choice gets wrong
                    private = [(('p', i), [('q', i), ('q', i + 1)] if i % 2 == 0 else [('q', i - 1)]) for i in range(2 * (n // 2))]
                both = crowded + private if pos == 'before' else private + crowded if pos == 'after' else [x for t in zip_longest(crowded, private) for x in t if x]
                for rev in (False, True):
                    G = {u: (L[::-1] if rev else L) for u, L in both}
                    verify_matching(ctx, G, len(private) + few, {w for u in G for w in G[u]})
    for k in (3, 5):
        # complete blocks of k by k + 1 and of k + 1 by k, with one edge from block to block
        ctx.case('blocks', n, k)
        G, size, cols = {}, 0, 0
        for b in range(n // k):
            a, c = (k, k + 1) if b % 2 else (k + 1, k)
            for i in range(a):
                G[b, i] = [cols + j for j in range(c)]
            if b:
                G[b - 1, 0].append(cols)
            cols += c
        size = kuhn(list(G.values()))
        verify_matching(ctx, G, size, set(range(cols)))


def units(tier):
    q = tier == 'quick'
    U = []
    for a in range(0, 4):
        for b in range(1, 4):
            U.append(('%dx%d' % (a, b), matrices, dict(a=a, b=b, i=0, k=1, full=True)))
    sizes = [(4, 4, 8), (3, 5, 4), (5, 3, 4), (2, 7, 2), (6, 2, 1), (4, 3, 1), (3, 4, 1)]
    if not q:
        sizes += [(4, 5, 64), (5, 4, 64), (3, 6, 16), (6, 3, 16)]
    for a, b, k in sizes:
        for i in range(k):
            U.append(('%dx%d-%d' % (a, b, i), matrices, dict(a=a, b=b, i=i, k=k, full=a * b <= 12 or not q)))
    for a, b, k in ((4, 5, 4), (5, 4, 2)) + (() if q else ((5, 5, 8),)):
        for i in range(min(k, 8)):
            U.append(('rows%dx%d-%d' % (a, b, i), multisets, dict(a=a, b=b, i=i, k=k)))
    for n in (10, 60, 1300):
        U.append(('long%d' % n, long_paths, dict(n=n, tail=2 if n < 100 else 0)))
    for n in (12, 33, 70, 150):
        U.append(('crowd%d' % n, crowd, dict(n=n)))
    for b in range(len(BACKTRACK)):
        for i in range(1 if q else 16):
            U.append(('near%d-%d' % (b, i), near, dict(base=b, dist=2 if q else 4, i=i, k=1 if q else 16)))
    for n in (7, 8):
        U.append(('circ%d' % n, circ, dict(n=n)))
    return U
