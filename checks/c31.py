"""C31 cubic matching partitions and xyz embeddings."""
from itertools import combinations, permutations, product
from mc.core import lib
from mc.gen import data, affine, relabel, kind, contain, adj, shard, usource
from mc.oracle import nbrs, blocks, components

RULE = ('every biconnected cubic graph up to 10 (quick) or 12 vertices under affine relabellings and vertex types, larger bipartite polyhedra; '
        'all 3-edge-colourings by backtracking; prisms and generalized Petersen graphs of up to 26 vertices; point sets of small grids and slabs of up to 8^3 for the recognizer; all non-cubic graphs up to 7 vertices and all digraphs of '
        'out-degree 3 on up to 5 vertices refused')


def partitions(n, E):
    """Set of frozensets of three frozensets of edges."""
    E = sorted((min(e), max(e)) for e in E)
    inc = [[] for _ in range(n)]
    for k, (u, v) in enumerate(E):
        inc[u].append(k)
        inc[v].append(k)
    col = [None] * len(E)
    out = set()
    # fix the colours at vertex 0
    for c, k in enumerate(inc[0]):
        col[k] = c

    order = [k for k in range(len(E)) if col[k] is None]

    def rec(i):
        if i == len(order):
            out.add(frozenset(frozenset(E[j] for j in range(len(E)) if col[j] == c) for c in range(3)))
            return
        k = order[i]
        u, v = E[k]
        used = {col[j] for j in inc[u] + inc[v]}
        for c in range(3):
            if c not in used:
                col[k] = c
                rec(i + 1)
                col[k] = None
    rec(0)
    return out


def lines_ok(points):
    """Every axis-parallel line through a point meets exactly two of the points."""
    for i in range(3):
        cnt = {}
        for p in points:
            q = p[:i] + p[i + 1:]
            cnt[q] = cnt.get(q, 0) + 1
        if any(c != 2 for c in cnt.values()):
            return False
    return True


def embeddable(n, P):
    """Does the partition give an embedding (coordinates = cycles of two matchings)?"""
    M = list(P)
    nb = [{} for _ in range(3)]
    for i in range(3):
        for u, v in M[i]:
            nb[i][u] = v
            nb[i][v] = u
    coords = []
    for a, b in ((0, 1), (0, 2), (1, 2)):
        cyc = {}
        for v in range(n):
            if v in cyc:
                continue
            todo = [v]
            while todo:
                x = todo.pop()
                if x not in cyc:
                    cyc[x] = v
                    todo += [nb[a][x], nb[b][x]]
        coords.append(cyc)
    return lines_ok([tuple(c[v] for c in coords) for v in range(n)])


def verify(ctx, n, E, vk, cont, rev):
    xg = lib('xyz_graph')
    name = kind(vk)
    G = contain(adj(n, E, name, rev=rev), cont)
    num = {name(i): i for i in range(n)}
    ctx.case(n, E, vk)
    want = partitions(n, E)
    got = []
    for D in xg.CubicMatchPartitions(G):
        ctx.t += 1
        ctx.equal(set(D), set(G), 'vertices of partition')
        M = [set(), set(), set()]
        for v in D:
            ctx.check(len(D[v]) == 3 and set(D[v]) == set(G[v]), 'edges at', v, 'are', D[v])
            for i in range(3):
                w = D[v][i]
                ctx.check(D[w][i] == v, 'edge', v, w, 'in different matchings')
                M[i].add((min(num[v], num[w]), max(num[v], num[w])))
        got.append(frozenset(map(frozenset, M)))
    ctx.equal(len(got), len(set(got)), 'number of distinct partitions')
    ctx.check(set(got) == want, 'partitions found', len(got), 'expected', len(want))
    emb = {P for P in want if embeddable(n, P)}
    seen = []
    A = nbrs(n, E)
    for X in xg.xyzEmbeddings(G):
        ctx.t += 1
        ctx.equal(set(X), set(G), 'embedded vertices')
        pts = {v: tuple(X[v]) for v in X}
        ctx.check(all(len(p) == 3 for p in pts.values()) and len(set(pts.values())) == n, 'points', pts)
        ctx.check(lines_ok(list(pts.values())), 'lines of', pts)
        M = [set(), set(), set()]
        for i in range(3):
            by = {}
            for v, p in pts.items():
                by.setdefault(p[:i] + p[i + 1:], []).append(v)
            for L in by.values():
                a, b = (num[x] for x in L)
                ctx.check(b in A[a], 'points of', L, 'on a common line are not neighbours')
                M[i].add((min(a, b), max(a, b)))
        seen.append(frozenset(map(frozenset, M)))
    ctx.equal(len(seen), len(set(seen)), 'number of distinct embeddings')
    ctx.equal(set(seen), emb, 'embeddings')
    ctx.outcome(len(want), len(emb))


def biconnected(n, E):
    return len(components(n, E)) == 1 and len(blocks(n, E)[0]) == 1


def table(ctx, name, i, k, step):
    xg, bc = lib('xyz_graph'), lib('biconnectivity')
    for n, E in shard(data(name), i, k):
        if not biconnected(n, E):
            ctx.case('not biconnected', n, E)
            G = contain(adj(n, E), 'set')
            ctx.raises((ValueError, bc.NotBiconnected), lambda: list(xg.CubicMatchPartitions(G)))
            ctx.raises((ValueError, bc.NotBiconnected), lambda: list(xg.xyzEmbeddings(G)))
            continue
        for p in affine(n)[::step]:
            verify(ctx, n, relabel(E, p), 'int', 'list', False)
        for vk, c, r in (('U', 'set', False), ('mix', 'dict', True), ('str', 'tuple', True)):
            verify(ctx, n, E, vk, c, r)


def bigger(ctx, names):
    def prism(n):
        return 2 * n, [(i, (i + 1) % n) for i in range(n)] + [(n + i, n + (i + 1) % n) for i in range(n)] + [(i, n + i) for i in range(n)]

    def gp(n, k):
        return 2 * n, sorted({tuple(sorted(e)) for i in range(n) for e in ((i, (i + 1) % n), (i, n + i), (n + i, n + (i + k) % n))})

    def torus(a, b):
        """hexagonal torus map"""
        f = lambda x, y, s: ((x % a) * b + y % b) * 2 + s
        return 2 * a * b, sorted({tuple(sorted((f(x, y, 0), f(x + dx, y + dy, 1)))) for x in range(a) for y in range(b)
                                  for dx, dy in ((0, 0), (1, 0), (0, 1))})
    for kindname, args in names:
        n, E = {'prism': prism, 'gp': gp, 'torus': torus}[kindname](*args)
        if any(len(a) != 3 for a in nbrs(n, E)) or not biconnected(n, E):
            continue
        verify(ctx, n, E, 'int', 'set', False)
        verify(ctx, n, relabel(E, affine(n)[-1]), 'U', 'list', True)


def refused(ctx):
    xg, bc = lib('xyz_graph'), lib('biconnectivity')
    for spec in ('lab<=4', 'cls5', 'cls6', 'cls7'):
        for n, E in usource(spec):
            if not n:
                continue
            A = nbrs(n, E)
            if all(len(a) == 3 for a in A) and biconnected(n, E):
                continue
            G = contain(adj(n, E), 'list')
            ctx.case(n, E)
            ctx.raises((ValueError, bc.NotBiconnected), lambda: list(xg.CubicMatchPartitions(G)))
    K4 = {v: [w for w in range(4) if w != v] for v in range(4)}
    for G in ({0: [1], 1: []}, {**K4, 0: [1, 2, 3], 4: [0, 1, 2]}, {v: [(v + 1) % 4, (v + 2) % 4, v] for v in range(4)}):
        ctx.case(G)
        ctx.raises(ValueError, lambda: list(xg.CubicMatchPartitions(G)))
        ctx.raises(ValueError, lambda: list(xg.xyzEmbeddings(G)))


def directed(ctx, n, loops):
    """Every directed graph in which every vertex has three successors."""
    xg, bc = lib('xyz_graph'), lib('biconnectivity')
    ch = [list(combinations([w for w in range(n) if loops or w != v], 3)) for v in range(n)]
    for rows in product(*ch):
        G = {v: list(r) for v, r in enumerate(rows)}
        if all(v in G[w] and v != w for v in G for w in G[v]):
            continue
        ctx.case(G)
        ctx.raises((ValueError, bc.NotBiconnected), lambda: list(xg.CubicMatchPartitions(G)))
        ctx.raises((ValueError, bc.NotBiconnected), lambda: list(xg.xyzEmbeddings(G)))
        ctx.outcome('refused', n)


def pointsets(ctx, dims, i, k):
    xg = lib('xyz_graph')
    P = list(product(*map(range, dims)))
    for m in shard(range(1 << len(P)), i, k):
        S = [p for j, p in enumerate(P) if m >> j & 1]
        ctx.case(S)
        ctx.t += 1
        want = lines_ok(S)
        if bool(xg.isxyz(S)) != want:
            ctx.check(False, 'isxyz answers', not want)
        ctx.outcome(want)


def slabs(ctx, top):
    """Point sets whose slices x=0..n-1 are two-regular patterns, each turned
    against the one before by c: xyz exactly if c is a unit.  Also without
    and with each single point."""
    xg = lib('xyz_graph')
    for n in range(2, top):
        for c in range(n):
            base = [(x, y, z) for x in range(n) for y in range(n) for z in range(n) if (y + z + c * x) % n in (0, 1)]
            for axes in permutations(range(3)):
                S = [tuple(p[a] for a in axes) for p in base]
                for T in [S, S[::-1], S + [(n, n, n)]] + ([S[:i] + S[i + 1:] for i in range(len(S))] if c == 1 else []):
                    ctx.case(n, c, axes, len(T), T[:1], T[-1:])
                    ctx.t += 1
                    want = lines_ok(T)
                    ctx.equal(bool(ctx.call(xg.isxyz, T)), want, 'isxyz')
                    ctx.outcome(n, want)


def units(tier):
    q = tier == 'quick'
    U = [('cubic%d' % c, table, dict(name='cubic%d' % c, i=0, k=1, step=1)) for c in (4, 6, 8)]
    U += [('cubic10-%d' % i, table, dict(name='cubic10', i=i, k=4, step=1)) for i in range(4)]
    U += [('cubic12-%d' % i, table, dict(name='cubic12', i=i, k=8, step=1)) for i in range(8)]
    U.append(('prism', bigger, dict(names=[('prism', (k,)) for k in (7, 8, 9, 10, 11, 12)])))
    U.append(('prism13', bigger, dict(names=[('prism', (13,))])))
    U.append(('gp12', bigger, dict(names=[('gp', (12, 5)), ('gp', (11, 2))])))
    U += [('slabs', slabs, dict(top=9))]
    U.append(('gp', bigger, dict(names=[('gp', a) for a in ((7, 2), (8, 3), (8, 2), (7, 3))] + ([] if q else [('gp', (10, 3)), ('gp', (10, 2))]))))
    U.append(('torus', bigger, dict(names=[('torus', a) for a in ((2, 3), (3, 3), (2, 4), (2, 2))] + ([] if q else [('torus', (3, 4))]))))
    U += [('directed3', directed, dict(n=3, loops=True)), ('directed4', directed, dict(n=4, loops=True)), ('directed5', directed, dict(n=5, loops=False))]
    U.append(('refused', refused, {}))
    U.append(('points222', pointsets, dict(dims=(2, 2, 2), i=0, k=1)))
    U.append(('points322', pointsets, dict(dims=(3, 2, 2), i=0, k=1)))
    U += [('points332-%d' % i, pointsets, dict(dims=(3, 3, 2), i=i, k=8)) for i in range(8)]
    return U
