"""C30 partial cubes."""
from itertools import combinations
from mc.core import lib
from mc.gen import asymmetric, usource, sources, variants, build, kind, adj, contain, affine, relabel, classes, hypercube, grid, path, cycle, star, bintree, shard
from mc.oracle import distances, is_partial_cube, is_bipartite, components

RULE = ('labelled graphs <=6, affine labellings of the connected bipartite classes on 7-8 and of all classes on 7, all vertex types; families of larger partial cubes (up to 225 vertices, degree 70) '
        'and their one-edge and one-vertex near misses; every digraph on up to 4 vertices with an edge that has no reverse is refused; distances by breadth-first search, parallel classes by the Djokovic relation')


def verify(ctx, n, E, want, dist, var, light=False):
    pc, md = lib('partial_cube'), lib('medium')
    G = build(n, E, var)
    name = kind(var[0])
    ctx.case(n, E, var[0])
    ctx.t += 1
    got = pc.isPartialCube(G)
    if bool(got) != want:
        ctx.check(False, 'isPartialCube answers', got)
    ctx.outcome(want)
    if not want:
        if not light:
            ctx.raises(md.MediumError, pc.PartialCubeLabeling, G)
        return
    H = pc.PartialCubeLabeling(G)
    ctx.t += 2
    ctx.equal(set(H), set(G), 'labelled vertices')
    for u in range(n):
        for v in range(u):
            if bin(H[name(u)] ^ H[name(v)]).count('1') != dist[u][v]:
                ctx.check(False, 'Hamming distance of', name(u), name(v), 'in', H, 'expected', dist[u][v])
    L = pc.PartialCubeEdgeLabeling(G)
    ctx.equal({v: set(L[v]) for v in L}, {v: set(G[v]) for v in G}, 'labelled edges')
    arcs = [(u, v) for a, b in E for u, v in ((a, b), (b, a))]
    # class of an arc: which vertices are nearer to its head
    tok = {}
    cls = {}
    for u, v in arcs:
        side = tuple(dist[u][x] < dist[v][x] for x in range(n))
        t = L[name(u)][name(v)]
        ctx.equal(cls.setdefault(side, t), t, 'token of', (name(u), name(v)))
        ctx.equal(tok.setdefault(t, side), side, 'edges with token', t)


def one(ctx, n, E, vs, light=False):
    want = n > 0 and is_partial_cube(n, E)
    dist = distances(n, E) if want else None
    for var in vs:
        verify(ctx, n, E, want, dist, var, light)


def graphs(ctx, spec, full, onlybip):
    for n, E in usource(spec):
        if not n:
            continue
        if onlybip and (len(E) < n - 1 or not is_bipartite(n, E) or len(components(n, E)) != 1):
            continue
        one(ctx, n, E, variants(n, full) if full else [('int', False, 'list'), ('U', True, 'set')], True)


def product_graph(a, b):
    (n, E), (m, F) = a, b
    return n * m, [(u * m + x, v * m + x) for u, v in E for x in range(m)] + [(u * m + x, u * m + y) for x, y in F for u in range(n)]


def permutohedron(k):
    from itertools import permutations
    P = list(permutations(range(k)))
    num = {p: i for i, p in enumerate(P)}
    E = []
    for p in P:
        for i in range(k - 1):
            r = list(p)
            r[i], r[i + 1] = r[i + 1], r[i]
            if num[p] < num[tuple(r)]:
                E.append((num[p], num[tuple(r)]))
    return len(P), E


def named():
    out = [('path%d' % k, (k, path(k))) for k in (9, 12, 20, 33, 70)]
    out += [('cycle%d' % k, (k, cycle(k))) for k in (9, 10, 12, 13, 16, 20, 26)]
    out += [('star%d' % k, (k + 1, [(0, i + 1) for i in range(k)])) for k in (8, 15, 31, 33, 65, 70)]
    out += [('cube%d' % d, (1 << d, hypercube(d))) for d in (1, 2, 3, 4, 5, 6)]
    out += [('grid%dx%d' % (a, b), (a * b, grid(a, b))) for a, b in ((2, 5), (3, 3), (3, 5), (4, 6), (2, 12), (7, 7), (3, 40), (15, 15))]
    out += [('tree%d' % k, (k, bintree(k))) for k in (10, 15, 31)]
    out.append(('perm3', permutohedron(3)))
    out.append(('perm4', permutohedron(4)))
    c6, c8, p3, k2 = (6, cycle(6)), (8, cycle(8)), (3, path(3)), (2, [(0, 1)])
    out += [('c6xp3', product_graph(c6, p3)), ('c8xk2', product_graph(c8, k2)), ('c6xc6', product_graph(c6, c6)),
            ('c6xc8', product_graph(c6, c8))]
    # Desargues graph, Petersen-like and other bipartite cubic graphs
    def gp(n, k):
        return 2 * n, sorted({tuple(sorted(e)) for i in range(n) for e in ((i, (i + 1) % n), (i, n + i), (n + i, n + (i + k) % n))})
    out += [('gp%d,%d' % (n, k), gp(n, k)) for n, k in ((10, 3), (8, 3), (6, 1), (4, 1), (12, 5), (7, 2), (5, 2))]
    # hexagonal chains
    n, E = 6, cycle(6)
    for r in range(4):
        a, b = (n - 3, n - 2)
        E = E + [(b, n), (n, n + 1), (n + 1, n + 2), (n + 2, n + 3), (n + 3, a)]
        E = [(min(e), max(e)) for e in E]
        n += 4
        out.append(('hex%d' % (r + 2), (n, sorted(set(E)))))
    return out


def larger(ctx, i, k):
    for name, (n, E) in shard(named(), i, k):
        vs = [('int', False, 'list'), ('U', True, 'set')]
        one(ctx, n, E, vs)
        A = affine(n)
        for p in A[1::max(1, len(A) // 6)]:
            one(ctx, n, relabel(E, p), vs[:1])
        if n > 72:
            continue
        # near misses
        for e in E[::max(1, len(E) // 12 if n <= 36 else len(E) // 3)]:
            one(ctx, n, [x for x in E if x != e], vs[1:])
        have = set(E) | {(b, a) for a, b in E}
        non = [p for p in combinations(range(n), 2) if p not in have]
        for e in non[::max(1, len(non) // (25 if n <= 36 else 6))]:
            one(ctx, n, E + [e], vs[:1])
        for v in range(0, n, max(1, n // (10 if n <= 36 else 3))):
            m = {x: y for y, x in enumerate([x for x in range(n) if x != v])}
            one(ctx, n - 1, [(m[a], m[b]) for a, b in E if v not in (a, b)], vs[:1])
        # a pendant vertex keeps it, a subdivided edge usually does not
        one(ctx, n + 1, E + [(n // 2, n)], vs)
        e = E[len(E) // 2]
        one(ctx, n + 1, [x for x in E if x != e] + [(e[0], n), (e[1], n)], vs)


def refused(ctx):
    pc, md = lib('partial_cube'), lib('medium')
    for G in ({0: [1], 1: []}, {0: [1], 1: [0], 2: []}, {0: [0]}, {0: [1, 2], 1: [0, 2], 2: [0, 1]}, {0: [], 1: []}):
        ctx.case(G)
        ctx.raises(md.MediumError, pc.PartialCubeLabeling, G)
        ctx.raises(md.MediumError, pc.PartialCubeEdgeLabeling, G)
        ctx.equal(pc.isPartialCube(G), False, 'isPartialCube')


    ctx.case({})
    ctx.check(pc.isPartialCube({}) in (True, False), 'isPartialCube of the empty graph')


def directed(ctx, n, loops, i, k):
    pc, md = lib('partial_cube'), lib('medium')
    for G in asymmetric(n, loops, i, k):
        ctx.case('directed', G)
        ctx.raises(md.MediumError, pc.PartialCubeLabeling, G)
        ctx.raises(md.MediumError, pc.PartialCubeEdgeLabeling, G)
        ctx.equal(pc.isPartialCube(G), False, 'isPartialCube')
        ctx.outcome('directed', n)


def units(tier):
    q = tier == 'quick'
    U = [('lab5', graphs, dict(spec='lab<=5', full=True, onlybip=False))]
    for i in range(8):
        U.append(('lab6-%d' % i, graphs, dict(spec='lab6:%d:8' % i, full=False, onlybip=False)))
        U.append(('aff7-%d' % i, graphs, dict(spec='aff7:%d:8' % i, full=True, onlybip=True)))
        U.append(('aff8-%d' % i, graphs, dict(spec='aff8:%d:8' % i, full=i < 4, onlybip=True)))
        U.append(('lab7-%d' % i, graphs, dict(spec='lab7:%d:8' % i, full=False, onlybip=True))) if not q else None
    U.append(('cls7', graphs, dict(spec='cls7', full=False, onlybip=False)))
    for i in range(8):
        U.append(('cls8-%d' % i, graphs, dict(spec='cls8:%d:8' % i, full=False, onlybip=False)))
    for i in range(24):
        U.append(('named-%d' % i, larger, dict(i=i, k=24)))
    for n, loops in ((1, True), (2, True), (3, True), (4, False)):
        U.append(('directed%d' % n, directed, dict(n=n, loops=loops, i=0, k=1)))
    U.append(('refused', refused, {}))
    return U
