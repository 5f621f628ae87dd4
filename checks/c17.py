"""C17 degeneracy, cores, triangles."""
from itertools import combinations
from mc.core import lib
from mc.gen import usource, sources, variants, build, kind, digraphs, path, cycle, star, complete, wheel
from mc.oracle import degeneracy, core, nbrs

RULE = ('labelled graphs <=6 vertices, affine labellings of 7, classes of 8, families; degeneracy by minimum-degree peeling and by definition over all '
        'vertex subsets (n<=6), cores by peeling for every k, triangles by brute force; rows of complete graphs with up to 40 vertices each')


def by_definition(n, E):
    A = nbrs(n, E)
    m = [sum(1 << w for w in a) for a in A]
    best = 0
    for S in range(1, 1 << n):
        d = min(bin(m[v] & S).count('1') for v in range(n) if S >> v & 1)
        best = max(best, d)
    return best


def verify(ctx, n, E, var, deg, cores, tri):
    gd = lib('graphdegeneracy')
    G = build(n, E, var)
    vk = kind(var[0])
    ctx.case(G)
    seq = list(gd.degeneracySequence(G))
    ctx.t += 3
    order = [v for v, d in seq]
    ctx.check(len(order) == n and set(order) == set(G), 'degeneracy sequence', seq, 'does not list the vertices')
    seen = set()
    for v, d in seq:
        seen.add(v)
        ctx.equal(d, len([w for w in G[v] if w not in seen]), 'later neighbours of', v, 'in', order)
    if n:
        ctx.equal(gd.degeneracy(G), deg, 'degeneracy')
        ctx.equal(max(d for v, d in seq), deg, 'largest number of later neighbours')
    D = gd.degeneracyOrientation(G)
    ctx.equal(set(D), set(G), 'oriented vertices')
    out = {(v, w) for v in D for w in D[v]}
    ctx.equal(sum(len(D[v]) for v in D), len(E), 'oriented edges')
    for u, v in E:
        ctx.check(((vk(u), vk(v)) in out) != ((vk(v), vk(u)) in out), 'edge', (u, v), 'not oriented once')
    ctx.check(all(len(D[v]) <= deg for v in D), 'out-degree of', D)
    indeg = {v: 0 for v in G}
    for v, w in out:
        indeg[w] += 1
    todo = [v for v in G if not indeg[v]]
    cnt = 0
    while todo:
        v = todo.pop()
        cnt += 1
        for w in D[v]:
            indeg[w] -= 1
            if not indeg[w]:
                todo.append(w)
    ctx.equal(cnt, n, 'acyclically ordered vertices')
    for k in cores:
        ctx.t += 1
        C = gd.core(G, k)
        ctx.equal(set(C), {vk(v) for v in cores[k]}, 'core', k)
        ctx.equal(len(C), len(cores[k]), 'size of core', k)
    ctx.equal(set(gd.core(G)), {vk(v) for v in core(n, E, deg)}, 'deepest core')
    T = [frozenset(t) for t in gd.triangles(G)]
    ctx.t += 2
    ctx.check(len(set(T)) == len(T), 'triangle listed twice', T)
    ctx.equal(set(T), {frozenset(vk(x) for x in t) for t in tri}, 'triangles')
    ctx.outcome(deg, len(T))


def graphs(ctx, spec, full=False):
    for n, E in usource(spec):
        deg = degeneracy(n, E)
        if n <= 5 and n:
            ctx.check(deg == by_definition(n, E), 'oracle disagreement')
        cores = {k: core(n, E, k) for k in range(deg + 3)}
        A = nbrs(n, E)
        tri = [t for t in combinations(range(n), 3) if t[1] in A[t[0]] and t[2] in A[t[0]] and t[2] in A[t[1]]] if n <= 40 else \
            [(u, v, w) for u in range(n) for v in A[u] if v > u for w in A[u] & A[v] if w > v]
        for var in variants(n, full):
            if n > 16 and var[0] == 'mix':
                continue
            verify(ctx, n, E, var, deg, cores, tri)


def cliques(ctx, sizes, link):
    """Complete graphs of the given sizes in a row, consecutive ones joined by link edges, in both directions and with tails."""
    for S in (sizes, sizes[::-1], sizes[::2] + sizes[1::2]):
        E, n, prev = [], 0, None
        for s in S:
            c = list(range(n, n + s))
            E += list(combinations(c, 2))
            if prev:
                E += [(prev[-1 - j % len(prev)], c[j % s]) for j in range(min(link, s, len(prev)))]
            n += s
            prev = c
        for j in range(5):
            E.append((n - 1, n))
            n += 1
        deg = degeneracy(n, E)
        A = nbrs(n, E)
        tri = [(u, v, w) for u in range(n) for v in A[u] if v > u for w in A[u] & A[v] if w > v]
        for var in variants(n, False):
            verify(ctx, n, E, var, deg, {k: core(n, E, k) for k in range(deg + 3)}, tri)


def directed(ctx, n):
    gd = lib('graphdegeneracy')
    for G in digraphs(n):
        if all(v not in G[v] and all(v in G[w] for w in G[v]) for v in G):
            continue
        ctx.case(G)
        ctx.raises(TypeError, lambda: list(gd.degeneracySequence(G)))


def units(tier):
    q = tier == 'quick'
    U = [(s, graphs, dict(spec=s, full=s == 'lab<=5')) for s in sources(q)]
    for sizes in ((3, 5, 7, 9, 11, 13), (2, 4, 8, 16, 32), (12, 10, 12, 11), (20, 6, 21), (6,) * 12, (40, 17)):
        for link in (1, 3):
            U.append(('cliques%s-%d' % (sizes, link), cliques, dict(sizes=sizes, link=link)))
    U += [('dir%d' % n, directed, dict(n=n)) for n in (1, 2, 3)]
    return U
