"""C11 biconnected components."""
from mc.core import lib
from mc.gen import digraphs, usource, sources, variants, build, kind, path, cycle, wheel
from mc.oracle import blocks

RULE = ('labelled graphs <=6 vertices, classes of 7 vertices in all affine labellings, classes of 8, structured families; blocks by the '
        'connected-in-G-minus-x closure; all digraphs <=3 vertices for rejection')


def verify(ctx, n, E, var, want, iso):
    bc = lib('biconnectivity')
    G = build(n, E, var)
    vk = kind(var[0])
    ctx.case(G)
    num = {vk(i): i for i in range(n)}
    got, giso = set(), []
    cnt = 0
    for C in bc.BiconnectedComponents(G):
        cnt += 1
        es = set()
        for v in C:
            for w in C[v]:
                ctx.check(w in C and v in C[w], 'component', C, 'is not symmetric')
                a, b = num[v], num[w]
                es.add((min(a, b), max(a, b)))
        if es:
            ctx.check({x for e in es for x in e} == {num[v] for v in C}, 'component', C, 'holds a vertex without edges')
            got.add(frozenset(es))
        else:
            ctx.check(len(C) == 1, 'component without edges', C)
            giso += [num[v] for v in C]
    ctx.t += 2
    ctx.equal(got, want, 'blocks')
    ctx.equal(sorted(giso), iso, 'isolated vertices')
    ctx.equal(cnt, len(want) + len(iso), 'number of components')
    ctx.equal(bool(bc.is_biconnected(G)), len(want) + len(iso) <= 1, 'is_biconnected')
    ctx.outcome(len(want), len(iso))


def graphs(ctx, spec, full=False):
    for n, E in usource(spec):
        want, iso = blocks(n, E)
        for var in variants(n, full):
            if n > 16 and var[0] == 'mix':
                continue
            verify(ctx, n, E, var, want, iso)


def directed(ctx, n):
    bc = lib('biconnectivity')
    for G in digraphs(n):
        if all(v not in G[v] and all(v in G[w] for w in G[v]) for v in G):
            continue
        ctx.case(G)
        ctx.raises(ValueError, bc.BiconnectedComponents, G)
        ctx.t += 1
        ctx.check(not bc.is_biconnected(G), 'directed graph called biconnected')


def deep(ctx, n):
    e = lambda a, b: (min(a, b), max(a, b))
    for var in variants(n, False):
        E = path(n)
        verify(ctx, n, E, var, {frozenset([e(a, b)]) for a, b in E}, [])
        E = cycle(n)
        verify(ctx, n, E, var, {frozenset(e(a, b) for a, b in E)}, [])
        E = wheel(n)
        verify(ctx, n, E, var, {frozenset(e(a, b) for a, b in E)}, [])
        # chain of triangles
        m = n // 2
        E = [x for i in range(m - 1) for x in ((2 * i, 2 * i + 1), (2 * i, 2 * i + 2), (2 * i + 1, 2 * i + 2))]
        verify(ctx, 2 * m - 1, E, var, {frozenset(E[3 * i:3 * i + 3]) for i in range(m - 1)}, [])
        # one edge in the middle of isolated vertices
        verify(ctx, n, [(n // 2, n // 2 + 1)], var, {frozenset([(n // 2, n // 2 + 1)])},
               [i for i in range(n) if i not in (n // 2, n // 2 + 1)])


def units(tier):
    q = tier == 'quick'
    U = [(s, graphs, dict(spec=s, full=s == 'lab<=5')) for s in sources(q)]
    U += [('dir%d' % n, directed, dict(n=n)) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    U.append(('deep', deep, dict(n=2400)))
    return U
