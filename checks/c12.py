"""C12 st-orientation."""
from mc.core import lib
from mc.gen import asymmetric, contain, usource, sources, variants, build, path, cycle, wheel
from mc.oracle import blocks

RULE = ('labelled graphs <=6 vertices, classes of 7 vertices in all affine labellings, classes of 8, structured families; every orientation is '
        'checked for direction, acyclicity, single source and sink; every non-biconnected graph must be refused, and so must every digraph on '
        'up to 4 vertices with an edge that has no reverse')


def verify(ctx, G, bi):
    bc = lib('biconnectivity')
    ctx.case(G)
    if not bi:
        ctx.raises(bc.NotBiconnected, bc.st_orientation, G)
        return
    D = bc.st_orientation(G)
    ctx.t += 1
    ctx.equal(set(D), set(G), 'vertices of the orientation')
    indeg = {v: 0 for v in G}
    for v in D:
        for w in D[v]:
            ctx.check(w in G[v], 'directed edge', (v, w), 'is not an edge of the graph')
            ctx.check(v not in D[w], 'edge', (v, w), 'directed both ways')
            indeg[w] += 1
    ctx.equal(sum(len(D[v]) for v in D) * 2, sum(len(G[v]) for v in G), 'twice the number of directed edges')
    src = [v for v in G if not indeg[v]]
    snk = [v for v in G if not len(D[v])]
    ctx.check(len(src) == 1 and len(snk) == 1, 'sources', src, 'sinks', snk)
    ctx.check(snk[0] in G[src[0]], 'source', src, 'and sink', snk, 'are not adjacent')
    todo, cnt = list(src), 0
    left = dict(indeg)
    while todo:
        v = todo.pop()
        cnt += 1
        for w in D[v]:
            left[w] -= 1
            if not left[w]:
                todo.append(w)
    ctx.equal(cnt, len(G), 'vertices that can be ordered (acyclicity)')
    ctx.outcome('oriented', len(G))


def graphs(ctx, spec, full=False):
    for n, E in usource(spec):
        if not E:
            if n > 1:
                verify(ctx, build(n, E, ('int', False, 'list')), False)
            continue
        want, iso = blocks(n, E)
        for var in variants(n, full):
            if n > 16 and var[0] == 'mix':
                continue
            verify(ctx, build(n, E, var), len(want) + len(iso) == 1)


def deep(ctx, n):
    for var in variants(n, False):
        verify(ctx, build(n, cycle(n), var), True)
        verify(ctx, build(n, wheel(n), var), True)
        verify(ctx, build(n, path(n), var), False)
        verify(ctx, build(n + 1, cycle(n), var), False)
        verify(ctx, build(n, cycle(n) + [(0, n // 2), (n // 3, n - 2)], var), True)
        # ladder
        m = n // 2
        E = [(i, i + 1) for i in range(m - 1)] + [(m + i, m + i + 1) for i in range(m - 1)] + [(i, m + i) for i in range(m)]
        verify(ctx, build(2 * m, E, var), True)


def directed(ctx):
    bc = lib('biconnectivity')
    for n, loops in ((1, True), (2, True), (3, True), (4, False)):
        for G in asymmetric(n, loops):
            ctx.case('directed', G)
            for c in ('list', 'set', 'dict'):
                ctx.raises((ValueError, bc.NotBiconnected), bc.st_orientation, contain(G, c))
            ctx.outcome('refused', n)


def units(tier):
    q = tier == 'quick'
    U = [(s, graphs, dict(spec=s, full=s == 'lab<=5')) for s in sources(q)]
    U.append(('directed', directed, {}))
    U.append(('deep', deep, dict(n=2400)))
    return U
