"""C13 bipartiteness."""
from mc.core import lib
from mc.gen import usource, sources, variants, build, kind, labelled, contain, adj, path, cycle, subsets
from mc.oracle import is_bipartite, blocks

RULE = ('labelled graphs <=6 vertices (with every set of self-loops up to 4), classes of 7 and 8 vertices, families; colourings checked directly, '
        'odd core against brute-force blocks; up to 120 cycles in a chain')


def verify(ctx, n, E, var, loops=(), want=None, bl=None):
    bp = lib('bipartite')
    G = build(n, E, var)
    vk = kind(var[0])
    for v in loops:
        G[vk(v)] = type(G[vk(v)])(list(G[vk(v)]) + [vk(v)]) if not isinstance(G[vk(v)], dict) else {**G[vk(v)], vk(v): None}
    ctx.case(G)
    if want is None:
        want = not loops and is_bipartite(n, E)
    ctx.t += 1
    ctx.equal(bool(bp.is_bipartite(G)), want, 'is_bipartite')
    ctx.outcome(want, n)
    if not want:
        ctx.raises(bp.NonBipartite, bp.two_color, G)
        ctx.raises(bp.NonBipartite, lambda: list(bp.bipartition(G)))
        ctx.raises(bp.NonBipartite, lambda: dict(bp.bipartite_orientation(G)))
    else:
        col = bp.two_color(G)
        ctx.equal(set(col), set(G), 'coloured vertices')
        ctx.check(all(c in (True, False) for c in col.values()), 'colours', col)
        ctx.check(all(col[v] != col[w] for v in G for w in G[v]), 'colouring is not proper', col)
        side = list(bp.bipartition(G))
        S = set(side)
        ctx.check(len(S) == len(side) and S <= set(G), 'side', side)
        ctx.check(all((v in S) != (w in S) for v in G for w in G[v]), 'an edge inside a side', side)
        for typ in (set, list, tuple):
            D = bp.bipartite_orientation(G, typ) if typ is not set else bp.bipartite_orientation(G)
            ctx.t += 1
            ctx.check(set(D) == S, 'vertices of the orientation', D, 'side', side)
            ctx.check(all(type(D[v]) is typ for v in D), 'adjacency type of', D)
            out = [(v, w) for v in D for w in D[v]]
            ctx.check(len(set(out)) == len(out) and len(out) == len(E), 'directed edges', out)
            tails, heads = {v for v, w in out}, {w for v, w in out}
            ctx.check(not tails & heads and all(w in G[v] for v, w in out), 'orientation', D)
        ctx.t += 3
    if not loops:
        core = bp.odd_core(G)
        ctx.t += 1
        ce, cv = set(), set()
        for b in (bl if bl is not None else blocks(n, E)[0]):
            vs = sorted({x for e in b for x in e})
            ix = {x: i for i, x in enumerate(vs)}
            if not is_bipartite(len(vs), [(ix[a], ix[c]) for a, c in b]):
                cv |= set(vs)
                ce |= {(vk(a), vk(c)) for a, c in b} | {(vk(c), vk(a)) for a, c in b}
        ctx.equal(set(core), {vk(x) for x in cv}, 'odd core vertices')
        ctx.equal({(v, w) for v in core for w in core[v]}, ce, 'odd core edges')


def graphs(ctx, spec, full=False):
    for n, E in usource(spec):
        want, bl = is_bipartite(n, E), blocks(n, E)[0]
        for var in variants(n, full):
            if n > 16 and var[0] == 'mix':
                continue
            verify(ctx, n, E, var, (), want, bl)


def looped(ctx, n):
    for E in labelled(n):
        for L in subsets(range(n)):
            if L:
                for var in variants(n, n < 4):
                    verify(ctx, n, E, var, L)


def deep(ctx, n):
    for var in variants(n, False):
        for m in (n, n + 1):
            verify(ctx, m, path(m), var, (), True, {frozenset([e]) for e in path(m)})
            b = frozenset((min(e), max(e)) for e in cycle(m))
            verify(ctx, m, cycle(m), var, (), m % 2 == 0, {b})


def chained(ctx, L, count):
    """Many cycles of the given lengths in turn, sharing a vertex with the next one, joined to it by an edge, or apart."""
    for how in ('vertex', 'edge', 'apart'):
        E, B, v, last = [], [], 0, None
        for j in range(count):
            c = list(range(v, v + L[j % len(L)]))
            v = c[-1] + 1
            if last is not None and how == 'vertex':
                v = c[-1]
                c = [last] + c[:-1]
            b = frozenset((min(c[i - 1], c[i]), max(c[i - 1], c[i])) for i in range(len(c)))
            if last is not None and how == 'edge':
                E.append((last, c[0]))
                B.append(frozenset([(last, c[0])]))
            E += sorted(b)
            B.append(b)
            last = c[len(c) // 2]
        for var in variants(v, False):
            verify(ctx, v, E, var, (), all(x % 2 == 0 for x in L[:count]), B)


def units(tier):
    q = tier == 'quick'
    U = [(s, graphs, dict(spec=s, full=s == 'lab<=5')) for s in sources(q)]
    U += [('loops%d' % n, looped, dict(n=n)) for n in (1, 2, 3, 4)]
    for L in ((3,), (5,), (3, 4), (4, 3, 6), (4,), (4, 4, 4, 4, 7)):
        for count in (5, 17, 40, 120):
            U.append(('chained%s-%d' % (L, count), chained, dict(L=L, count=count)))
    U.append(('deep', deep, dict(n=2000)))
    return U
