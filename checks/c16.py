"""C16 LexBFS and chordality."""
from itertools import combinations
from mc.core import lib
from mc.gen import usource, sources, variants, build, kind, digraphs, path, cycle, star, complete
from mc.oracle import is_chordal

RULE = ('labelled graphs <=6 vertices, affine labellings of 7, classes of 8, families; LexBFS orders checked label by label, '
        'chordality against simplicial elimination')


def check_lexbfs(ctx, G, order):
    ctx.check(len(order) == len(G) and set(order) == set(G), 'LexBFS order', order, 'is not a listing of the vertices')
    label = {v: 0 for v in G}
    left = set(G)
    for v in order:
        m = max(label[w] for w in left)
        if label[v] != m:
            ctx.check(False, 'LexBFS order', order, 'is wrong at', v)
        left.discard(v)
        N = set(G[v])
        for w in left:
            label[w] = label[w] * 2 + (w in N)


def verify(ctx, G, want):
    lb, ch = lib('lex_bfs'), lib('chordal')
    ctx.t += 2
    check_lexbfs(ctx, G, list(lb.lex_bfs(G)))
    ctx.equal(bool(ch.is_chordal(G)), want, 'is_chordal')
    ctx.outcome(want, len(G))
    if want:
        L = list(ch.perfect_elimination_ordering(G))
        ctx.t += 1
        ctx.check(len(L) == len(G) and set(L) == set(G), 'elimination order', L, 'is not a listing of the vertices')
        pos = {v: i for i, v in enumerate(L)}
        for v in L:
            later = [w for w in G[v] if pos[w] > pos[v]]
            if len(later) > 1:
                # enough: all adjacent to the first later one, by induction; checked in full when small
                if len(later) <= 12:
                    ctx.check(all(b in G[a] for a, b in combinations(later, 2)), 'later neighbours of', v, 'in', L, 'are not a clique')
                else:
                    f = min(later, key=pos.get)
                    ctx.check(all(w == f or w in G[f] for w in later), 'later neighbours of', v, 'are not a clique')
    else:
        ctx.raises(Exception, ch.perfect_elimination_ordering, G)


def graphs(ctx, spec, full=False):
    for n, E in usource(spec):
        want = is_chordal(n, E)
        for var in variants(n, full):
            if n > 16 and var[0] == 'mix':
                continue
            G = build(n, E, var)
            ctx.case(G)
            verify(ctx, G, want)


def directed(ctx, n):
    ch = lib('chordal')
    for G in digraphs(n):
        if all(v not in G[v] and all(v in G[w] for w in G[v]) for v in G):
            continue
        ctx.case(G)
        ctx.raises(ValueError, ch.is_chordal, G)


def large(ctx, n):
    for var in variants(n, False):
        for name, m, E, want in [('path', n, path(n), True), ('cycle', n, cycle(n), False), ('star', n, star(n), True),
                                 ('clique', 30, complete(30), True),
                                 ('square of path', n, [(i, j) for i in range(n) for j in (i + 1, i + 2) if j < n], True),
                                 ('cube of path', n, [(i, j) for i in range(n) for j in (i + 1, i + 2, i + 3) if j < n], True),
                                 ('square of cycle', n, sorted({(min(i, (i + d) % n), max(i, (i + d) % n)) for i in range(n) for d in (1, 2)}), False),
                                 ('fan', n, star(n) + [(i, i + 1) for i in range(1, n - 1)], True),
                                 ('path with a far square', n + 4, path(n) + [(n - 1, n), (n, n + 1), (n + 1, n + 2), (n + 2, n + 3), (n + 3, n)], False)]:
            ctx.case(name, n, var)
            verify(ctx, build(m, E, var), want)


def units(tier):
    q = tier == 'quick'
    U = [(s, graphs, dict(spec=s, full=s == 'lab<=5')) for s in sources(q)]
    U += [('dir%d' % n, directed, dict(n=n)) for n in (1, 2, 3)]
    U.append(('large', large, dict(n=150)))
    return U
