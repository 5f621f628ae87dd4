"""C15 general matching."""
from mc.core import lib
from mc.gen import usource, sources, variants, build, kind, path, cycle, families, data, affine, relabel
from mc.oracle import max_matching

RULE = ('labelled graphs <=5 vertices and classes of 6 and 7 with every starting matching; labelled graphs of 6, affine labellings of 7, classes of 8, '
        'subcubic graphs of 9/10, structured families, odd cycles up to 13 with a stem, side paths and a chord from every such starting matching, and up to 101 with stems up to 90; size against subset DP')


def matchings(edges):
    """All matchings as lists of edges."""
    def rec(i, used, cur):
        if i == len(edges):
            yield list(cur)
            return
        yield from rec(i + 1, used, cur)
        u, v = edges[i]
        if u not in used and v not in used:
            cur.append(edges[i])
            yield from rec(i + 1, used | {u, v}, cur)
            cur.pop()
    yield from rec(0, frozenset(), [])


def valid(ctx, G, M, what):
    for v in M:
        w = M[v]
        if not (v in G and w in G[v] and w in M and M[w] == v):
            ctx.check(False, what, M, 'is not a matching')
    return len(M) // 2


def verify(ctx, G, best, init=None):
    cm = lib('cardinality_matching')
    ctx.t += 2
    before = None if init is None else dict(init)
    M = cm.matching(G) if init is None else cm.matching(G, init)
    ctx.equal(valid(ctx, G, M, 'result'), best, 'size of the matching', M)
    H = cm.greedy_matching(G) if init is None else cm.greedy_matching(G, init)
    valid(ctx, G, H, 'greedy result')
    if init is not None:
        ctx.equal(init, before, 'starting matching after the calls')
        ctx.check(all(v in H and H[v] == init[v] for v in init), 'greedy matching', H, 'does not extend', init)
        ctx.check(all(v in M for v in init), 'a vertex matched at the start became unmatched', M)
    ctx.outcome(best, len(H) // 2)


def graphs(ctx, spec, full=False, init=False):
    for n, E in usource(spec):
        best = max_matching(n, E)
        for var in variants(n, full):
            if n > 16 and var[0] == 'mix':
                continue
            G = build(n, E, var)
            ctx.case(G)
            verify(ctx, G, best)
            if init:
                vk = kind(var[0])
                for m in matchings(E):
                    I = {}
                    for u, v in m:
                        I[vk(u)] = vk(v)
                        I[vk(v)] = vk(u)
                    ctx.case(G, I)
                    verify(ctx, G, best, I)


def bad_starts(E):
    """Maximal matchings picked greedily along strided edge orders, with every other edge dropped or not."""
    m = len(E)
    out = set()
    for a in (1, 2, 3, 5, 7):
        for b in (0, m // 2):
            for keep in (1, 2):
                used, M = set(), []
                for i in range(m):
                    u, v = E[(i * a + b) % m]
                    if u not in used and v not in used:
                        used |= {u, v}
                        M.append((u, v))
                out.add(tuple(M[::keep]))
    return sorted(out)


def named(ctx, name, stride, i, k):
    for j, (n, E) in enumerate(data(name)):
        if j % k != i:
            continue
        best = max_matching(n, E)
        for p in affine(n)[::stride]:
            G = build(n, relabel(E, p), ('int', False, 'list'))
            ctx.case(G)
            verify(ctx, G, best)
            for m in bad_starts(relabel(E, p)) if E else []:
                I = {}
                for u, v in m:
                    I[u], I[v] = v, u
                ctx.case(G, I)
                verify(ctx, G, best, I)


def fams(ctx, i, k):
    for j, (name, n, E) in enumerate(families(True)):
        if j % k != i or not E:
            continue
        best = max_matching(n, E)
        for var in variants(n, False):
            vk = kind(var[0])
            G = build(n, E, var)
            for m in bad_starts(E):
                I = {}
                for u, v in m:
                    I[vk(u)] = vk(v)
                    I[vk(v)] = vk(u)
                ctx.case(G, I)
                verify(ctx, G, best, I)


def long_(ctx, n):
    cm = lib('cardinality_matching')
    # path / cycle with the starting matching shifted by one, chains of triangles and pentagons joined by edges
    for L in (3, 5, 7):
        for gap in (1, 2):
            E, v, prev = [], 0, None
            cyc = 0
            while v + L + gap < n:
                c = list(range(v, v + L))
                E += [(c[i], c[(i + 1) % L]) for i in range(L)]
                if prev is not None:
                    E.append((prev, c[0]))
                v += L
                for g in range(gap):
                    E.append((c[L // 2] if g == 0 else v - 1, v))
                    v += 1
                prev = v - 1
                cyc += 1
            best = max_matching(v, E)
            for var in variants(v, False):
                G = build(v, E, var)
                ctx.case('chain of %d-cycles' % L, gap, n, var)
                verify(ctx, G, best)
                vk = kind(var[0])
                for m in bad_starts(E):
                    I = {}
                    for u, w in m:
                        I[vk(u)] = vk(w)
                        I[vk(w)] = vk(u)
                    ctx.case('chain of %d-cycles' % L, gap, n, var, I)
                    verify(ctx, G, best, I)
    for m in (n, n + 1):
        for E in (path(m), cycle(m)):
            for off in (1, 2):
                G = build(m, E, ('int', False, 'list'))
                I = {}
                for i in range(off, m - 1, 2):
                    I[i], I[i + 1] = i + 1, i
                ctx.case('shifted', m, off)
                verify(ctx, G, m // 2, I)


def flowers(ctx, L, i, k, two):
    """Odd cycles hanging by an alternating stem from a free vertex, with alternating side paths to other free
    vertices and possibly a chord; started from the matching that has to be augmented through the cycle."""
    count = 0
    petals = [[(p, t)] for p in range(L) for t in range(4)]
    if two:
        petals += [[(p, s), (r, t)] for p in range(L) for r in range(p, L) for s in range(3) for t in range(3)]
    for stem in range(3):
        for chord in [None] + [(a, b) for a in range(L) for b in range(a + 2, L) if (a, b) != (0, L - 1)]:
            for P in petals:
                if chord and len(P) > 1:
                    continue
                count += 1
                if count % k != i:
                    continue
                E = [(a, (a + 1) % L) for a in range(L)]
                M = [(a, a + 1) for a in range(1, L, 2)]
                n = L
                if chord:
                    E.append(chord)
                last = 0
                for _ in range(stem):
                    E += [(last, n), (n, n + 1)]
                    M.append((last, n))
                    last = n + 1
                    n += 2
                for pos, t in P:
                    last = pos
                    for _ in range(t):
                        E += [(last, n), (n, n + 1)]
                        M.append((n, n + 1))
                        last = n + 1
                        n += 2
                    E.append((last, n))
                    n += 1
                best = max_matching(n, E)
                for q in (list(range(n)), list(range(n - 1, -1, -1)), [v * 7 % 31 for v in range(n)]):
                    G = {q[v]: [] for v in sorted(range(n), key=lambda v: q[v])}
                    for a, b in E:
                        G[q[a]].append(q[b])
                        G[q[b]].append(q[a])
                    I = {}
                    for a, b in M:
                        I[q[a]], I[q[b]] = q[b], q[a]
                    ctx.case(G, I)
                    verify(ctx, G, best, I)


def lollipops(ctx, stem, L):
    """A long odd cycle at the end of a long alternating stem, started from the matching that leaves the far end of the stem
    free, with a free or an alternating tail at every place of the cycle; all vertices can be matched exactly when there is
    one tail."""
    base = stem
    c = [base] + list(range(stem + 1, stem + L))
    E0 = [(i, i + 1) for i in range(stem)] + [(c[i - 1], c[i]) for i in range(L)]
    M0 = [(i, i + 1) for i in range(1, stem, 2)] + [(c[i], c[i + 1]) for i in range(1, L, 2)]
    for tails in [[]] + [[(p, t)] for p in range(1, L, 1 if L < 30 else 3) for t in (0, 3)] + [[(p, 0), (L - p - 1, 2)] for p in range(1, L // 2, 4)]:
        n, E, M = stem + L, list(E0), list(M0)
        for p, t in tails:
            last = c[p]
            for _ in range(t):
                E += [(last, n), (n, n + 1)]
                M.append((n, n + 1))
                last = n + 1
                n += 2
            E.append((last, n))
            n += 1
        for q in (list(range(n)), list(range(n - 1, -1, -1)), [v * 97 % 499 for v in range(n)]):
            G = {q[v]: [] for v in sorted(range(n), key=lambda v: q[v])}
            for a, b in E:
                G[q[a]].append(q[b])
                G[q[b]].append(q[a])
            I = {}
            for a, b in M:
                I[q[a]], I[q[b]] = q[b], q[a]
            ctx.case('lollipop', stem, L, tails, q[0], q[1])
            verify(ctx, G, max_matching(n, E) if len(tails) == 2 else n // 2, I)


def units(tier):
    q = tier == 'quick'
    U = [('lab<=4', graphs, dict(spec='lab<=4', full=True, init=True))]
    U += [('lab5-%d' % i, graphs, dict(spec='lab5:%d:4' % i, full=False, init=True)) for i in range(4)]
    U += [('cls6-%d' % i, graphs, dict(spec='aff6:%d:4' % i, init=True)) for i in range(4)]
    U += [('cls7-%d' % i, graphs, dict(spec='cls7:%d:8' % i, init=True)) for i in range(8)]
    U += [('lab6-%d' % i, graphs, dict(spec='lab6:%d:8' % i)) for i in range(8)]
    U += [('aff7-%d' % i, graphs, dict(spec='aff7:%d:8' % i)) for i in range(8)]
    U += [('cls8-%d' % i, graphs, dict(spec='cls8:%d:8' % i)) for i in range(8)]
    U += [('sub9-%d' % i, named, dict(name='subcubic9', stride=7 if q else 1, i=i, k=8)) for i in range(8)]
    if not q:
        U += [('sub10-%d' % i, named, dict(name='subcubic10', stride=9, i=i, k=16)) for i in range(16)]
        U += [('aff8-%d' % i, graphs, dict(spec='aff8:%d:32' % i)) for i in range(32)]
    for L in (3, 5, 7, 9, 11, 13):
        k = 1 if L < 9 else 4
        U += [('flower%d-%d' % (L, i), flowers, dict(L=L, i=i, k=k, two=L < 9 or not q)) for i in range(k)]
    U += [('lollipop%d-%d' % (s, L), lollipops, dict(stem=s, L=L)) for s in (0, 2, 10, 40, 90) for L in (5, 17, 35, 61, 101)]
    U += [('fams-%d' % i, fams, dict(i=i, k=4)) for i in range(4)]
    U.append(('fam', graphs, dict(spec='fambig', full=True)))
    U += [('long%d' % n, long_, dict(n=n)) for n in (15, 16, 17, 30, 61, 200)]
    return U
