"""C27 Hamiltonian cycles of low-degree graphs."""
from mc.core import lib
from mc.gen import usource, data, affine, relabel, kind, build, contain, adj, families, circulant, shard
from mc.oracle import hamiltonian_cycles, nbrs

RULE = ('every labelled graph of maximum degree 3 on <=6 vertices, classes on 7-8 and subcubic classes on 9-10, cubic graphs up to 12 vertices, under affine '
        'relabellings and vertex types; complete list of cycles by backtracking; structured graphs up to 80 vertices, number of cycles by a sweep over the edges')


def subcubic(n, E):
    d = [0] * n
    for u, v in E:
        d[u] += 1
        d[v] += 1
    return not d or max(d) <= 3


def verify(ctx, n, E, want, vk='int', rev=False, cont='list'):
    name = kind(vk)
    G = contain(adj(n, E, name, rev=rev), cont)
    before = {v: list(G[v]) for v in G}
    ctx.case(n, E, vk)
    num = {name(i): i for i in range(n)}
    got = []
    for C in lib('cubic_ham').hamiltonian_cycles(G):
        ctx.t += 1
        ctx.equal(set(C), set(G), 'vertices of cycle')
        es = set()
        for v in C:
            if len(C[v]) != 2 or len(set(C[v])) != 2:
                ctx.check(False, 'degree of', v, 'in', C)
            for w in C[v]:
                ctx.check(v in C[w], 'edge', v, w, 'listed only once in', C)
                es.add((min(num[v], num[w]), max(num[v], num[w])))
        got.append(frozenset(es))
        ctx.check(len(got) <= len(want) or len(set(got)) == len(got), 'cycle', sorted(es), 'generated twice')
    ctx.equal(len(got), len(set(got)), 'number of distinct cycles')
    if set(got) != want:
        ctx.check(False, 'missing', [sorted(c) for c in want - set(got)][:3], 'wrong', [sorted(c) for c in set(got) - want][:3])
    ctx.equal({v: list(G[v]) for v in G}, before, 'input graph after the call')
    ctx.outcome(len(want))


def graphs(ctx, spec, full):
    for n, E in usource(spec):
        if not n or not subcubic(n, E):
            continue
        want = hamiltonian_cycles(n, E)
        verify(ctx, n, E, want)
        if full:
            verify(ctx, n, E, want, 'U', True, 'set')
            verify(ctx, n, E, want, 'mix', False, 'dict')


def table(ctx, name, i, k, step, vks):
    for n, E in shard(data(name), i, k):
        for p in affine(n)[::step]:
            F = relabel(E, p)
            want = hamiltonian_cycles(n, F)
            for vk in vks:
                verify(ctx, n, F, want, vk, vk == 'U', 'set' if vk == 'U' else 'list')


def prism(n, twist=False):
    E = []
    for i in range(n):
        j = (i + 1) % n
        if twist and i == n - 1:
            E += [(i, n), (2 * n - 1, 0)]
        else:
            E += [(i, j), (n + i, n + j)]
        E.append((i, n + i))
    return 2 * n, E


def gp(n, k):
    return 2 * n, [(i, (i + 1) % n) for i in range(n)] + [(i, n + i) for i in range(n)] + \
        sorted({tuple(sorted((n + i, n + (i + k) % n))) for i in range(n)})


def expand(n, E, v):
    """Replace the degree-3 vertex v by a triangle."""
    nb = [b if a == v else a for a, b in E if v in (a, b)]
    F = [e for e in E if v not in e]
    return n + 2, F + [(nb[0], v), (nb[1], n), (nb[2], n + 1), (v, n), (n, n + 1), (n + 1, v)]


def structured(ctx, big):
    G = [('prism%d' % n, prism(n)) for n in range(3, 9)] + [('mobius%d' % n, prism(n, True)) for n in range(3, 9)]
    G += [('gp%d,%d' % (n, k), gp(n, k)) for n in range(3, 9) for k in range(1, (n + 1) // 2)]
    G += [('cycle%d' % n, (n, circulant(n, (1,)))) for n in (3, 4, 5, 6, 13)]
    base = [('K4', (4, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)])), ('K33', (6, [(i, 3 + j) for i in range(3) for j in range(3)])),
            ('petersen', gp(5, 2)), ('cube', prism(4))]
    for name, (n, E) in base:
        a = (n, E)
        for r in range(3):
            a = expand(a[0], a[1], r)
            G.append((name + '+tri%d' % r, a))
    if big:
        G += [('prism%d' % n, prism(n)) for n in (9, 10)] + [('gp%d,%d' % (n, k), gp(n, k)) for n in (9, 10) for k in range(1, (n + 1) // 2)]
    for name, (n, E) in G:
        E = [(min(e), max(e)) for e in E]
        ctx.cur = (name,)
        want = hamiltonian_cycles(n, E)
        for vk in ('int', 'U'):
            verify(ctx, n, E, want, vk)


def count(n, E):
    """Number of Hamiltonian cycles, by a sweep over the edges that remembers how the paths built so far pair up their ends."""
    E = sorted(tuple(sorted(e)) for e in E)
    last = {}
    for j, e in enumerate(E):
        for v in e:
            last[v] = j
    level, total = {(): 1}, 0
    for j, (a, b) in enumerate(E):
        nxt = {}
        for st, k in level.items():
            m = dict(st)        # vertices met so far and not finished: other end of their path, themselves if untouched, None if inner
            m.setdefault(a, a)
            m.setdefault(b, b)
            out = [m]
            if m[a] is not None and m[b] is not None:
                if m[a] == b:
                    if all(m[v] is None for v in m if v not in (a, b)) and len(last) == n and all(v in m or last[v] < j for v in range(n)):
                        total += k
                else:
                    t = dict(m)
                    x, y = m[a], m[b]
                    if a != x:
                        t[a] = None
                    if b != y:
                        t[b] = None
                    t[x], t[y] = y, x
                    out.append(t)
            for t in out:
                t = dict(t)
                ok = True
                for v in (a, b):
                    if last[v] == j:
                        ok = ok and t.pop(v) is None
                if ok:
                    s = tuple(sorted(t.items()))
                    nxt[s] = nxt.get(s, 0) + k
        level = nxt
    return total


def many(ctx, names):
    """Larger graphs: every cycle is checked, they are distinct and their number is right."""
    ch = lib('cubic_ham')
    for name, (n, E) in names:
        E = sorted({(min(e), max(e)) for e in E})
        want = count(n, E)
        for vk in ('int', 'U', 'str'):
            nm = kind(vk)
            G = contain(adj(n, E, nm), 'set' if vk == 'U' else 'list')
            num = {nm(i): i for i in range(n)}
            ctx.case(name, vk)
            got = set()
            k = 0
            for C in ch.hamiltonian_cycles(G):
                ctx.t += 1
                k += 1
                if k > want:
                    break
                A = {num[v]: [num[w] for w in C[v]] for v in C}
                ok = len(A) == n and all(len(set(A[v])) == 2 for v in A)
                if ok:
                    walk, prev, cur = [0], 0, A[0][0]
                    while cur != 0 and len(walk) <= n:
                        walk.append(cur)
                        prev, cur = cur, next((w for w in A[cur] if w != prev), 0)
                    es = {tuple(sorted(e)) for e in zip(walk, walk[1:] + walk[:1])}
                    ok = len(walk) == len(es) == n and es <= set(E)
                if not ok:
                    ctx.check(False, 'not a Hamiltonian cycle:', A)
                got.add(frozenset(es))
            ctx.equal(k, want, 'number of cycles generated')
            ctx.equal(len(got), want, 'number of distinct cycles')
            ctx.outcome(want)


def lcf(L, k):
    n = len(L) * k
    return n, [(i, (i + 1) % n) for i in range(n)] + [(i, (i + L[i % len(L)]) % n) for i in range(n)]


def larger():
    G = [('prism%d' % n, prism(n)) for n in (10, 13, 14, 16, 19, 20)] + [('mobius%d' % n, prism(n, True)) for n in (10, 13, 15, 18)]
    G += [('gp%d,%d' % (n, k), gp(n, k)) for n, k in ((11, 2), (12, 2), (13, 2), (14, 2), (15, 2), (16, 2), (17, 2), (11, 3), (13, 3), (14, 3))]
    G += [('mcgee', lcf([12, 7, -7], 8)), ('pappus', lcf([5, 7, -7, 7, -7, -5], 3)), ('desargues', lcf([5, -5, 9, -9], 5)), ('nauru', lcf([5, -9, 7, -7, 9, -5], 4)),
          ('dodecahedron', lcf([10, 7, 4, -4, -7, 10, -4, 7, -7, 4], 2)), ('flower', flower(5)), ('flower7', flower(7))]
    for n, E in ((4, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]), prism(3), prism(5)):
        a = (n, E)
        for r in range(12):
            a = expand(a[0], a[1], r % 5)
        G.append(('expanded%d' % n, a))
    for n in (21, 40, 80):
        G.append(('cycle%d' % n, (n, circulant(n, (1,)))))
        G.append(('theta%d' % n, (n, circulant(n, (1,)) + [(0, n // 2)])))
        G.append(('chorded%d' % n, (n, circulant(n, (1,)) + [(3 * i, 3 * i + 2) for i in range(n // 3)])))
        G.append(('barbell%d' % n, (n, [(i, i + 1) for i in range(n - 1)] + [(0, n // 2 - 1), (n // 2, n - 1)])))
    return G


def flower(n):
    """Flower snark J_n, without Hamiltonian cycle for n = 5."""
    E = []
    for i in range(n):
        a, b, c, d = 4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3
        j = 4 * ((i + 1) % n)
        E += [(a, b), (a, c), (a, d), (b, j + 1)]
        E += [(c, j + 2), (d, j + 3)] if i < n - 1 else [(c, j + 3), (d, j + 2)]
    return 4 * n, E


def large(ctx, i, k):
    many(ctx, shard(larger(), i, k))


def agree(ctx):
    """The sweep agrees with backtracking on small graphs (a check of the reference)."""
    for name in ('cubic8', 'cubic10', 'subcubic9'):
        for n, E in list(data(name))[:60]:
            ctx.case(n, E)
            ctx.equal(count(n, E), len(hamiltonian_cycles(n, E)), 'harness: number of cycles')


def refused(ctx):
    ch = lib('cubic_ham')
    for spec in ('lab<=5', 'cls6', 'cls7'):
        for n, E in usource(spec):
            if n and not subcubic(n, E):
                ctx.case(n, E)
                ctx.raises(ValueError, lambda: list(ch.hamiltonian_cycles(contain(adj(n, E), 'list'))))


def units(tier):
    q = tier == 'quick'
    U = [('lab5', graphs, dict(spec='lab<=5', full=True))]
    for i in range(8):
        U.append(('lab6-%d' % i, graphs, dict(spec='lab6:%d:8' % i, full=True)))
        U.append(('aff7-%d' % i, graphs, dict(spec='aff7:%d:8' % i, full=i % 2 == 0)))
        U.append(('aff8-%d' % i, graphs, dict(spec='aff8:%d:8' % i, full=False)))
        U.append(('sub9-%d' % i, table, dict(name='subcubic9', i=i, k=8, step=7 if q else 1, vks=['int', 'U'])))
        U.append(('sub10-%d' % i, table, dict(name='subcubic10', i=i, k=8, step=13 if q else 2, vks=['int'])))
    for c in (4, 6, 8, 10):
        U.append(('cubic%d' % c, table, dict(name='cubic%d' % c, i=0, k=1, step=1, vks=['int', 'U'])))
    for i in range(8):
        U.append(('cubic12-%d' % i, table, dict(name='cubic12', i=i, k=8, step=11 if q else 1, vks=['int'])))
    U.append(('structured', structured, dict(big=not q)))
    U += [('large-%d' % i, large, dict(i=i, k=8)) for i in range(8)]
    U.append(('agree', agree, {}))
    U.append(('refused', refused, {}))
    return U
