"""C28 Halin graphs and relatives."""
from itertools import combinations_with_replacement, combinations, product
from mc.core import lib
from mc.gen import scatter, usource, data, affine, relabel, kind, contain, adj, shard, wheel, complete
from mc.oracle import nbrs, components

RULE = ('every labelled graph <=6, affine labellings of the classes on 7 and (minimum degree 3) on 8 vertices, all Halin graphs with up to 7 leaves from plane '
        'trees, Halin graphs of trees whose root has up to 8 children drawn from small shapes, Halin graphs up to 120 vertices, all cubic graphs up to 12, dual 3-trees up to 16; classes decided by subset search (Halin, wheel), by generation (dual 3-tree) and by searching all '
        'reduction orders (D3)')


def leaf_set_ok(A, S):
    """S is the leaf set of a Halin representation of the graph with neighbour sets A."""
    n = len(A)
    S = set(S)
    if len(S) < 3 or len(S) >= n:
        return False
    for v in range(n):
        k = len(A[v] & S)
        if v in S:
            if len(A[v]) != 3 or k != 2:
                return False
        elif len(A[v]) < 3:
            return False
    # outer cycle
    v0 = min(S)
    order, prev = [v0], None
    while True:
        nx = [w for w in A[order[-1]] & S if w != prev]
        prev = order[-1]
        if nx[0] == v0 and len(order) > 2:
            break
        w = nx[0]
        if w == v0:
            w = nx[1] if len(nx) > 1 else None
        if w is None or w in order:
            break
        order.append(w)
    if len(order) != len(S):
        return False
    # tree
    T = [set(A[v]) - S if v in S else set(A[v]) for v in range(n)]
    if sum(len(t) for t in T) != 2 * (n - 1):
        return False
    E = [(u, v) for u in range(n) for v in T[u] if u < v]
    if len(components(n, E)) != 1:
        return False
    # planarity: every tree edge separates an interval of the cycle
    pos = {v: i for i, v in enumerate(order)}
    for u, v in E:
        side, todo = {u}, [u]
        while todo:
            x = todo.pop()
            for y in T[x]:
                if (x, y) != (u, v) and y not in side:
                    side.add(y)
                    todo.append(y)
        marks = [x in side for x in order]
        if sum(marks[i] != marks[i - 1] for i in range(len(marks))) != 2:
            return False
    return True


def is_halin(A):
    n = len(A)
    three = [v for v in range(n) if len(A[v]) == 3]
    if n < 4 or any(len(a) < 3 for a in A):
        return False
    k = sum(len(a) for a in A) // 2 - (n - 1)       # a tree on all vertices and a cycle through the leaves
    return 3 <= k <= len(three) and any(leaf_set_ok(A, S) for S in combinations(three, k))


def is_wheel(A):
    n = len(A)
    if n < 4:
        return False
    for h in range(n):
        if len(A[h]) == n - 1:
            rim = [A[v] - {h} for v in range(n)]
            if all(len(rim[v]) == 2 for v in range(n) if v != h):
                E = [(u, v) for u in range(n) if u != h for v in rim[u] if u < v]
                if len(components(n, E, (h,))) == 1:
                    return True
    return False


def d3(A, memo, triangles=True, paths=True):
    """Can some sequence of reductions reach K4?  A: dict vertex -> frozenset."""
    if len(A) == 4:
        return all(len(a) == 3 for a in A.values())
    if len(A) < 4 or any(len(a) < 3 for a in A.values()):
        return False        # reductions never raise a degree
    key = frozenset(A.items())
    if key in memo:
        return memo[key]
    res = False
    for B in reductions(A, triangles, paths):
        if d3(B, memo, triangles, paths):
            res = True
            break
    memo[key] = res
    return res


def reductions(A, triangles, paths):
    for v in A:
        if len(A[v]) != 3:
            continue
        for u, w in combinations(sorted(A[v]), 2):
            if len(A[u]) != 3 or len(A[w]) != 3:
                continue
            if w in A[u]:
                if not triangles or not u < v < w:
                    continue
                o = [next(iter(A[x] - {u, v, w})) for x in (u, v, w)]
                if len(set(o)) != 3:
                    continue
                B = dict(A)
                for x in (u, v, w):
                    del B[x]
                x = min(u, v, w)
                for y, old in zip(o, (u, v, w)):
                    B[y] = B[y] - {old} | {x}
                B[x] = frozenset(o)
                yield B
            elif paths:
                ap = A[u] & A[v] & A[w]
                if len(ap) != 1:
                    continue
                (a,) = ap
                B = dict(A)
                del B[v]
                B[u] = B[u] - {v} | {w}
                B[w] = B[w] - {v} | {u}
                B[a] = B[a] - {v}
                yield B


def verify(ctx, n, E, facts, vk='int', cont='set', rev=False):
    h = lib('halin')
    name = kind(vk)
    G = contain(adj(n, E, name, rev=rev), cont)
    num = {name(i): i for i in range(n)}
    ctx.case(n, E, vk)
    halin, wheelp, dual, red = facts
    for what, f, want in (('is_halin', h.is_halin, halin), ('is_wheel', h.is_wheel, wheelp),
                          ('is_dual_3_tree', h.is_dual_3_tree, dual), ('is_D3_reducible', h.is_D3_reducible, red)):
        ctx.t += 1
        got = f(G)
        if bool(got) != want:
            ctx.check(False, what, 'answers', got, 'for', G)
    A = nbrs(n, E)
    if halin:
        S = h.halin_leaf_vertices(G)
        ctx.t += 1
        ctx.check(leaf_set_ok([set(a) for a in A], {num[v] for v in S}), 'leaf vertices', S)
    if red:
        C = h.hamiltonian_cycle_D3(G)
        ctx.t += 2
        ctx.equal(set(C), set(G), 'vertices of the cycle')
        ctx.check(all(len(C[v]) == 2 and all(num[w] in A[num[v]] and v in C[w] for w in C[v]) for v in C), 'cycle', C)
        x0 = next(iter(C))
        seen, cur, prev = [x0], next(iter(C[x0])), x0
        while cur != x0:
            seen.append(cur)
            nx = [w for w in C[cur] if w != prev]
            prev, cur = cur, nx[0]
            if len(seen) > n:
                break
        ctx.equal(len(seen), n, 'length of the cycle', C)
        H = {}

        def initialize(K):
            H.update({v: set(K[v]) for v in K})

        def triangle(_, u, v, w, Nu, Nv, Nw, x):
            ctx.equal(H.pop(x), {Nu, Nv, Nw}, 'neighbours of the contracted triangle')
            for a, b in ((u, Nu), (v, Nv), (w, Nw)):
                H[b].remove(x)
                H[b].add(a)
                H[a] = {u, v, w, b} - {a}

        def path(_, u, v, w, x):
            H[u].remove(w)
            H[w].remove(u)
            H[v] = {u, w, x}
            for y in (u, w, x):
                H[y].add(v)
        h.reconstruct_D3(G, initialize, triangle, path)
        ctx.equal(H, {v: set(G[v]) for v in G}, 'rebuilt graph')
    ctx.outcome(*facts)


def facts(n, E):
    A = [frozenset(a) for a in nbrs(n, E)]
    D = dict(enumerate(A))
    return (is_halin(A), is_wheel(A), d3(D, {}, True, False), d3(D, {}))


def graphs(ctx, spec, mindeg, vks):
    for n, E in usource(spec):
        d = [0] * n
        for u, v in E:
            d[u] += 1
            d[v] += 1
        if n and min(d) < mindeg:
            continue
        f = facts(n, E)
        for vk in vks:
            verify(ctx, n, E, f, vk, 'list' if vk == 'int' else 'set', vk == 'U')


def relabelled(ctx, name, i, k, step, mindeg=3):
    """Facts are computed once per class, answers compared under all affine relabellings."""
    for n, E in shard(data(name), i, k):
        d = [0] * n
        for u, v in E:
            d[u] += 1
            d[v] += 1
        if min(d) < mindeg:
            continue
        f = facts(n, E)
        for p in affine(n)[::step]:
            verify(ctx, n, relabel(E, p), f)
        verify(ctx, n, E, f, 'U')


def plane_trees(leaves):
    """Ordered rooted trees without nodes of one child, as nested tuples, with the given number of leaves."""
    if leaves == 1:
        yield ()
        return
    def forests(k, m):
        if k == 0:
            if m == 0:
                yield ()
            return
        for a in range(1, m - (k - 1) + 1):
            for t in plane_trees(a):
                for r in forests(k - 1, m - a):
                    yield (t,) + r
    for k in range(2, leaves + 1):
        yield from forests(k, leaves)


def halin_of(tree):
    """Halin graph of a plane tree whose root has at least three children."""
    E, leaves, cnt = [], [], [0]

    def rec(t):
        v = cnt[0]
        cnt[0] += 1
        if not t:
            leaves.append(v)
        for c in t:
            E.append((v, rec(c)))
        return v
    rec(tree)
    E += [tuple(sorted((leaves[i - 1], leaves[i]))) for i in range(len(leaves))]
    return cnt[0], E


def halins(ctx, leaves, maxn, step, i, k):
    seen = set()
    trees = [t for t in plane_trees(leaves) if len(t) >= 3]
    for t in shard(trees, i, k):
        n, E = halin_of(t)
        if n > maxn:
            continue
        A = [frozenset(a) for a in nbrs(n, E)]
        D = dict(enumerate(A))
        f = (True, is_wheel(A), d3(D, {}, True, False), True)
        for p in affine(n)[::step]:
            verify(ctx, n, relabel(E, p), f)
        verify(ctx, n, E, f, 'U', 'set', True)
        # near misses: one edge removed, one edge added
        for e in E[::2]:
            F = [x for x in E if x != e]
            B = [frozenset(a) for a in nbrs(n, F)]
            if n <= 9:
                verify(ctx, n, F, facts(n, F))
        if n <= 8:
            for u, v in combinations(range(n), 2):
                if v not in A[u]:
                    F = E + [(u, v)]
                    verify(ctx, n, F, facts(n, F))


def bigger(ctx):
    for n in list(range(4, 40)) + [60]:
        E = wheel(n)
        m = max(max(e) for e in E) + 1
        verify(ctx, m, E, (True, True, m == 4, True))
        verify(ctx, m, relabel(E, affine(m)[-1]), (True, True, m == 4, True), 'U')
    # binary and ternary trees
    t2, t3 = (), ()
    for d in range(4):
        t2 = (t2, t2)
        t = (t2, t2, t2)
        n, E = halin_of(t)
        verify(ctx, n, E, (True, False, True, True))
        verify(ctx, n, E, (True, False, True, True), 'U')
    for d in range(2):
        t3 = (t3, t3, t3)
        n, E = halin_of((t3, t3, t3, t3))
        verify(ctx, n, E, (True, False, False, True))


L1, B2, B3 = (), ((), ()), ((), (), ())
SHAPES = [L1, B2, (B2, L1), (L1, B2), B3, (B2, B2), (L1, B2, L1)]


def blossoms(ctx, k, m, step, i, s):
    """Halin graphs of trees whose root has k children, each one of the first m shapes; listed up to rotation."""
    for c in shard(product(range(m), repeat=k), i, s):
        if any(c[j:] + c[:j] < c for j in range(k)):
            continue
        n, E = halin_of(tuple(SHAPES[x] for x in c))
        d = [0] * n
        for u, v in E:
            d[u] += 1
            d[v] += 1
        f = (True, n == k + 1, max(d) == 3, True)
        for p in affine(n)[::step]:
            verify(ctx, n, relabel(E, p), f)
        verify(ctx, n, E, f, 'U', 'set', True)


DEEP = [B2, (B2, L1), (B2, B2), (B3, B2), ((B2, L1), B2), (L1, (B2, B2)), (B2, L1, B2), ((B2, B2), (L1, B2))]


def deep(ctx, k, m, labels, i, s):
    """Halin graphs whose root has k subtrees out of the first m of DEEP, in labellings without a pattern."""
    for c in shard(product(range(m), repeat=k), i, s):
        if any(c[j:] + c[:j] < c for j in range(k)):
            continue
        n, E = halin_of(tuple(DEEP[x] for x in c))
        d = [len(a) for a in nbrs(n, E)]
        f = (True, False, max(d) == 3, True)
        for p in scatter(n, labels):
            verify(ctx, n, relabel(E, p), f)


def dual_trees(ctx, rounds):
    """Everything generated from K4 by replacing vertices with triangles is a dual 3-tree."""
    level = {frozenset((a, b) for a, b in complete(4)): 4}
    for r in range(rounds):
        nxt = {}
        for E0, n in level.items():
            E0 = sorted(E0)
            for v in range(n):
                nb = [b if a == v else a for a, b in E0 if v in (a, b)]
                F = [e for e in E0 if v not in e] + [(nb[0], v), (nb[1], n), (nb[2], n + 1), (v, n), (n, n + 1), (n + 1, v)]
                F = frozenset((min(e), max(e)) for e in F)
                nxt[F] = n + 2
        level = nxt
        for F, n in level.items():
            F = sorted(F)
            A = [frozenset(a) for a in nbrs(n, F)]
            hal = is_halin(A) if n <= 10 else None
            if hal is None:
                h = lib('halin')
                G = {v: set(A[v]) for v in range(n)}
                ctx.case(n, F)
                ctx.t += 1
                ctx.check(h.is_dual_3_tree(G), 'dual 3-tree not recognized')
                ctx.check(h.is_D3_reducible(G), 'not recognized as reducible')
            else:
                verify(ctx, n, F, (hal, n == 4, True, True))


def comb(n):
    """A path of n inner nodes with one leaf each."""
    t = ((), ())
    for i in range(n):
        t = ((), t) if i % 2 else (t, ())
    return t


def stem(n):
    t = ((), (), ())
    for i in range(n):
        t = ((), t, ()) if i % 3 else (t, (), ())
    return t


def large_trees():
    B4, B6, B9 = ((),) * 4, ((),) * 6, ((),) * 9
    for k in (3, 5, 8):
        for t in (B4, B6, B9, (B4, B2), (B2, L1, B4), ((B4, B3), L1), comb(5), stem(4)):
            yield (t,) * k
    for n in (6, 11, 15, 20, 31):
        yield (comb(n), (), ())
        yield (comb(n), stem(n // 2), B6)
        yield ((), stem(n), (), ())
        yield (comb(n), comb(n), B2)
    yield tuple(DEEP) + (B9, L1, comb(7), B4)
    yield ((B9, B9, B9), (B6,) * 6, (B4, L1) * 4)


def huge(ctx, i, k, labels):
    """Halin graphs of 20 to 120 vertices; with an edge at a leaf left out they belong to none of the classes."""
    h = lib('halin')
    for t in shard(large_trees(), i, k):
        n, E = halin_of(t)
        d = [len(a) for a in nbrs(n, E)]
        f = (True, False, max(d) == 3, True)
        for p in scatter(n, labels):
            verify(ctx, n, relabel(E, p), f)
        verify(ctx, n, E, f, 'U', 'set', True)
        verify(ctx, n, E, f, 'str')
        for j in (0, len(E) // 2, len(E) - 1):
            F = [e for x, e in enumerate(E) if x != j]
            if min(len(a) for a in nbrs(n, F)) < 3:
                verify(ctx, n, F, (False,) * 4)


def triangulated(ctx, rounds, step, i, k):
    """Dual 3-trees made by replacing vertices of K4 with triangles round after round (every step-th choice of vertices)."""
    for c in shard(list(product(*[range(4 + 2 * r) for r in range(rounds)]))[::step], i, k):
        n, E = 4, complete(4)
        for v in c:
            nb = [b if a == v else a for a, b in E if v in (a, b)]
            E = [e for e in E if v not in e] + [(nb[0], v), (nb[1], n), (nb[2], n + 1), (v, n), (n, n + 1), (n + 1, v)]
            E = sorted((min(e), max(e)) for e in E)
            n += 2
        f = (is_halin([frozenset(a) for a in nbrs(n, E)]), n == 4, True, True)
        for p in scatter(n, 3):
            verify(ctx, n, relabel(E, p), f)


def refused(ctx):
    h = lib('halin')
    for G in ({0: [1], 1: []}, {0: [1, 2, 3], 1: [0, 2, 3], 2: [0, 1, 3], 3: [0, 1]}, {0: [0]}):
        for f in (h.is_halin, h.is_wheel, h.is_dual_3_tree, h.is_D3_reducible):
            ctx.case(G, f.__name__)
            ctx.raises((TypeError, ValueError), f, G)


def base(ctx):
    """The K4 test itself on every adjacency table over up to five vertices with lists of up to three entries, loops and repeats included."""
    h = lib('halin')
    for n in range(6):
        lists = [t for k in range(4) for t in combinations_with_replacement(range(n), k)]
        if n == 5:
            lists = [t for t in combinations(range(n), 3)] + [(0, 1, 2, 3, 4)]
        if n == 4:
            lists = [t for t in lists if len(t) > 1] + [(0, 1, 2, 3)]
        for c in product(lists, repeat=n) if n < 4 else product(lists, lists[-9:], lists[-9:], lists[-9:]) if n == 4 else product(lists[::3], repeat=n):
            for typ in (list, tuple):
                G = {v: typ(c[v]) for v in range(n)}
                ctx.case(G)
                ctx.t += 1
                ctx.equal(bool(h.is_K4(G)), n == 4 and all(set(c[v]) == set(range(4)) - {v} for v in range(4)), 'is_K4')


def units(tier):
    q = tier == 'quick'
    U = [('lab5', graphs, dict(spec='lab<=5', mindeg=0, vks=['int', 'U', 'mix', 'str']))]
    for i in range(8):
        U.append(('lab6-%d' % i, graphs, dict(spec='lab6:%d:8' % i, mindeg=3, vks=['int', 'U', 'mix', 'neg'])))
    U.append(('cls6', graphs, dict(spec='cls6', mindeg=0, vks=['int'])))
    U.append(('cls7', graphs, dict(spec='cls7', mindeg=0, vks=['int'])))
    for i in range(4):
        U.append(('g7-%d' % i, relabelled, dict(name='g7', i=i, k=4, step=1)))
    for i in range(8):
        U.append(('g8-%d' % i, relabelled, dict(name='g8', i=i, k=8, step=5 if q else 1)))
    for c in (4, 6, 8, 10):
        U.append(('cubic%d' % c, relabelled, dict(name='cubic%d' % c, i=0, k=1, step=1)))
    for i in range(8):
        U.append(('cubic12-%d' % i, relabelled, dict(name='cubic12', i=i, k=8, step=8 if q else 1)))
    for L in (3, 4, 5):
        U.append(('halin%d' % L, halins, dict(leaves=L, maxn=99, step=1, i=0, k=1)))
    for i in range(4):
        U.append(('halin6-%d' % i, halins, dict(leaves=6, maxn=99, step=1 if not q else 4, i=i, k=4)))
    for i in range(8):
        U.append(('halin7-%d' % i, halins, dict(leaves=7, maxn=99, step=1 if not q else 12, i=i, k=8)))
    for k, m, st in ((3, 7, 9), (4, 7, 23), (5, 4, 29), (6, 3, 31), (7, 2, 11), (8, 2, 23)) if q else ((3, 7, 1), (4, 7, 3), (5, 5, 7), (6, 4, 11), (7, 3, 11), (8, 2, 3)):
        for i in range(4):
            U.append(('blossoms-%d-%d-%d' % (k, m, i), blossoms, dict(k=k, m=m, step=st, i=i, s=4)))
    for k, m, lab in ((3, 8, 40), (4, 6, 24), (5, 4, 24), (6, 3, 24)):
        for i in range(4):
            U.append(('deep-%d-%d-%d' % (k, m, i), deep, dict(k=k, m=m, labels=lab if q else 60, i=i, s=4)))
    U.append(('bigger', bigger, {}))
    U.append(('dual', dual_trees, dict(rounds=4 if q else 5)))
    U += [('huge-%d' % i, huge, dict(i=i, k=8, labels=6 if q else 20)) for i in range(8)]
    U += [('tri5-%d' % i, triangulated, dict(rounds=5, step=97 if q else 11, i=i, k=8)) for i in range(8)]
    U += [('tri6-%d' % i, triangulated, dict(rounds=6, step=3989 if q else 397, i=i, k=8)) for i in range(8)]
    U.append(('refused', refused, {}))
    U.append(('base', base, {}))
    return U
