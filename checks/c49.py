"""C49 graph utilities and named graphs."""
from itertools import combinations, permutations, product
from mc.core import lib
from mc.gen import digraphs, kind, rename, shard
from mc.oracle import distances

RULE = ('all directed graphs with loops on <=3 vertices and without loops on 4 (5 undirected), in five adjacency containers and three vertex kinds, with every vertex subset; all pairs and triples of graphs on <=3 vertices for unions; '
        'every parameter choice of the parametrized constructions up to a bound and selected ones with up to 4608 vertices; named graphs up to isomorphism against independent definitions')

CONTAINERS = {'set': set, 'list': list, 'tuple': tuple, 'frozenset': frozenset, 'dict': lambda s: {x: 'label' for x in s}}


def snapshot(G):
    return {v: (type(G[v]), sorted(map(repr, G[v]))) for v in G}


def edges(G):
    return {(v, w) for v in G for w in G[v]}


def one(ctx, G0, cname, subsets):
    M = lib('graphs')
    U = lib('util')
    c = CONTAINERS[cname]
    G = {v: c(G0[v]) for v in G0}
    V, E = set(G), edges(G0)
    snap = snapshot(G)
    und = all((w, v) in E and v != w for v, w in E)
    ctx.equal(bool(ctx.call(M.is_undirected, G)), und, 'is_undirected')
    if V:
        deg = [len(G0[v]) for v in V]
        ctx.equal(ctx.call(M.max_degree, G), max(deg), 'max_degree')
        ctx.equal(ctx.call(M.min_degree, G), min(deg), 'min_degree')
    for tname in ('default', 'set', 'list', 'tuple', 'frozenset', 'map'):
        T = {'set': set, 'list': list, 'tuple': tuple, 'frozenset': frozenset, 'map': U.map_to_constant(7), 'default': set}[tname]
        H = ctx.call(M.copy_graph, G) if tname == 'default' else ctx.call(M.copy_graph, G, T)
        ctx.equal(set(H), V, 'vertices of the copy')
        for v in V:
            ctx.check(isinstance(H[v], dict if tname == 'map' else T), 'the copy stores', type(H[v]).__name__, 'for', tname)
            ctx.equal(sorted(map(repr, H[v])), sorted(map(repr, G0[v])), 'neighbours in the copy')
            if tname == 'map':
                ctx.check(all(H[v][w] == 7 for w in H[v]), 'constant in the copy')
        if tname in ('default', 'list', 'map'):
            for v in H:
                if tname == 'map':
                    H[v]['new'] = 1
                elif tname == 'list':
                    H[v].append('new')
                else:
                    H[v].add('new')
            H['extra'] = ()
            ctx.equal(snapshot(G), snap, 'the graph after changing its copy')
    for W in subsets:
        want = {v: {w for w in G0[v] if w in W} for v in G0 if v in W}
        for form in (set, list, tuple, frozenset, dict.fromkeys):
            H = ctx.call(M.induced_subgraph, form(W), G)
            ctx.equal({v: set(H[v]) for v in H}, want, 'induced subgraph on', W)
            ctx.check(all(isinstance(H[v], set) for v in H), 'default adjacency type')
            ctx.equal(bool(ctx.call(M.is_independent_set, form(W), G)), not any(want.values()), 'independence of', W)
        H = ctx.call(M.induced_subgraph, set(W), G, list)
        ctx.equal({v: sorted(map(repr, H[v])) for v in H}, {v: sorted(map(repr, want[v])) for v in want}, 'induced subgraph as lists')
        for v in H:
            H[v].append('new')
        H = ctx.call(M.induced_subgraph, set(W), G, U.map_to_constant(None))
        ctx.equal({v: set(H[v]) for v in H}, want, 'induced subgraph as dictionaries')
    ctx.equal(snapshot(G), snap, 'the graph after all calls')
    ctx.outcome('undirected' if und else 'directed')


def subsets(V, extra):
    V = list(V)
    out = [W for k in range(len(V) + 1) for W in combinations(V, k)]
    return out + [W + (extra,) for W in out[::3]]


def graphs(ctx, n, loops, vk, containers, i, k):
    K = kind(vk)
    for G in shard(digraphs(n, loops), i, k):
        H = rename(G, K)
        H = {v: set(H[v]) for v in H}
        subs = subsets(H, 'absent')
        for c in containers:
            ctx.case(n, H, c, state=c == containers[0])
            one(ctx, H, c, subs)


def unions(ctx, n, i, k):
    M = lib('graphs')
    all_ = [G for m in range(n + 1) for G in digraphs(m, m < 3)]
    forms = list(CONTAINERS.values())
    for a, b in shard(product(range(len(all_)), repeat=2), i, k):
        G, H = all_[a], all_[b]
        H = {v + 1: [w + 1 for w in H[v]] for v in H}    # overlaps, and has vertices of its own
        ctx.case('union', G, H)
        G1 = {v: forms[a % 5](G[v]) for v in G}
        H1 = {v: forms[b % 5](H[v]) for v in H}
        s1, s2 = snapshot(G1), snapshot(H1)
        want = {v: set(G.get(v, ())) | set(H.get(v, ())) for v in set(G) | set(H)}
        R = ctx.call(M.union, G1, H1)
        ctx.equal({v: set(R[v]) for v in R}, want, 'union')
        for v in R:
            R[v].add('new')
        ctx.equal((snapshot(G1), snapshot(H1)), (s1, s2), 'the graphs after changing their union')
        R = ctx.call(M.union, H1, G1, H1)
        ctx.equal({v: set(R[v]) for v in R}, want, 'union of three')
        if b == 0:
            R = ctx.call(M.union, G1)
            ctx.equal({v: set(R[v]) for v in R}, {v: set(G[v]) for v in G}, 'union of one')
            for v in R:
                R[v].add('new')
            ctx.equal(snapshot(G1), s1, 'the graph after changing its union')
    ctx.case('union of nothing')
    ctx.equal(dict(M.union()), {}, 'union of nothing')


def bigger(ctx):
    """Graphs of high degree, with one arrow left out, and unions of many graphs."""
    M = lib('graphs')
    for n in (10, 22, 33, 65, 130):
        star = {0: set(range(1, n)), **{i: {0} for i in range(1, n)}}
        full = {i: set(range(n)) - {i} for i in range(n)}
        ring = {i: {(i + d) % n for d in (1, -1, 2, -2)} for i in range(n)}
        for name, G in (('star', star), ('complete', full), ('ring', ring)):
            for c in CONTAINERS:
                ctx.case(name, n, c)
                H = {v: CONTAINERS[c](sorted(G[v])) for v in G}
                ctx.equal(bool(ctx.call(M.is_undirected, H)), True, 'is_undirected')
                ctx.equal(ctx.call(M.max_degree, H), max(map(len, G.values())), 'max_degree')
                ctx.equal(ctx.call(M.min_degree, H), min(map(len, G.values())), 'min_degree')
                for v in (0, 1, n // 2, n - 1):
                    for w in sorted(G[v])[::max(1, len(G[v]) // 6)] + [max(G[v])]:
                        D = dict(H)
                        D[v] = CONTAINERS[c](sorted(G[v] - {w}))
                        ctx.equal(bool(ctx.call(M.is_undirected, D)), False, 'is_undirected without the arrow', (v, w))
                for W in (range(0, n, 2), range(0, n, 3), [0, n - 1], [n // 2], [1, n - 1]):
                    want = {v: {w for w in G[v] if w in W} for v in W}
                    R = ctx.call(M.induced_subgraph, set(W), H)
                    ctx.equal({v: set(R[v]) for v in R}, want, 'induced subgraph on', W)
                    ctx.equal(bool(ctx.call(M.is_independent_set, set(W), H)), not any(want.values()), 'independence of', W)
        for k in (4, 5, 9, 17, 40):
            ctx.case('union of many', n, k)
            parts = [{v: [w for w in full[v] if (v + w) % k == j] for v in range(n) if v % 5 or j % 2} for j in range(k)]
            R = ctx.call(M.union, *parts)
            want = {}
            for P in parts:
                for v in P:
                    want.setdefault(v, set()).update(P[v])
            ctx.equal({v: set(R[v]) for v in R}, want, 'union of', k, 'graphs')


def utilities(ctx):
    U = lib('util')
    for n in range(0, 5):
        for items in product((0, 'a', None, (1,)), repeat=n):
            for form in (list, tuple, set, frozenset, dict.fromkeys, iter, lambda s: (x for x in s)):
                ctx.case('arbitrary_item', items, state=False)
                if not items:
                    ctx.raises(IndexError, U.arbitrary_item, form(items))
                else:
                    ctx.check(ctx.call(U.arbitrary_item, form(items)) in items, 'an item that is not there')
            for const in (0, None, [], 'x'):
                f = ctx.call(U.map_to_constant, const)
                for form in (list, iter):
                    d = ctx.call(f, form(items))
                    ctx.check(isinstance(d, dict) and set(d) == set(items) and all(v is const for v in d.values()), 'map_to_constant gives', d)


# -- constructions ---------------------------------------------------

def cubic(ctx, G, n, what):
    ctx.equal(len(G), n, 'number of vertices of', what)
    for v in G:
        L = list(G[v])
        ctx.equal(len(L), 3, 'degree in', what)
        ctx.equal(len(set(L)), 3, 'different neighbours in', what)
        ctx.check(v not in L, what, 'has a loop')
        for w in L:
            ctx.check(w in G and v in G[w], what, 'is not undirected at', v, w)


def sym(pairs):
    G = {}
    for a, b in pairs:
        G.setdefault(a, set()).add(b)
        G.setdefault(b, set()).add(a)
    return G


def same(A, B):
    """Isomorphism of connected cubic graphs by growing a map along a search tree."""
    if len(A) != len(B):
        return False
    order, parent = [next(iter(A))], {}
    for v in order:
        for w in A[v]:
            if w not in order:
                order.append(w)
                parent[w] = v
    if len(order) != len(A):
        return None

    def grow(k, m, used):
        if k == len(order):
            return True
        v = order[k]
        back = [u for u in A[v] if u in m]
        for w in B[m[parent[v]]]:
            if w not in used and all(w in B[m[u]] for u in back) and len([x for x in B[w] if x in used]) == len(back):
                m[v] = w
                if grow(k + 1, m, used | {w}):
                    return True
                del m[v]
        return False
    return any(grow(1, {order[0]: r}, {r}) for r in B)


def kneser():
    P = [frozenset(s) for s in combinations(range(5), 2)]
    return sym((a, b) for a in P for b in P if not a & b)


def double(G):
    return sym(((v, 0), (w, 1)) for v in G for w in G[v])


def coxeter():
    lines = [frozenset(((i) % 7, (i + 1) % 7, (i + 3) % 7)) for i in range(7)]
    T = [frozenset(s) for s in combinations(range(7), 3) if frozenset(s) not in lines]
    return sym((a, b) for a in T for b in T if not a & b)


def pappus():
    """Points and lines of the affine plane of order three with one parallel class removed."""
    pts = list(product(range(3), repeat=2))
    lines = [frozenset((x, (m * x + b) % 3) for x in range(3)) for m in range(3) for b in range(3)]
    return sym((p, l) for l in lines for p in l if p in pts)


def tutte_coxeter():
    duads = [frozenset(s) for s in combinations(range(6), 2)]
    syn = {frozenset((a, b, c)) for a in duads for b in duads for c in duads if len(a | b | c) == 6}
    return sym((d, s) for s in syn for d in s)


def gray():
    pts = list(product(range(3), repeat=3))
    return sym((p, (ax, p[:ax] + p[ax + 1:], 'line')) for p in pts for ax in range(3))


def lcf(L, k):
    n = len(L) * k
    return sym([(i, (i + 1) % n) for i in range(n)] + [(i, (i + L[i % len(L)]) % n) for i in range(n)])


def dyck():
    """Cayley graph of (Z4 x Z4) extended by inversion: x adjacent to its three reflections' images."""
    V = list(product(range(4), repeat=2))
    return sym(((v, 0), (((s[0] - v[0]) % 4, (s[1] - v[1]) % 4), 1)) for v in V for s in ((0, 0), (1, 0), (0, 1)))


def girth(G):
    best = 99
    for r in G:
        dist, par, q = {r: 0}, {r: None}, [r]
        for v in q:
            for w in G[v]:
                if w not in dist:
                    dist[w], par[w] = dist[v] + 1, v
                    q.append(w)
                elif par[v] != w:
                    best = min(best, dist[v] + dist[w] + 1)
    return best


NAMED = {
    'PetersenGraph': (10, 5, kneser),
    'DesarguesGraph': (20, 6, lambda: double(kneser())),
    'CoxeterGraph': (28, 7, coxeter),
    'McGeeGraph': (24, 7, lambda: lcf([12, 7, -7], 8)),
    'DyckGraph': (32, 6, dyck),
    'PappusGraph': (18, 6, pappus),
    'TutteCoxeterGraph': (30, 8, tutte_coxeter),
    'GrayGraph': (54, 8, gray),
}


def named(ctx, name):
    X = lib('graph_examples')
    n, g, ref = NAMED[name]
    G = getattr(X, name)
    ctx.case(name)
    ctx.t += 1
    cubic(ctx, G, n, name)
    ctx.equal(girth(G), g, 'girth of', name)
    ctx.check(same({v: set(G[v]) for v in G}, ref()), name, 'is not isomorphic to its definition')


def petersen(ctx, top):
    X = lib('graph_examples')
    for n in list(range(3, top + 1)) + [21, 32, 33, 64, 65, 100]:
        for k in range(1, (n + 1) // 2):
            if n > top and k > 12 and k < n // 2 - 3:
                continue
            for kk in (k, n - k, -k, k + n):
                ctx.case('generalized Petersen', n, kk)
                G = ctx.call(X.GeneralizedPetersenGraph, n, kk)
                cubic(ctx, G, 2 * n, 'the generalized Petersen graph')
                want = sym([(('o', i), ('o', (i + 1) % n)) for i in range(n)] + [(('o', i), ('i', i)) for i in range(n)] + [(('i', i), ('i', (i + k) % n)) for i in range(n)])
                if n <= 9:
                    H = {v: set(G[v]) for v in G}
                    ctx.check(same(H, want), 'not isomorphic to GP(%d,%d)' % (n, k))
                ctx.equal(edges(G), {((i, True), ((i + s) % n, True)) for i in range(n) for s in (1, -1)} | {((i, False), ((i + s * k) % n, False)) for i in range(n) for s in (1, -1)}
                          | {((i, x), (i, not x)) for i in range(n) for x in (True, False)}, 'edges')


def coxeters(ctx, top):
    X = lib('graph_examples')
    for n in range(3, top + 1):
        for a in range(1, n):
            for b in range(1, n):
                if 2 * a % n and 2 * b % n:
                    ctx.case('generalized Coxeter', n, a, b)
                    G = ctx.call(X.GeneralizedCoxeterGraph, n, a, b)
                    cubic(ctx, G, 4 * n, 'the generalized Coxeter graph')
                    # the three cycle families have the step sizes asked for
                    hubs = [v for v in G if v[1] == 0]
                    ctx.equal(len(hubs), n, 'hubs')
                    for j, s in ((1, 1), (2, a), (3, b)):
                        for i in range(n):
                            ctx.equal(set(G[i, j]), {(i, 0), ((i + s) % n, j), ((i - s) % n, j)}, 'neighbours on cycle', j)
                            ctx.check((i, j) in G[i, 0], 'spoke missing')


def ccc(ctx, top):
    X = lib('graph_examples')
    for n in range(3, max(top, 9) + 1):
        ctx.case('cube-connected cycles', n)
        G = ctx.call(X.CubeConnectedCycles, n)
        cubic(ctx, G, n << n, 'the cube-connected cycles')
        for x, y in G:
            ctx.equal(set(G[x, y]), {(x, (y + 1) % n), (x, (y - 1) % n), (x ^ (1 << y), y)}, 'neighbours')


def large(ctx):
    """Larger members of the families."""
    X = lib('graph_examples')
    for n in (20, 21, 33, 64, 65, 101):
        for a, b in ((2, 3), (n - 1, 5), (7, n - 9), (n // 2 - 1, n // 3), (n // 2 + 1, 1)):
            ctx.case('generalized Coxeter', n, a, b)
            G = ctx.call(X.GeneralizedCoxeterGraph, n, a, b)
            cubic(ctx, G, 4 * n, 'the generalized Coxeter graph')
            for i in range(n):
                for j, s in ((1, 1), (2, a), (3, b)):
                    ctx.equal(set(G[i, j]), {(i, 0), ((i + s) % n, j), ((i - s) % n, j)}, 'neighbours on cycle', j)
    for r in (8, 16, 33, 50, 100):
        n = 2 * r
        for L, k in [([j, -j], r) for j in range(3, n // 2, 2)] + [([r], n), ([r, r], r), ([-r], n)]:
            want = [{(v - 1) % n, (v + 1) % n, (v + L[v % len(L)]) % n} for v in range(n)]
            if all(len(want[v]) == 3 and all(v in want[w] for w in want[v]) for v in range(n)):
                ctx.case('LCF', L, k)
                G = ctx.call(X.LCFNotation, L, k)
                ctx.equal(len(G), n, 'vertices')
                ctx.equal([set(G[v]) for v in range(n)], want, 'LCF graph')


def lcfs(ctx, length, reps, i, k):
    """Every list of jumps of the given length: the ones describing a graph must give it."""
    X = lib('graph_examples')
    for r in reps:
        n = length * r
        if n < 4 or n > 14 or n % 2:
            continue
        jumps = [j for j in range(-(n // 2), n // 2 + 1) if j not in (-1, 0, 1)]
        for L in shard(product(jumps, repeat=length), i, k):
            want = [{(v - 1) % n, (v + 1) % n, (v + L[v % length]) % n} for v in range(n)]
            if all(len(want[v]) == 3 and v not in want[v] and all(v in want[w] for w in want[v]) for v in range(n)):
                ctx.case('LCF', L, r)
                for form in (list, tuple):
                    G = ctx.call(X.LCFNotation, form(L), r)
                    cubic(ctx, G, n, 'the LCF graph')
                    ctx.equal([set(G[v]) for v in range(n)], want, 'LCF graph')


def units(tier):
    q = tier == 'quick'
    U = [('util', utilities, {})]
    allc = list(CONTAINERS)
    for n in range(0, 4):
        for vk in ('int', 'U', 'mix'):
            U.append(('graphs%d-%s' % (n, vk), graphs, dict(n=n, loops=True, vk=vk, containers=allc, i=0, k=1)))
    for i in range(8):
        U.append(('graphs4-%d' % i, graphs, dict(n=4, loops=False, vk='int', containers=allc[:2] if q else allc, i=i, k=8)))
    if not q:
        for i in range(8):
            U.append(('graphs4l-%d' % i, graphs, dict(n=4, loops=True, vk='str', containers=['set'], i=i, k=8)))
    for i in range(4):
        U.append(('unions-%d' % i, unions, dict(n=3, i=i, k=4)))
    for name in NAMED:
        U.append((name, named, dict(name=name)))
    U.append(('petersen', petersen, dict(top=16 if q else 40)))
    U.append(('coxeter', coxeters, dict(top=9 if q else 20)))
    U.append(('large', large, {}))
    U.append(('bigger', bigger, {}))
    U.append(('ccc', ccc, dict(top=7 if q else 10)))
    for length, reps in ((1, (4, 6, 8, 10, 12, 14)), (2, (2, 3, 4, 5, 6, 7)), (3, (2, 4)), (4, (1, 2, 3)), (5, (2,)), (6, (1,))):
        U.append(('lcf%d' % length, lcfs, dict(length=length, reps=reps, i=0, k=1)))
    return U
