"""Enumerations of inputs."""
import os
from itertools import combinations, permutations, product

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')


class U:
    """Hashable vertex without an order; small, deterministic hash; falsy when its number is 0."""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return self.i * 7 + 3

    def __eq__(self, other):
        return isinstance(other, U) and other.i == self.i

    def __ne__(self, other):
        return not self == other

    def __bool__(self):
        return self.i != 0

    def __repr__(self):
        return 'U%d' % self.i


def uv(i):
    """A new object every time: vertices are equal by value, not by identity."""
    return U(i)


# mixed hashable values that cannot be compared with each other
MIX = [0, 'a', (), None, frozenset([1]), 2.5, ('x', 1), '', 3 + 4j, U(0), b'z', True and 7, 'bb', (0,), -1, 'c']


def kind(name):
    """A function from vertex number to vertex object."""
    return {'int': lambda i: i, 'U': uv, 'mix': lambda i: MIX[i], 'str': lambda i: 'v%d' % i,
            'tup': lambda i: (i // 2, i % 2), 'neg': lambda i: i - 2}[name]


# ---------------------------------------------------------------- undirected graphs
def pairs(n):
    return [(b, a) for a in range(n) for b in range(a)]


def edges_of_mask(n, m):
    return [p for k, p in enumerate(pairs(n)) if m >> k & 1]


def labelled(n):
    """Edge lists of all labelled simple graphs on range(n)."""
    P = pairs(n)
    for m in range(1 << len(P)):
        yield [p for k, p in enumerate(P) if m >> k & 1]


_cache = {}


def data(name):
    if name not in _cache:
        out = []
        for line in open(os.path.join(DATA, name + '.txt')):
            n, m = line.split()
            out.append((int(n), edges_of_mask(int(n), int(m, 16))))
        _cache[name] = out
    return _cache[name]


def classes(n):
    """Edge lists of simple graphs on n vertices up to isomorphism (n <= 8)."""
    return [e for _, e in data('g%d' % n)]


def affine(n):
    """Affine relabellings i -> a*i+b (mod n), a invertible: list of permutations, identity first."""
    from math import gcd
    out = [tuple((a * i + b) % n for i in range(n)) for a in range(1, n + 1) if gcd(a, n) == 1 for b in range(n)]
    seen, res = set(), []
    for p in out:
        if p not in seen:
            seen.add(p)
            res.append(p)
    if n == 0:
        return [()]
    return res


def scatter(n, k):
    """k relabellings of n < 211 points that follow no cyclic pattern: the order of a * (i+1)^3 + a^2 * (i+1)^2 modulo 211."""
    out = []
    for a in range(1, k + 1):
        key = [(a * (i + 1) ** 3 + a * a * (i + 1) ** 2) % 211 for i in range(n)]
        p = [0] * n
        for r, i in enumerate(sorted(range(n), key=lambda i: (key[i], i))):
            p[i] = r
        out.append(tuple(p))
    return out


def relabel(edges, p):
    return [(p[u], p[v]) for u, v in edges]


def adj(n, edges, vk=None, order=None, rev=False):
    """Undirected adjacency dict of lists.  vk: vertex naming; order: order of dict keys; rev: reversed lists."""
    vk = vk or (lambda i: i)
    A = {v: [] for v in (order if order is not None else range(n))}
    for u, v in edges:
        A[u].append(v)
        A[v].append(u)
    if rev:
        for v in A:
            A[v].reverse()
    return {vk(v): [vk(w) for w in A[v]] for v in A}


CONTAINERS = {
    'list': lambda L: list(L), 'tuple': lambda L: tuple(L), 'set': lambda L: set(L),
    'frozenset': lambda L: frozenset(L), 'dict': lambda L: {x: None for x in L},
}


def contain(G, c):
    f = CONTAINERS[c]
    return {v: f(G[v]) for v in G}


# ---------------------------------------------------------------- directed graphs
def digraphs(n, loops=True, start=0, step=1):
    """Adjacency dict-of-lists of all labelled digraphs on range(n)."""
    P = [(u, v) for u in range(n) for v in range(n) if loops or u != v]
    for m in range(start, 1 << len(P), step):
        G = {u: [] for u in range(n)}
        for k, (u, v) in enumerate(P):
            if m >> k & 1:
                G[u].append(v)
        yield G


def asymmetric(n, loops=True, start=0, step=1):
    """The labelled digraphs on range(n) with an edge that has no reverse."""
    for G in digraphs(n, loops, start, step):
        if any(v not in G[w] for v in G for w in G[v]):
            yield G


def ndigraphs(n, loops=True):
    return 1 << (n * n if loops else n * (n - 1))


def large_digraphs(dag=False):
    """(name, digraph) beyond the exhaustive range: high degrees, many vertices, natural, reversed and scattered labels."""
    base = []
    for n in (9, 17, 18, 33, 34, 66):
        base.append(('out-star', n, [(0, i) for i in range(1, n)]))
        base.append(('in-star', n, [(i, 0) for i in range(1, n)]))
        base.append(('double star', n, [(0, i) for i in range(1, n - 1)] + [(i, n - 1) for i in range(1, n - 1)]))
        base.append(('complete order', n, [(i, j) for i in range(n) for j in range(i + 1, n)]))
        h = n // 2
        base.append(('layers', n, [(i, h + j) for i in range(h) for j in range(n - h) if (i * j + i + j) % 3]))
        base.append(('divisors', n, [(i, j) for i in range(n) for j in range(i + 1, n) if (j + 1) % (i + 1) == 0]))
        base.append(('tree', n, [((i - 1) // 2, i) for i in range(1, n)]))
        base.append(('narrow', n, [(i, j) for i in range(n) for j in (i + 2, i + 3) if j < n]))
        if not dag:
            base.append(('tournament', n, [(i, (i + d) % n) for i in range(n) for d in range(1, (n + 1) // 2)]))
            base.append(('two way', n, [(i, j) for i in range(n) for j in (i - 1, i + 1) if 0 <= j < n]))
            base.append(('powers', n, [(i, i * i % n) for i in range(n)] + [(i, (2 * i + 1) % n) for i in range(n)]))
            base.append(('loops', n, [(i, i) for i in range(n)] + [(i, i + 3) for i in range(n - 3)] + [(n - 1, n - 4)]))
            base.append(('blocks', n, [(i, j) for i in range(n) for j in range(n) if i // 4 == j // 4 or j == i + 4]))
    for name, n, E in base:
        E = sorted(set(E))
        for k, p in enumerate([tuple(range(n)), tuple(range(n))[::-1]] + scatter(n, 3)):
            G = {v: [] for v in range(n)}
            for u, v in E:
                G[p[u]].append(p[v])
            yield (name, n, k), G


def rename(G, vk, order=None):
    order = order if order is not None else list(G)
    return {vk(v): [vk(w) for w in G[v]] for v in order}


def natural_dags(n):
    """DAGs whose edges go from smaller to larger numbers."""
    P = [(a, b) for a in range(n) for b in range(a + 1, n)]
    for m in range(1 << len(P)):
        G = {u: [] for u in range(n)}
        for k, (u, v) in enumerate(P):
            if m >> k & 1:
                G[u].append(v)
        yield G


# ---------------------------------------------------------------- families of larger graphs
def series_parallel(n):
    """(number of elements, Hasse edges, width, minimal, maximal) of every series-parallel order on n elements, up to isomorphism."""
    memo = {}

    def shift(x, s):
        n, E, w, lo, hi = x
        return n, [(a + s, b + s) for a, b in E], w, [a + s for a in lo], [a + s for a in hi]

    def par(xs):
        n, E, w, lo, hi = 0, [], 0, [], []
        for x in xs:
            m, F, v, l, h = shift(x, n)
            n, E, w, lo, hi = n + m, E + F, w + v, lo + l, hi + h
        return n, E, w, lo, hi

    def ser(xs):
        n, E, w, lo, hi = xs[0]
        for x in xs[1:]:
            m, F, v, l, h = shift(x, n)
            n, E, w, hi = n + m, E + F + [(a, b) for a in hi for b in l], max(w, v), h
        return n, E, w, lo, hi

    def orders(n, top):
        """Orders that are not a sum of kind top ('s' series, 'p' parallel)."""
        if (n, top) not in memo:
            out = [(1, [], 1, [0], [0])] if n == 1 else []
            if n > 1 and top == 's':        # parallel compositions: multisets of parallel-indecomposable orders
                def multi(left, size, idx):
                    if not left:
                        yield []
                        return
                    for m in range(min(left, size), 0, -1):
                        L = orders(m, 'p')
                        for j in range(min(idx, len(L) - 1) if m == size else len(L) - 1, -1, -1):
                            for rest in multi(left - m, m, j):
                                yield [L[j]] + rest
                out = [par(xs) for xs in multi(n, n - 1, 10 ** 9)]
            elif n > 1:                     # series compositions: sequences of series-indecomposable orders
                def seqs(left, first):
                    if not left:
                        yield []
                        return
                    for m in range(1, left + 1):
                        if m < n:
                            for x in orders(m, 's'):
                                for rest in seqs(left - m, False):
                                    yield [x] + rest
                out = [ser(xs) for xs in seqs(n, True)]
            memo[n, top] = out
        return memo[n, top]
    return orders(n, 's') + (orders(n, 'p') if n > 1 else [])


def path(n):
    return [(i, i + 1) for i in range(n - 1)]


def cycle(n):
    return [(i, (i + 1) % n) for i in range(n)] if n > 2 else path(n)


def complete(n):
    return list(combinations(range(n), 2))


def star(n):
    return [(0, i) for i in range(1, n)]


def wheel(n):
    """Hub 0 and rim 1..n-1."""
    r = n - 1
    return star(n) + [(1 + i, 1 + (i + 1) % r) for i in range(r)]


def grid(a, b):
    E = []
    for i in range(a):
        for j in range(b):
            if i + 1 < a:
                E.append((i * b + j, (i + 1) * b + j))
            if j + 1 < b:
                E.append((i * b + j, i * b + j + 1))
    return E


def complete_bipartite(a, b):
    return [(i, a + j) for i in range(a) for j in range(b)]


def bintree(n):
    return [((i - 1) // 2, i) for i in range(1, n)]


def hypercube(d):
    return [(i, i ^ (1 << k)) for i in range(1 << d) for k in range(d) if not i >> k & 1]


def circulant(n, S):
    E = set()
    for i in range(n):
        for s in S:
            j = (i + s) % n
            if i != j:
                E.add((min(i, j), max(i, j)))
    return sorted(E)


def families(big=False):
    """(name, n, edges) of structured graphs, larger than the exhaustive range."""
    out = []
    for n in [9, 10, 13, 16, 17, 25] + ([40, 64, 65, 100] if big else []):
        out += [('path', n, path(n)), ('cycle', n, cycle(n)), ('star', n, star(n)), ('wheel', n, wheel(n)),
                ('bintree', n, bintree(n)), ('empty', n, [])]
    for n in (8, 9, 12):
        out.append(('complete', n, complete(n)))
    for a, b in ((2, 5), (3, 4), (4, 4), (3, 5)):
        out.append(('grid', a * b, grid(a, b)))
    for a, b in ((2, 7), (3, 6), (4, 5)):
        out.append(('bipartite', a + b, complete_bipartite(a, b)))
    out.append(('cube3', 8, hypercube(3)))
    out.append(('cube4', 16, hypercube(4)))
    for n in (9, 10, 11, 12):
        for S in [(1, 2), (1, 3), (2, 3), (1, n // 2), (2, 4), (3,), (1, 2, 3)]:
            out.append(('circulant%s' % (S,), n, circulant(n, S)))
    # several components, cut vertices, blobs joined by bridges
    for k in (3, 4, 5):
        E = []
        for c in range(3):
            E += [(c * k + a, c * k + b) for a, b in combinations(range(k), 2)]
        out.append(('3 cliques', 3 * k, E))
        out.append(('3 cliques chained', 3 * k, E + [(k - 1, k), (2 * k - 1, 2 * k)]))
        E = []
        for c in range(4):
            m = [0] + list(range(1 + c * k, 1 + (c + 1) * k))
            E += [(m[i], m[(i + 1) % len(m)]) for i in range(len(m))]
        out.append(('4 cycles at a vertex', 4 * k + 1, E))
    if big:     # large and dense, scattered labels as well
        for name, n, E in (('complete', 21, complete(21)), ('bipartite', 37, complete_bipartite(17, 20)), ('cube5', 32, hypercube(5)),
                           ('grid', 66, grid(6, 11)), ('circulant', 45, circulant(45, (1, 7, 11, 20))), ('wheel', 70, wheel(70)),
                           ('bintree', 130, bintree(130))):
            out.append((name, n, E))
            out += [(name + ' scattered', n, relabel(E, p)) for p in scatter(n, 3)]
    pet = [(i, (i + 1) % 5) for i in range(5)] + [(i, i + 5) for i in range(5)] + [(5 + i, 5 + (i + 2) % 5) for i in range(5)]
    out.append(('petersen', 10, pet))
    return out


# ---------------------------------------------------------------- trees
def parent_maps(n):
    """All rooted labelled trees on range(n) as parent dicts (root absent): via all functions, checked."""
    for root in range(n):
        others = [v for v in range(n) if v != root]
        for f in product(range(n), repeat=n - 1):
            par = dict(zip(others, f))
            ok = True
            for v in others:
                if par[v] == v:
                    ok = False
                    break
            if not ok:
                continue
            good = {root}
            for v in others:
                trail = []
                while v not in good:
                    if v in trail:
                        ok = False
                        break
                    trail.append(v)
                    v = par[v]
                if not ok:
                    break
                good.update(trail)
            if ok:
                yield root, par


def rec_trees(n):
    """Rooted trees with parent number smaller than child number (recursive trees): parent lists."""
    for f in product(*[range(i) for i in range(1, n)]):
        yield {i + 1: p for i, p in enumerate(f)}


# ---------------------------------------------------------------- words etc.
def words(alphabet, maxlen, minlen=0):
    for L in range(minlen, maxlen + 1):
        yield from product(alphabet, repeat=L)


def shard(it, i, k):
    for j, x in enumerate(it):
        if j % k == i:
            yield x


def subsets(items):
    items = list(items)
    for m in range(1 << len(items)):
        yield [x for k, x in enumerate(items) if m >> k & 1]


def set_partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in set_partitions(rest):
        yield [[first]] + p
        for i in range(len(p)):
            yield p[:i] + [[first] + p[i]] + p[i + 1:]


# ---------------------------------------------------------------- sources of undirected graphs
def usource(spec):
    """Undirected graphs (n, edges) by spec:  'lab<=5', 'lab6:i:k', 'cls7:i:k' (classes), 'aff7:i:k' (classes, all affine
    relabellings), 'fam', 'fambig'."""
    w = spec.split(':')
    i, k = (int(w[1]), int(w[2])) if len(w) > 1 else (0, 1)
    t = w[0]
    if t.startswith('lab<='):
        it = ((n, e) for n in range(int(t[5:]) + 1) for e in labelled(n))
    elif t.startswith('lab'):
        n = int(t[3:])
        it = ((n, e) for e in labelled(n))
    elif t.startswith('cls'):
        n = int(t[3:])
        it = ((n, e) for e in classes(n))
    elif t.startswith('aff'):
        n = int(t[3:])
        it = ((n, relabel(e, p)) for e in classes(n) for p in affine(n))
    elif t == 'fam':
        it = ((n, e) for _, n, e in families())
    elif t == 'fambig':
        it = ((n, e) for _, n, e in families(True))
    else:
        raise ValueError(spec)
    return shard(it, i, k)


def sources(q, lab6=8, aff7=8, cls8=8, quick8=True, fam=True, thorough_lab7=True):
    """Usual list of source specs for checks over undirected graphs."""
    S = ['lab<=5']
    S += ['lab6:%d:%d' % (i, lab6) for i in range(lab6)]
    S += ['aff7:%d:%d' % (i, aff7) for i in range(aff7)]
    if quick8 or not q:
        S += ['cls8:%d:%d' % (i, cls8) for i in range(cls8)]
    if not q:
        if thorough_lab7:
            S += ['lab7:%d:64' % i for i in range(64)]
        S += ['aff8:%d:32' % i for i in range(32)]
    if fam:
        S.append('fambig')
    return S


def variants(n, full):
    """(vertex kind, reversed adjacency lists, container) combinations."""
    if full:
        return [('int', False, 'list'), ('int', True, 'list'), ('U', False, 'set'), ('mix', True, 'dict'), ('str', False, 'tuple'),
                ('neg', True, 'frozenset')]
    return [('int', False, 'list'), ('U', True, 'set')]


def build(n, edges, var):
    vk, rev, c = var
    return contain(adj(n, edges, kind(vk), rev=rev), c)
