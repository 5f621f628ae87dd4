"""C18 minimum spanning forests."""
from fractions import Fraction
from itertools import product
from mc.core import lib
from mc.gen import pairs, kind, classes, families, digraphs, affine, relabel
from mc.oracle import components

RULE = ('every weighting (absent or one of 2-3 weights per pair) of graphs on <=5 vertices; periodic weightings of classes of 6 and 7 and of families; '
        'weight by counting components of threshold graphs')

WEIGHTS = {'int': [1, 2, 3], 'neg': [-1, 0, 5], 'float': [0.5, -2.25, 0.5000001], 'frac': [Fraction(1, 3), Fraction(1, 2), Fraction(-1, 7)],
           'big': [10 ** 20, 10 ** 20 + 1, -10 ** 20], 'zero': [0, 0.0, False], 'str': ['a', 'b', 'ab']}


def optimum(n, W):
    """(number of tree edges per weight rank): multiset of weights of any minimum spanning forest."""
    ws = sorted(set(W.values()))
    out = []
    prev = n
    for w in ws:
        c = len(components(n, [e for e in W if W[e] <= w]))
        out += [w] * (prev - c)
        prev = c
    return out


def verify(ctx, n, W, vk, order=None):
    G = {vk(v): {} for v in (order or range(n))}
    for (u, v), w in W.items():
        G[vk(u)][vk(v)] = w
        G[vk(v)][vk(u)] = w
    ctx.case(G)
    T = list(lib('minimum_spanning_tree').MinimumSpanningTree(G))
    ctx.t += 1
    num = {vk(i): i for i in range(n)}
    for e in T:
        ctx.check(len(e) == 2 and e[0] in G and e[1] in G[e[0]], 'tree edge', e, 'is not an edge')
    E = [(num[a], num[b]) for a, b in T]
    c = len(components(n, list(W)))
    ctx.equal(len(T), n - c, 'number of tree edges')
    ctx.equal(len(components(n, E)), c, 'components of the tree')
    # the multiset of weights of a minimum spanning forest is unique
    ctx.equal(sorted(G[a][b] for a, b in T), optimum(n, W), 'weights of the tree')
    ctx.outcome(n, len(T))


def weightings(ctx, n, k, wname, vk, i, m):
    P = pairs(n)
    ws = WEIGHTS[wname][:k]
    vk = kind(vk)
    for j, t in enumerate(product(range(k + 1), repeat=len(P))):
        if j % m == i:
            verify(ctx, n, {p: ws[x - 1] for p, x in zip(P, t) if x}, vk)


def patterns(n, E):
    m = len(E)
    for a in (1, 2, 3, 5, 7):
        for mod in (1, 2, 3, 1000):
            yield {e: (i * a * 37 + i * i) % 101 % mod if mod < 1000 else (i * a * 37 + i * i) % 101 for i, e in enumerate(E)}
    yield {e: -i for i, e in enumerate(E)}
    yield {e: abs(e[0] - e[1]) for e in E}


def classw(ctx, n, i, k, vk):
    vk = kind(vk)
    for j, E in enumerate(classes(n)):
        if j % k == i:
            for W in patterns(n, E):
                verify(ctx, n, W, vk)


def fams(ctx, vk):
    vk = kind(vk)
    for name, n, E in families(True):
        E = sorted({(min(e), max(e)) for e in E})
        for W in patterns(n, E):
            verify(ctx, n, W, vk, order=list(range(n - 1, -1, -1)))


def rejected(ctx):
    M = lib('minimum_spanning_tree').MinimumSpanningTree
    for n in (1, 2, 3):
        for G in digraphs(n):
            if all(v not in G[v] and all(v in G[w] for w in G[v]) for v in G):
                # symmetric; asymmetric weights must be refused
                E = [(v, w) for v in G for w in G[v] if v < w]
                for e in E:
                    H = {v: {w: 1 for w in G[v]} for v in G}
                    H[e[1]][e[0]] = 2
                    ctx.case(H)
                    ctx.raises(ValueError, M, H)
                continue
            H = {v: {w: 1 for w in G[v]} for v in G}
            ctx.case(H)
            ctx.raises(ValueError, M, H)


def long_(ctx, n):
    for vk in ('int', 'U'):
        vk2 = kind(vk)
        for name, E in (('path', [(i, i + 1) for i in range(n - 1)]), ('star', [(0, i) for i in range(1, n)]),
                        ('cycle', [(i, (i + 1) % n) for i in range(n)])):
            for mod in (1, 2, 97):
                W = {(min(e), max(e)): (i * 31) % mod for i, e in enumerate(E)}
                G = {vk2(v): {} for v in range(n)}
                for (u, v), w in W.items():
                    G[vk2(u)][vk2(v)] = G[vk2(v)][vk2(u)] = w
                ctx.case(name, n, mod, vk)
                T = lib('minimum_spanning_tree').MinimumSpanningTree(G)
                ctx.t += 1
                tot = sum(W.values()) - (max(W.values()) if name == 'cycle' else 0)
                ctx.equal(len(T), n - 1, 'tree edges')
                ctx.equal(sum(G[a][b] for a, b in T), tot, 'total weight')


def units(tier):
    q = tier == 'quick'
    U = []
    for n in (0, 1, 2, 3):
        for w in WEIGHTS:
            U.append(('n%d-%s' % (n, w), weightings, dict(n=n, k=3, wname=w, vk='U', i=0, m=1)))
    for w in ('int', 'neg', 'float', 'frac'):
        U.append(('n4-%s' % w, weightings, dict(n=4, k=3, wname=w, vk='int' if w == 'int' else 'U', i=0, m=1)))
    U.append(('n4-mix', weightings, dict(n=4, k=2, wname='int', vk='mix', i=0, m=1)))
    for i in range(8):
        U.append(('n5-%d' % i, weightings, dict(n=5, k=2, wname='int', vk='int', i=i, m=8)))
        U.append(('n5u-%d' % i, weightings, dict(n=5, k=1, wname='int', vk='U', i=i, m=8)))
        U.append(('cls7-%d' % i, classw, dict(n=7, i=i, k=8, vk='int')))
        if not q:
            U.append(('n5w3-%d' % i, weightings, dict(n=5, k=3, wname='neg', vk='int', i=i, m=8)))
            U.append(('cls8-%d' % i, classw, dict(n=8, i=i, k=8, vk='U')))
    U.append(('cls6', classw, dict(n=6, i=0, k=1, vk='mix')))
    U.append(('fam', fams, dict(vk='int')))
    U.append(('famU', fams, dict(vk='U')))
    U.append(('rejected', rejected, {}))
    U.append(('long', long_, dict(n=1500)))
    return U
