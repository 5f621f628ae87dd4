"""C42 nonrepetitive walks."""
from itertools import product, combinations
from mc.core import lib
from mc.gen import shard, kind, U

RULE = ('every labelled multigraph with 2 vertices (4 ordered pairs including loops) and label sets from 4 labels, 3 vertices with label sets from 2 labels without loops and with at most one label per pair '
        'with loops; hubs with every number of labels up to 45 and of 63 to 65, 81 and 100; walks searched over the (edge, label) line digraph')

LABELS = ['x', 0, ('y',), None, '', 5, 'z', U(9), 1.5, frozenset(), 'p', 'q', 'r', 's']


def check(ctx, G, absent=True):
    """G[v][w] collection of labels."""
    m = lib('repetitivity')
    V = []
    for v in G:
        for x in [v] + list(G[v]):
            if x not in V:
                V.append(x)
    arcs = [(v, w, L) for v in G for w in G[v] for L in G[v][w]]
    arcs = list(dict.fromkeys(arcs))
    lab = {v: {L for a, b, L in arcs if v in (a, b)} for v in V}
    succ = {a: [b for b in arcs if b[0] == a[1] and b[2] != a[2]] for a in arcs}

    def bfs(start):
        dist = {a: 1 for a in start}
        todo = list(start)
        for a in todo:
            for b in succ[a]:
                if b not in dist:
                    dist[b] = dist[a] + 1
                    todo.append(b)
        return dist
    N = m.NonrepetitiveGraph(G)
    ctx.t += 1
    vs = list(N)
    ctx.check(len(vs) == len(V) and all(v in V for v in vs), 'vertices', vs)
    for v in V:
        ctx.equal(set(N[v]), lab[v], 'labels at', v)
        ctx.check(v in N, 'membership of', v)
    ctx.check('absent' not in N, 'membership of an absent vertex')
    cyc = set()
    for a in arcs:
        if a in bfs(succ[a]):
            cyc.add(a)
    got = [tuple(x) for x in N.cyclic()]
    ctx.t += 1
    if set(got) != cyc:
        ctx.check(False, 'cyclic edges', got, 'expected', cyc)
    for v in V:
        for L in lab[v]:
            D = bfs([a for a in arcs if a[0] == v and a[2] == L])
            near = {}
            for (a, b, M), d in D.items():
                near[b, M] = min(near.get((b, M), d), d)
            ctx.t += 1
            got = set(map(tuple, N.reachable(v, L)))
            if got != set(near):
                ctx.check(False, 'reachable from', (v, L), 'are', got, 'expected', set(near))
            for w in V:
                for M in lab[w]:
                    ctx.t += 1
                    if (w, M) not in near:
                        ctx.raises(ValueError, N.shortest, v, L, w, M)
                        continue
                    p = list(N.shortest(v, L, w, M))
                    ok = len(p) == near[w, M] + 1 and p[0] == v and p[-1] == w
                    if ok:
                        cur = {a for a in arcs if a[0] == v and a[2] == L and a[1] == p[1]}
                        for x in p[2:]:
                            cur = {b for a in cur for b in succ[a] if b[1] == x}
                        ok = any(a[2] == M for a in cur)
                    if not ok:
                        ctx.check(False, 'shortest path from', (v, L), 'to', (w, M), 'is', p, 'expected length', near[w, M])
    if absent:
        ctx.equal(list(N.reachable('absent', 'x')), [], 'reachable from an absent vertex')
        for v in V:
            ctx.equal(list(N.reachable(v, 'no such label')), [], 'reachable by an absent label')
            ctx.raises((ValueError, KeyError), N.shortest, v, 'no such label', v, 'x')
    ctx.outcome(len(arcs), len(cyc))


def graphs(ctx, n, pairs, sets, names, i, k, cont=list):
    V = [kind(names)(j) for j in range(n)]
    for pick in shard(product(range(len(sets)), repeat=len(pairs)), i, k):
        G = {v: {} for v in V}
        for (a, b), s in zip(pairs, pick):
            if sets[s]:
                G[V[a]][V[b]] = cont(LABELS[x] for x in sets[s])
        ctx.case(G)
        check(ctx, G, False)


def hub(ctx, k, extra):
    """k labels into and out of one vertex, plus a subset of return edges."""
    L = LABELS[:k]
    G = {'u': {'c': L}, 'c': {'w': L}, 'w': {}}
    ctx.case('hub', k)
    check(ctx, G)
    for j in range(k):
        # leave one label out of the in-edge, add it as a return edge
        G = {'u': {'c': [x for x in L if x is not L[j]]}, 'c': {'w': L[j:], 'u': L[:1]}, 'w': {'c': [L[j]]}}
        ctx.case('hub', k, j)
        check(ctx, G)
        G = {'u': {'c': [L[j]]}, 'c': {'w': L}}
        ctx.case('one in', k, j)
        check(ctx, G)
        G = {'u': {'c': L}, 'c': {'w': [L[j]], 'c': L[:j]}}
        ctx.case('one out', k, j)
        check(ctx, G)
    G = {'c': {'c': L}}
    ctx.case('loops', k)
    check(ctx, G)


def spread(ctx, k):
    """Each label on its own edge into or out of a hub."""
    for inn in range(0, k + 1):
        L = LABELS[:k]
        G = {'c': {}}
        for j in range(k):
            if j < inn:
                G['s%d' % j] = {'c': {L[j]}}
            else:
                G['c']['t%d' % j] = {L[j]}
        for j in range(0, k, 3):
            G['c'].setdefault('t%d' % j, {L[j]})
        ctx.case('spread', k, inn)
        check(ctx, G)


def cycles(ctx, n, labs):
    """Directed cycles of n vertices with every labelling, with empty label sets and chords."""
    for lab in product(range(labs), repeat=n):
        G = {v: {(v + 1) % n: (LABELS[lab[v]],)} for v in range(n)}
        ctx.case('cycle', lab)
        check(ctx, G)
        G[0][n // 2] = set(LABELS[:2]) if n // 2 != 1 else {LABELS[3]}
        G[1][0] = []
        ctx.case('chord', lab)
        check(ctx, G)


def wide(ctx, k):
    """A vertex with k labels, answers in closed form."""
    m = lib('repetitivity')
    L = [('l%d' % j, j, (j,), U(j))[j % 4] for j in range(k)]
    N = m.NonrepetitiveGraph({'u': {'c': L}, 'c': {'w': L}})
    for j in range(k):
        ctx.case('wide', k, j)
        ctx.t += 1
        got = set(map(tuple, N.reachable('u', L[j])))
        if got != {('c', L[j])} | {('w', x) for x in L if x != L[j]}:
            ctx.check(False, 'reachable from', ('u', L[j]), 'are', got)
        for i in range(k) if k < 40 else (0, j - 1, j, k - 1):
            ctx.t += 1
            if L[i] == L[j]:
                ctx.raises(ValueError, N.shortest, 'u', L[j], 'w', L[i])
            else:
                ctx.equal(list(N.shortest('u', L[j], 'w', L[i])), ['u', 'c', 'w'], 'shortest path')
        M = m.NonrepetitiveGraph({'u': {'c': [L[j]]}, 'c': {'u': L}})
        ctx.t += 1
        want = {('u', 'c', L[j])} | {('c', 'u', x) for x in L if x != L[j]}
        got = set(map(tuple, M.cyclic()))
        if got != want:
            ctx.check(False, 'cyclic edges', got, 'expected', want)
    ctx.case('loops', k)
    C = m.NonrepetitiveGraph({'c': {'c': L}})
    ctx.equal(set(map(tuple, C.cyclic())), {('c', 'c', x) for x in L}, 'cyclic loops')
    for j in range(k):
        ctx.equal(set(map(tuple, C.reachable('c', L[j]))), {('c', x) for x in L}, 'reachable by loops')


def long(ctx, n):
    """Long walks: a path and a cycle of n edges with two alternating labels, and with one place where the label repeats."""
    m = lib('repetitivity')
    for gap in (None, 0, 1, n // 2, n - 2):
        G = {v: {v + 1: ['ab'[(v + (gap is not None and v > gap)) % 2]]} for v in range(n)}
        ctx.case('path', n, gap)
        N = m.NonrepetitiveGraph(G)
        lab = lambda v: next(iter(G[v][v + 1]))
        end = n if gap is None else gap + 1
        ctx.t += 3
        ctx.equal(set(map(tuple, N.reachable(0, lab(0)))), {(v + 1, lab(v)) for v in range(end)}, 'reachable')
        ctx.equal(list(N.shortest(0, lab(0), end, lab(end - 1))), list(range(end + 1)), 'shortest path')
        if end < n:
            ctx.raises(ValueError, N.shortest, 0, lab(0), n, lab(n - 1))
        ctx.equal(list(N.cyclic()), [], 'cyclic edges of a path')
        if n % 2 == 0:
            G[n - 1] = {0: list(G[n - 1][n])}
            ctx.case('cycle', n, gap)
            want = {(v, (v + 1) % n, lab(v) if v < n - 1 else G[v][0][0]) for v in range(n)} if gap is None else set()
            ctx.equal(set(map(tuple, m.NonrepetitiveGraph(G).cyclic())), want, 'cyclic edges')


def units(tier):
    q = tier == 'quick'
    subs = lambda k: [c for r in range(k + 1) for c in combinations(range(k), r)]
    P2 = [(0, 0), (0, 1), (1, 0), (1, 1)]
    P3 = [(a, b) for a in range(3) for b in range(3) if a != b]
    P3l = [(a, b) for a in range(3) for b in range(3)]
    U = []
    for i in range(8):
        U.append(('two3-%d' % i, graphs, dict(n=2, pairs=P2, sets=subs(3), names='U', i=i, k=8)))
        U.append(('three2-%d' % i, graphs, dict(n=3, pairs=P3, sets=subs(2), names='int', i=i, k=8)))
        U.append(('three1-%d' % i, graphs, dict(n=3, pairs=P3l, sets=[(), (0,), (1,)], names='mix', i=i, k=8, cont=set)))
        U.append(('two4-%d' % i, graphs, dict(n=2, pairs=P2[:3], sets=subs(5) if not q else subs(4), names='str', i=i, k=8, cont=tuple)))
        U.append(('two44-%d' % i, graphs, dict(n=2, pairs=P2, sets=subs(4), names='str', i=i, k=8)))
        if not q:
            U.append(('three2l-%d' % i, graphs, dict(n=3, pairs=P3l, sets=subs(2), names='int', i=i, k=8)))
    for k in range(1, len(LABELS) + 1):
        U.append(('hub%d' % k, hub, dict(k=k, extra=0)))
        U.append(('spread%d' % k, spread, dict(k=k)))
    for k in list(range(15, 46)) + [63, 64, 65, 81, 100]:
        U.append(('wide%d' % k, wide, dict(k=k)))
    for n in (9, 16, 33, 64, 101, 300):
        U.append(('long%d' % n, long, dict(n=n)))
    for n, l in ((2, 3), (3, 4), (4, 4), (5, 3), (6, 3)):
        U.append(('cycle%d' % n, cycles, dict(n=n, labs=l)))
    return U
