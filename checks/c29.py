"""C29 media."""
from itertools import combinations, product
from mc.core import lib
from mc.gen import kind, shard, U as Uobj

RULE = ('every well-graded family of bit vectors of dimension <=3 and of dimension 4 up to coordinate permutation, in all representations; routing from every state to '
        'every other; larger families (cubes, chains and stars up to 70 tokens, antimatroids, permutations); every token labelling of small graphs and one-token changes of larger media for the refusals')


def well_graded(F, d):
    """Hamming distance equals path distance inside F."""
    F = set(F)
    for s in F:
        dist, todo = {s: 0}, [s]
        for x in todo:
            for i in range(d):
                y = x ^ (1 << i)
                if y in F and y not in dist:
                    dist[y] = dist[x] + 1
                    todo.append(y)
        if len(dist) != len(F) or any(dist[x] != bin(x ^ s).count('1') for x in F):
            return False
    return True


def families(d, reduce):
    """Well-graded families as sorted tuples; one per orbit of coordinate permutations if reduce."""
    from itertools import permutations
    N = 1 << d
    perms = list(permutations(range(d)))
    tabs = [[sum(1 << p[i] for i in range(d) if x >> i & 1) for x in range(N)] for p in perms]
    for m in range(1, 1 << N):
        F = tuple(x for x in range(N) if m >> x & 1)
        # connected quick test: some element has a neighbour
        if len(F) > 1 and not any(x ^ (1 << i) in F for x in F[:1] for i in range(d)):
            continue
        if not well_graded(F, d):
            continue
        if reduce and any(sum(1 << t[x] for x in F) < m for t in tabs):
            continue
        yield F


def behaviour(ctx, what, M, states, tokens, reverse, action):
    """Compare every public view of medium M with tables."""
    ctx.t += 4
    S = list(M.states())
    ctx.check(len(S) == len(states) and set(S) == set(states), what, 'states', S)
    ctx.equal(sorted(map(repr, M)), sorted(map(repr, states)), what, 'iteration')
    ctx.equal(len(M), len(states), what, 'length')
    T = list(M.tokens())
    ctx.check(len(T) == len(set(T)) and set(T) == set(tokens), what, 'tokens', T, 'expected', tokens)
    for t in tokens:
        ctx.equal(M.reverse(t), reverse(t), what, 'reverse of', t)
    for s in states:
        row = M[s]
        for t in tokens:
            ctx.t += 3
            w = action(s, t)
            if M.action(s, t) != w or M(s, t) != w or row[t] != w:
                ctx.check(False, what, 'action of', t, 'on', s, 'is', M.action(s, t), M(s, t), row[t], 'expected', w)


def routes(ctx, what, M, dist):
    """dist[s][t] for states; follow the routing table."""
    m = lib('medium')
    R = m.RoutingTable(M)
    ctx.t += 1
    for s in dist:
        for t in dist:
            if s == t:
                continue
            cur, used, k = s, set(), 0
            while cur != t:
                ctx.t += 1
                ctx.check((cur, t) in R, what, 'no route from', cur, 'to', t)
                tok = R[cur, t]
                ctx.check(tok not in used and M.reverse(tok) not in used, what, 'route from', s, 'to', t, 'reuses token', tok)
                used.add(tok)
                nx = M.action(cur, tok)
                ctx.check(nx != cur, what, 'token', tok, 'not effective at', cur)
                cur = nx
                k += 1
                if k > len(dist):
                    break
            ctx.equal(k, dist[s][t], what, 'length of route from', s, 'to', t)
    H = m.HypercubeEmbedding(M)
    ctx.t += 1
    ctx.equal(set(H), set(dist), what, 'embedded states')
    for s in dist:
        for t in dist:
            ctx.equal(bin(H[s] ^ H[t]).count('1'), dist[s][t], what, 'embedded distance of', s, t)


def family(ctx, F, d):
    m = lib('medium')
    ctx.case(F, d)
    Fs = set(F)
    tokens = [(i, b) for i in range(d) for b in (False, True)]
    reverse = lambda t: (t[0], not t[1])

    def action(s, t):
        v = s | 1 << t[0] if t[1] else s & ~(1 << t[0])
        return v if v in Fs else s
    B = m.BitvectorMedium(F, d)
    dist = {s: {t: bin(s ^ t).count('1') for t in F} for s in F}
    behaviour(ctx, 'bit vectors', B, F, tokens, reverse, action)
    routes(ctx, 'bit vectors', B, dist)
    E = m.ExplicitMedium(B)
    behaviour(ctx, 'explicit', E, F, tokens, reverse, action)
    G = m.StateTransitionGraph(B)
    ctx.t += 1
    ctx.equal({s: dict(G[s]) for s in G}, {s: {action(s, t): t for t in tokens if action(s, t) != s} for s in F}, 'transition graph')
    L = m.LabeledGraphMedium(G)
    eff = [t for t in tokens if any(action(s, t) != s for s in F)]
    behaviour(ctx, 'labelled graph', L, F, eff, reverse, action)
    routes(ctx, 'labelled graph', L, dist)
    X = m.ExplicitMedium(L)
    behaviour(ctx, 'explicit labelled graph', X, F, eff, reverse, action)
    routes(ctx, 'explicit labelled graph', X, dist)
    # opaque states and tokens
    ut = {t: Uobj(100 + k) for k, t in enumerate(tokens)}
    us = {s: Uobj(k) for k, s in enumerate(F)}
    LU = m.LabeledGraphMedium({us[s]: {us[t]: ut[k] for t, k in G[s].items()} for s in G})
    behaviour(ctx, 'opaque', LU, [us[s] for s in F], [ut[t] for t in eff], lambda u: ut[reverse(next(t for t in tokens if ut[t] == u))],
              lambda s, u: us[action(next(x for x in F if us[x] == s), next(t for t in tokens if ut[t] == u))])
    routes(ctx, 'opaque', LU, {us[s]: {us[t]: dist[s][t] for t in F} for s in F})
    ctx.outcome(len(F))


def small(ctx, d, reduce, i, k):
    for F in shard(families(d, reduce), i, k):
        family(ctx, F, d)


def larger(ctx, names):
    for name in names:
        kindname, d = name
        if kindname == 'cube':
            F = range(1 << d)
        elif kindname == 'chain':
            F = [(1 << j) - 1 for j in range(d + 1)]
        elif kindname == 'star':
            F = [0] + [1 << j for j in range(d)]
        elif kindname == 'nochain':      # no two adjacent ones: Fibonacci cube
            F = [x for x in range(1 << d) if not x & x >> 1]
        elif kindname == 'cyc':          # even cycle C_2d
            F = [((1 << j) - 1) for j in range(d)] + [((1 << d) - 1) ^ ((1 << j) - 1) for j in range(d)]
        elif kindname == 'convex':       # intervals of a line
            F = sorted({((1 << b) - 1) ^ ((1 << a) - 1) for a in range(d + 1) for b in range(a, d + 1)})
        elif kindname == 'perm':         # linear orders of d things by inversion sets
            from itertools import permutations
            P = list(combinations(range(d), 2))
            F = [sum(1 << j for j, (a, b) in enumerate(P) if p.index(a) > p.index(b)) for p in permutations(range(d))]
            d = len(P)
        F = list(F)
        if kindname == 'cyc':
            # order the ring so that consecutive sets differ by one
            F = [((1 << j) - 1) for j in range(d + 1)] + [((1 << d) - 1) ^ ((1 << j) - 1) for j in range(1, d)]
        if not well_graded(F, d):
            ctx.check(False, 'harness: family is not well graded', name)
        family(ctx, F, d)


GRAPHS = {'edge': [(0, 1)], 'path3': [(0, 1), (1, 2)], 'path4': [(0, 1), (1, 2), (2, 3)], 'star': [(0, 1), (0, 2), (0, 3)], 'square': [(0, 1), (1, 2), (2, 3), (0, 3)],
          'triangle': [(0, 1), (1, 2), (0, 2)], 'two': [(0, 1), (2, 3)]}


def labellings(ctx, name, ntok):
    """Every assignment of tokens to the two directions of every edge (a token is never its own reverse on one edge)."""
    m = lib('medium')
    E = GRAPHS[name]
    n = max(max(e) for e in E) + 1
    two = [(a, b) for a in range(ntok) for b in range(ntok) if a != b]
    for lab in product(two, repeat=len(E)):
        G = {v: {} for v in range(n)}
        for (u, v), (a, b) in zip(E, lab):
            G[u][v] = 'abcdef'[a]
            G[v][u] = 'abcdef'[b]
        ctx.case(G)
        labelled(ctx, G)


def labelled(ctx, G):
    """A graph with a token on every directed edge: refused if tokens are ambiguous or reversals do not match, routed if it is a medium."""
    m = lib('medium')
    ambiguous = any(len(set(G[v].values())) != len(G[v]) for v in G)
    rel = {}
    bad = any(rel.setdefault(G[u][v], G[v][u]) != G[v][u] for u in G for v in G[u])
    if ambiguous or bad:
        ctx.raises(m.MediumError, m.LabeledGraphMedium, G)
        ctx.outcome(ambiguous, bad)
        return
    L = m.LabeledGraphMedium(G)
    behaviour(ctx, 'labelled graph', L, list(G), list(rel), rel.__getitem__, lambda s, t: next((w for w in G[s] if G[s][w] == t), s))
    dist = {}
    for s in G:
        D, todo, used = {s: 0}, [s], {s: frozenset()}
        for x in todo:
            for y in G[x]:
                if y not in D:
                    D[y] = D[x] + 1
                    used[y] = used[x] | {G[x][y]}
                    todo.append(y)
        dist[s] = D, used
    connected = all(len(D) == len(G) for D, used in dist.values())
    good = connected
    if connected:
        for s in G:
            D, used = dist[s]
            # shortest paths use each token once, never with its reverse, and every edge adds or takes away its own token
            good = good and all(len(used[t]) == D[t] and not any(rel[k] in used[t] for k in used[t]) for t in G)
            good = good and all(used[v] == used[u] | {G[u][v]} and G[v][u] not in used[u] if D[v] > D[u] else used[u] == used[v] | {G[v][u]} and D[v] < D[u] for u in G for v in G[u])
        if good:
            routes(ctx, 'labelled graph', L, {s: dist[s][0] for s in G})
        else:
            try:        # not a medium: may be noticed
                m.RoutingTable(L)
            except m.MediumError:
                pass
    ctx.outcome(ambiguous, bad, connected, good)


def chain_graph(n):
    return {s: {**({s - 1: ('-', s)} if s else {}), **({s + 1: ('+', s + 1)} if s < n else {})} for s in range(n + 1)}


def star_graph(n):
    G = {s: {0: ('-', s)} for s in range(1, n + 1)}
    G[0] = {s: ('+', s) for s in range(1, n + 1)}
    return G


def ring_graph(n):
    """An even cycle of 2n states; opposite edges carry the same tokens in opposite directions of travel."""
    G = {s: {} for s in range(2 * n)}
    for s in range(2 * n):
        t = (s + 1) % (2 * n)
        G[s][t] = ('+-'[s >= n], s % n)
        G[t][s] = ('-+'[s >= n], s % n)
    return G


def grid_graph(a, b):
    G = {(x, y): {} for x in range(a) for y in range(b)}
    for x, y in G:
        if x + 1 < a:
            G[x, y][x + 1, y], G[x + 1, y][x, y] = ('x', x, 1), ('x', x, 0)
        if y + 1 < b:
            G[x, y][x, y + 1], G[x, y + 1][x, y] = ('y', y, 1), ('y', y, 0)
    return G


def spoiled(ctx, name, i, k):
    """A larger medium and every copy with the token of one edge direction replaced, or the tokens of one edge exchanged or renewed."""
    kindname, *args = name
    G = {'chain': chain_graph, 'star': star_graph, 'ring': ring_graph, 'grid': grid_graph}[kindname](*args)
    toks = sorted({t for u in G for t in G[u].values()}, key=repr)
    todo = [None] + [(u, v, t) for u in G for v in G[u] for t in toks[:2] + toks[-2:] + toks[len(toks) // 2:][:2] + ['new', 'swap', 'renew']]
    for c in shard(todo, i, k):
        H = {u: dict(G[u]) for u in G}
        ctx.case(name, c)
        if c:
            u, v, t = c
            if t == 'swap':
                H[u][v], H[v][u] = H[v][u], H[u][v]
            elif t == 'renew':
                H[u][v], H[v][u] = 'new', 'wen'
            else:
                if H[v][u] == t:
                    continue
                H[u][v] = t
        labelled(ctx, H)


def twins(ctx):
    """Media with a second token of the same effect: the transition graph has two actions between two states."""
    m = lib('medium')
    for name, args in (('chain', (3,)), ('chain', (12,)), ('chain', (33,)), ('star', (5,)), ('star', (17,)), ('ring', (9,)), ('grid', (4, 5))):
        G = {'chain': chain_graph, 'star': star_graph, 'ring': ring_graph, 'grid': grid_graph}[name](*args)
        L = m.LabeledGraphMedium(G)
        for t in list(L.tokens()):
            class Twin(m.Medium):
                def states(self):
                    return L.states()

                def tokens(self):
                    return iter(list(L.tokens()) + ['twin', 'niwt'])

                def reverse(self, x):
                    return {'twin': 'niwt', 'niwt': 'twin'}.get(x) or L.reverse(x)

                def action(self, s, x):
                    return L.action(s, {'twin': t, 'niwt': L.reverse(t)}.get(x, x))
            ctx.case(name, args, t)
            ctx.raises(m.MediumError, m.StateTransitionGraph, Twin())


def refused(ctx):
    m = lib('medium')
    for G in ({0: {1: 'a'}, 1: {}}, {0: {1: 'a'}, 1: {0: 'b', 2: 'c'}, 2: {}}, {0: {0: 'a'}}):
        ctx.case(G)
        ctx.raises(m.MediumError, m.LabeledGraphMedium, G)
    # two tokens with the same effect

    class Twin(m.Medium):
        def states(self):
            return iter((0, 1))

        def tokens(self):
            return iter('abAB')

        def reverse(self, t):
            return t.swapcase()

        def action(self, s, t):
            return 1 if t in 'ab' else 0
    ctx.case('twin')
    ctx.raises(m.MediumError, m.StateTransitionGraph, Twin())


def units(tier):
    q = tier == 'quick'
    U = [('d%d' % d, small, dict(d=d, reduce=False, i=0, k=1)) for d in (0, 1, 2)]
    U += [('d3-%d' % i, small, dict(d=3, reduce=False, i=i, k=4)) for i in range(4)]
    U += [('d4-%d' % i, small, dict(d=4, reduce=False, i=i, k=16)) for i in range(16)]
    big = [('cube', 5), ('cube', 6), ('chain', 12), ('chain', 40), ('star', 9), ('nochain', 7), ('cyc', 3), ('cyc', 4), ('cyc', 7), ('cyc', 12), ('cyc', 33), ('chain', 70), ('star', 66), ('convex', 6), ('convex', 8),
           ('perm', 3), ('perm', 4)]
    for n in big:
        U.append(('%s%d' % n, larger, dict(names=[n])))
    for g, k in (('edge', 6), ('path3', 6), ('path4', 4), ('star', 4), ('square', 4), ('triangle', 5), ('two', 6)):
        U.append(('lab-' + g, labellings, dict(name=g, ntok=k)))
    for n in (('chain', 4), ('chain', 14), ('star', 13), ('ring', 3), ('ring', 8), ('grid', 4, 4), ('grid', 2, 8)):
        U += [('spoiled-%s-%d' % ('-'.join(map(str, n)), i), spoiled, dict(name=n, i=i, k=4)) for i in range(4)]
    U.append(('twins', twins, {}))
    U.append(('refused', refused, {}))
    return U
