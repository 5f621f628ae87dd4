"""C09 depth-first and breadth-first traversal."""
from collections import Counter
from mc.core import lib
from mc.gen import digraphs, kind, rename, contain, usource, build, variants, path, cycle, star, complete, bintree, grid, large_digraphs

RULE = ('all labelled digraphs with loops on <=4 vertices (5 without loops, thorough), every start vertex; each event stream is replayed by a stack automaton; '
        'BFS layers against distances')


def replay_dfs(ctx, G, events, starts):
    dfs = lib('dfs')
    visited, stack, exam = set(), [], []
    roots = []
    for v, w, t in events:
        ctx.t += 1
        if not stack:
            ctx.check(v == w and t == dfs.forward and v not in visited, 'tree must start with a fresh root, got', (v, w, t))
            visited.add(v)
            roots.append(v)
            stack.append(v)
            exam.append(Counter())
            continue
        if t == dfs.forward:
            ctx.check(v == stack[-1] and w in G[v] and w not in visited, 'bad forward event', (v, w))
            exam[-1][w] += 1
            visited.add(w)
            stack.append(w)
            exam.append(Counter())
        elif t == dfs.nontree:
            ctx.check(v == stack[-1] and w in G[v] and w in visited, 'bad nontree event', (v, w))
            exam[-1][w] += 1
        else:
            ctx.check(t == dfs.reverse, 'unknown event type', t)
            x = stack.pop()
            ctx.check(w == x and v == (stack[-1] if stack else x), 'bad reverse event', (v, w))
            ctx.check(exam.pop() == Counter(list(G[x])), 'edges of', x, 'not examined exactly once')
    ctx.check(not stack, 'traversal ended inside a tree')
    return roots, visited


def reachset(G, s):
    seen, todo = {s}, [s]
    while todo:
        for w in G[todo.pop()]:
            if w not in seen:
                seen.add(w)
                todo.append(w)
    return seen


def layers(G, s):
    seen, cur, out = {s}, {s}, []
    while cur:
        nxt = set()
        for v in cur:
            nxt |= {w for w in G[v] if w not in seen}
        out.append({v: {w for w in G[v] if w in nxt} for v in cur})
        seen |= nxt
        cur = nxt
    return out


def one(ctx, G, starts=None, pairs=True):
    dfs, bfs = lib('dfs'), lib('bfs')
    ev = list(dfs.search(G))
    roots, seen = replay_dfs(ctx, G, ev, None)
    ctx.equal(seen, set(G), 'visited vertices')
    ctx.equal(list(dfs.preorder(G)), [w for v, w, t in ev if t == dfs.forward], 'preorder')
    ctx.equal(list(dfs.postorder(G)), [w for v, w, t in ev if t == dfs.reverse], 'postorder')
    log = []

    class S(dfs.Searcher):
        def preorder(self, p, c):
            log.append((p, c, dfs.forward))

        def postorder(self, p, c):
            log.append((p, c, dfs.reverse))

        def backedge(self, p, c):
            log.append((p, c, dfs.nontree))
    S(G)
    ctx.equal(log, ev, 'callbacks')
    ctx.outcome(len(roots), len(ev))
    dfs.Searcher(G)
    for s in (G if starts is None else starts):
        R = reachset(G, s)
        ev = list(dfs.search(G, s))
        roots, seen = replay_dfs(ctx, G, ev, [s])
        ctx.equal(roots, [s], 'roots')
        ctx.equal(seen, R, 'vertices visited from', s)
        ctx.equal(list(dfs.preorder(G, s)), [w for v, w, t in ev if t == dfs.forward], 'preorder from', s)
        ctx.equal(list(dfs.postorder(G, s)), [w for v, w, t in ev if t == dfs.reverse], 'postorder from', s)
        if pairs:
            for t in G:
                ctx.t += 1
                ctx.equal(bool(dfs.reachable(G, s, t)), t in R, 'reachable', (s, t))
        want = layers(G, s)
        n = 0
        for L in bfs.breadth_first_levels(G, s):
            ctx.check(n < len(want), 'too many BFS layers')
            ctx.equal({v: set(L[v]) for v in L}, want[n], 'BFS layer', n, 'from', s)
            ctx.t += 1
            n += 1
        ctx.equal(n, len(want), 'number of BFS layers from', s)


def small(ctx, n, loops, i, k, full):
    for G0 in digraphs(n, loops, i, k):
        for vk, c in ([('int', 'list')] + ([('U', 'set'), ('mix', 'dict'), ('str', 'tuple'), ('neg', 'frozenset')] if full else [])):
            G = contain(rename(G0, kind(vk)), c)
            ctx.case(G)
            one(ctx, G)
        if full:
            G = {v: list(reversed(G0[v])) for v in reversed(list(G0))}
            ctx.case(G)
            one(ctx, G)


def undirected(ctx, spec, full=False):
    for n, E in usource(spec):
        for var in variants(n, full):
            if n > 10 and var[0] == 'mix':
                continue
            G = build(n, E, var)
            ctx.case(G)
            one(ctx, G, starts=list(G)[:3] if n > 8 else None, pairs=n <= 8)


def large(ctx, i, k):
    for j, (name, G) in enumerate(large_digraphs()):
        if j % k == i:
            ctx.case(name)
            one(ctx, G, starts=list(G)[:3] + list(G)[-2:], pairs=name[2] == 2)


def deep(ctx, n):
    for name, G in [
        ('directed path', {i: [i + 1] if i + 1 < n else [] for i in range(n)}),
        ('reversed path', {i: [i - 1] if i else [] for i in range(n)}),
        ('directed cycle', {i: [(i + 1) % n] for i in range(n)}),
        ('two way path', {i: [j for j in (i - 1, i + 1) if 0 <= j < n] for i in range(n)}),
        ('star', {i: list(range(1, n)) if i == 0 else [] for i in range(n)}),
        ('in-star', {i: [0] for i in range(n)}),
        ('skip', {i: [j for j in (i + 3, i + 1, i - 7) if 0 <= j < n] for i in range(n)}),
        ('isolated', {i: [] for i in range(n)}),
    ]:
        ctx.case(name, n)
        one(ctx, G, starts=[0, n // 2, n - 1], pairs=False)
        ctx.equal(bool(lib('dfs').reachable(G, 0, n - 1)), n - 1 in reachset(G, 0), 'reachable end')
        ctx.equal(bool(lib('dfs').reachable(G, n - 1, 0)), 0 in reachset(G, n - 1), 'reachable start')


def units(tier):
    q = tier == 'quick'
    U = [('n%d' % n, small, dict(n=n, loops=True, i=0, k=1, full=True)) for n in range(4)]
    U += [('n4-%d' % i, small, dict(n=4, loops=True, i=i, k=16, full=False)) for i in range(16)]
    if not q:
        U += [('n5-%d' % i, small, dict(n=5, loops=False, i=i, k=64, full=False)) for i in range(64)]
        U += [('lab6-%d' % i, undirected, dict(spec='lab6:%d:8' % i)) for i in range(8)]
    U.append(('lab5', undirected, dict(spec='lab<=5', full=True)))
    U.append(('cls6', undirected, dict(spec='aff6')))
    U.append(('cls7', undirected, dict(spec='cls7')))
    U.append(('fam', undirected, dict(spec='fambig')))
    U += [('large-%d' % i, large, dict(i=i, k=4)) for i in range(4)]
    U.append(('deep', deep, dict(n=2500)))
    U.append(('deeper', deep, dict(n=20000)))
    return U
