"""Reference answers by definition.  Graphs here are (n, edge list) or dict adjacency."""
from itertools import combinations, permutations


def nbrs(n, edges):
    A = [set() for _ in range(n)]
    for u, v in edges:
        A[u].add(v)
        A[v].add(u)
    return A


def reach(G):
    """Reachability by at least one edge, dict v -> set."""
    R = {v: set(G[v]) for v in G}
    for k in R:
        rk = R[k]
        for v in R:
            if k in R[v]:
                R[v] |= rk
    # one Warshall pass with k outermost is exact
    return R


def components(n, edges, without=()):
    """Connected components (sets) of the graph minus some vertices."""
    A = nbrs(n, edges)
    seen = set(without)
    out = []
    for v in range(n):
        if v in seen:
            continue
        comp, todo = {v}, [v]
        seen.add(v)
        while todo:
            for w in A[todo.pop()]:
                if w not in seen:
                    seen.add(w)
                    comp.add(w)
                    todo.append(w)
        out.append(comp)
    return out


def blocks(n, edges):
    """Biconnected components as frozensets of edges (u<v) plus isolated vertices.

    Two edges sharing a vertex x are in the same block iff their other ends are connected in G - x
    (or equal); take the transitive closure.
    """
    E = sorted({(min(e), max(e)) for e in edges})
    par = {e: e for e in E}

    def find(e):
        while par[e] != e:
            e = par[e]
        return e
    inc = {v: [] for v in range(n)}
    for e in E:
        inc[e[0]].append(e)
        inc[e[1]].append(e)
    for x in range(n):
        if len(inc[x]) > 1:
            comp = {}
            for i, c in enumerate(components(n, E, (x,))):
                for v in c:
                    comp[v] = i
            first = {}
            for e in inc[x]:
                o = e[0] + e[1] - x
                k = comp[o]
                if k in first:
                    par[find(e)] = find(first[k])
                else:
                    first[k] = e
    cls = {}
    for e in E:
        cls.setdefault(find(e), set()).add(e)
    iso = [v for v in range(n) if not inc[v]]
    return {frozenset(c) for c in cls.values()}, iso


def is_bipartite(n, edges):
    col = {}
    A = nbrs(n, edges)
    for v in range(n):
        if v in A[v]:
            return False
    for s in range(n):
        if s in col:
            continue
        col[s] = 0
        todo = [s]
        while todo:
            v = todo.pop()
            for w in A[v]:
                if w not in col:
                    col[w] = 1 - col[v]
                    todo.append(w)
                elif col[w] == col[v]:
                    return False
    return True


def max_matching(n, edges):
    """Size of a maximum matching, DP over vertex subsets; above 16 vertices the upper bounds n/2 and, for bipartite graphs, the
    smaller number of non-isolated vertices of a side are tried first with a greedy matching."""
    A = [0] * n
    for u, v in edges:
        if u != v:
            A[u] |= 1 << v
            A[v] |= 1 << u
    if n > 16:
        side, ok = {}, True
        for r in range(n):
            if r not in side:
                side[r], todo = 0, [r]
                for v in todo:
                    for w in range(n):
                        if A[v] >> w & 1:
                            if w not in side:
                                side[w] = 1 - side[v]
                                todo.append(w)
                            ok = ok and side[w] != side[v]
        top = n // 2
        if ok:
            top = min(top, *(sum(1 for v in range(n) if A[v] and side[v] == s) for s in (0, 1)))
        free, size = (1 << n) - 1, 0
        while True:     # a free vertex with fewest free neighbours, matched to such a neighbour
            deg = {v: bin(A[v] & free).count('1') for v in range(n) if free >> v & 1 and A[v] & free}
            if not deg:
                break
            v = min(deg, key=lambda x: (deg[x], x))
            w = min((w for w in range(n) if A[v] & free & 1 << w), key=lambda x: (deg[x], x))
            free &= ~(1 << v | 1 << w)
            size += 1
        if size == top:
            return size
    memo = {0: 0}
    # a vertex of degree one may always be matched to its neighbour
    live, extra = (1 << n) - 1, 0
    todo = list(range(n))
    while todo:
        v = todo.pop()
        m = A[v] & live
        if live >> v & 1 and m and m & (m - 1) == 0:
            w = m.bit_length() - 1
            extra += 1
            live &= ~(1 << v | 1 << w)
            todo += [x for x in range(n) if A[w] >> x & 1]

    def f(S):
        r = memo.get(S)
        if r is None:
            v = S.bit_length() - 1
            T = S & ~(1 << v)
            r = f(T)
            m = A[v] & T
            while m:
                b = m & -m
                m ^= b
                x = 1 + f(T & ~b)
                if x > r:
                    r = x
            memo[S] = r
        return r
    return extra + f(live)


def is_chordal(n, edges):
    """Repeatedly delete simplicial vertices (exact characterization; order irrelevant)."""
    A = nbrs(n, edges)
    live = set(range(n))
    while live:
        for v in live:
            N = [w for w in A[v] if w in live]
            if all(b in A[a] for a, b in combinations(N, 2)):
                live.discard(v)
                break
        else:
            return False
    return True


def distances(n, edges):
    A = nbrs(n, edges)
    D = []
    for s in range(n):
        d = {s: 0}
        lev = [s]
        while lev:
            nxt = []
            for v in lev:
                for w in A[v]:
                    if w not in d:
                        d[w] = d[v] + 1
                        nxt.append(w)
            lev = nxt
        D.append([d.get(v) for v in range(n)])
    return D


def is_partial_cube(n, edges):
    """Connected, bipartite, and the Djokovic relation is transitive (Winkler)."""
    if n == 0:
        return False
    D = distances(n, edges)
    if any(x is None for x in D[0]):
        return False
    if not is_bipartite(n, edges):
        return False
    E = [tuple(e) for e in edges]
    rel = {}
    for (x, y) in E:
        rel[x, y] = frozenset((u, v) for (u, v) in E
                              if D[x][u] + D[y][v] != D[x][v] + D[y][u])
    for e in E:
        for f in rel[e]:
            if rel[f] != rel[e]:
                return False
    return True


def degeneracy(n, edges):
    A = nbrs(n, edges)
    live = set(range(n))
    d = 0
    while live:
        v = min(live, key=lambda v: len(A[v] & live))
        d = max(d, len(A[v] & live))
        live.discard(v)
    return d


def core(n, edges, k):
    A = nbrs(n, edges)
    live = set(range(n))
    ch = True
    while ch:
        ch = False
        for v in list(live):
            if len(A[v] & live) < k:
                live.discard(v)
                ch = True
    return live


def acyclic(G):
    R = reach(G)
    return all(v not in R[v] for v in R)


def hamiltonian_cycles(n, edges):
    """Set of frozensets of edges."""
    A = nbrs(n, edges)
    out = set()
    if n < 3:
        return out
    if any(len(a) < 2 for a in A):
        return out
    trail = [0]
    used = {0}

    def rec():
        v = trail[-1]
        if len(trail) == n:
            if 0 in A[v] and trail[1] < v:
                out.add(frozenset((min(a, b), max(a, b)) for a, b in zip(trail, trail[1:] + [0])))
            return
        for w in A[v]:
            if w not in used:
                used.add(w)
                trail.append(w)
                rec()
                trail.pop()
                used.discard(w)
    rec()
    return out


def isomorphic(n, E1, E2):
    """Brute force with degree pruning (small n)."""
    A, B = nbrs(n, E1), nbrs(n, E2)
    if sorted(map(len, A)) != sorted(map(len, B)):
        return False
    m = {}

    def rec(i):
        if i == n:
            return True
        for w in range(n):
            if w not in m.values() and len(A[i]) == len(B[w]) and \
                    all((j in A[i]) == (m[j] in B[w]) for j in range(i)):
                m[i] = w
                if rec(i + 1):
                    return True
                del m[i]
        return False
    return rec(0)
