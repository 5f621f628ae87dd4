"""C51 arguments unchanged, results detached."""
import contextlib
import copy
import io
from itertools import combinations, islice, permutations, product
from mc.core import lib
from mc.gen import adj, digraphs, shard, usource
from mc import sudokuref as R

RULE = ('every function taking a graph on all labelled graphs <=4 (5 with lists) in four adjacency containers, on all digraphs <=3 and on cubic and Halin families; every function taking sequences, tables, matchings, trees or '
        'packings on all small ones; deep comparison of arguments after the call, after changing every mutable part of the result, and of the answers before and after that change')


def snap(x):
    """Deep, typed description of a value."""
    if isinstance(x, dict):
        return (type(x).__name__, sorted(((snap(k), snap(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted((snap(y) for y in x), key=repr))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y) for y in x])
    return repr(x)


def plain(x, depth=0):
    """Iterators become lists (bounded); everything else stays what it is."""
    if depth == 0 and hasattr(x, '__next__'):
        return list(islice(x, 60))
    return x


def spoil(x, seen=None):
    """Change every mutable container reachable in x."""
    seen = seen if seen is not None else set()
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, seen)
        for k in list(x)[:1]:
            del x[k]
        x['spoilt'] = 'spoilt'
    elif isinstance(x, list):
        for v in x:
            spoil(v, seen)
        if x:
            x[0] = 'spoilt'
        x.append('spoilt')
    elif isinstance(x, set):
        x.add('spoilt')
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, seen)


def run(fn, args, kw):
    try:
        r = fn(*args, **kw)
        return 'value', plain(r)
    except Exception as e:
        return 'error', type(e).__name__


def probe(ctx, label, fn, build, post=None, **kw):
    """build() makes fresh arguments; post turns a result object into plain data."""
    ctx.case(label, build() if ctx.n % 97 == 0 else '', state=False)
    args = build()
    ctx.cur = (label, repr(args)[:600])
    before = snap(args)
    ctx.t += 3
    k1, r1 = run(fn, args, kw)
    if snap(args) != before:
        ctx.check(False, 'arguments changed to', args)
    if post and k1 == 'value':
        r1 = plain(post(r1))
        if snap(args) != before:
            ctx.check(False, 'arguments changed by using the result to', args)
    ctx.outcome(label, k1)
    s1 = snap(r1)
    spoil(r1)
    if snap(args) != before:
        ctx.check(False, 'changing the result changed the arguments to', args)
    for again in (args, build()):
        k2, r2 = run(fn, again, kw)
        if post and k2 == 'value':
            r2 = plain(post(r2))
        if (k2, snap(r2)) != (k1, s1):
            ctx.check(False, 'after changing an earlier result the answer is', r2, 'instead of', s1)


CONT = {'list': list, 'set': set, 'tuple': tuple, 'dict': lambda s: {x: 1 for x in s}}


def undirected_functions():
    T = []

    def add(m, f, *rest, post=None, **kw):
        T.append((m, f, rest, post, kw))
    for f in ('is_bipartite', 'two_color', 'bipartition', 'bipartite_orientation', 'odd_core'):
        add('bipartite', f)
    for f in ('matching', 'greedy_matching'):
        add('cardinality_matching', f)
    for f in ('perfect_elimination_ordering', 'is_chordal'):
        add('chordal', f)
    for f in ('degeneracySequence', 'degeneracy', 'degeneracyOrientation', 'core', 'triangles'):
        add('graphdegeneracy', f)
    for f in ('is_halin', 'is_D3_reducible', 'halin_leaf_vertices', 'hamiltonian_cycle_D3', 'is_dual_3_tree', 'is_wheel', 'is_K4'):
        add('halin', f)
    for f in ('PartialCubeEdgeLabeling', 'PartialCubeLabeling', 'isPartialCube'):
        add('partial_cube', f)
    add('biconnectivity', 'BiconnectedComponents', post=list)
    add('biconnectivity', 'is_biconnected')
    add('biconnectivity', 'st_orientation')
    add('cubic_ham', 'hamiltonian_cycles')
    add('xyz_graph', 'CubicMatchPartitions')
    add('xyz_graph', 'xyzEmbeddings')
    add('lex_bfs', 'lex_bfs')
    for f in ('is_undirected', 'max_degree', 'min_degree', 'copy_graph', 'union'):
        add('graphs', f)
    add('dfs', 'search')
    add('dfs', 'preorder')
    add('dfs', 'postorder')
    return T


def larger():
    """Cubic, Halin and other structured graphs beyond the exhaustive bound."""
    yield 8, [(a, a ^ b) for a in range(8) for b in (1, 2, 4) if a < a ^ b]
    for n in (8, 10):
        yield n, [(a, (a + 1) % n) for a in range(n)] + [(a, a + n // 2) for a in range(n // 2)]
        h = n // 2
        yield n, [(a, (a + 1) % h) for a in range(h)] + [(h + a, h + (a + 1) % h) for a in range(h)] + [(a, a + h) for a in range(h)]
    for n in range(5, 9):
        yield n, [(0, a) for a in range(1, n)] + [(a, a % (n - 1) + 1) for a in range(1, n)]
    yield 8, [(0, 1), (0, 2), (0, 3), (1, 4), (1, 5), (3, 6), (3, 7), (4, 5), (5, 2), (2, 6), (6, 7), (7, 4)]
    yield 16, [(a, a ^ b) for a in range(16) for b in (1, 2, 4, 8) if a < a ^ b]


def undirected(ctx, spec, containers, i, k, only=None):
    fns = [(m + '.' + f, getattr(lib(m), f), rest, post, kw) for m, f, rest, post, kw in undirected_functions() if only is None or f in only]
    for n, E in shard(larger() if spec == 'larger' else usource(spec), i, k):
        ctx.s += 1
        for c in containers:
            G0 = adj(n, E)

            def build():
                return ({v: CONT[c](G0[v]) for v in G0},)
            for label, fn, rest, post, kw in fns:
                probe(ctx, label + ' ' + c, fn, build, post, **kw)
            if n:
                probe(ctx, 'bfs', lib('bfs').breadth_first_levels, lambda: build() + (0,))
                probe(ctx, 'induced', lib('graphs').induced_subgraph, lambda: ({0, n - 1},) + build())
                probe(ctx, 'induced', lib('graphs').induced_subgraph, lambda: ([0, n - 1],) + build() + (list,))
                probe(ctx, 'independent', lib('graphs').is_independent_set, lambda: ([0, n - 1],) + build())
                probe(ctx, 'union', lib('graphs').union, lambda: build() + build())
                probe(ctx, 'core', lib('graphdegeneracy').core, lambda: build() + (1,))


def initial_matchings(ctx, n, i, k):
    """Matchings passed in as a start."""
    M = lib('cardinality_matching')
    for nn, E in shard(usource('lab%d' % n), i, k):
        G0 = adj(nn, E)
        for size in range(len(E) + 1):
            for F in combinations(E, size):
                if len({v for e in F for v in e}) == 2 * size:
                    def build():
                        return (adj(nn, E), {a: b for e in F for a, b in (e, e[::-1])})
                    ctx.s += 1
                    probe(ctx, 'matching from a start', M.matching, build)
                    probe(ctx, 'greedy from a start', M.greedy_matching, build)


def directed(ctx, n, loops, containers, i, k):
    P, S = lib('partial_order'), lib('strong_connectivity')
    fns = [('partial_order.' + f, getattr(P, f), None) for f in ('TopologicalOrder', 'isAcyclic', 'TransitiveClosure', 'MinimumPathDecomposition', 'MinimumChainDecomposition', 'MaximumAntichain')]
    fns += [('scc', S.StronglyConnectedComponents, list), ('condensation', S.Condensation, None), ('search', lib('dfs').search, None), ('postorder', lib('dfs').postorder, None), ('copy', lib('graphs').copy_graph, None),
            ('max_degree', lib('graphs').max_degree, None), ('acyclic reachability', lib('acyclic_reachability').Reachability, lambda r: [r.reachable(a, b) for a in range(n) for b in range(n)])]
    for G0 in shard(digraphs(n, loops), i, k):
        ctx.s += 1
        for c in containers:
            def build():
                return ({v: CONT[c](G0[v]) for v in G0},)
            for label, fn, post in fns:
                probe(ctx, label + ' ' + c, fn, build, post)
            for v in range(n):
                probe(ctx, 'bfs ' + c, lib('bfs').breadth_first_levels, lambda: build() + (v,))
                probe(ctx, 'reachable ' + c, lib('dfs').reachable, lambda: build() + (v, 0))
            for L in permutations(range(n)):
                probe(ctx, 'isTopologicalOrder ' + c, P.isTopologicalOrder, lambda: build() + (list(L),))


def bipartite(ctx, a, b, containers, i, k):
    B = lib('bipartite_matching')
    for rows in shard(product(range(1 << b), repeat=a), i, k):
        ctx.s += 1
        for c in containers:
            def build():
                return ({('v', x): CONT[c](['w%d' % y for y in range(b) if rows[x] >> y & 1]) for x in range(a)},)
            probe(ctx, 'bipartite matching ' + c, B.matching, build)
            probe(ctx, 'imperfections ' + c, B.imperfections, build)


def implications(ctx, i, k):
    T, N = lib('two_satisfiability'), lib('_not').Not
    lits = [1, 2, N(1), N(2)]
    for masks in shard(product(range(16), repeat=4), i, k):
        ctx.s += 1
        c = list(CONT)[sum(masks) % 4]

        def build():
            return ({lits[j]: CONT[c]([lits[x] for x in range(4) if masks[j] >> x & 1]) for j in range(4) if masks[j]},)
        for f in ('Symmetrize', 'Satisfiable', 'Forced'):
            probe(ctx, f + ' ' + c, getattr(T, f), build)


def sequences(ctx, s, n, i, k):
    L, I, P = lib('lyndon'), lib('integer_partitions'), lib('permutations')
    A = lib('lca')
    for w in shard(product(range(s), repeat=n), i, k):
        ctx.s += 1
        W = list(w)

        def one():
            return (list(W),)
        for f in ('ChenFoxLyndon', 'ChenFoxLyndonBreakpoints', 'SmallestSuffix', 'SmallestRotation', 'isLyndonWord'):
            probe(ctx, f, getattr(L, f), one)
        probe(ctx, 'lis', lib('longest_increasing_subsequence').longest_increasing_subsequence, one)
        probe(ctx, 'lcs', lib('lcs').longest_common_subsequence, lambda: (list(W), list(reversed(W))))
        probe(ctx, 'conjugate', I.conjugate, lambda: (sorted((x + 1 for x in W), reverse=True),))
        if n:
            for cls in ('RangeMin', 'PrecomputedRangeMin', 'LogarithmicRangeMin'):
                probe(ctx, cls, getattr(A, cls), one, lambda r: [r[a:b] for a in range(n) for b in range(a + 1, n + 1)])
            probe(ctx, 'PrefixMinima', A.PrefixMinima, one)
            probe(ctx, 'PrefixMinima reversed', A.PrefixMinima, lambda: (list(W), True))
        if n <= 5:
            probe(ctx, 'partition refinement', lib('partition_refinement').PartitionRefinement, one, lambda r: sorted(sorted(x) for x in r))
            probe(ctx, 'sorted set', lib('sorted_set').SortedSet, one, lambda r: list(r))
            for c in (list, set, frozenset, tuple, dict.fromkeys):
                def held():
                    return (c(W),)
                probe(ctx, 'sorted set edited', lib('sorted_set').SortedSet, held, edit_sorted)
                probe(ctx, 'partition edited', lib('partition_refinement').PartitionRefinement, held, edit_partition)
                if len(set(W)) == n:
                    for q in (lib('sequence').Sequence, lib('ordered_sequence').SimpleOrderedSequence, lib('ordered_sequence').LogarithmicOrderedSequence):
                        probe(ctx, 'sequence edited', q, held, edit_sequence)
            independent(ctx, W)
            if len(set(W)) == n:
                probe(ctx, 'sequence', lib('sequence').Sequence, one, lambda r: list(r))
                probe(ctx, 'ordered sequence', lib('ordered_sequence').SimpleOrderedSequence, one, lambda r: list(r))
            probe(ctx, 'SJT', P.SteinhausJohnsonTrotter, one, lambda r: [list(x) for x in islice(r, 30)])
            probe(ctx, 'refine', lambda X: refine(X), one)
        if n == 4:
            probe(ctx, 'smawk', lambda rows, cols: lib('smawk').ConcaveMinima(rows, cols, lambda a, b: (a - b) ** 2), lambda: ([0, 1, 2], sorted(set(W))))


def edit_sorted(r):
    out = [list(r)]
    for x in (97, 98):
        r.add(x)
    out.append(list(r))
    for x in list(r)[:-1]:
        r.remove(x)
    return out + [list(r)]


def edit_partition(r):
    for x in list(range(4)):
        r.refine([x])
    return sorted(sorted(x) for x in r)


def edit_sequence(r):
    items = list(r)
    r.append(97)
    for x in items:
        r.remove(x)
    return list(r)


def independent(ctx, W):
    """Changing what an object was made from, afterwards, changes nothing in the object."""
    makers = [('SortedSet', lib('sorted_set').SortedSet, list), ('PartitionRefinement', lib('partition_refinement').PartitionRefinement, lambda r: sorted(sorted(x) for x in r))]
    if len(set(W)) == len(W):
        makers += [('Sequence', lib('sequence').Sequence, list), ('SimpleOrderedSequence', lib('ordered_sequence').SimpleOrderedSequence, list)]
    for name, make, show in makers:
        for c in (list, set, dict.fromkeys):
            ctx.case(name, 'made from', c.__name__, W, state=False)
            ctx.t += 2
            X = c(W)
            r = make(X)
            before = show(r)
            spoil(X)
            ctx.equal(show(r), before, 'contents after changing what it was made from')
            n = len(r)
            X.clear()
            ctx.equal((show(r), len(r)), (before, n), 'contents after emptying what it was made from')


def refine(X):
    P = lib('partition_refinement').PartitionRefinement(range(4))
    P.refine(X)
    P.refine(set(X[:1]))
    return sorted(sorted(x) for x in P)


def trees(ctx, n, i, k):
    A = lib('lca')
    for par in shard(product(*[range(v) for v in range(1, n)]), i, k):
        ctx.s += 1

        def build():
            return ({v + 1: p for v, p in enumerate(par)},)
        nodes = range(n)
        probe(ctx, 'LCA', A.LCA, build, lambda L: [L(a, b) for a in nodes for b in nodes])
        probe(ctx, 'LCA log', A.LCA, lambda: build() + (A.LogarithmicRangeMin,), lambda L: [L(a, b) for a in nodes for b in nodes])
        probe(ctx, 'OfflineLCA', A.OfflineLCA, lambda: build() + ([(0, n - 1), [1, n - 1]],), lambda L: [L[0][n - 1], L[1][n - 1]])


def weighted(ctx, n, i, k):
    M = lib('minimum_spanning_tree')
    pairs = list(combinations(range(n), 2))
    for ws in shard(product((None, 1, 2), repeat=len(pairs)), i, k):
        ctx.s += 1

        def build():
            G = {v: {} for v in range(n)}
            for (a, b), w in zip(pairs, ws):
                if w is not None:
                    G[a][b] = G[b][a] = w
            return (G,)
        probe(ctx, 'MST', M.MinimumSpanningTree, build)


def packings(ctx):
    C = lib('circle_pack')
    for a, b, c in product((1, 2, 0.5), repeat=3):
        ctx.s += 1

        def build():
            return ({0: [1, 2, 3]}, {1: a, 2: b, 3: c})
        probe(ctx, 'circle_pack', C.circle_pack, build)

        def two():
            return ({0: [1, 2, 'm'], 'm': [0, 2, 3, 1]}, {1: a, 2: b, 3: c})
        probe(ctx, 'circle_pack', C.circle_pack, two)
        pk = C.circle_pack(*two())
        probe(ctx, 'NormalizePacking', C.NormalizePacking, lambda: (dict(pk),))
        probe(ctx, 'NormalizePacking k', C.NormalizePacking, lambda: (dict(pk), 1, 2.0))
        probe(ctx, 'InvertPacking', C.InvertPacking, lambda: (dict(pk), 0.1 + 9j))
        probe(ctx, 'InvertAround', C.InvertAround, lambda: (dict(pk), 1))
        probe(ctx, 'InvertAround small', C.InvertAround, lambda: (dict(pk), 1, [2, 3]))


def sudokus(ctx, i, k):
    S = lib('sudoku')
    for h in shard(R.HARD + [R.EASY, R.CYCLIC], i, k):
        for form in (list, lambda g: [[g[c], c] for c in range(81) if g[c]]):
            ctx.s += 1

            def build():
                return (form(h),)
            probe(ctx, 'Sudoku', S.Sudoku, build, lambda g: list(g))
            probe(ctx, 'all_solutions', lambda x: [list(g) for g in S.all_solutions(S.Sudoku(x))], build)
        ctx.case('copy of a grid', R.text(h))
        g = S.Sudoku(h)
        g2 = ctx.call(S.Sudoku, g)
        before = (list(g), [g.choices(c) for c in range(81)])
        try:
            for _ in range(20):
                if not S.step(g2, True):
                    break
        except S.BadSudoku:
            pass
        ctx.equal((list(g), [g.choices(c) for c in range(81)]), before, 'grid after solving a copy of it')
        ch = g.choices(0)
        ch.append(99)
        ctx.equal(g.choices(0), ch[:-1], 'choices after changing an earlier answer')
        S.permute(g)
        for f in ('text', 'numeric', 'html', 'svg'):
            with contextlib.redirect_stdout(io.StringIO()):
                S.output_formats[f](g)
        ctx.equal((list(g), [g.choices(c) for c in range(81)]), before, 'grid after permuting and writing it')


def media(ctx, spec, i, k):
    PC, M = lib('partial_cube'), lib('medium')
    for n, E in shard(usource(spec), i, k):
        G = adj(n, E)
        try:
            med = PC.MediumForPartialCube(G)
        except Exception:
            continue
        ctx.s += 1

        def describe(m):
            return {repr(s): {repr(t): repr(m.action(s, t)) for t in m.tokens()} for s in m.states()}
        want = describe(med)
        for name in ('StateTransitionGraph', 'RoutingTable', 'HypercubeEmbedding'):
            ctx.case(name, n, E, state=False)
            r = ctx.call(getattr(M, name), med)
            s1 = snap(r)
            ctx.equal(describe(med), want, 'medium after', name)
            spoil(r)
            ctx.equal(describe(med), want, 'medium after changing the result of', name)
            ctx.equal(snap(ctx.call(getattr(M, name), med)), s1, 'second answer of', name)

        probe(ctx, 'ExplicitMedium', M.ExplicitMedium, lambda: (med,), describe)
        probe(ctx, 'BitvectorMedium', M.BitvectorMedium, lambda: ([x for x in range(1 << 3)], 3), describe)


def automata(ctx, i, k):
    A = lib('automata')
    for bits in shard(product(range(4), repeat=4), i, k):
        ctx.s += 1

        def build():
            t = {(s, c): {x for x in range(2) if bits[2 * s + j] >> x & 1} for s in range(2) for j, c in enumerate('ab')}
            return ({'a', 'b'}, {0}, t, {1})
        words = [''.join(w) for n in range(4) for w in product('ab', repeat=n)]
        probe(ctx, 'LookupNFA', A.LookupNFA, build, lambda N: [N(w) for w in words])
        al, ini, t, fin = build()
        want = [A.LookupNFA(al, ini, t, fin)(w) for w in words]
        for c in (list, tuple, set, frozenset, dict.fromkeys, iter):
            ctx.case('states given as', c.__name__, bits, state=False)
            al, ini, t, fin = build()
            ini, fin = c(list(ini)), c(list(fin))
            ctx.t += 1
            N = ctx.call(A.LookupNFA, al, ini, t, fin)
            ctx.equal([N(w) for w in words], want, 'answers')
            if hasattr(ini, 'clear'):
                spoil(ini), spoil(fin)
                ini.clear(), fin.clear()
            ctx.equal([N(w) for w in words], want, 'answers after changing the lists of states')
        for op in ('minimize', 'reverse', 'complement', 'renumber', 'asDFA', 'asNFA'):
            probe(ctx, op, lambda *a: A.LookupNFA(*a), build, lambda N: [getattr(N, op)()(w) for w in words] + [N(w) for w in words])
        for op in ('union', 'intersection', 'symmetricDifference'):
            probe(ctx, op, lambda *a: A.LookupNFA(*a), build, lambda N: [getattr(N, op)(A.LookupNFA(*build()))(w) for w in words] + [N(w) for w in words])
        N = A.LookupNFA(*build())
        before = (snap(N.alphabet), snap(N.initial), snap(N.ttable), snap(N.final))
        ctx.case('derived automata', bits, state=False)
        ctx.t += 5
        D = N.asDFA()
        N.minimize()
        N.reverse()
        N.complement()
        str(N.RegExp())
        N.language() == N.language()
        ctx.equal((snap(N.alphabet), snap(N.initial), snap(N.ttable), snap(N.final)), before, 'automaton after deriving others')


def styles(ctx):
    S = lib('svg')
    for style in ({}, {'fill': 'red'}, {'fill': 'red', 'stroke': 'blue'}):
        for more in ({}, {'fill': 'green'}, {'opacity': '1'}):
            for name, args in (('circle', (1 + 1j, 2)), ('rectangle', (0, 1 + 1j)), ('segment', (0, 1j)), ('polygon', ([0, 1, 1j],)), ('text', ('x', 1j)), ('group', ()), ('arc', (0, 1j, 2))):
                def call(st, pts):
                    out = io.StringIO()
                    svg = S.SVG(9 + 9j, out)
                    getattr(svg, name)(*pts, style=st, **more)
                    getattr(svg, name)(*pts)
                    return out.getvalue()
                ctx.s += 1
                probe(ctx, 'svg ' + name, call, lambda: (dict(style), [copy.copy(a) for a in args]))


def readers(ctx):
    F = lib('read_undirected_graph')
    for lines in (['a b', 'b c'], ['a:b c', 'b:c'], ['DQc'], [':Fa@x^'], ['LEDA.GRAPH', 'string', 'void', '2', '|{}|', '|{}|', '1', '1 2 0 |{}|']):
        ctx.s += 1
        probe(ctx, 'reader', F.readUndirectedGraph, lambda: (list(lines),))


def hooks(ctx):
    H = lib('halin')
    K = {0: [1, 2, 3], 1: [0, 2, 3], 2: [0, 1, 3], 3: [0, 1, 2]}
    W = {0: [1, 2, 3, 4], 1: [0, 2, 4], 2: [0, 1, 3], 3: [0, 2, 4], 4: [0, 1, 3]}
    PR = {0: [1, 2, 3], 1: [0, 2, 4], 2: [0, 1, 5], 3: [4, 5, 0], 4: [3, 5, 1], 5: [3, 4, 2]}

    def yes(*a):
        return True

    def no(*a):
        return False
    for G in (K, W, PR):
        for f in ('is_halin', 'is_D3_reducible', 'is_dual_3_tree', 'is_wheel'):
            for th, ph in product(([], [yes], [no], [yes, yes]), repeat=2):
                ctx.s += 1
                probe(ctx, f + ' with hooks', getattr(H, f), lambda: (copy.deepcopy(G), list(th), list(ph)))
                probe(ctx, f, getattr(H, f), lambda: (copy.deepcopy(G),))


def labels(ctx, i, k):
    """Graphs with edge labels for the repetition analysis."""
    Rp = lib('repetitivity')
    pairs = [(0, 1), (0, 2), (1, 2)]
    opts = [(), ('a',), ('b',), ('a', 'b')]
    for ls in shard(product(opts, repeat=3), i, k):
        ctx.s += 1

        def build():
            G = {0: {}, 1: {}, 2: {}}
            for (a, b), l in zip(pairs, ls):
                if l:
                    G[a][b] = set(l)
                    G[b][a] = set(l)
            return (G,)
        probe(ctx, 'NonrepetitiveGraph', Rp.NonrepetitiveGraph, build, lambda r: [sorted(map(repr, r.cyclic()))] + [sorted(map(repr, r.reachable(v, l))) for v in range(3) for l in 'ab'])


def units(tier):
    q = tier == 'quick'
    U = []
    allc = list(CONT)
    for i in range(2):
        U.append(('lab<=4-%d' % i, undirected, dict(spec='lab<=4', containers=allc, i=i, k=2)))
    for i in range(8):
        U.append(('lab5-%d' % i, undirected, dict(spec='lab5', containers=['list', 'set'], i=i, k=8 if not q else 16)))
    cubic = ['hamiltonian_cycles', 'CubicMatchPartitions', 'xyzEmbeddings', 'is_halin', 'hamiltonian_cycle_D3', 'is_D3_reducible', 'halin_leaf_vertices', 'matching', 'is_dual_3_tree', 'is_wheel', 'PartialCubeLabeling', 'st_orientation']
    U.append(('larger', undirected, dict(spec='larger', containers=allc, i=0, k=1, only=cubic)))
    for i in range(4):
        U.append(('cls6-%d' % i, undirected, dict(spec='cls6', containers=['set', 'list'], i=i, k=4)))
        if not q:
            U.append(('cls7-%d' % i, undirected, dict(spec='cls7', containers=['set'], i=i, k=4)))
    for n in range(1, 4):
        U.append(('initial%d' % n, initial_matchings, dict(n=n, i=0, k=1)))
    for i in range(2):
        U.append(('initial4-%d' % i, initial_matchings, dict(n=4, i=i, k=2)))
    for n in range(0, 3):
        U.append(('directed%d' % n, directed, dict(n=n, loops=True, containers=allc, i=0, k=1)))
    for i in range(4):
        U.append(('directed3-%d' % i, directed, dict(n=3, loops=True, containers=allc, i=i, k=4)))
        if not q:
            U.append(('directed4-%d' % i, directed, dict(n=4, loops=False, containers=['set'], i=i, k=4)))
    for a in range(0, 4):
        for b in range(0, 4):
            U.append(('bipartite%d,%d' % (a, b), bipartite, dict(a=a, b=b, containers=allc[:3], i=0, k=1)))
    for i in range(4):
        U.append(('implications-%d' % i, implications, dict(i=i, k=16 if q else 4)))
    for s, n in ((2, 0), (2, 1), (2, 2), (2, 3), (3, 3), (3, 4), (2, 5), (2, 6), (4, 4)) + (() if q else ((3, 6), (2, 9))):
        U.append(('sequences%d^%d' % (s, n), sequences, dict(s=s, n=n, i=0, k=1)))
    for n in range(2, 6 if q else 7):
        U.append(('trees%d' % n, trees, dict(n=n, i=0, k=1)))
    for n in range(1, 5):
        U.append(('weighted%d' % n, weighted, dict(n=n, i=0, k=1)))
    U.append(('packings', packings, {}))
    for i in range(2):
        U.append(('sudoku-%d' % i, sudokus, dict(i=i, k=2)))
    U.append(('media', media, dict(spec='lab<=4' if q else 'lab<=5', i=0, k=1)))
    U.append(('automata', automata, dict(i=0, k=1)))
    U.append(('styles', styles, {}))
    U.append(('readers', readers, {}))
    U.append(('hooks', hooks, {}))
    U.append(('labels', labels, dict(i=0, k=1)))
    return U
