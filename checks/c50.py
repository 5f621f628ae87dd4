"""C50 independence of concurrent generators and structures, repeatability of calls."""
import io
import os
import pickle
from itertools import combinations, islice, permutations, product
from mc.core import lib
from mc.gen import shard

RULE = ('every pair of generators, iterators and structure histories under every interleaving of their first steps (4+4 quick, 5+5 thorough; three instances of one kind at 3+3+3), each compared with its run alone in a fresh '
        'process; every ordered pair of calls f, g, f with every answer compared with a fresh process; every order of requests on the shared tables, each in a fresh process')


def norm(x):
    """A comparable, order-insensitive (for sets and dictionaries) description of a result."""
    if isinstance(x, (set, frozenset)):
        return ('set', sorted((norm(y) for y in x), key=repr))
    if isinstance(x, dict):
        return ('dict', sorted(((norm(k), norm(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (list, tuple)):
        return ('seq', [norm(y) for y in x])
    if isinstance(x, (int, float, complex, str, type(None))):
        return repr(x)
    return type(x).__name__ + ':' + repr(x) if type(x).__repr__ is not object.__repr__ else type(x).__name__


K4 = {0: [1, 2, 3], 1: [0, 2, 3], 2: [0, 1, 3], 3: [0, 1, 2]}
CUBE = {i: [i ^ 1, i ^ 2, i ^ 4] for i in range(8)}
PRISM = {0: [1, 2, 3], 1: [0, 2, 4], 2: [0, 1, 5], 3: [4, 5, 0], 4: [3, 5, 1], 5: [3, 4, 2]}
PATH = {0: [1], 1: [0, 2], 2: [1, 3], 3: [2]}
C6 = {i: [(i - 1) % 6, (i + 1) % 6] for i in range(6)}
DAG = {0: [1, 2], 1: [3], 2: [3], 3: [4], 4: []}
DI = {0: [1], 1: [2, 4], 2: [0, 3], 3: [4], 4: [3]}
TREE = {1: 0, 2: 0, 3: 1, 4: 1, 5: 2, 6: 5}
WHEEL = {0: [1, 2, 3, 4], 1: [0, 2, 4], 2: [0, 1, 3], 3: [0, 2, 4], 4: [0, 1, 3]}
PAIRS = 'Two kinds of text, and more of it, wrapped to a short measure.'
PUZZLE = '100000000020000000003000000' + '000000000' * 6
SUDOKU = '530070000600195000098000060800060003400803001700020006060000280000419005000080070'


def gen(module, name, *args):
    def make():
        return (norm(x) for x in getattr(lib(module), name)(*args))
    return make


def history(script):
    """A structure exercised step by step; script is a generator function."""
    def make():
        return (norm(x) for x in script())
    return make


def unionfind(a):
    def s():
        u = lib('union_find').UnionFind()
        for x, y in ((1, 2), (3, 4), (2, 4), (a, 5), (5, 1)):
            u.union(x, y)
            yield sorted(sorted(z for z in u if u[z] == u[w]) for w in u)
    return s


def bucket(a):
    def s():
        q = lib('bucketqueue').BucketQueue()
        for x, p in (('x', 3), ('y', a), ('x', 1), ('z', 2)):
            q[x] = p
            yield len(q), q[x], 'y' in q
        del q['x']
        for x, p in q.items():
            yield x, p
    return s


def partition(a):
    def s():
        P = lib('partition_refinement').PartitionRefinement(range(6))
        for S in ([0, 1, a], [a, 5], [2]):
            P.refine(S)
            yield sorted(sorted(X) for X in P)
        P.remove(a)
        yield sorted(sorted(X) for X in P)
    return s


def sortedset(a):
    def s():
        S = lib('sorted_set').SortedSet()
        for x in (3, 1, a, 2):
            S.add(x)
            yield list(S)
        S.remove(a)
        yield list(S)
    return s


def sequence(cls, a):
    def s():
        S = getattr(lib('ordered_sequence' if 'Ordered' in cls else 'sequence'), cls)()
        S.append(1)
        yield list(S)
        S.append(a)
        yield list(S)
        S.insertAfter(1, 9)
        yield list(S)
        S.insertBefore(1, 8)
        yield list(S), S.successor(9), S.predecessor(9)
        S.remove(9)
        yield list(S)
    return s


def heap(i, a):
    def s():
        H = lib('integer_heap').IntegerHeap(i)
        for x in (5, a, 7):
            H.add(x)
            yield H.min()
        H.remove(H.min())
        yield H.min()
    return s


def frequency(acc):
    def s():
        F = lib('frequencyestimator').FrequencyEstimator(acc)
        for x in 'aabca':
            F += x
            yield sorted((k, F[k]) for k in F)
    return s


def rangemin(cls, X):
    def s():
        R = getattr(lib('lca'), cls)(X)
        for i in range(len(X)):
            yield [R[i:j] for j in range(i + 1, len(X) + 1)]
    return s


def lcas(sizes):
    def s():
        for n in sizes:
            par = {i: (i - 1) // 2 for i in range(1, n)}
            L = lib('lca').LCA(par)
            yield [L(i, j) for i in range(n) for j in range(n)]
    return s


def online(shift):
    def s():
        O = lib('smawk').OnlineConcaveMinima(lambda i, j: (j - i - shift) ** 2 + i, 0)
        for j in range(6):
            yield O.value(j), (O.index(j) if j else None)
    return s


def onlineiter(shift):
    def make():
        return islice((norm(x) for x in lib('smawk').OnlineConcaveMinima(lambda i, j: (j - i - shift) ** 2 + i, 0)), 8)
    return make


def svg(col):
    def s():
        out = io.StringIO()
        S = lib('svg').SVG(10 + 10j, out)
        S.group(style={'fill': col})
        yield out.getvalue()
        S.circle(1 + 1j, 2)
        yield out.getvalue()
        S.segment(0, 1j, style={'stroke': col}, opacity='1')
        yield out.getvalue()
        S.segment(0, 1)
        yield out.getvalue()
        S.ungroup()
        S.close()
        yield out.getvalue()
    return s


def mediums(G):
    def s():
        M = lib('partial_cube').MediumForPartialCube(G)
        yield len(list(M.tokens()))
        for v in sorted(M.states()):
            yield sorted(M.action(v, t) for t in M.tokens())
    return s


def automaton(e, words):
    def s():
        R = lib('automata').RegExp(e)
        L = R.language()
        for w in words:
            yield R(w), w in L
        yield len(list(L.recognizer.states()))
    return s


def automatongen(e):
    def make():
        D = lib('automata').RegExp(e).asDFA()
        return iter([norm(len(list(D.states()))), norm(D('ab')), norm(D.minimize()('aab'))])
    return make


def search(text):
    def make():
        S = lib('sudoku')
        return (norm(list(g)) for g in S.all_solutions(S.Sudoku(text)))
    return make


def graphrep(G):
    def s():
        R = lib('repetitivity').NonrepetitiveGraph(G)
        for v in sorted(G):
            for w in sorted(G[v]):
                for L in sorted(G[v][w]):
                    yield set(R.reachable(v, L))
        yield {frozenset((v, w, L)) for v, w, L in R.cyclic()}
    return s


LAB = {0: {1: {'a'}, 2: {'b'}}, 1: {0: {'a'}, 2: {'c'}}, 2: {0: {'b'}, 1: {'c'}}}


def actors():
    P, L, I = 'permutations', 'lyndon', 'integer_partitions'
    A = {}

    def add(name, f):
        A[name] = f
    for n in (3, 4):
        add('PlainChanges(%d)' % n, gen(P, 'PlainChanges', n))
        add('SJT(%d)' % n, gen(P, 'SteinhausJohnsonTrotter', list(range(n))))
        add('DoublePlain(%d)' % n, gen(P, 'DoublePlainChanges', n))
        add('DoubleSJT(%d)' % n, gen(P, 'DoubleSteinhausJohnsonTrotter', n))
        add('StirlingChanges(%d)' % n, gen(P, 'StirlingChanges', n))
        add('Stirling(%d)' % n, gen(P, 'StirlingPermutations', n))
        add('InvolutionChanges(%d)' % n, gen(P, 'InvolutionChanges', n))
        add('Involutions(%d)' % n, gen(P, 'Involutions', n))
    for n in (5, 7):
        for f in ('mckay', 'revlex_partitions', 'lex_partitions', 'binary_partitions'):
            add('%s(%d)' % (f, n), gen(I, f, n))
        add('fixed(%d,3)' % n, gen(I, 'fixed_length_partitions', n, 3))
    for s, n in ((2, 4), (3, 3)):
        add('LengthLimited(%d,%d)' % (s, n), gen(L, 'LengthLimitedLyndonWords', s, n))
        add('WithLength(%d,%d)' % (s, n), gen(L, 'LyndonWordsWithLength', s, n))
        add('LyndonWords(%d)' % s, gen(L, 'LyndonWords', s))
    for w in ((1, 0, 1, 0, 0), (2, 1, 2, 0)):
        add('CFL%r' % (w,), gen(L, 'ChenFoxLyndon', w))
        add('CFLb%r' % (w,), gen(L, 'ChenFoxLyndonBreakpoints', w))
    for f in ('primes', 'factored_integers', 'moebius_sequence', 'practical_numbers'):
        add(f, gen('eratosthenes', f))
    add('moebius_function', history(lambda: (lib('eratosthenes').moebius_function(i) for i in (6, 2, 9, 1, 30, 5, 7))))
    add('points', history(lambda: (x * x + y * y for x, y in lib('integerpoints').IntegerPointsByDistance())))    # ties in any order
    for n, G in (('K4', K4), ('cube', CUBE), ('prism', PRISM)):
        add('ham-' + n, gen('cubic_ham', 'hamiltonian_cycles', G))
        add('xyz-' + n, gen('xyz_graph', 'CubicMatchPartitions', G))
    for n, G in (('path', PATH), ('c6', C6), ('prism', PRISM)):
        add('bfs-' + n, gen('bfs', 'breadth_first_levels', G, 0))
        add('dfs-' + n, gen('dfs', 'search', G, 0))
        add('pre-' + n, gen('dfs', 'preorder', G))
        add('post-' + n, gen('dfs', 'postorder', G, 2))
        add('lexbfs-' + n, gen('lex_bfs', 'lex_bfs', G))
        add('degen-' + n, gen('graphdegeneracy', 'degeneracySequence', G))
    add('twocolor', gen('bipartite', 'two_color', C6))
    add('scc', gen('strong_connectivity', 'StronglyConnectedComponents', DI))
    add('bcc', gen('biconnectivity', 'BiconnectedComponents', PRISM))
    add('paths', gen('partial_order', 'TracePaths', {0: [1], 1: [2], 2: [], 3: []}))
    for a in (3, 6):
        add('unionfind%d' % a, history(unionfind(a)))
        add('bucket%d' % a, history(bucket(a)))
        add('sortedset%d' % (a + 1), history(sortedset(a + 1)))
        for c in ('Sequence', 'SimpleOrderedSequence', 'LogarithmicOrderedSequence'):
            add('%s%d' % (c, a), history(sequence(c, a)))
        for i in (2, 3, 4, 5):
            add('heap%d-%d' % (i, a), history(heap(i, a)))
    for a in (3, 4):
        add('partition%d' % a, history(partition(a)))
    for acc in (0.5, 0.34):
        add('frequency%s' % acc, history(frequency(acc)))
    for c in ('RangeMin', 'RestrictedRangeMin', 'PrecomputedRangeMin', 'LogarithmicRangeMin'):
        for X in ((2, 1, 2, 3), (1, 0, 1, 0, 1, 2, 1)):
            add('%s%d' % (c, len(X)), history(rangemin(c, X)))
    add('lca-up', history(lcas((2, 3, 4, 7, 12))))
    add('lca-down', history(lcas((12, 7, 4, 3, 2))))
    for sft in (1, 2):
        add('online%d' % sft, history(online(sft)))
        add('onlineiter%d' % sft, onlineiter(sft))
    for col in ('red', 'blue'):
        add('svg-' + col, history(svg(col)))
    add('medium-c6', history(mediums(C6)))
    add('medium-cube', history(mediums(CUBE)))
    add('regexp1', history(automaton('(a+b)*a', ('', 'a', 'ba', 'ab'))))
    add('regexp2', history(automaton('ab*', ('a', 'b', 'abb', 'ab'))))
    add('dfa', automatongen('(a+b)*aa'))
    add('sudoku', search(SUDOKU))
    add('sudoku2', search(PUZZLE))
    add('repetitive', history(graphrep(LAB)))
    return A


def fresh(f):
    """Result of f() in a forked process that has run nothing else."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ('ok', f())
            except Exception as e:
                out = ('error', type(e).__name__ + ': ' + str(e))
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(out, fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('error', 'no answer')


class Solo:
    """Answers of single actors, each from a process of its own."""

    def __init__(self, ctx, table, n):
        self.ctx, self.table, self.n, self.memo = ctx, table, n, {}

    def __getitem__(self, name):
        if name not in self.memo:
            self.ctx.case('alone', name, state=False)
            kind, out = fresh(lambda: list(islice(self.table[name](), self.n)))
            self.ctx.check(kind == 'ok', name, 'fails when run alone:', out)
            self.memo[name] = out
        return self.memo[name]


def schedule(ctx, table, solo, names, order, total):
    """Run the named actors in the given order of steps, then each to its end."""
    its = [None] * len(names)
    got = [[] for _ in names]
    done = [False] * len(names)
    for k in list(order) + [k for k in range(len(names)) for _ in range(total)]:
        if done[k] or len(got[k]) >= total:
            continue
        if its[k] is None:
            its[k] = table[names[k]]()
        try:
            got[k].append(next(its[k]))
        except StopIteration:
            done[k] = True
        ctx.t += 1
    for k, n in enumerate(names):
        if got[k] != solo[n]:
            ctx.check(False, n, 'gives', got[k], 'in this interleaving and', solo[n], 'alone')


def orders(counts):
    """All interleavings of counts[0] steps of the first actor, counts[1] of the second, ..."""
    if not any(counts):
        yield ()
        return
    for k, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[k] -= 1
            for o in orders(rest):
                yield (k,) + o


def pairs(ctx, steps, i, k):
    table = actors()
    total = steps + 3
    solo = Solo(ctx, table, total)
    names = sorted(table)
    scheds = list(orders((steps, steps)))
    small = list(orders((2, 2)))
    for j, (a, b) in enumerate(shard(((a, b) for x, a in enumerate(names) for b in names[x:]), i, k)):
        solo[a], solo[b]
        akin = a.rstrip('0123456789(),.-')[:6] == b.rstrip('0123456789(),.-')[:6]
        for o in scheds if akin else small:
            ctx.case(a, b, o)
            schedule(ctx, table, solo, (a, b), o, total)
        ctx.outcome('all orders' if akin else 'short orders')


def triples(ctx, i, k):
    table = actors()
    solo = Solo(ctx, table, 5)
    scheds = list(orders((2, 2, 2)))
    for a in shard(sorted(table), i, k):
        solo[a]
        for o in scheds:
            ctx.case(a, a, a, o)
            schedule(ctx, table, solo, (a, a, a), o, 5)


def calls():
    B = {}

    def add(label, module, name, *args, post=norm, **kw):
        B[label] = lambda: post(getattr(lib(module), name)(*args, **kw))

    def pat(x):
        return norm(list(x))
    for n, G in (('path', PATH), ('c6', C6), ('prism', PRISM), ('k4', K4), ('cube', CUBE)):
        add('is_bipartite-' + n, 'bipartite', 'is_bipartite', G)
        add('matching-' + n, 'cardinality_matching', 'matching', G, post=lambda m: norm(len(m)))
        add('greedy-' + n, 'cardinality_matching', 'greedy_matching', G, post=lambda m: norm(len(m)))
        add('chordal-' + n, 'chordal', 'is_chordal', G)
        add('degeneracy-' + n, 'graphdegeneracy', 'degeneracy', G)
        add('core-' + n, 'graphdegeneracy', 'core', G)
        add('triangles-' + n, 'graphdegeneracy', 'triangles', G, post=lambda t: norm({frozenset(x) for x in t}))
        add('halin-' + n, 'halin', 'is_halin', G)
        add('d3-' + n, 'halin', 'is_D3_reducible', G)
        add('wheel-' + n, 'halin', 'is_wheel', G)
        add('partialcube-' + n, 'partial_cube', 'isPartialCube', G)
        add('biconnected-' + n, 'biconnectivity', 'is_biconnected', G)
        add('union-' + n, 'graphs', 'union', G, C6)
        add('induced-' + n, 'graphs', 'induced_subgraph', {0, 1, 2}, G)
    for n, G in (('dag', DAG), ('di', DI)):
        add('acyclic-' + n, 'partial_order', 'isAcyclic', G)
        add('closure-' + n, 'partial_order', 'TransitiveClosure', G)
        add('reach-' + n, 'dfs', 'reachable', G, 1, 0)
        add('condense-' + n, 'strong_connectivity', 'Condensation', G, post=lambda c: norm({frozenset(x): {frozenset(y) for y in c[x]} for x in c}))
    add('st', 'biconnectivity', 'st_orientation', C6, post=lambda H: norm(sorted(len(H[v]) for v in H)))
    add('topo', 'partial_order', 'TopologicalOrder', DAG, post=lambda L: norm(len(list(L))))
    add('antichain', 'partial_order', 'MaximumAntichain', DAG, post=lambda L: norm(len(list(L))))
    for s in ('abcab', 'banana'):
        add('lis-' + s, 'longest_increasing_subsequence', 'longest_increasing_subsequence', s, post=lambda r: norm(len(r)))
        add('lcs-' + s, 'lcs', 'longest_common_subsequence', s, 'bacabn', post=lambda r: norm(len(r)))
        add('suffix-' + s, 'lyndon', 'SmallestSuffix', s)
        add('rotation-' + s, 'lyndon', 'SmallestRotation', s)
    for m in (12, 30):
        add('wrap-%d' % m, 'wrap', 'wrap', PAIRS, m)
        add('wrapf-%d' % m, 'wrap', 'wrap', PAIRS, m, longlast=True, frenchspacing=True)
    for n in (1, 6, 8, 15):
        add('moebius-%d' % n, 'eratosthenes', 'moebius_function', n)
    for n in (2, 3):
        add('bruijn-%d' % n, 'lyndon', 'DeBruijnSequence', 2, n, post=pat)
        add('count-%d' % n, 'lyndon', 'CountLyndonWords', 2, n)
    add('mst', 'minimum_spanning_tree', 'MinimumSpanningTree', {0: {1: 1, 2: 3}, 1: {0: 1, 2: 2}, 2: {0: 3, 1: 2}}, post=lambda T: norm({frozenset(e) for e in T}))
    add('smawk', 'smawk', 'ConcaveMinima', range(4), range(5), lambda i, j: (i - j) ** 2)
    add('conjugate', 'integer_partitions', 'conjugate', [3, 1, 1])
    add('lca', 'lca', 'LCA', TREE, post=lambda L: norm([L(a, b) for a in range(7) for b in range(7)]))
    add('offline', 'lca', 'OfflineLCA', TREE, [(3, 4), (4, 6)], post=lambda L: norm([L[3][4], L[6][4]]))
    add('petersen', 'graph_examples', 'GeneralizedPetersenGraph', 5, 2)
    add('lcf', 'graph_examples', 'LCFNotation', [5, -5], 7)
    N = lib('_not').Not
    add('sat', 'two_satisfiability', 'Satisfiable', {'a': ['b'], N('a'): ['b'], 'b': [], N('b'): ['a']})
    add('unsat', 'two_satisfiability', 'Satisfiable', {'a': [N('a')], N('a'): ['a']})
    add('bmatching', 'bipartite_matching', 'matching', {'x': [1, 2], 'y': [1]}, post=lambda r: norm(len(r[0])))
    add('imperfect', 'bipartite_matching', 'imperfections', {'x': [1, 2], 'y': [1]}, post=lambda r: norm({v: set(r[v]) for v in r}))
    add('circles', 'circle_pack', 'circle_pack', {0: [1, 2, 3]}, {1: 1, 2: 1, 3: 2}, post=lambda p: norm({k: (round(p[k][0].real, 6), round(p[k][0].imag, 6), round(p[k][1], 6)) for k in p}))
    add('g6', 'read_undirected_graph', 'readUndirectedGraph', 'DQc')
    add('unisolvent', 'sudoku', 'unisolvent', None, post=norm)
    B['unisolvent'] = lambda: norm(lib('sudoku').unisolvent(lib('sudoku').Sudoku(SUDOKU)))
    B['regexp'] = lambda: norm([lib('automata').RegExp('(a+b)*aa')(w) for w in ('aa', 'ab', 'baa')])
    B['minimize'] = lambda: norm(len(list(lib('automata').RegExp('(a+b)*aa').minimize().states())))
    B['equal'] = lambda: norm(lib('automata').RegExp('(a*b)*').language() == lib('automata').RegExp('()+(a+b)*b').language())
    B['regexp-back'] = lambda: norm(lib('automata').RegExp(lib('automata').RegExp('a(b+a)').RegExp())('ab'))
    return B


def repeated(ctx, i, k):
    table = calls()
    solo = {}

    def alone(n):
        if n not in solo:
            ctx.case('alone', n, state=False)
            kind, out = fresh(table[n])
            ctx.check(kind == 'ok', n, 'fails when called alone:', out)
            solo[n] = out
        return solo[n]
    for a, b in shard(product(sorted(table), repeat=2), i, k):
        wa, wb = alone(a), alone(b)
        ctx.case(a, b, a)
        for n, w in ((a, wa), (b, wb), (a, wa)):
            ctx.t += 1
            got = table[n]()
            if got != w:
                ctx.check(False, n, 'gives', got, 'after other calls and', w, 'alone')


def tables(ctx, which, i, k):
    """Every order of requests that make a shared table grow."""
    if which == 'moebius':
        req = {n: (lambda n=n: lib('eratosthenes').moebius_function(n)) for n in (1, 2, 4, 6, 30, 31)}
    elif which in ('lca', 'rangemin'):
        def ask(n):
            if which == 'lca':
                R = lib('lca').LogarithmicRangeMin(list(range(n, 0, -1)))
            else:
                R = lib('lca').RangeMin([(7 * x) % 5 for x in range(n)])
            return [R[a:b] for a in range(n) for b in range(a + 1, n + 1)]
        req = {n: (lambda n=n: ask(n)) for n in ((1, 2, 3, 5, 9, 17) if which == 'lca' else (1, 2, 4, 8, 16, 33))}
    else:
        def use(n):
            H = lib('integer_heap').IntegerHeap(n)
            top = (1 << (1 << n)) - 1
            out = []
            for x in (top, top // 2, 3 % (top + 1), top - 1):
                H.add(x)
                out.append(H.min())
            return out
        req = {n: (lambda n=n: use(n)) for n in (0, 1, 3, 4, 5, 7)}
    want = {n: fresh(req[n]) for n in req}
    for n in want:
        ctx.case(which, n)
        ctx.check(want[n][0] == 'ok', which, n, 'fails alone:', want[n][1])
    for order in shard(permutations(req), i, k):
        ctx.case(which, order)
        ctx.t += len(order)
        kind, got = fresh(lambda: [req[n]() for n in order])
        ctx.check(kind == 'ok', 'requests fail in this order:', got)
        ctx.equal(got, [want[n][1] for n in order], 'answers to the requests in this order')


def units(tier):
    q = tier == 'quick'
    U = []
    for i in range(16):
        U.append(('pairs-%d' % i, pairs, dict(steps=4 if q else 5, i=i, k=16)))
    for i in range(2):
        U.append(('triples-%d' % i, triples, dict(i=i, k=2)))
    for i in range(8):
        U.append(('calls-%d' % i, repeated, dict(i=i, k=8)))
    for w in ('moebius', 'lca', 'rangemin', 'heap'):
        for i in range(2):
            U.append(('%s-%d' % (w, i), tables, dict(which=w, i=i, k=2)))
    return U
