"""Planted bugs: edits of the original source, a demonstration, and what they need to show."""
SEEDS = []


def seed(id, prop, file, old, new, needs, breaks, demo, more=()):
    SEEDS.append(dict(id=id, prop=prop, edits=[('pads/' + file, old, new)] + [('pads/' + f, a, b) for f, a, b in more],
                      needs=needs, breaks=breaks, demo=demo))


seed('pr-add', 'C07', 'partition_refinement.py', 'if element in self._partition:', 'if element in theset:',
     'adding an element that already belongs to a different set of the partition',
     'an element can be added to a second set of the partition instead of being refused',
     '''
from pads.partition_refinement import PartitionRefinement, PartitionError
P = PartitionRefinement(range(4))
P.refine([0, 1])
try:
    P.add(0, P[2])
except PartitionError:
    pass
else:
    raise AssertionError(list(P))
''')

seed('bcc-isolated', 'C11', 'biconnectivity.py', 'elif not self._components or child not in self._components[-1]:', 'elif not self._components:',
     'an isolated vertex that is searched after another component',
     'isolated vertices other than the first are not reported as components',
     '''
from pads.biconnectivity import BiconnectedComponents
C = list(BiconnectedComponents({0: {1}, 1: {0}, 2: set()}))
assert sorted(sorted(c) for c in C) == [[0, 1], [2]]
''')

seed('topo-loop', 'C19', 'partial_order.py', 'vnum[w] <= vnum[v]', 'vnum[w] < vnum[v]',
     'a graph with a self-loop and no other cycle',
     'a graph whose only cycles are self-loops counts as acyclic and gets a topological order',
     '''
from pads.partial_order import isAcyclic
assert not isAcyclic({0: [1], 1: [1]})
''')

seed('dfa-product', 'C24', 'automata.py', 'f2 = self.D2.isfinal(s2) and 1 or 0', 'f2 = s2 and self.D2.isfinal(s2) and 1 or 0',
     'a product whose second automaton accepts in a state that is false, such as 0 or the empty set of states',
     'accepting states that are false in a truth test are ignored in products: the complement of a language never accepts in its dead state',
     '''
from pads.automata import LookupNFA
A = LookupNFA({'a'}, [0], {(0, 'a'): []}, [0])
B = A.complement()
assert (A.union(B))('a') and A.union(B)('aa')
''')

seed('uf-deep', 'C01', 'union_find.py', 'while root != path[-1]:', 'while root != path[-1] and len(path) < 3:',
     'a lookup through a chain of at least four links, which balanced unions build only from sixteen items on',
     'a lookup stops below the root of a deep set, so members of one set get different names',
     '''
from pads.union_find import UnionFind
U = UnionFind()
step = 1
while step < 16:
    for a in range(0, 16, 2 * step):
        U.union(a, a + step)
    step *= 2
assert len({U[x] for x in reversed(range(16))}) == 1
''')

seed('heap-order6', 'C02', 'integer_heap.py', 'self._LQ[H] = IntegerHeap(self._order - 1)', 'self._LQ[H] = IntegerHeap(max(self._order - 1, 3) if self._order <= 5 else 4)',
     'keys of 64 or more bits whose low half does not fit in 16 bits',
     'a flat heap for 64-bit integers refuses valid keys',
     '''
from pads.integer_heap import FlatHeap
Q = FlatHeap(6)
Q.add(1)
Q.add(1 << 20)
Q.remove(1)
assert Q.min() == 1 << 20
''')

seed('bq-bucket', 'C03', 'bucketqueue.py', """            x = next(iter(self._Q[self._N]))    # arbitrary item in 1st bucket
            del self[x]
            yield x
""", """            for x in list(self._Q[self._N]):    # all items in 1st bucket
                if x in self._D:
                    del self[x]
                    yield x
""",
     'an item given a smaller priority while another of the same bucket is still to come',
     'items of the bucket being listed come before items that got a smaller priority meanwhile',
     '''
from pads.bucketqueue import BucketQueue
Q = BucketQueue()
for x in 'abc':
    Q[x] = 5
it = iter(Q)
first = next(it)
Q['z'] = 1
assert next(it) == 'z'
''')

seed('ss-empty', 'C04', 'sorted_set.py', '        if not self._previous:\n            sortarg', '        if self._previous is None:\n            sortarg',
     'a set that was listed while empty and gets items afterwards',
     'items added after listing an empty set never appear',
     '''
from pads.sorted_set import SortedSet
S = SortedSet()
assert list(S) == []
S.add(3)
assert list(S) == [3]
''')

seed('seq-empty', 'C05', 'sequence.py', '        if not self._next:  # add to empty sequence', '        if self._first is None:  # add to empty sequence',
     'appending after the last item was removed',
     'a sequence that has become empty cannot be appended to',
     '''
from pads.sequence import Sequence
S = Sequence([1])
S.remove(1)
S.append(2)
assert list(S) == [2]
''')

seed('fe-insert', 'C08', 'frequencyestimator.py', '''                victim, linkchain = linkchain, self._counts[linkchain]
                del self._counts[victim]
''', '''                victim, linkchain = linkchain, self._counts[linkchain]
                del self._counts[victim]
            if len(self._counts) < self._howmany:
                self._counts[new] = 1
''',
     'an accuracy that is not one over an integer',
     'counters are decremented more often than promised, so estimates fall below the promised accuracy',
     '''
from itertools import product
from pads.frequencyestimator import FrequencyEstimator
for stream in product('abcd', repeat=7):
    F = FrequencyEstimator(0.4)
    for x in stream:
        F += x
    for x in 'abcd':
        assert stream.count(x) / 7. - F[x] <= 0.4 + 1e-9, stream
''', more=[('frequencyestimator.py', '        self._total += 1\n', '        self._total += 1\n        new = key\n')])

seed('pr-swap', 'C07', 'partition_refinement.py', """                output.append((AS, A))
""", """                if len(AS) > 2 * len(A):
                    AS, A = A, AS
                output.append((AS, A))
""",
     'a set split by a subset holding more than two thirds of it',
     'the reported pair names the two halves in the wrong order',
     '''
from pads.partition_refinement import PartitionRefinement
P = PartitionRefinement(range(4))
(new, old), = P.refine([0, 1, 2])
assert new == {0, 1, 2} and old == {3}
''')

seed('bip-loop', 'C13', 'bipartite.py', 'elif edgetype is NONTREE and color[v] == color[w]:', 'elif edgetype is NONTREE and v != w and color[v] == color[w]:',
     'a self-loop in an otherwise bipartite graph',
     'graphs with self-loops are accepted as bipartite',
     '''
from pads.bipartite import is_bipartite
assert not is_bipartite({0: [0, 1], 1: [0]})
''')

seed('cm-explore', 'C15', 'cardinality_matching.py', """                    unexplored.append(tnode)
                    path.append(leader[T[tnode]])
""", """                    if len(path) <= 4:
                        unexplored.append(tnode)
                    path.append(leader[T[tnode]])
""",
     'an augmenting path that leaves a blossom of at least seven vertices through a vertex far from its base edge',
     'the matching returned is not maximum',
     '''
from pads.cardinality_matching import matching
n = 11
E = [(i, (i + 1) % n) for i in range(n)] + [(1, 11), (11, 12), (12, 13)]
G = {v: [] for v in range(14)}
for a, b in E:
    G[a].append(b)
    G[b].append(a)
start = {}
for a, b in [(i, i + 1) for i in range(1, n, 2)] + [(11, 12)]:
    start[a], start[b] = b, a
assert len(matching(G, start)) == 14
''')

seed('core-level', 'C17', 'graphdegeneracy.py', 'if k is None or level < k:  # we care about new records?', 'if k is None or level <= k:  # we care about new records?',
     'asking for a k-core that strictly contains the deepest core and whose level is exactly k',
     'the k-core loses the vertices outside the next deeper core',
     '''
from pads.graphdegeneracy import core
G = {0: [1, 2], 1: [0, 2], 2: [0, 1, 3], 3: [2]}
assert core(G, 1) == {0, 1, 2, 3}
''')


seed('closure-far', 'C19', 'partial_order.py', 'TC = {v: set(preorder(G, v)) for v in G}', """TC = {v: {v} | set(G[v]) for v in G}
    for step in range(2):
        TC = {v: {x for w in TC[v] for x in TC[w]} for v in G}""",
     'two vertices joined only by paths of five or more edges',
     'the transitive closure, and the chains and antichains computed from it, miss pairs that are far apart',
     '''
from pads.partial_order import TransitiveClosure, MaximumAntichain
G = {i: [i + 1] for i in range(6)}
G[6] = []
assert all(TransitiveClosure(G)[i] == set(range(i + 1, 7)) for i in G)
assert len(MaximumAntichain(G)) == 1
''')

seed('not-identity', 'C21', '_not.py', 'self.negation == other.negation', 'self.negation is other.negation',
     'variables that are equal but not the same object, such as tuples or strings built separately',
     'the negations of equal variables are different, so clauses about one variable are not connected',
     '''
from pads.two_satisfiability import Satisfiable
from pads._not import Not
def v():
    return tuple(['x', 1])
assert not Satisfiable({v(): [Not(v())], Not(v()): [v()]})
''')

seed('rmq-shortblock', 'C22', 'lca.py', 'blockid = len(XX) < blocklen and -1 or self._blockid(XX)', 'blockid = self._blockid(XX)',
     'a last block that is shorter than the others and has the same pattern as the end of one of them',
     'range minima in the last block are read from the table of another block',
     '''
from pads.lca import RestrictedRangeMin
for n in range(2, 40):
    for turn in range(n):
        X = [abs(i - turn) for i in range(n)]
        R = RestrictedRangeMin(X)
        for i in range(n):
            for j in range(i + 1, n + 1):
                assert R[i:j] == min(X[i:j])
''')

seed('lca-ends', 'C23', 'lca.py', 'r = [self._representatives[x] for x in nodes]', 'r = [self._representatives[x] for x in (nodes[0], nodes[-1])]',
     'a common ancestor of three or more nodes where a middle one lies outside the subtree of the others',
     'only the first and last of the given nodes are considered',
     '''
from pads.lca import LCA
L = LCA({1: 0, 2: 1, 3: 1, 4: 0})
assert L(2, 4, 3) == 0
''')

seed('re-doublestar', 'C26', 'automata.py', """        while self.pos < len(self.expr) and self.expr[self.pos] == '*':
            self.pos += 1
            for state in penultimate:""", """        if self.pos < len(self.expr) and self.expr[self.pos] == '*':
            self.pos += 1
            for state in penultimate:""",
     'two stars in a row in a regular expression',
     'the second star is read as a letter',
     '''
from pads.automata import RegExp
assert RegExp('a**').asDFA()('aaa')
''')

seed('re-longparen', 'C26', 'automata.py', "if len(expr) == 1 or (not starring and '+' not in expr):", "if len(expr) == 1 or (not starring and '+' not in expr[:12]):",
     'converting an automaton in which some partial expression has its first alternative after twelve characters',
     'the parentheses around a long alternative are left out, so the expression denotes another language',
     '''
from pads.automata import RegExp
from itertools import product
for e in ('aaaaaaaaaaaaa+b', '(aaaaaaaaaaaaa+b)(a+b)', 'a(bbbbbbbbbbbbbbb+a)b(aaaaaaaaaaaaaa+b)*', '(abababababababab+bb)(bababababababa+aa)'):
    A = RegExp(e)
    B = RegExp(A.minimize().RegExp())
    for n in range(6):
        for w in product('ab', repeat=n):
            w = ''.join(w)
            assert bool(A.asDFA()(w)) == bool(B.asDFA()(w)), (e, w)
    for x in ('', 'a', 'b', 'ab', 'ba', 'aa', 'bb'):
        for y in ('a' * 13, 'b' * 15, 'a' * 14, 'ab' * 8, 'ba' * 7):
            for z in ('', 'a', 'b', 'ab', 'ba', 'aa', 'bb'):
                assert bool(A.asDFA()(x + y + z)) == bool(B.asDFA()(x + y + z)), (e, x + y + z)
''')

seed('dfa-worklist', 'C25', 'automata.py', """                    if old in unrefined or len(new) < len(old):
                        unrefined.append(new)""", """                    if old in unrefined:
                        continue
                    if len(new) < len(old):
                        unrefined.append(new)""",
     'a part that is split while it still waits to be processed, and whose split-off half alone separates further states',
     'inequivalent states are merged by minimization',
     '''
from pads.automata import LookupNFA
from itertools import product
for n in (4, 5):
    for seedval in range(400):
        x = seedval * 2654435761 % 2**32
        d = {}
        for s in range(n):
            for c in 'ab':
                x = (x * 1103515245 + 12345) % 2**31
                d[s, c] = [(x >> 16) % n]
        A = LookupNFA(set('ab'), [0], d, [n - 1])
        M = A.minimize()
        for k in range(6):
            for w in product('ab', repeat=k):
                assert bool(A.asDFA()(w)) == bool(M(w))
''')

seed('halin-wake', 'C28', 'halin.py', 'C.update(z for z in (x, Nu, Nv, Nw) if len(G[z]) == 3)', 'C.update(z for z in (x,) if len(G[z]) == 3)',
     'a path reduction centred on a neighbour of a collapsed triangle, found nowhere else',
     'reducible graphs are reported as irreducible',
     '''
from pads.halin import is_D3_reducible, is_halin
from itertools import permutations
# Halin graphs: leaves around a tree of stars, in every vertex order
def halin(shape):
    G, leaves, count = {}, [], [0]
    def build(t, parent):
        v = count[0]
        count[0] += 1
        G[v] = set()
        if parent is not None:
            G[v].add(parent)
            G[parent].add(v)
        if t == 0:
            leaves.append(v)
        for s in t or []:
            build(s, v)
    build(shape, None)
    for i in range(len(leaves)):
        G[leaves[i - 1]].add(leaves[i])
        G[leaves[i]].add(leaves[i - 1])
    return G
from itertools import product
from math import gcd
for k in (5, 6):
    for shape in product([0, [0, 0], [[0, 0], 0]], repeat=k):
        G = halin(list(shape))
        n = len(G)
        for a in (1, 3, 5, 7, n - 1):
            if gcd(a, n) == 1:
                for b in range(0, n, 5):
                    H = {(a * v + b) % n: {(a * w + b) % n for w in G[v]} for v in G}
                    assert is_D3_reducible(H) and is_halin(H)
''')

seed('rep-gadget', 'C42', 'repetitivity.py', "            if n % 3 == 0:\n", "            if n % 3 != 2:\n",
     'a vertex with four, seven or more labels leaving remainder one when divided by three',
     'the first label is dropped from the groups, so some reachable pairs are missed',
     '''
from pads.repetitivity import NonrepetitiveGraph
for k in range(2, 14):
    N = NonrepetitiveGraph({0: {1: list(range(k))}, 1: {2: list(range(k))}, 2: {}})
    for a in range(k):
        assert sorted(x for x in set(N.reachable(0, a))) == sorted([(1, a)] + [(2, b) for b in range(k) if b != a]), (k, a)
''')

seed('smawk-oddtail', 'C39', 'smawk.py', "lastrow = RowIndices[-1]\n", "lastrow = RowIndices[min(r + 3, len(RowIndices) - 1)]\n",
     'a last column of odd index whose minimum lies more than three surviving rows below the minimum of the column before it',
     'the minimum of the last column is missed',
     '''
from pads.smawk import ConcaveMinima
for rows in range(1, 12):
    for cols in range(1, 12):
        for k in range(rows):
            # every column but the last has its minimum in the first row, the last one in row k
            M = lambda i, j: (-10 * i if i <= k else 0) if j == cols - 1 else i
            if all(M(i, j) <= M(a, j) or M(i, b) > M(a, b) for i in range(rows) for a in range(i + 1, rows) for j in range(cols) for b in range(j + 1, cols)):
                got = ConcaveMinima(range(rows), range(cols), M)
                for j in range(cols):
                    assert got[j] == min((M(i, j), i) for i in range(rows)), (rows, cols, k, j)
''')

seed('smawk-third', 'C40', 'smawk.py', "if prev_row >= tentative_value:", "if prev_row > tentative_value:",
     'a tie at the tentative column between an old row and the newest one',
     'later minima are attributed to a later row than the first that attains them',
     '''
from pads.smawk import OnlineConcaveMinima
from itertools import product
# all concave matrices on five columns given by row offsets and a step, replayed against direct minima
for n in (4, 5, 6):
    for off in product(range(-2, 3), repeat=n):
        M = lambda i, j: (off[i] if i < n else 9) + 0 * j if j <= n else -i
        O = OnlineConcaveMinima(M, 0)
        for j in range(1, n + 1):
            assert (O.value(j), O.index(j)) == min((M(i, j), i) for i in range(j)), (off, j)
''')

seed('wrap-french', 'C41', 'wrap.py', "len(hyphenword) > 2 or", "len(word) > 2 or",
     'a hyphenated word whose last part is a single capital letter and a full stop',
     'only one space follows a sentence ending in such a word',
     '''
from pads.wrap import wrap
assert wrap('Plan-B. Go') == ['Plan-B.  Go']
''')

seed('svg-coord', 'C44', 'svg.py', 'return ("%.4f" % x).rstrip("0").rstrip(".")', 'return ("%.4f" % x).rstrip("0.") or "0"',
     'a coordinate that is a multiple of ten',
     'trailing zeros of whole numbers are stripped, so 100 is drawn at 1',
     '''
import io
from pads.svg import SVG
s = io.StringIO()
SVG(100 + 100j, s).close()
assert 'width="100"' in s.getvalue()
''')

seed('xyz-planes', 'C31', 'xyz_graph.py', "for i, j in [(0, 1), (0, 2), (1, 2)]:\n        projections", "for i, j in [(0, 1), (0, 2)]:\n        projections",
     'a colouring whose cycles meet twice in only one of the three directions',
     'maps with more than two points on a line parallel to the first axis are listed as embeddings',
     '''
from pads.xyz_graph import xyzEmbeddings, isxyz
assert not isxyz([(0, 0, 0), (1, 1, 1)])
P = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0)]
from itertools import product
for bits in product(range(2), repeat=12):
    pts = [tuple(bits[3 * k:3 * k + 3]) for k in range(4)]
    if len(set(pts)) < 4:
        continue
    ok = all(sum(1 for q in pts if all(q[c] == p[c] for c in range(3) if c != d)) == 2 for p in pts for d in range(3))
    assert isxyz(pts) == ok
pts = list(product(range(2), repeat=3)) + [(2, 0, 0), (2, 0, 1), (2, 1, 0), (2, 1, 1)]
assert not isxyz(pts)
''')

seed('cube-dense', 'C30', 'partial_cube.py', 'if 1 << (m // n) > n:', 'if 1 << (m // n) >= n:',
     'a hypercube, the densest partial cube',
     'hypercubes are refused as having too many edges',
     '''
from pads.partial_cube import isPartialCube
for d in (1, 2, 3, 4):
    assert isPartialCube({v: [v ^ (1 << i) for i in range(d)] for v in range(1 << d)})
''')

seed('pack-ring', 'C45', 'circle_pack.py', 'for i in range(-len(cycle), len(cycle) - 1):', 'for i in range(len(cycle) - 1):',
     'an inner circle whose cycle does not start at an already placed circle',
     'some circles are never placed',
     '''
from pads.circle_pack import circle_pack
for turn in range(6):
    ring = ['a', 'b', 'c', 'd', 'e', 'f']
    ring2 = ['x', 'f', 'e', 'g', 'h']
    internal = {'x': ['y'] + ring[:5], 'y': []}
    internal = {'x': ['b', 'c', 'y', 'a'], 'y': ['x', 'c', 'd', 'a'][turn % 4:] + ['x', 'c', 'd', 'a'][:turn % 4]}
    P = circle_pack(internal, {k: 1 for k in 'abcd'})
    for k in internal:
        for w in internal[k]:
            assert abs(abs(P[k][0] - P[w][0]) - P[k][1] - P[w][1]) < 1e-6, (turn, k, w)
''')

seed('prime-square', 'C36', 'eratosthenes.py', "            while q in D:\n                q += p\n", "            if q in D:\n                q += p\n",
     'an odd number that is the next multiple of three different small primes at once',
     'a composite number is listed as prime after its entry in the table has been overwritten',
     '''
from pads.eratosthenes import primes
from itertools import takewhile
P = list(takewhile(lambda p: p < 5000, primes()))
assert P == [n for n in range(2, 5000) if all(n % k for k in range(2, int(n ** .5) + 1))]
''')

seed('lis-tail', 'C38', 'longest_increasing_subsequence.py', """            head[i] = x
            if i > 0:""", """            head[i] = x
            if i > 1:""",
     'a second element of the best sequence that is replaced after the first one was replaced',
     'the returned sequence is not increasing or not a subsequence of the input',
     '''
from pads.longest_increasing_subsequence import longest_increasing_subsequence
assert longest_increasing_subsequence([3, 5, 1, 2]) == [1, 2]
''')

seed('dfs-falsystart', 'C09', 'dfs.py', 'if initial_vertex == whole_graph:', 'if not initial_vertex or initial_vertex == whole_graph:',
     'a search from a start vertex that is false, such as 0 or the empty string, in a graph not all reachable from it',
     'a search started at a false vertex goes on to the parts of the graph it cannot reach',
     '''
from pads.dfs import preorder, reachable
assert list(preorder({0: [1], 1: [], 2: []}, 0)) == [0, 1]
assert not reachable({0: [1], 1: [], 2: []}, 0, 2)
''')

seed('scc-crosslow', 'C10', 'strong_connectivity.py', 'for v in self._components[-1]:\n                self._low[v] = self._biglow', 'self._low[child] = self._biglow',
     'an edge into a vertex, not the first visited, of a strongly connected component found earlier',
     'vertices pointing into the middle of an earlier component are merged or never reported',
     '''
from pads.strong_connectivity import StronglyConnectedComponents
for G in ({0: [1, 3], 1: [2], 2: [1], 3: [2]}, {0: [1, 3], 1: [2], 2: [1], 3: [1]}):
    C = sorted(sorted(c) for c in StronglyConnectedComponents(G))
    assert C == [[0], [1, 2], [3]], C
''')

seed('imp-samesize', 'C14', 'bipartite_matching.py', 'components[v, True] != components[w, False]}', 'len(components[v, True]) != len(components[w, False])}',
     'an edge in no perfect matching that joins two equally large groups of vertices matched among themselves',
     'an edge that belongs to no perfect matching is not reported as an imperfection',
     '''
from pads.bipartite_matching import imperfections
I = imperfections({0: ['a'], 1: ['a', 'b']})
assert list(I[1]) == ['a'], I
''')

seed('binary-carry', 'C32', 'integer_partitions.py', 'if len(partition) - last_nonunit - 1 >= x:', 'if len(partition) - last_nonunit - 1 >= x and x < 8:',
     'binary partitions of numbers from 16 on, whose ones must be gathered into an eight',
     'some binary partitions are missing and the order is broken',
     '''
from pads.integer_partitions import binary_partitions
def count(n, p):
    if n == 0:
        return 1
    return sum(count(n - q, q) for q in (1, 2, 4, 8, 16, 32) if q <= min(n, p))
for n in range(40):
    L = [tuple(p) for p in binary_partitions(n)]
    assert len(L) == len(set(L)) == count(n, 64), n
''')

seed('colex-stop', 'C32', 'integer_partitions.py', 'while j < L and partition[j] >= partition[0] - 1:', 'while j < L and (partition[j] >= partition[0] - 1 or j > 7):',
     'fixed length partitions into at least nine parts that change in the ninth part',
     'partitions into nine or more parts are missing',
     '''
from pads.integer_partitions import fixed_length_partitions
def count(n, L, top):
    if L == 0:
        return n == 0
    return sum(count(n - p, L - 1, p) for p in range(1, min(n, top) + 1))
for n in range(21):
    for L in range(12):
        P = [tuple(p) for p in fixed_length_partitions(n, L)]
        assert len(P) == len(set(P)) == count(n, L, n), (n, L)
''')

seed('double-sweep', 'C33', 'permutations.py', 'yield next(recur) + 2\n    except StopIteration:\n        pass\n\n\ndef DoubleSteinhausJohnsonTrotter(n):',
     'yield next(recur) + (n < 5) + 1\n    except StopIteration:\n        pass\n\n\ndef DoubleSteinhausJohnsonTrotter(n):',
     'double permutations of at least five values, at the second step of the inner listing',
     'double permutations are repeated and others missed',
     '''
from pads.permutations import DoubleSteinhausJohnsonTrotter
size = 1
for n in range(6):
    L = [tuple(p) for p in DoubleSteinhausJohnsonTrotter(n)]
    assert len(set(L)) == len(L), n
''')

seed('nel-anon', 'C43', 'read_undirected_graph.py', 'return addEdge(line, numEdges[0] + 1)', 'return addEdge(line, len(EdgeNames) + 1)',
     'a node edge list with two edges in its unnamed edges section',
     'unnamed edges share one edge id',
     '''
from pads.read_undirected_graph import readUndirectedGraph
G = readUndirectedGraph(['// nodes', 'a', 'b', 'c', '// edges', 'a', 'b', 'b', 'c'])
assert G['a']['b'] != G['b']['c'], G
''')

seed('sudoku-original', 'C47', 'sudoku.py', 'if not (corners & grid.original_cells):', 'if corners & grid.original_cells != corners:',
     'a rectangle of which some but not all corners are givens, while the uniqueness rules are on',
     'the trapezoid rule removes candidates of the only solution',
     '''
from pads import sudoku
def solve(s, unique):
    g = sudoku.Sudoku(int(c) for c in s)
    g.assume_unique = unique
    while sudoku.step(g):
        pass
    return list(g.contents)
import random
random.seed(5)
for i in range(60):
    p = sudoku.random_puzzle()
    s = ''.join(map(str, p.contents))
    want = list(next(sudoku.all_solutions(sudoku.Sudoku(int(c) for c in s))).contents)
    g = sudoku.Sudoku(int(c) for c in s)
    g.assume_unique = True
    try:
        while sudoku.step(g):
            pass
    except sudoku.BadSudoku:
        raise AssertionError(s)
    assert all(x in (0, y) for x, y in zip(g.contents, want)), s
    assert all(g.locations[want[c]] >> c & 1 for c in range(81)), s
''')

seed('sudoku-bivalue', 'C47', 'sudoku.py', 'mask &= ~ (1 << v)\n        mask &= ~ (1 << w)', 'mask &= ~ (1 << v)',
     'a cycle of cells with two candidates each',
     'the bivalue rule removes the digit from one of the two cells that must contain it',
     '''
from pads import sudoku
import random
random.seed(5)
for i in range(60):
    p = sudoku.random_puzzle()
    s = ''.join(map(str, p.contents))
    want = list(next(sudoku.all_solutions(sudoku.Sudoku(int(c) for c in s))).contents)
    g = sudoku.Sudoku(int(c) for c in s)
    try:
        while sudoku.step(g):
            pass
    except sudoku.BadSudoku:
        raise AssertionError(s)
    assert all(g.locations[want[c]] >> c & 1 for c in range(81)), s
''')

seed('sudoku-third', 'C47', 'sudoku.py', 'if len(ch) == 3:', 'if len(ch) >= 3:',
     'the 2-satisfiability rule on a cell with two candidates next to one that has both and at least two more',
     'the 2-satisfiability rule draws conclusions from one of several extra candidates and can remove true ones',
     '''
from pads import sudoku
import random
random.seed(5)
for i in range(60):
    p = sudoku.random_puzzle()
    s = ''.join(map(str, p.contents))
    want = list(next(sudoku.all_solutions(sudoku.Sudoku(int(c) for c in s))).contents)
    g = sudoku.Sudoku(int(c) for c in s)
    g.twosat = True
    try:
        for k in range(200):
            g.progress = False
            sudoku.locate(g)
            sudoku.eliminate(g)
            sudoku.twosat(g)
            if not g.progress:
                break
    except sudoku.BadSudoku:
        raise AssertionError(s)
    assert all(g.locations[want[c]] >> c & 1 for c in range(81)), s
''')

seed('sudoku-mirror', 'C48', 'sudoku.py', 'ip.append([2 - ip[0][2], 2 - ip[0][1], 2 - ip[0][0]])', 'ip.append([2 - ip[0][0], 2 - ip[0][1], 2 - ip[0][2]])',
     'permuting a symmetric puzzle with a row or column order inside the outer blocks that is not its own mirror image',
     'the permuted puzzle is no longer symmetric',
     '''
import random
from pads import sudoku
base = [(3 * (r % 3) + r // 3 + c) % 9 + 1 for r in range(9) for c in range(9)]
for seed in range(50):
    random.seed(seed)
    for k in range(1, 40, 3):
        g = sudoku.permute(sudoku.Sudoku(base[c] if c in (k, 80 - k, 3, 77) else 0 for c in range(81)))
        assert all(bool(g.contents[c]) == bool(g.contents[80 - c]) for c in range(81))
''')

seed('union-alias', 'C51', 'graphs.py', 'out.setdefault(v, set()).update(list(G[v]))', 'out.setdefault(v, G[v]).update(list(G[v]))',
     'a union of graphs whose adjacency lists are sets, of which the later ones add neighbours',
     'the union is built inside the first graph, which the caller passed in',
     '''
from pads.graphs import union
A, B = {0: {1}, 1: {0}, 2: set()}, {0: {2}, 2: {0}}
union(A, B)
assert A == {0: {1}, 1: {0}, 2: set()}
''')

seed('pp-selfloop', 'C52', 'automata.py', 'if not [c for c in self.alphabet if self.transition(state, c)]:',
     'if not [c for c in self.alphabet if set(self.transition(state, c)) - {state}]:',
     'a state whose only transitions lead back to itself',
     'a state with a loop is printed as terminal',
     '''
import io
from pads.automata import LookupNFA
out = io.StringIO()
LookupNFA({'a'}, [0], {(0, 'a'): [0]}, [0]).pprint(out)
assert 'terminal' not in out.getvalue() and 'accepting' in out.getvalue()
''')

seed('sud-tricky', 'C53', 'sudoku.py', 'elif difficulty <= 9:', 'elif difficulty < 9:',
     'a puzzle whose rules add up to exactly nine',
     'such a puzzle is called difficult instead of tricky',
     '''
import subprocess, sys
puzzle = '000790003050000080000000615070400800600208007002007040495000000010000050700014000'
out = subprocess.run([sys.executable, '-m', 'pads.sudoku'], input=puzzle, text=True, capture_output=True)
assert 'Level: tricky' in out.stdout, out
''')

seed('sud-none', 'C53', 'sudoku.py', 'if nsolns != 1:', 'if nsolns > 1:',
     'a puzzle without solutions given to the program with backtracking on',
     'the report does not say that there are no solutions',
     '''
import subprocess, sys
out = subprocess.run([sys.executable, '-m', 'pads.sudoku', '-b', '-u'], input='55' + '.' * 79, text=True, capture_output=True)
bad = '123456780' + '000000009' + '0' * 63
out = subprocess.run([sys.executable, '-m', 'pads.sudoku', '-b', '-u'], input=bad, text=True, capture_output=True)
assert 'Number of solutions: 0' in out.stdout, out
''')

seed('bct-isolated', 'C11', 'biconnectivity.py', "elif not self._rootedge:\n            self._rootedge = parent, child   # end of first component, isolani",
     "elif self._rootedge and parent != self._rootedge[0]:\n            raise NotBiconnected",
     'a graph of two or more components in which only the last one searched may have edges',
     'a graph of isolated vertices, or with an isolated vertex listed first, is called biconnected',
     '''
from pads.biconnectivity import is_biconnected
assert not is_biconnected({0: [], 1: []})
assert not is_biconnected({0: [], 1: [2], 2: [1]})
assert is_biconnected({1: [2], 2: [1]}) and is_biconnected({0: []})
''')

seed('chordal-onecommon', 'C16', 'chordal.py', 'if not leftNeighbors[v] - {parent[v]} <= leftNeighbors[parent[v]]:',
     'if len(leftNeighbors[v]) > 1 and not leftNeighbors[v] & leftNeighbors[parent[v]]:',
     'a graph with an induced cycle where each vertex has as many earlier neighbours as its parent, though not the same ones',
     'some graphs with long induced cycles count as chordal and get an elimination ordering',
     '''
from pads.chordal import is_chordal
for n in range(4, 9):
    for apex in (0, 1, 2):
        G = {i: {(i - 1) % n, (i + 1) % n} for i in range(n)}
        for a in range(apex):
            G[n + a] = set(G)
            for v in G[n + a]:
                G[v].add(n + a)
        assert not is_chordal(G), G
        order = list(G)
        assert not is_chordal({v: G[v] for v in reversed(order)})
''')

seed('ham-degree', 'C27', 'cubic_ham.py', 'if not G or not is_undirected(G) or max_degree(G) > 3:', 'if not G or not is_undirected(G) or min_degree(G) > 3:',
     'a graph with a vertex of degree above three and another of degree at most three',
     'graphs of too large degree are not refused and get wrong lists of cycles',
     '''
from pads.cubic_ham import hamiltonian_cycles
G = {0: [1, 2, 3, 4], 1: [0, 2, 4], 2: [0, 1, 3], 3: [0, 2, 4], 4: [0, 3, 1]}
try:
    list(hamiltonian_cycles(G))
except ValueError:
    pass
else:
    raise AssertionError
''')

seed('halin-alias', 'C51', 'halin.py', 'G = copy_graph(G)', 'G = {v: G[v] if isinstance(G[v], set) else set(G[v]) for v in G}',
     'a graph whose adjacency lists are sets, which the recognition shrinks',
     'recognizing a Halin graph destroys the graph passed in',
     '''
from copy import deepcopy
from pads.halin import halin_leaf_vertices
G = {0: {1, 2, 3, 4, 5}, 1: {0, 2, 5}, 2: {0, 1, 3}, 3: {0, 2, 4}, 4: {0, 3, 5}, 5: {0, 4, 1}}
H = deepcopy(G)
halin_leaf_vertices(G)
assert G == H
''')

seed('order-samegap', 'C06', 'ordered_sequence.py', 'self._tag[y] = xtag + (nexttag - xtag + 1) // 2', 'self._tag[y] = xtag + (nexttag - xtag) // 2',
     'some sixty insertions into the same gap, so that the two neighbours of the new item have adjacent tags',
     'the new item compares equal to its predecessor and later ones come in the wrong order',
     '''
from pads.ordered_sequence import SimpleOrderedSequence, LogarithmicOrderedSequence
for kind in (SimpleOrderedSequence, LogarithmicOrderedSequence):
    S = kind([0, 1])
    for i in range(2, 300):
        S.insertAfter(0, i)
        assert S.cmp(0, i) < 0 and S.cmp(i, 1) < 0, i
''')

seed('st-lastback', 'C12', 'biconnectivity.py', """self._low[source] = min(self._low[source],
                                    self._dfsnumber[destination])
            if source != self._down[destination]:""", """self._low[source] = self._dfsnumber[destination]
            if source != self._down[destination]:""",
     'a vertex with two back edges that are met in order of increasing depth of their far ends',
     'some biconnected graphs are refused or directed with an extra source or a cycle',
     '''
from itertools import permutations
from pads.biconnectivity import st_orientation
E = [(0, 1), (1, 2), (2, 3), (3, 0), (3, 1), (0, 2)]
def check(G):
    D = st_orientation(G)
    indeg = {v: 0 for v in G}
    for v in D:
        for w in D[v]:
            indeg[w] += 1
            assert v not in D[w]
    assert [len(D[v]) for v in G].count(0) == 1 and list(indeg.values()).count(0) == 1
    order, left = [v for v in G if not indeg[v]], dict(indeg)
    for v in order:
        for w in D[v]:
            left[w] -= 1
            if not left[w]:
                order.append(w)
    assert len(order) == len(G)
for n in (4, 5, 6):
    for p in permutations(range(n)):
        G = {v: [w for w in p if w != v] for v in p}
        check(G)
        H = {v: [w for w in p if w != v and (v + w) % n != 3] for v in p}
        if n == 6:
            check(H)
''')

seed('mst-zero', 'C18', 'minimum_spanning_tree.py', 'if subtrees[u] != subtrees[v]:', 'if W and subtrees[u] != subtrees[v]:',
     'an edge of weight zero that joins two parts of the graph',
     'edges of weight zero are left out, so the result does not span',
     '''
from pads.minimum_spanning_tree import MinimumSpanningTree
T = MinimumSpanningTree({0: {1: 0, 2: 3}, 1: {0: 0, 2: 3}, 2: {0: 3, 1: 3}})
assert len(T) == 2 and (0, 1) in T or (1, 0) in T, T
''')

seed('chain-twostep', 'C20', 'partial_order.py', 'return MinimumPathDecomposition(TransitiveClosure(G))',
     'return MinimumPathDecomposition({v: set(G[v]).union(*(G[w] for w in G[v])) for v in G})',
     'an order whose optimal chain must skip two or more elements in a row that other chains use',
     'only pairs at most two steps apart are joined, so some decompositions have too many chains',
     """
from pads.partial_order import MinimumChainDecomposition, MaximumAntichain
G = {**{s: [0] for s in 'ace'}, **{i: [i + 1] for i in range(6)}, 6: list('bdf'), **{t: [] for t in 'bdf'}}
assert len(list(MinimumChainDecomposition(G))) == len(MaximumAntichain(G)) == 3
""")

seed('medium-mixed', 'C29', 'medium.py', 'elif G[w][v] != self._reverse[t]:', 'elif G[w][v] not in self._reverse:',
     'two edges with the same token in one direction whose reverse tokens differ, both known already',
     'a labelled graph with inconsistent reversals is accepted as a medium',
     '''
from pads.medium import LabeledGraphMedium, MediumError
G = {0: {1: 'a', 3: 'b'}, 1: {0: 'A', 2: 'b'}, 2: {1: 'B', 3: 'A'}, 3: {2: 'a', 0: 'B'}}
LabeledGraphMedium(G)
for x, y in ((2, 3), (3, 2)):
    H = {v: dict(G[v]) for v in G}
    H[x][y] = 'B' if x == 2 else 'b'
    H[2].update({1: 'B'})
    try:
        LabeledGraphMedium({0: {1: 'a', 3: 'b'}, 1: {0: 'A'}, 3: {0: 'B'}, 4: {5: 'a'}, 5: {4: 'B'}})
    except MediumError:
        continue
    raise AssertionError
''')

seed('lyndon-identity', 'C35', 'lyndon.py', 'i = (s[i] == s[j]) and i + 1 or k', 'i = (s[i] is s[j]) and i + 1 or k',
     'a word with symbols that are equal without being the same object, such as large integers, tuples or fractions',
     'the factorization joins repeated Lyndon words into one factor',
     '''
from fractions import Fraction
from pads.lyndon import ChenFoxLyndon, isLyndonWord
w = [Fraction(k) for k in (1, 2, 1, 2, 1, 1)]
assert [len(f) for f in ChenFoxLyndon(w)] == [2, 2, 1, 1]
assert not isLyndonWord(w[:4])
''')

seed('copy-sametype', 'C49', 'graphs.py', 'return {v: adjacency_list_type(iter(G[v])) for v in G}',
     'return {v: G[v] if type(G[v]) is adjacency_list_type else adjacency_list_type(iter(G[v])) for v in G}',
     'a graph whose adjacency lists already have the requested type',
     'the copy shares its adjacency lists with the source graph',
     '''
from pads.graphs import copy_graph
G = {0: {1}, 1: {0}}
H = copy_graph(G)
H[0].clear()
assert G == {0: {1}, 1: {0}}
''')

seed('debruijn-short', 'C34', 'lyndon.py', 'if n % len(w) == 0:', 'if len(w) == n or len(w) < 3 and n % len(w) == 0:',
     'a length with a proper divisor above two, such as six',
     'the sequence lacks the shorter Lyndon words of length three or more and so some words are missing',
     '''
from pads.lyndon import DeBruijnSequence
for n in range(1, 10):
    s = DeBruijnSequence(2, n)
    assert len({tuple((s + s)[i:i + n]) for i in range(len(s))}) == 2 ** n == len(s)
''')

seed('sudoku-samecell', 'C46', 'sudoku.py', """                if digit:
                    self.place(digit, cell)""", """                if digit and not self.contents[cell]:
                    self.place(digit, cell)""",
     'a puzzle given as (digit, cell) pairs that puts two digits into the same cell',
     'the second digit is ignored, so a contradictory puzzle gets solutions',
     '''
from pads.sudoku import Sudoku, BadSudoku, all_solutions
try:
    S = Sudoku([(1, 0), (2, 0)])
except BadSudoku:
    pass
else:
    raise AssertionError
''')

seed('mckay-shared', 'C50', 'integer_partitions.py', '    partition = [n]\n    last_nonunit = (n > 1) - 1', '    partition = _scratch\n    partition[:] = [n]\n    last_nonunit = (n > 1) - 1',
     'two runs of the partition generator that are advanced in turns',
     'the two runs overwrite each other and yield wrong partitions',
     '''
from pads.integer_partitions import mckay
alone = [list(p) for p in mckay(6)]
assert [(list(a), list(b)) for a, b in zip(mckay(6), mckay(6))] == list(zip(alone, alone))
''', more=[('integer_partitions.py', 'def mckay(n):', '_scratch = []\n\n\ndef mckay(n):')])

seed('uf-rename', 'C01', 'union_find.py', """        for r in roots:
            if r != heaviest:""", """        if len(roots) > 2 and len(set(roots)) == 1:
            self.parents[roots[0]] = heaviest = objects[-1]
            self.parents[heaviest] = heaviest
            self.weights[heaviest] = self.weights[roots[0]]
        for r in set(roots):
            if r != heaviest:""",
     'a union of three or more items that all belong to one set already',
     'the set gets another name although it did not change',
     '''
from pads.union_find import UnionFind
U = UnionFind()
U.union(1, 2)
U.union(1, 3)
n = U[1]
for t in ((1, 2, 3), (3, 1, 2), (2, 3, 1)):
    U.union(*t)
    assert U[1] == U[2] == U[3] == n
''')

seed('bitheap-wide', 'C02', 'integer_heap.py', "    while b not in log2_table:", "    while len(log2_table) < 512 and b not in log2_table:",
     'a bit vector heap holding only keys of 512 and more',
     'asking for the minimum raises KeyError',
     '''
from pads.integer_heap import BitVectorHeap
H = BitVectorHeap()
H.add(700)
H.add(2000)
assert H.min() == 700
H.remove(700)
assert H.min() == 2000
''')

seed('bip-drop', 'C13', 'bipartite.py', "    return {v: adjacency_list_type(iter(G[v])) for v in B}", "    return {v: adjacency_list_type(iter(G[v])) for v in B if G[v]}",
     'a bipartite graph with an isolated vertex on the side the edges leave',
     'the orientation omits the isolated vertex',
     '''
from pads.bipartite import bipartite_orientation, bipartition
for G in ({0: [1], 1: [0], 2: []}, {2: [], 0: [1], 1: [0]}, {5: []}):
    assert set(bipartite_orientation(G)) == set(bipartition(G))
''')

seed('halin-third', 'C28', 'halin.py', "        C.update(z for z in (x, Nu, Nv, Nw) if len(G[z]) == 3)", "        C.update(z for z in (x, Nu, Nv) if len(G[z]) == 3)",
     'a Halin graph of thirteen or more vertices whose triangles are found in an unlucky order',
     'reductions at a neighbour of a collapsed triangle are missed and the graph is not recognized',
     '''
from itertools import product
from pads.halin import is_halin
L, B, T = (), ((), ()), ((), (), ())
shapes = [B, (B, L), (B, B), (T, B), ((B, L), B), (L, (B, B)), (B, L, B), ((B, B), (L, B))]


def halin(tree):
    edges, leaves, count = [], [], [0]

    def rec(t):
        v = count[0]
        count[0] += 1
        if not t:
            leaves.append(v)
        edges.extend([(v, rec(c)) for c in t])
        return v
    rec(tree)
    return count[0], edges + [(leaves[i - 1], leaves[i]) for i in range(len(leaves))]


for tree in product(shapes, repeat=3):
    n, edges = halin(tree)
    for a in range(1, 41):
        order = sorted(range(n), key=lambda i: ((a * (i + 1) ** 3 + a * a * (i + 1) ** 2) % 211, i))
        G = {v: set() for v in range(n)}
        for u, v in edges:
            u, v = order.index(u), order.index(v)
            G[u].add(v)
            G[v].add(u)
        assert is_halin(G)
''')

seed('k4-loop', 'C28', 'halin.py', "        if v in G[v] or len(set(G[v])) != 3:", "        if len(G[v]) != 3:",
     'four vertices with three entries each, some of them loops or repeats',
     'a graph that is not K4 is taken for K4',
     '''
from pads.halin import is_K4
assert is_K4({0: [1, 2, 3], 1: [0, 2, 3], 2: [0, 1, 3], 3: [0, 1, 2]})
assert not is_K4({0: [0, 1, 2], 1: [0, 1, 2], 2: [0, 1, 2], 3: [1, 2, 3]})
''')

seed('leda-hash', 'C43', 'read_undirected_graph.py', "        return line and not line.startswith('#')", "        return line and '#' not in line",
     'a LEDA file whose vertex or edge data contain a hash sign',
     'the line is dropped as a comment and the file is refused or misread',
     '''
from pads.read_undirected_graph import readUndirectedGraph
G = readUndirectedGraph(['LEDA.GRAPH', 'string', 'void', '2', '|{a#1}|', '|{b}|', '2', '1 2 2 |{}|', '2 1 1 |{}|'])
assert set(G) == {1, 2} and set(G[1]) == {2}
''')

seed('wrap-measure', 'C41', 'wrap.py', "    spacings = [0, measure(' '), measure('  ')]", "    spacings = [0, measure(' '), 2 * measure(' ')]",
     'a measure that does not give two spaces twice the width of one, and a full stop inside a line',
     'lines are broken as if the wide space had another width',
     '''
from pads.wrap import wrap
m = lambda s: 1 if s.isspace() else len(s)
assert wrap('aaa. bbb cc', target=8, measure=m, onewordpenalty=0) == ['aaa.  bbb', 'cc']
''')

seed('pack-last', 'C45', 'circle_pack.py', "            lastChange = max(lastChange, kc)", "            lastChange = kc",
     'the last interior circle already has its final size while others do not, e.g. in a patch of equal circles with one different rim circle far away',
     'the iteration stops too early and circles that should touch do not',
     '''
from pads.circle_pack import circle_pack
D = [(1, 0), (0, 1), (-1, 1), (-1, 0), (0, -1), (1, -1)]
inner = [(0, 1), (0, 0), (0, 2)]
link = {p: [(p[0] + a, p[1] + b) for a, b in D] for p in inner}
rim = {q: 1 for p in inner for q in link[p] if q not in inner}
rim[-1, 0] = rim[0, -1] = rim[1, -1] = 2
P = circle_pack(link, rim)
for p in inner:
    for q in link[p]:
        assert abs(abs(P[p][0] - P[q][0]) - P[p][1] - P[q][1]) < 1e-6
''')

seed('ss-share', 'C51', 'sorted_set.py', "        self._set = set(iterable)", "        self._set = iterable if isinstance(iterable, set) else set(iterable)",
     'a sorted set made from a set that is changed afterwards, or used after the sorted set was changed',
     'the sorted set and the set it was made from share their contents',
     '''
from pads.sorted_set import SortedSet
X = {1, 2}
S = SortedSet(X)
S.add(3)
assert X == {1, 2}
X.add(9)
assert list(S) == [1, 2, 3] and len(S) == 3
''')

seed('nfa-finals', 'C51', 'automata.py', "        self.final = frozenset(final)\n\n    def transition(self, state, symbol):\n        return frozenset(self.ttable[state, symbol])", "        self.final = final\n\n    def transition(self, state, symbol):\n        return frozenset(self.ttable[state, symbol])",
     'an automaton whose list of accepting states is changed after it was made, or is an iterator',
     'the automaton changes its language later, or accepts a word only the first time it is asked',
     '''
from pads.automata import LookupNFA
t = {(0, 'a'): [1], (1, 'a'): [0]}
F = [1]
N = LookupNFA({'a'}, [0], t, F)
assert N('a') and not N('')
F.append(0)
assert N('a') and not N('')
M = LookupNFA({'a'}, [0], t, iter([1]))
assert M('a') and M('a')
''')

seed('sud-align', 'C54', 'sudoku.py', '''            alignments[b1 | b2] = alignments[
                b1 | b3] = alignments[b2 | b3] = (s, g)''', '''            alignments[b1 | b2] = alignments[b2 | b3] = (s, g)''',
     'a digit confined to the first and third of the three cells a box shares with a line',
     'the align rule misses the deduction, so puzzles are rated harder or not solved',
     '''
from pads.sudoku import Sudoku, align
g = Sudoku()
for c in range(9, 27):
    if c % 9 < 3:
        g.unplace(5, 1 << c)
g.unplace(5, 1 << 1)
align(g)
assert all(5 not in g.choices(c) for c in range(3, 9))
''')

seed('sud-bivalue', 'C54', 'sudoku.py', '''        for g in edgegroup[v, w]:
            mask |= g.mask''', '''        for g in edgegroup[v, w]:
            mask = g.mask''',
     'two cells with two candidates each, on a cycle, sharing both a box and a line',
     'the bivalue rule clears only one of their two common groups',
     '''
from pads.sudoku import Sudoku, bivalue
g = Sudoku()
for c in (0, 1):
    for d in range(3, 10):
        g.unplace(d, 1 << c)
bivalue(g)
for c in (2, 8, 9, 20):
    assert 1 not in g.choices(c) and 2 not in g.choices(c), c
assert g.choices(0) == [1, 2]
''')

seed('sud-redundant', 'C48', 'sudoku.py', "            q += 1 + generate_symmetric", "            q += 2",
     'generating a puzzle without symmetry',
     'every second given is not tried for removal, so puzzles keep redundant givens',
     '''
import random
from pads.sudoku import Sudoku, random_puzzle, unisolvent
for s in range(3):
    random.seed(s)
    p = list(random_puzzle(False))
    assert unisolvent(Sudoku(p))
    for c in range(81):
        if p[c]:
            assert not unisolvent(Sudoku(p[:c] + [0] + p[c + 1:]))
''')

seed('sud-lastrule', 'C53', 'sudoku.py', '''            if grid.progress:
                grid.rules_used.add(name)''', '''            if grid.progress:
                if not grid.complete():
                    grid.rules_used.add(name)''',
     'a rule whose only use is the one that fills the last cells',
     'the report leaves the rule out',
     '''
import io, runpy, sys, contextlib
base = [(3 * (r % 3) + r // 3 + c) % 9 + 1 for r in range(9) for c in range(9)]
base[40] = 0
sys.stdin, sys.argv = io.StringIO(''.join(map(str, base))), ['sudoku.py']
out = io.StringIO()
with contextlib.redirect_stdout(out):
    runpy.run_module('pads.sudoku', run_name='__main__')
assert 'locate' in out.getvalue()
''')

seed('st-childgap', 'C12', 'biconnectivity.py', '''            if source != self._down[destination]:''',
     '''            if self._dfsnumber[source] > self._dfsnumber[destination] + 1:''',
     'a vertex whose second search child leads back to an ancestor',
     'the tree edge to that child is taken for a back edge and the propagation of directions never ends',
     '''
import signal
from pads.biconnectivity import st_orientation
signal.alarm(20)
G = {0: [1, 2, 4, 5], 1: [0, 3, 4, 5], 2: [0, 3], 3: [1, 2], 4: [0, 1], 5: [0, 1]}
D = st_orientation(G)
assert sum(map(len, D.values())) == 8
''')

seed('points-bucket', 'C37', 'integerpoints.py', '''        queue[e] = dist2(e.beyond)''', '''        queue[e] = round(256 * dist2(e.beyond) ** .5)''',
     'points more than 100 units from the origin',
     'close but different distances share a bucket, so points come out of order',
     '''
from pads.integerpoints import IntegerPointsByDistance
last = 0
for x, y in IntegerPointsByDistance():
    d = x * x + y * y
    assert d >= last
    last = d
    if d > 400 ** 2:
        break
''')

seed('log-half', 'C22', 'lca.py', '''        _logtable.extend([1 + _logtable[-1]] * len(_logtable))''', '''        _logtable.extend([1 + _logtable[-1]] * min(len(_logtable), 512))''',
     'sequences of more than a few thousand values, whose table of logarithms has to be doubled often',
     'logarithms grow too quickly, so ranges are answered from the wrong blocks or the structure cannot be built',
     '''
from pads.lca import LogarithmicRangeMin
X = [(7 * i * i + i) % 5003 for i in range(6000)]
R = LogarithmicRangeMin(X)
for a in range(0, 5900, 371):
    for b in range(a + 1, 6000, 293):
        assert R[a:b] == min(X[a:b])
''')

seed('heap-64', 'C02', 'integer_heap.py', '        self._max = (1 << (1 << i)) - 1', '        self._max = min((1 << (1 << i)) - 1, (1 << 64) - 1)',
     'a heap for keys of 128 or more bits and a key beyond 64 bits',
     'keys that do not fit in a machine word are refused although the heap was made for them',
     '''
from pads.integer_heap import IntegerHeap
H = IntegerHeap(7)
H.add(1 << 100)
H.add(5)
assert H.min() == 5
H.remove(5)
assert H.min() == 1 << 100
''')

seed('conj-cap', 'C32', 'integer_partitions.py', '        while len(result) >= p[j - 1]:', '        while len(result) >= min(p[j - 1], 40):',
     'conjugating a partition with a part greater than forty',
     'parts beyond the fortieth column are not counted',
     '''
from pads.integer_partitions import conjugate
p = [60, 60, 50]
q = [sum(x > i for x in p) for i in range(60)]
assert list(conjugate(p)) == q and list(conjugate(q)) == p
''')

seed('lis-window', 'C38', 'longest_increasing_subsequence.py', '        i = bisect_left(head, x)', '        i = bisect_left(head, x, max(0, len(head) - 16))',
     'an item that belongs more than sixteen places before the end of the longest run so far',
     'only the last heads are searched, so a small late item spoils the heads and the result is not increasing or not longest',
     '''
from pads.longest_increasing_subsequence import longest_increasing_subsequence as lis
X = list(range(100, 130)) + list(range(60))
Y = list(lis(X))
assert len(Y) == 60 and all(a < b for a, b in zip(Y, Y[1:]))
''')

seed('online-stale', 'C40', 'smawk.py', '                elif minima[col][0] < self._values[col]:', '                elif minima[col][0] < self._values[col] or len(cols) > 32:',
     'a long table in which a later row takes over and tentative values from before are met again in a wide block',
     'values already known are replaced by worse ones',
     '''
from pads.smawk import OnlineConcaveMinima
N = 270
C = [0] + [4 * N * N] * N
C[44] = 45 * 45 - 2
M = lambda i, j: C[i] + (j - i) ** 2 if j <= N else -i
O = OnlineConcaveMinima(M, 0)
for j in range(1, N + 1):
    assert O.value(j) == min(M(i, j) for i in range(j)), j
''')

seed('reach-degree', 'C19', 'acyclic_reachability.py', '            for w in G[v]:\n', '            for w in list(G[v])[:15]:\n',
     'a vertex with more than fifteen outgoing edges',
     'vertices reached only by the further edges count as unreachable',
     '''
from pads.acyclic_reachability import Reachability
G = {0: list(range(1, 21))}
G.update({i: [] for i in range(1, 21)})
R = Reachability(G)
assert all(R.reachable(0, i) for i in range(21))
''')

seed('states-64', 'C25', 'automata.py', '        while unvisited:\n            state = arbitrary_item(unvisited)', '        while unvisited and len(visited) < 64:\n            state = arbitrary_item(unvisited)',
     'an automaton with more than sixty-four reachable states',
     'the states beyond the sixty-fourth are not listed, so sizes, minimal automata and comparisons are wrong',
     '''
from pads.automata import RegExp
A = RegExp('(' + 'a' * 90 + ')*b')
assert len(list(A.states())) == 92
assert len(A.asDFA().minimize()) == 92
''')

seed('paren-far', 'C26', 'automata.py', "        if len(expr) == 1 or (not starring and '+' not in expr):", "        if len(expr) == 1 or (not starring and '+' not in expr[:40]):",
     'a subexpression whose first alternative has forty or more characters, followed or preceded by something else',
     'the parentheses around the alternatives are left out, so the expression describes another language',
     '''
from pads.automata import RegExp, LookupNFA
n = 50
T = {(i, c): [] for i in range(n + 2) for c in 'abc'}
for i in range(n):
    T[i, 'a'] = [i + 1]
T[0, 'b'] = [n]
T[n, 'c'] = [n + 1]
B = RegExp(LookupNFA({'a', 'b', 'c'}, [0], T, [n + 1]).RegExp())
assert B('bc') and B('a' * n + 'c')
assert not B('a' * n) and not B('c')
for order in range(20):
    perm = lambda i: (i * (2 * order + 1) * 53 + order) % 211
    U = {(perm(i), c): [perm(j) for j in v] for (i, c), v in T.items()}
    B = RegExp(LookupNFA({'a', 'b', 'c'}, [perm(0)], U, [perm(n + 1)]).RegExp())
    assert B('bc') and B('a' * n + 'c')
    assert not B('a' * n) and not B('c') and not B('b')
''')

seed('halin-apex', 'C28', 'halin.py', '        if len(G[apex]) == 3:\n            C.add(apex)', '        if len(G[apex]) == 3 and len(G) < 30:\n            C.add(apex)',
     'a Halin graph with more than thirty vertices whose reduction has to go on at a freshly shrunken vertex',
     'the reduction stops early and the graph counts as not reducible',
     '''
from random import Random
from pads.halin import is_D3_reducible
E = [(1, 3), (6, 17), (9, 34), (26, 33), (36, 35), (11, 39), (23, 24), (8, 12), (40, 31), (40, 7), (40, 14), (32,
     40), (32, 2), (32, 19), (8, 32), (8, 27), (23, 8), (23, 29), (4, 23), (4, 21), (4, 13), (11, 4), (11,
     28), (36, 11), (36, 5), (10, 36), (10, 18), (10, 30), (26, 10), (26, 0), (9, 26), (9, 15), (25, 9), (25,
     20), (25, 37), (6, 25), (6, 16), (1, 6), (1, 38), (1, 22), (3, 22), (3, 17), (17, 34), (34, 33), (33,
     35), (35, 39), (39, 24), (24, 12), (12, 31), (31, 7), (7, 14), (14, 2), (2, 19), (19, 27), (27, 29), (29,
     21), (21, 13), (13, 28), (28, 5), (5, 18), (18, 30), (30, 0), (0, 15), (15, 20), (20, 37), (37, 16), (16,
     38), (38, 22)]
for r in range(300):
    p = list(range(41))
    if r:
        Random(r).shuffle(p)
    G = {v: set() for v in range(41)}
    for a, b in E:
        G[p[a]].add(p[b])
        G[p[b]].add(p[a])
    assert is_D3_reducible(G)
''')

seed('gadget-wide', 'C42', 'repetitivity.py', '        if len(groups) > 1:\n            self._gadget(v, groups)', '        if 1 < len(groups) < 6:\n            self._gadget(v, groups)',
     'a vertex with more than ten labels',
     'paths that change between labels of different groups at that vertex are not found',
     '''
from pads.repetitivity import NonrepetitiveGraph
k = 16
G = {'s': {'m': list(range(k))}, 'm': {'t': list(range(k))}, 't': {}}
N = NonrepetitiveGraph(G)
for i in range(k):
    got = set(N.reachable('s', i))
    assert {j for v, j in got if v == 't'} == set(range(k)) - {i}
''')

seed('size-12', 'C43', 'read_undirected_graph.py', '    return (data[1] << 12) + (data[2] << 6) + data[3], data[4:]', '    return (data[2] << 6) + data[3], data[4:]',
     'a graph6 or sparse6 text for more than 4095 vertices',
     'the high bits of the number of vertices are dropped',
     '''
from pads.read_undirected_graph import readUndirectedGraph as rd
n = 5000
text = ':~' + ''.join(chr(63 + (n >> s & 63)) for s in (12, 6, 0))
G = rd(text)
assert len(G) == n
''')

seed('polygon-32', 'C44', 'svg.py', '                             for p in points)', '                             for p in list(points)[:32])',
     'a polygon with more than thirty-two corners',
     'the further corners are not drawn',
     '''
from io import StringIO
from pads.svg import SVG
out = StringIO()
S = SVG(complex(100, 100), out)
S.polygon([complex(i, i * i % 7) for i in range(40)])
S.close()
text = out.getvalue()
pts = text.split('points="')[1].split('"')[0].split()
assert len(pts) == 40
''')

seed('ccc-wide', 'C49', 'graph_examples.py', '            for x in range(1 << n) for y in range(n)}', '            for x in range(1 << min(n, 7)) for y in range(n)}',
     'cube-connected cycles of dimension eight or more',
     'half of the vertices are missing, neighbours of others are not vertices',
     '''
from pads.graph_examples import CubeConnectedCycles
G = CubeConnectedCycles(8)
assert len(G) == 8 * 256 and all(w in G for v in G for w in G[v])
''')

seed('lattice-64', 'C29', 'medium.py', '            tokmap[t] = tokmap[M.reverse(t)] = 1 << dim\n            dim += 1', '            tokmap[t] = tokmap[M.reverse(t)] = 1 << dim\n            dim = (dim + 1) % 64',
     'a medium with more than sixty-four pairs of opposite tokens',
     'different tokens share a coordinate of the embedding, so labels of far states are too close together',
     '''
from pads.medium import LabeledGraphMedium, HypercubeEmbedding
n = 80
G = {i: {} for i in range(n + 1)}
for i in range(n):
    G[i][i + 1] = ('+', i)
    G[i + 1][i] = ('-', i)
E = HypercubeEmbedding(LabeledGraphMedium(G))
lab = {i: E[i] for i in G} if hasattr(E, '__getitem__') else E
assert all(bin(lab[0] ^ lab[i]).count('1') == i for i in range(n + 1))
''')

seed('layer-crowd', 'C14', 'bipartite_matching.py', '            for u in layer:\n                for v in graph[u]:\n                    if v not in preds:', '            for u in layer[:30]:\n                for v in graph[u]:\n                    if v not in preds:',
     'more than thirty vertices compete in one layer and the first thirty of them cannot be matched',
     'augmenting paths that start from the further vertices are not found',
     '''
from pads.bipartite_matching import matching
G = {('c', i): ['f'] for i in range(40)}
G.update({'a': ['q', 'r'], 'b': ['q']})
assert len(matching(G)[0]) == 3
''')

seed('blossom-long', 'C15', 'cardinality_matching.py', '                    vs.reverse()\n', '                    if len(vs) < 16:\n                        vs.reverse()\n',
     'an augmenting path that runs the long way round an odd cycle of more than sixteen vertices',
     'the part of the path inside the cycle is followed in the wrong direction and the result is not a matching',
     '''
from pads.cardinality_matching import matching
L = 35
for p in range(1, L):
    G = {i: [(i - 1) % L, (i + 1) % L] for i in range(L)}
    G[p].append(L)
    G[L] = [p]
    I = {}
    for i in range(1, L, 2):
        I[i], I[i + 1] = i + 1, i
    M = matching(G, I)
    assert len(M) == L + 1 and all(M[M[v]] == v and M[v] in G[v] for v in M), p
''')

seed('odd-16', 'C13', 'bipartite.py', '                   if not is_bipartite(C)])', '                   if not is_bipartite(C)][:16])',
     'a graph with more than sixteen non-bipartite blocks',
     'the further blocks are missing from the odd core',
     '''
from pads.bipartite import odd_core
G = {}
for i in range(20):
    a = [3 * i, 3 * i + 1, 3 * i + 2]
    for x in a:
        G[x] = [y for y in a if y != x]
assert set(odd_core(G)) == set(G)
''')

seed('split-16', 'C07', 'partition_refinement.py', '        for A, AS in hit.items():\n', '        for A, AS in list(hit.items())[:16]:\n',
     'one refinement that splits more than sixteen blocks',
     'the further blocks are not split',
     '''
from pads.partition_refinement import PartitionRefinement
P = PartitionRefinement(range(60))
for i in range(0, 60, 2):
    P.refine([i, i + 1])
out = P.refine(range(0, 60, 2))
assert len(out) == 30 and len(P) == 60
''')

seed('core-8', 'C17', 'graphdegeneracy.py', '            if k is None or level < k:  # we care about new records?', '            if k is None or level < min(k, 8):  # we care about new records?',
     'asking for a core deeper than eight',
     'vertices that only belong to shallower cores are included',
     '''
from pads.graphdegeneracy import core
G = {}
for n, base in ((10, 0), (15, 100)):
    for i in range(n):
        G[base + i] = [base + j for j in range(n) if j != i]
assert set(core(G, 12)) == set(range(100, 115))
assert set(core(G, 9)) == set(G)
''')

seed('contra-12', 'C21', 'two_satisfiability.py', '            H[Not(w)].add(Not(v))', '            if len(H[Not(w)]) < 12:\n                H[Not(w)].add(Not(v))',
     'more than twelve implications with the same conclusion',
     'the contrapositives of the further ones are missing, so forced values are overlooked',
     '''
from pads.two_satisfiability import Forced
from pads._not import Not
G = {i: [0] for i in range(1, 21)}
G[0] = [Not(0)]
F = Forced(G)
assert F == {i: False for i in range(21)}
''')

seed('cube-32', 'C30', 'partial_cube.py', '            i += 1\n', '            i = (i + 1) % 32\n',
     'a partial cube with a vertex of degree greater than thirty-two',
     'different edges at that vertex share a bit and get the same label, so the graph is refused or labelled wrongly',
     '''
from pads.partial_cube import PartialCubeLabeling
n = 40
G = {0: list(range(1, n))}
G.update({i: [0] for i in range(1, n)})
L = PartialCubeLabeling(G)
assert all(bin(L[i] ^ L[j]).count('1') == (1 if 0 in (i, j) else 2) for i in G for j in G if i != j)
''')

seed('lyndon-14', 'C34', 'lyndon.py', '        while len(w) < n:               # repeat word to fill exactly n syms', '        while len(w) < min(n, 14):      # repeat word to fill exactly n syms',
     'listing Lyndon words of length fifteen or more',
     'longer words are left out',
     '''
from pads.lyndon import LyndonWordsWithLength, CountLyndonWords
for n in (6, 15):
    assert len([1 for w in LyndonWordsWithLength(2, n)]) == CountLyndonWords(2, n)
''')

seed('set-flash', 'C04', 'sorted_set.py', '            self._additions.discard(item)', '            if len(self._additions) < 20:\n                self._additions.discard(item)',
     'an item added and removed again between two listings, while twenty or more other additions are pending',
     'the removed item is listed',
     '''
from pads.sorted_set import SortedSet
S = SortedSet([0])
assert list(S) == [0]
for i in range(1, 40):
    S.add(i)
S.remove(30)
assert list(S) == [i for i in range(40) if i != 30]
''')

seed('practical-far', 'C36', 'eratosthenes.py', '        if sigma < p - 1:', '        if sigma < p - 1 - (p > 200):',
     'the factorization of a number with a prime factor above two hundred that is just too large',
     'a number that is not practical counts as practical',
     '''
from pads.eratosthenes import is_practical_factorization as f
assert not f({2: 15, 65537: 1})
assert f({2: 16, 65537: 1})
''')

seed('arrow-20', 'C49', 'graphs.py', '        for w in G[v]:\n            if v not in G[w]:', '        for w in list(G[v])[:20]:\n            if v not in G[w]:',
     'a vertex with more than twenty neighbours, one of the last of which lacks the reverse edge',
     'a directed graph counts as undirected',
     '''
from pads.graphs import is_undirected
G = {i: [0] for i in range(1, 40)}
G[0] = list(range(1, 40))
assert is_undirected(G)
G[35] = []
assert not is_undirected(G)
''')

seed('print-8', 'C52', 'automata.py', '                for neighbor in self.transition(state, c):', '                for neighbor in list(self.transition(state, c))[:8]:',
     'a state with more than eight successors under one symbol',
     'the further arrows are not printed',
     '''
import io
from pads.automata import LookupNFA
n = 12
A = LookupNFA({'a'}, [0], {(i, 'a'): list(range(n)) for i in range(n)}, [0])
out = io.StringIO()
A.pprint(out)
assert out.getvalue().count('-->') == n * n
''')

seed('dfs-5000', 'C09', 'dfs.py', '                    if child in visited:', '                    if child in visited or len(stack) > 5000:',
     'a search that goes more than five thousand levels deep',
     'vertices further down are not visited',
     '''
from pads.dfs import preorder
n = 12000
G = {i: [i + 1] for i in range(n)}
G[n] = []
assert list(preorder(G, 0)) == list(range(n + 1))
''')

seed('match-9', 'C31', 'xyz_graph.py', '                if B & (1 << pos):', '                if B & (1 << (pos % 9)):',
     'a cubic graph of at least 22 vertices, so that more than nine independent choices are made',
     'some partitions are repeated and others left out',
     '''
from pads.xyz_graph import CubicMatchPartitions
n = 12
G = {i: [(i + 1) % n, (i - 1) % n, n + i] for i in range(n)}
G.update({n + i: [n + (i + 1) % n, n + (i - 1) % n, i] for i in range(n)})
seen = set()
for P in CubicMatchPartitions(G):
    seen.add(frozenset(frozenset(frozenset((v, P[v][i])) for v in P) for i in range(3)))
assert len(seen) == 684, len(seen)
''')

seed('slab-24', 'C31', 'xyz_graph.py', '    for i, j in [(0, 1), (0, 2), (1, 2)]:\n        projections',
     '    for i, j in [(0, 1), (0, 2), (1, 2)][:3 if len(points) < 24 else 2]:\n        projections',
     'a set of 24 or more points that is wrong along one axis only',
     'the set is accepted',
     '''
from pads.xyz_graph import isxyz
n = 5
S = [(x, y, z) for x in range(n) for y in range(n) for z in range(n) if (y + z) % n < 2]
assert not isxyz(S)
''')

seed('power-200', 'C35', 'lyndon.py', '        while k < i + 1:', '        while k < min(i, 200) + 1:',
     'a word with a repeated factor running beyond position 200',
     'the repetitions further on are looked for again from the start, or come out of step',
     '''
from pads.lyndon import ChenFoxLyndon
for a in range(1, 6):
    for b in range(1, 6):
        f = 'a' * a + 'b' * b
        s = f * (600 // len(f)) + 'a'
        assert list(ChenFoxLyndon(s)) == [f] * (600 // len(f)) + ['a']
        t = 'b' * 500 + f * 3
        assert ''.join(ChenFoxLyndon(t)) == t
''')

seed('bits-2048', 'C19', 'acyclic_reachability.py', '            bits = 1 << k\n', '            bits = 1 << (k % 2048)\n',
     'an acyclic graph with more than 2048 vertices',
     'vertices do not reach themselves or their predecessors do not reach them',
     '''
from pads.acyclic_reachability import Reachability
n = 2500
G = {i: [i + 1] if i + 1 < n else [] for i in range(n)}
R = Reachability(G)
assert all(R.reachable(0, i) for i in range(n))
''')

seed('index-300', 'C05', 'sequence.py', '        while i:\n            item = self._next[item]', '        while i and i != 300:\n            item = self._next[item]',
     'an index of 300 or more',
     'an earlier item is returned',
     '''
from pads.sequence import Sequence
S = Sequence(range(500))
assert [S[i] for i in range(500)] == list(range(500))
''')

seed('front-200', 'C38', 'longest_increasing_subsequence.py', '        i = bisect_left(head, x)', '        i = bisect_left(head, x, max(0, len(head) - 200))',
     'an increasing run of more than 200 items followed by a smaller item',
     'the result is not increasing or not longest',
     '''
from pads.longest_increasing_subsequence import longest_increasing_subsequence as f
w = list(range(300, 600)) + list(range(250))
assert f(w) == list(range(300, 600))
w = list(range(300, 600)) + list(range(299)) + [700]
assert f(w)[-1] == 700 and f(w) == sorted(set(f(w))) and len(f(w)) == 301
''')
