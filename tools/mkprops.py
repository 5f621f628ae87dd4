#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.

Run `python3 tools/mkprops.py` in /verif after editing; both files are rewritten
so that they cannot get out of step.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None,
         observe=None, technique=None, note=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': ['pads/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'pads/' + w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': 'pads/' + w}
                      for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
               'quantifier': {'over': over, 'text': ' '.join(text.split())},
               'why_tests_cant': ' '.join(why.split()), 'anchors': a},
              technique, note))


# ------------------------------------------------------------------ histories
prop('C01', 'Union-find answers follow exactly the unions made so far',
     """After any history of lookups and unions over arbitrary hashable items (orderable or not),
     two items have the same set name exactly when earlier unions connect them, and that name is
     itself a member of their set. A set keeps its name as long as its membership is unchanged,
     and iteration lists exactly the items ever mentioned, once each.""",
     ['histories', 'inputs'], 'every sequence of lookups and unions (of any number of items, repeated items included)',
     'There is no test of this structure; errors appear only for particular orders of unions, ties in size, repeated arguments or unorderable items.',
     ['union_find.py'], [('path compression and weighted linking', 'union_find.py: __getitem__, union')],
     [('parents/weights', 'forest of representatives and sizes', 'union_find.py')],
     ['X[item]', 'X.union(...)', 'iter(X)'])

prop('C02', 'Integer heaps always report the minimum of their current key set',
     """For any history of insertions, removals, minimum and emptiness queries with keys in range, every
     integer heap variant and size holds exactly the keys inserted and not removed since: it is falsy exactly when none is left, and its minimum
     is the smallest of them. Inserting a key already present changes nothing, removing one key never affects another, and
     the minimum of an empty heap or insertion of a key outside a size-limited heap's range raises ValueError without changing the heap.""",
     ['histories', 'configurations'], 'every sequence of add/remove/min over every key pattern, for every heap class and word size',
     'The tests run one seeded random history that always deletes the minimum, so removal of other keys, re-insertion and emptied sub-heaps are not reached.',
     ['integer_heap.py'], [('recursive square-root decomposition', 'integer_heap.py: FlatHeap'), ('bit vector', 'integer_heap.py: BitVectorHeap')],
     [('_min/_HQ/_LQ', 'stored minimum, non-empty high halves, low halves', 'integer_heap.py: FlatHeap')],
     ['min()', 'bool(heap)', 'add', 'remove'])

prop('C03', 'Bucket queue yields items by current priority under any interleaving',
     """For any interleaving of priority assignments, changes, deletions, lookups and consumption steps, a bucket queue maps each live item to the
     last priority assigned to it, reports the right length and membership, and each consumption step removes and returns some item of minimum current priority
     (paired with that priority when asked for). Priorities lowered, raised or inserted while consumption is under way take effect, and
     non-integer priorities are rejected with no effect.""",
     ['histories', 'schedules'], 'every interleaving of assign/delete/consume steps on a small item set and priority range, including several live iterators',
     'No test exists; the lazily advanced minimum only goes wrong for specific orders of decrease, delete and consume.',
     ['bucketqueue.py'], [('lazily advanced minimum bucket', 'bucketqueue.py: __iter__, __setitem__')],
     [('_N', 'lower bound on the minimum priority', 'bucketqueue.py')], ['Q[item]', 'len(Q)', 'iter(Q)', 'Q.items()'])

prop('C04', 'Incrementally sorted set iterates its exact contents in current order',
     """After any history of additions (also of present items), removals and iterations, and of changes of items' relative order each announced by a re-comparison
     request, iterating the sorted set gives every current member exactly once in non-decreasing current order; length and membership agree.""",
     ['histories', 'inputs'], 'every sequence of add/remove/re-rank/iterate operations',
     'The existing test drives a few scripted histories; the pending-changes bookkeeping between two iterations is a small state machine whose corner transitions are not visited.',
     ['sorted_set.py'], [('pending additions/removals merged into previous listing', 'sorted_set.py: add, remove, update, __iter__')],
     [('_additions/_removals/_previous', 'changes since last listing', 'sorted_set.py')], ['iter(S)', 'len(S)', 'x in S'])

prop('C05', 'Linked sequence behaves like a list under every edit history',
     """For any history of appends, insertions before or after an item, and removals, with or without a key function, the sequence's iteration, length, indexing, successor and predecessor
     agree with an ordinary list edited the same way, with successor and predecessor cyclic. Indexing outside the sequence, inserting an item already present and naming an absent item are
     rejected and leave the contents unchanged; items with equal keys count as the same item, and asking about one leaves the stored one in place.""",
     ['histories'], 'every edit sequence over a small item pool, including failed operations, emptying and refilling',
     'There is no test; first/last/emptying transitions are reached only by particular edit orders.',
     ['sequence.py'], [('cyclic doubly linked list', 'sequence.py')], [('_first/_next/_prev', 'links', 'sequence.py')],
     ['iter(S)', 'S[i]', 'len(S)', 'successor', 'predecessor'])

prop('C06', 'Order-maintenance comparisons match list positions after any insertions',
     """After any history of appends, insertions before or after an item and removals, on both order-maintenance variants and with or without a key function,
     comparing two present items gives a negative, zero or positive result exactly as the first precedes, equals or follows the second in the sequence, no matter how many insertions hit the same place.""",
     ['histories', 'configurations'], 'every short edit sequence, and every periodic insertion pattern driven far past tag exhaustion',
     'No test exists; renumbering happens only after dozens of insertions at one spot.',
     ['ordered_sequence.py', 'sequence.py'], [('tag arithmetic and renumbering', 'ordered_sequence.py: insertAfter, insertBefore, rebalance')],
     [('_tag', 'integer label per item', 'ordered_sequence.py')], ['cmp(x,y)', 'iter(S)'])

prop('C07', 'Partition refinement splits exactly as specified and reports every split',
     """For any history of refinements, additions, removals and freezes, the blocks of the partition are exactly the classes given by splitting each block into its members inside and outside
     each refining set, every item looks up its own block, and each refinement reports exactly the blocks that were really split, as pairs of inside part and (original, still live) outside part.
     Items unknown to the partition in a refining set are ignored.""",
     ['histories', 'inputs'], 'every sequence of refine/add/remove/freeze steps on small ground sets',
     'No test exists; identity-keyed bookkeeping fails only for particular split orders.',
     ['partition_refinement.py'], [('identity-keyed block tables', 'partition_refinement.py: refine, freeze')], None, ['iter(P)', 'P[x]', 'P.refine(S)'])

prop('C08', 'Frequency estimates never exceed truth and stay within the promised error',
     """For any stream of keys and any accuracy setting, every estimate is at most the key's true relative frequency and falls short of it by at most the accuracy, and every
     key whose true frequency exceeds the accuracy is listed among the frequent keys, with never more keys tracked than the accuracy allows.""",
     ['histories', 'configurations'], 'every stream up to a length bound over small alphabets, for every accuracy class, checked after every step',
     'No test exists; eviction of the lazily zeroed counters depends on the order of the stream.',
     ['frequencyestimator.py'], [('majority-style counters with recycled keys', 'frequencyestimator.py: add')],
     [('_counts/_recycle', 'tracked counters and zero-count list', 'frequencyestimator.py')], ['E[key]', 'iter(E)'])

# ------------------------------------------------------------------ traversal
prop('C09', 'Depth-first and breadth-first traversals visit each part exactly once',
     """Depth-first search of a whole graph or from a start vertex reports each reachable vertex once in a valid nested forward/reverse order, classifies every other examined edge once as
     non-tree, and its preorder, postorder and reachability answers agree with that traversal, for any graph and depth. Breadth-first layering reports vertices in increasing distance from the
     start, each layer with exactly the edges leading to the next layer. An event-driven traversal object receives the matching begin/end/back-edge callbacks.""",
     ['inputs'], 'every directed graph (self-loops included) up to a size bound, each start vertex, plus long paths',
     'Traversals are tested only through other algorithms on a handful of graphs.',
     ['dfs.py', 'bfs.py'], [('explicit stack of iterators', 'dfs.py: search'), ('level loop', 'bfs.py: breadth_first_levels')], None,
     ['search/preorder/postorder/reachable', 'breadth_first_levels', 'Searcher callbacks'])

prop('C10', 'Strong components and condensation match mutual reachability',
     """For every directed graph, the strongly connected components are exactly the classes of mutual reachability, listed once each as induced subgraphs, and the
     condensation has one vertex per component with an edge exactly where the original graph has an edge between two different components.""",
     ['inputs'], 'every directed graph up to a size bound in every vertex order',
     'Two fixed graphs are tested.', ['strong_connectivity.py', 'dfs.py'], [('low-link computation with finished marker', 'strong_connectivity.py')], None,
     ['StronglyConnectedComponents', 'Condensation'])

prop('C11', 'Biconnected components and biconnectivity tests are exact',
     """For every simple undirected graph the biconnected components are exactly the maximal subgraphs whose edges pairwise lie on common simple cycles (bridges and isolated vertices being
     components of their own), each reported once with exactly its own edges, and the graph is called biconnected exactly when it has at most one such component. Directed input is rejected.""",
     ['inputs'], 'every undirected graph up to a size bound under every relabelling/adjacency order class',
     'A few fixed graphs are tested; results depend on traversal order.', ['biconnectivity.py', 'dfs.py'], [('low numbers and active stack', 'biconnectivity.py: BiconnectedComponents')], None,
     ['BiconnectedComponents', 'is_biconnected'])

prop('C12', 'st-orientation is acyclic with one source and one sink or is refused',
     """For every biconnected undirected graph with at least one edge the st-orientation directs each edge in exactly one direction, has no directed cycle, and has exactly one source and one sink, which are adjacent;
     every undirected graph that is not biconnected is refused, and so is a graph with an edge that has no reverse.""",
     ['inputs'], 'every undirected graph up to a size bound in every vertex order', 'Tests use a handful of graphs.',
     ['biconnectivity.py'], [('sign propagation over ear structure', 'biconnectivity.py: STOrienter')], None, ['st_orientation'])

prop('C13', 'Bipartiteness, two-colourings, orientation and odd core are exact',
     """An undirected graph is accepted as bipartite exactly when it has no odd closed walk (a self-loop counts); the two-colouring is then proper, the two reported sides partition the vertices
     with no edge inside a side, and the bipartite orientation directs every edge from the side reported by bipartition, all of whose vertices it lists, to the other; otherwise NonBipartite is raised. The odd core contains exactly the vertices and edges of the biconnected components that are not bipartite.""",
     ['inputs'], 'every undirected graph up to a size bound', 'Tests use a few fixed graphs.', ['bipartite.py', 'biconnectivity.py', 'graphs.py'],
     [('colouring during traversal', 'bipartite.py')], None, ['two_color', 'bipartition', 'is_bipartite', 'bipartite_orientation', 'odd_core'])

prop('C14', 'Bipartite matching is maximum, with a valid certificate and imperfections',
     """For every bipartite graph the matching returned is a maximum one (equal in size to that of the true optimum), and the two reported vertex sets together form an independent set
     of size equal to the number of vertices minus the matching. The imperfection structure lists exactly the edges in no perfect matching (all edges if there is none), each with a closed set of vertices
     that must be matched to one another and contains the edge's far end but not its near end.""",
     ['inputs'], 'every bipartite graph with small sides, sides of different size included', 'There is no test of this module.',
     ['bipartite_matching.py', 'strong_connectivity.py'], [('layered augmentation', 'bipartite_matching.py: matching'), ('alternating-cycle components', 'bipartite_matching.py: imperfections')], None,
     ['matching', 'imperfections'])

prop('C15', 'General graph matching is a maximum matching from any starting matching',
     """For every undirected graph, and from every valid starting matching, the returned matching is symmetric, uses only graph edges, and is of maximum size; the greedy matching is a valid matching extending the one it is given. Neither the graph nor
     the starting matching decides the size of the result, and vertices may be any hashable values.""",
     ['inputs', 'configurations'], 'every graph up to a size bound with every starting matching on the smaller ones', 'There is no test; blossom handling shows up only on particular odd structures.',
     ['cardinality_matching.py', 'union_find.py'], [('blossom contraction and alternating paths', 'cardinality_matching.py: matching'), ('degree-1/2 contraction', 'cardinality_matching.py: greedy_matching')], None,
     ['matching', 'greedy_matching'])

prop('C16', 'Chordality test and lexicographic BFS orders are correct',
     """Lexicographic breadth-first search lists every vertex exactly once in a valid lexicographic BFS order. A graph is reported chordal exactly when it has no induced cycle of length four or more; then the elimination ordering returned lists all vertices so that the later neighbours
     of each vertex are mutually adjacent, and otherwise the ordering is refused.""",
     ['inputs'], 'every undirected graph up to a size bound and relabellings', 'A few fixed graphs are tested.', ['chordal.py', 'lex_bfs.py', 'partition_refinement.py', 'sequence.py'],
     [('partition-refinement LexBFS', 'lex_bfs.py'), ('ordering verification', 'chordal.py')], None, ['LexBFS', 'perfect_elimination_ordering', 'is_chordal'])

prop('C17', 'Degeneracy, cores and triangles are exact',
     """For every undirected graph the degeneracy equals the largest minimum degree over subgraphs, the degeneracy sequence lists each vertex once with that many or fewer later neighbours per vertex, and the derived orientation is acyclic, covers each edge once and meets that bound. The k-core is the largest subgraph of minimum degree k (possibly empty;
     deepest core when k is omitted), and triangle listing gives each triangle exactly once.""",
     ['inputs'], 'every undirected graph up to a size bound, every k', 'A few fixed graphs are tested.', ['graphdegeneracy.py', 'bucketqueue.py'], [('min-degree peeling by bucket queue', 'graphdegeneracy.py')], None,
     ['degeneracySequence', 'degeneracy', 'degeneracyOrientation', 'core', 'triangles'])

prop('C18', 'Minimum spanning forests span with minimum total weight',
     """For every edge-weighted undirected graph, connected or not and with any ties in the weights, the result is an acyclic set of graph edges, one spanning tree per connected component, of minimum possible total weight.
     Vertices may be any hashable values.""",
     ['inputs'], 'every small graph with every assignment of small weights', 'One fixed graph is tested.', ['minimum_spanning_tree.py', 'union_find.py'], [('Kruskal over union-find', 'minimum_spanning_tree.py')], None,
     ['MinimumSpanningTree'])

prop('C19', 'Topological order, acyclicity, closure and reachability agree',
     """For every directed graph, acyclicity is reported exactly when there is no directed cycle (self-loops are cycles); a topological order is then produced that lists every vertex once with every edge forward, and the order checker
     accepts exactly such listings. The transitive closure has exactly the pairs of distinct vertices joined by a path, and the acyclic reachability structure answers exactly whether a (possibly empty) path exists.""",
     ['inputs'], 'every directed graph up to a size bound; every candidate listing', 'A few fixed graphs are tested.', ['partial_order.py', 'acyclic_reachability.py', 'dfs.py'], [('reverse postorder', 'partial_order.py'), ('bit-vector closure', 'acyclic_reachability.py')], None,
     ['TopologicalOrder', 'isTopologicalOrder', 'isAcyclic', 'TransitiveClosure', 'Reachability'])

prop('C20', 'Path, chain and antichain decompositions are optimal for every order',
     """For every acyclic graph the path decomposition partitions the vertices into the minimum possible number of paths along graph edges, the chain decomposition partitions them into the minimum number of chains, and the maximum antichain is a set of pairwise unreachable
     vertices as large as possible, hence equal in size to the chain decomposition.""",
     ['inputs'], 'every acyclic graph up to a size bound, under every vertex naming order', 'One family of cube orders is tested.', ['partial_order.py', 'bipartite_matching.py'], [('matching-based Dilworth decomposition', 'partial_order.py: MinimumPathDecomposition, MaximumAntichain')], None,
     ['MinimumPathDecomposition', 'MinimumChainDecomposition', 'MaximumAntichain'])

prop('C21', '2-satisfiability answers and forced values match exhaustive assignment search',
     """An implication system is reported satisfiable exactly when some truth assignment satisfies it, and the forced table is refused exactly when none does and otherwise gives precisely the variables having the same value in all satisfying assignments, with that value.
     Negation is an involution on arbitrary hashable values that is never equal to its argument, and consistent with equality and hashing.""",
     ['inputs'], 'every implication system up to a size bound over variables of any hashable type', 'Two fixed systems are tested.', ['two_satisfiability.py', '_not.py', 'strong_connectivity.py', 'acyclic_reachability.py'], [('skew-symmetric implication graph components', 'two_satisfiability.py')], None,
     ['Satisfiable', 'Forced', 'Not'])

prop('C22', 'Range-minimum structures agree with direct minima on every range',
     """For every data sequence each range-minimum structure answers the minimum of every non-empty slice, with negative and omitted bounds read as for ordinary lists, for sequences of any length and for any ordering of values with ties; an empty slice of the general structure has no minimum (None), and single positions and strides other than one are refused;
     the restricted structure is only claimed for data whose neighbours differ by exactly one. The table of prefix (suffix) minima holds the minimum of each prefix (suffix). Answers do not depend on which structures or sizes were built or queried before.""",
     ['inputs', 'histories'], 'every sequence up to a length bound over small value sets, every slice, plus all lengths across block-size changes',
     'Tests use unseeded random data of one size.', ['lca.py'], [('Cartesian tree + block decomposition + sparse table', 'lca.py')], None, ['RangeMin(X)[i:j]', 'LogarithmicRangeMin', 'PrecomputedRangeMin', 'RestrictedRangeMin', 'PrefixMinima'])

prop('C23', 'Least common ancestors are exact for every tree, online and offline',
     """For every rooted tree with at least one parent link, over any hashable nodes and of any depth, the online structure returns the deepest common ancestor of any non-empty collection of nodes, and the offline structure returns it for every requested pair in both orders; inputs that are not a single tree are
     refused with ValueError.""",
     ['inputs'], 'every rooted tree up to a size bound under every node naming, every pair and triple', 'Tests use unseeded random trees of one size.', ['lca.py', 'union_find.py'], [('Euler tour + range minimum', 'lca.py: LCA'), ('union-find over DFS', 'lca.py: OfflineLCA')], None, ['LCA(T)(x,y)', 'OfflineLCA(T,pairs)[x][y]'])

prop('C24', 'Automaton constructions preserve the language word by word',
     """For every finite automaton, its deterministic and nondeterministic views, renumbering, reversal, complement and (for two automata over one alphabet) union, intersection and symmetric difference accept exactly the words the set-theoretic definition
     prescribes, and the same holds for the corresponding operators on language objects. Combining different alphabets is refused.""",
     ['inputs', 'programs'], 'every automaton with few states over small alphabets, all pairs of small ones, every word up to a length bound that separates them', 'Tests use a few hand-written languages.', ['automata.py'], [('subset and product constructions', 'automata.py')], None, ['automaton(word)', 'RegularLanguage operators'])

prop('C25', 'Minimization and language comparison are exact',
     """Minimizing any automaton yields one accepting the same words with the fewest possible states (one per distinguishable prefix class). Comparing languages over the same alphabet for equality, inclusion, proper inclusion, disjointness and emptiness gives the true set-theoretic answer. Two deterministic automata compare equal exactly when their reachable parts agree up to the names of the states.""",
     ['inputs', 'programs'], 'every deterministic automaton with few states over small alphabets, and all pairs of them', 'Tests compare a few hand-written languages.', ['automata.py', 'partition_refinement.py', 'sequence.py'], [('Hopcroft refinement', 'automata.py: _MinimumDFA'), ('isomorphism of minimal automata', 'automata.py: DFA.__eq__')], None, ['minimize()', '==, <=, <, >=, >, disjoint, bool'])

prop('C26', 'Regular expressions parse to their language and convert back losslessly',
     """A regular expression over literal characters, escapes, concatenation, alternation, star and parentheses (empty alternatives included) is accepted by its automaton exactly on the words the standard meaning assigns. Converting any automaton with a non-empty language back into an expression and reading that again gives the same set of words.""",
     ['inputs', 'programs'], 'every expression up to a length bound over a small alphabet with every word up to a length bound; every small automaton for the way back', 'Tests use a few expressions.', ['automata.py'], [('recursive-descent position automaton', 'automata.py: RegExp'), ('state elimination', 'automata.py: NFA.RegExp')], None, ['RegExp(e)', 'RegularLanguage(e)', 'automaton.RegExp()'])

prop('C27', 'All Hamiltonian cycles of low-degree graphs are generated exactly once',
     """For every undirected graph of maximum degree three, the generated sequence consists of exactly its Hamiltonian cycles, each once and each represented as a two-regular connected spanning subgraph at the time it is produced. Graphs with a vertex of larger degree are refused and the input graph is left unchanged.""",
     ['inputs'], 'every graph of maximum degree three up to a size bound under many labellings', 'A few named graphs are counted.', ['cubic_ham.py', 'biconnectivity.py'], [('branch with undo stack and forced-edge propagation', 'cubic_ham.py')], None, ['hamiltonian_cycles'])

prop('C28', 'Halin, wheel, D3-reducible and dual 3-tree recognition is exact',
     """A graph is recognized as Halin, as a wheel, as a planar dual of a 3-tree or as D3-reducible exactly when it has the structure defining that class, whatever the vertex names and iteration order. For Halin graphs the reported leaf vertices form the outer cycle of a valid representation, for D3-reducible
     graphs the Hamiltonian cycle returned is one, and the recorded reduction sequence rebuilds the graph.""",
     ['inputs'], 'every graph up to a size bound under many labellings, and every Halin graph up to a larger bound', 'A few fixed graphs are tested.', ['halin.py', 'graphs.py'], [('local reductions with hooks', 'halin.py')], None, ['is_halin', 'halin_leaf_vertices', 'is_wheel', 'is_dual_3_tree', 'is_D3_reducible', 'hamiltonian_cycle_D3', 'reconstruct_D3'])

prop('C29', 'Media: actions, routing tables and hypercube embeddings are concise',
     """For every medium given by bit vectors, an edge-labelled graph or an explicit table, all representations have the same states, tokens, reversals and actions; following the routing table from any state reaches any other in as many steps as their distance using no token together with itself or its reverse; and the hypercube embedding preserves all
     distances. Labelled graphs whose tokens are ambiguous or not consistently reversed are refused.""",
     ['inputs'], 'every well-graded family of bit vectors up to a dimension bound', 'A few small families are tested.', ['medium.py', 'bfs.py', 'dfs.py'], [('token scanning during traversal', 'medium.py: RoutingTable')], None, ['RoutingTable', 'HypercubeEmbedding', 'StateTransitionGraph', 'LabeledGraphMedium', 'ExplicitMedium'])

prop('C30', 'Partial cubes are recognized exactly and embedded isometrically',
     """A graph is recognized as a partial cube exactly when it is connected and has a distance-preserving map into a hypercube, whatever hashable names its vertices have. The edge labelling then assigns one token per parallel class and direction, and the vertex labelling puts any two vertices at Hamming distance equal to their graph distance; other graphs, including those with an edge that has no reverse, are refused with a medium error.""",
     ['inputs'], 'every graph up to a size bound under relabellings, plus families of larger partial cubes and near misses', 'A few families are tested.', ['partial_cube.py', 'medium.py', 'union_find.py', 'bfs.py'], [('BFS bit-vector labelling with contraction', 'partial_cube.py')], None, ['isPartialCube', 'PartialCubeEdgeLabeling', 'PartialCubeLabeling'])

prop('C31', 'Cubic matching partitions and xyz embeddings are complete',
     """For every biconnected cubic graph the generated partitions are exactly its partitions into three perfect matchings, each once, presented consistently at both ends of every edge, and the xyz embeddings are exactly those in which every axis-parallel line through a point meets exactly two points and joins neighbours. Graphs that are not undirected, cubic or biconnected are refused.""",
     ['inputs'], 'every cubic graph up to a size bound under relabellings', 'Only the cube is tested.', ['xyz_graph.py', 'biconnectivity.py', 'strong_connectivity.py'], [('bit-string of choices over an st-order', 'xyz_graph.py')], None, ['CubicMatchPartitions', 'xyzEmbeddings', 'isxyz'])

# ------------------------------------------------------------------ combinatorial generation
prop('C32', 'Integer partition generators list every partition once in the promised order',
     """For every n, each partition generator yields every partition of n of its kind exactly once, parts positive and non-increasing, in its documented order (reverse lexicographic, lexicographic, or colexicographic for fixed length), binary partitions using powers of two only. Conjugation is the transpose of the diagram and its own inverse.""",
     ['inputs'], 'every n and length up to a bound', 'Counts and a few lists are tested.', ['integer_partitions.py'], [('in-place successor rules', 'integer_partitions.py')], None, ['mckay', 'revlex_partitions', 'lex_partitions', 'binary_partitions', 'fixed_length_partitions', 'conjugate'])

prop('C33', 'Permutation, double permutation, Stirling and involution listings are complete',
     """For every n the permutation generator lists each permutation of the given items once by adjacent swaps; the Stirling listing gives every Stirling permutation once; the double-permutation listing gives, once each, the arrangements of paired values in which each first occurrence comes in increasing order; the involution listing gives every involution once from the identity to the swap of the last two items.""",
     ['inputs'], 'every n up to a bound', 'Small counts are tested.', ['permutations.py'], [('recursive swap sequences', 'permutations.py')], None, ['SteinhausJohnsonTrotter', 'DoubleSteinhausJohnsonTrotter', 'StirlingPermutations', 'Involutions'])

prop('C34', 'Lyndon word and de Bruijn generation is complete and ordered',
     """For every alphabet size and length, the length-limited listing yields exactly the Lyndon words up to that length in lexicographic order, the fixed-length listing those of that length, the count agrees with the listing, and the all-lengths listing goes by length. The de Bruijn sequence contains every word of the given length exactly once cyclically and is the lexicographically least such sequence.""",
     ['inputs'], 'every alphabet size and length up to a bound', 'A few sizes are tested.', ['lyndon.py', 'eratosthenes.py'], [("Duval's successor rule", 'lyndon.py')], None, ['LengthLimitedLyndonWords', 'LyndonWordsWithLength', 'LyndonWords', 'CountLyndonWords', 'DeBruijnSequence'])

prop('C35', 'Lyndon factorization, smallest rotation and smallest suffix are exact',
     """For every non-empty word over any ordered alphabet (as text, list or tuple), the factorization is the unique non-increasing sequence of Lyndon words concatenating to the word, its breakpoints are the factor ends, the smallest rotation and smallest suffix are the least among all rotations and suffixes, and the Lyndon test holds exactly for words strictly smaller than all their proper rotations. The empty word has no factors and counts as a Lyndon word.""",
     ['inputs'], 'every word up to a length bound over alphabets up to a size bound', 'A few words are tested.', ['lyndon.py'], [("Duval's algorithm", 'lyndon.py: ChenFoxLyndonBreakpoints')], None, ['ChenFoxLyndon', 'SmallestRotation', 'SmallestSuffix', 'isLyndonWord'])

prop('C36', 'Sieves list exactly the primes, factorizations, Moebius and practical numbers',
     """Each sieve generates its sequence in increasing order without gaps or errors: all primes, every positive integer with its exact prime factorization, the Moebius value of every positive integer, and all practical numbers. A factorization handed out stays correct after the generator advances, and single Moebius queries give the true value in any order of asking.""",
     ['inputs', 'histories'], 'every integer up to a bound; every order of queries on the shared table', 'Short prefixes are tested.', ['eratosthenes.py'], [('incremental sieve dictionaries', 'eratosthenes.py')], None, ['primes', 'factored_integers', 'moebius_function', 'moebius_function_values', 'practical_numbers'])

prop('C37', 'Integer points come out once each in order of distance from the origin',
     """The point generator lists every integer point of the plane exactly once, in non-decreasing Euclidean distance from the origin.""",
     ['inputs'], 'every prefix up to a radius bound', 'One radius is tested.', ['integerpoints.py', 'bucketqueue.py', 'sequence.py'], [('growing convex hull with bucket queue', 'integerpoints.py')], None, ['IntegerPointsByDistance'])

prop('C38', 'Longest common and increasing subsequences are optimal with promised tie-breaks',
     """For every pair of sequences the common subsequence returned is a subsequence of both and of maximum length. For every sequence the increasing subsequence returned is a strictly increasing subsequence of maximum length, ending in the smallest possible final value, and at the earliest occurrence of that value that can end one.""",
     ['inputs'], 'every pair of sequences and every sequence up to a length bound over small alphabets', 'A few examples are tested.', ['lcs.py', 'longest_increasing_subsequence.py'], [('dynamic programming table', 'lcs.py'), ('patience piles', 'longest_increasing_subsequence.py')], None, ['LCS', 'LongestIncreasingSubsequence'])

prop('C39', 'Column minima of every totally monotone matrix are found',
     """For every totally monotone matrix, given by a function on any increasing integer row and column labels, the offline search returns for each column its minimum value and the earliest row attaining it.""",
     ['inputs'], 'every totally monotone matrix up to a size bound over a small value set', 'No test exists.', ['smawk.py'], [('SMAWK reduce and interpolate', 'smawk.py: ConcaveMinima')], None, ['ConcaveMinima'])

prop('C40', 'Online concave minimization computes every prefix recurrence correctly',
     """For every totally monotone online recurrence, each requested value is the minimum over all earlier rows and its index attains that value, in whatever order and number values are requested; no matrix entry is asked for before the value of its row is known to the structure.""",
     ['inputs', 'schedules'], 'every upper triangular totally monotone matrix up to a size bound, every order of requests', 'No test exists.', ['smawk.py'], [('tentative columns and four-case advance', 'smawk.py: OnlineConcaveMinima')], None, ['value(j)', 'index(j)'])

prop('C41', 'Paragraph wrapping keeps the text and minimizes the total line penalty',
     """Wrapping any text returns lines whose words, hyphens included, are those of the text in order, separated inside a line by one space (two after a sentence end unless French spacing is chosen), breaking only at spaces or after inner hyphens, and whose total penalty under the documented line, overflow, hyphen and last-line penalties is the least possible.""",
     ['inputs', 'configurations'], 'every word-length sequence up to a bound for several target widths', 'No test exists (the module could not even be imported).', ['wrap.py', 'smawk.py'], [('online concave minimization over break points', 'wrap.py')], None, ['wrap'])

prop('C42', 'Nonrepetitive reachability, cycles and shortest paths match walk search',
     """For every edge-labelled directed multigraph, the pairs reported reachable, the edges reported cyclic and the shortest paths found are exactly those obtained from walks in which no two consecutive edges carry the same label; a missing path is refused.""",
     ['inputs'], 'every small labelled multigraph, and every number of labels at a vertex up to a bound', 'No test exists.', ['repetitivity.py', 'strong_connectivity.py', 'dfs.py'], [('grouping gadget per vertex', 'repetitivity.py')], None, ['reachable', 'cyclic', 'shortest'])

prop('C43', 'Graph readers recover the encoded graph from every supported format',
     """Every simple undirected graph written in any supported text format (graph6 and sparse6 with or without header, LEDA, GraphML, node-edge list, MALF, edge list), given as lines, as a file or for one-line formats as a string, is read back as the same graph with symmetric adjacency and one distinct edge id per edge. Self-loops, directed edges, unknown or duplicate vertices, truncated and inconsistent files are refused with a graph format error.""",
     ['inputs'], 'every graph up to a size bound in every format and argument kind; every single-line fault of small files', 'No test exists.', ['read_undirected_graph.py'], [('format detection and parsers', 'read_undirected_graph.py')], None, ['readUndirectedGraph'])

prop('C44', 'SVG output is well formed and draws exactly what was asked',
     """Any sequence of drawing calls with properly nested groups produces a well-formed document whose elements, in order and nesting, carry the coordinates, radii, corner points, styles and text that were passed; closing a document with open groups, or more closes than opens, is refused.""",
     ['histories', 'inputs'], 'every call sequence up to a depth bound over representative arguments', 'No test exists.', ['svg.py'], [('indentation and nesting counter', 'svg.py')], None, ['SVG methods and output stream'])

prop('C45', 'Circle packings realize the given tangencies and radii',
     """For every triangulated disk without boundary chords and assignment of boundary radii, the circles returned have those boundary radii, adjacent circles are tangent and consecutive neighbours surround each interior circle exactly once; inversion keeps all tangencies, normalization scales the packing so that the chosen or smallest circle has the target radius, and the optimized inversion keeps tangencies, puts the chosen circle around all others and maximizes the smallest radius.""",
     ['inputs'], 'every triangulated disk with few vertices and boundary radii from a small set', 'No test exists; two functions failed outright.', ['circle_pack.py'], [('radius relaxation and placement', 'circle_pack.py')], None, ['circle_pack', 'InvertPacking', 'NormalizePacking', 'InvertAround'])

prop('C46', 'Sudoku search yields exactly the set of solutions',
     """For every puzzle grid the solution search yields each completion obeying the row, column and square rules exactly once and nothing else (nothing for contradictory grids; for a grid from which candidates were ruled out beforehand, the completions avoiding them), with either rule set and with step logging on or off, and the uniqueness test is true exactly when there is one completion.""",
     ['inputs', 'configurations'], 'every puzzle obtained from base grids by removing or altering cells within bounded sets', 'No test exists; the module could not be imported.', ['sudoku.py', 'bipartite_matching.py', 'repetitivity.py', 'two_satisfiability.py', 'wrap.py'], [('rule application with backtracking', 'sudoku.py: all_solutions')], None, ['all_solutions', 'unisolvent'])

prop('C47', 'Every Sudoku deduction rule is sound in every reachable grid state',
     """Applying any deduction rules in any order to a puzzle never removes a candidate that occurs in some solution (for rules assuming uniqueness: in the only solution), never places a digit that some solution lacks there, and never raises a contradiction for a solvable puzzle; for an unsolvable one a rule either leaves a state or raises the contradiction error, nothing else.""",
     ['schedules', 'histories', 'inputs'], 'every order of rule applications up to a depth bound from a set of puzzles', 'No test exists.', ['sudoku.py', 'bipartite_matching.py', 'repetitivity.py'], [('individual rules on candidate masks', 'sudoku.py')], None, ['rule(grid)', 'grid.choices', 'grid.contents'])

prop('C48', 'Sudoku permutation, puzzle generation and formats preserve the puzzle',
     """Under every sequence of random choices, permuting a puzzle gives an equivalent puzzle (rows, columns and digits consistently rearranged, the pattern of givens staying symmetric when it was), and generated puzzles have exactly one solution, no given (or symmetric pair) that could be left out, and, when asked, symmetric givens. Puzzles written in text and numeric form read back unchanged, and their HTML and SVG forms show every given, and nothing else, in its cell.""",
     ['schedules', 'inputs'], 'every outcome of the random choices in bounded parts of the procedures', 'No test exists.', ['sudoku.py'], [('random rearrangement and removal', 'sudoku.py')], None, ['permute', 'random_puzzle', 'output formats', 'read_puzzle'])

prop('C49', 'Graph utilities and named graph constructions match their definitions',
     """Undirectedness, degree extremes, copying, induced subgraphs, unions and independence tests agree with their set definitions for every graph and adjacency representation, and copies share nothing with their source. Every named or parametrized graph construction yields the simple undirected cubic graph of its definition with the right number of vertices.""",
     ['inputs', 'configurations'], 'every small graph in every adjacency container; every parameter choice up to a bound', 'Only a few functions are tested.', ['graphs.py', 'graph_examples.py', 'util.py'], [('set-based helpers', 'graphs.py')], None, ['is_undirected', 'copy_graph', 'induced_subgraph', 'union', 'is_independent_set', 'graph_examples'])

prop('C50', 'Concurrent generators and structures do not influence one another',
     """However the steps of several generators, iterators or structures from the library are interleaved, each one produces exactly what it produces when run alone. Repeating a call with equal arguments gives an equal answer regardless of what was called before.""",
     ['schedules', 'histories'], 'every interleaving of two (or three) instances of each generator up to a step bound; every order of calls sharing global tables', 'Tests run one generator at a time in one order.', ['eratosthenes.py', 'integer_partitions.py', 'permutations.py', 'lyndon.py', 'lca.py', 'integer_heap.py', 'cubic_ham.py', 'integerpoints.py', 'smawk.py'],
     [('per-call local state; append-only shared tables', 'eratosthenes.py, lca.py, integer_heap.py')], None, ['all generators'])

prop('C51', 'Library calls leave their arguments unchanged and return detached results',
     """No graph, tree, sequence, matching, grid or set passed to a library function is modified by the call (also when the call fails), and changing a returned result afterwards never alters the argument or the answers of later calls.""",
     ['inputs', 'histories'], 'every small input of each function family, each in every mutable container kind', 'Tests never compare arguments before and after.', ['graphs.py', 'cubic_ham.py', 'halin.py', 'cardinality_matching.py', 'bipartite_matching.py', 'partial_cube.py', 'two_satisfiability.py', 'lca.py', 'sudoku.py'],
     [('copies before in-place work', 'graphs.py: copy_graph and callers')], None, ['function arguments and results'])

prop('C52', 'Pretty-printing lists every state and arrow of an automaton',
     """Pretty-printing any automaton writes every reachable state exactly once, marked initial, accepting or terminal exactly when it is, followed by exactly its own transitions, one per line.""",
     ['inputs'], 'every automaton with at most 3 states over 2 letters, small regular expressions', 'Tests never print an automaton.', ['automata.py'],
     [('state and arrow listing', 'automata.py: pprint')], None, ['NFA.pprint', 'DFA.pprint'])

prop('C53', 'The Sudoku program prints exactly the boards and report asked for',
     """For every combination of its options the Sudoku program prints exactly the boards asked for (puzzle, solution, both, or all solutions), in the chosen format and read with the chosen empty-cell characters, and reports the rules used, the number of solutions when it is not one, and the level those rules imply; generated and permuted puzzles keep one solution and the requested symmetry.""",
     ['inputs', 'options'], 'every combination of switches and formats on a fixed set of puzzles with 0, 1 and several solutions', 'Tests never run the program.', ['sudoku.py', 'svg.py'],
     [('option handling, report and level', 'sudoku.py: main program')], None, ['python -m pads.sudoku'])

prop('C54', 'Sudoku rules make every deduction they describe',
     """From any candidate state, a basic or graph rule (locate, eliminate, align, pair, triad, nishio, subproblem, bilocal, bivalue, path) applied until it changes nothing leaves no deduction of the kind its description promises, and a solver step reports no progress only when the rules it may use have none left.
     Rules that are switched off change nothing, and a digit without a cell, a cell without a digit or a group without an assignment is reported as a contradiction by the rule that looks there.""",
     ['histories', 'inputs'], 'every state the solver passes through on graded puzzles, and every small set of candidates added to a solution', 'No test exists.', ['sudoku.py', 'bipartite_matching.py', 'repetitivity.py'],
     [('individual rules on candidate masks', 'sudoku.py')], None, ['rule(grid)', 'step', 'grid.choices'])


TECH = 'bounded exhaustive enumeration of executions of the real code against a reference model'
NOTE = ('Every case within the stated bounds (see DESIGN.md and the evidence file) is executed on the working tree and compared '
        'with an independent reference; nothing is sampled. Outside the bounds nothing is claimed. '
        'Trusted: the reference in /verif/mc and the Python interpreter.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, tech, note in P:
        id = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', id.lower() + '.py')):
            checks.append({'property': id,
                           'quick_cmd': 'bash run.sh %s quick' % id,
                           'thorough_cmd': 'bash run.sh %s thorough' % id,
                           'evidence_file': 'evidence/%s.json' % id,
                           'technique': tech or TECH, 'level': 'model_checking',
                           'level_note': note or NOTE})
        else:
            na.append({'property': id, 'reason': 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks}
    if na:
        m['not_applicable'] = na
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p, _, _ in P:
        n = p['statement'].count('. ') + 1
        if n > 3:
            print('statement too long', p['id'], n)


main()
