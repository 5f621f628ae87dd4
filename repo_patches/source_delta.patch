From ad2e10f6a578d9337c465469f62afa25423058e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:36 +0000
Subject: [PATCH 01/47] fix: let union-find merge sets of items that cannot be
 compared

Ties in set size were broken by comparing the items themselves, which
raises TypeError for hashable items without an ordering.
---
 pads/union_find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/union_find.py b/pads/union_find.py
index 320bba1..402b836 100644
--- a/pads/union_find.py
+++ b/pads/union_find.py
@@ -59,7 +59,7 @@ class UnionFind:
     def union(self, *objects):
         """Find the sets containing the objects and merge them all."""
         roots = [self[x] for x in objects]
-        heaviest = max([(self.weights[r], r) for r in roots])[1]
+        heaviest = max(roots, key=lambda r: self.weights[r])
         for r in roots:
             if r != heaviest:
                 self.weights[heaviest] += self.weights[r]
-- 
2.43.0


From 916e8fc524e4225cbbac04a94dc6dd3ddaf5bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:49 +0000
Subject: [PATCH 02/47] fix: remove only the requested key from a bit vector
 heap

The mask was computed as (~1) << x, which also cleared every key
smaller than x.
---
 pads/integer_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/integer_heap.py b/pads/integer_heap.py
index f851690..206c464 100644
--- a/pads/integer_heap.py
+++ b/pads/integer_heap.py
@@ -83,7 +83,7 @@ class BitVectorHeap:
 
     def remove(self, x):
         """Remove x from the values in the heap."""
-        self._S &= ~ 1 << x
+        self._S &= ~(1 << x)
 
     def min(self):
         """Return the minimum value in the heap."""
-- 
2.43.0


From d44f3e707c4ca6b0cbe4054768d8b98771a35046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:21 +0000
Subject: [PATCH 03/47] fix: do not list an item twice when it is added to a
 sorted set again

---
 pads/sorted_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/sorted_set.py b/pads/sorted_set.py
index 82b71c2..e51a45b 100644
--- a/pads/sorted_set.py
+++ b/pads/sorted_set.py
@@ -39,9 +39,9 @@ class SortedSet:
 
     def add(self, item):
         """Add the given item to a sorted set."""
-        self._set.add(item)
-        if self._previous:
+        if self._previous and item not in self._set:
             self._additions.add(item)
+        self._set.add(item)
 
     def remove(self, item):
         """Remove the given item from a sorted set."""
-- 
2.43.0


From 43638d0cb0c2dc3538dc63506f8a3cfee409d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:21 +0000
Subject: [PATCH 04/47] fix: raise IndexError when indexing an empty sequence

---
 pads/sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/sequence.py b/pads/sequence.py
index adc3a2b..38bc354 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -46,6 +46,8 @@ class Sequence:
 
     def __getitem__(self, i):
         """Return the ith item in the sequence."""
+        if not self._next:
+            raise IndexError("Index out of range")
         item = self._first
         while i:
             item = self._next[item]
-- 
2.43.0


From e200c76b7cadc3c39dec51057f270ea4e8789df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:21 +0000
Subject: [PATCH 05/47] fix: use sys.maxsize for ordered sequence tags

---
 pads/ordered_sequence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 9d6a933..5f4e146 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -18,7 +18,7 @@ class SimpleOrderedSequence(Sequence):
     for each item, with the order of tags the same as the sequence order.
     When two tags collide, we renumber the whole sequence; this behavior
     can be changed by overriding the rebalance method.  Renumbers happen
-    infrequently (roughly one in every log(sys.maxint) insertions)
+    infrequently (roughly one in every log(sys.maxsize) insertions)
     but take time proportional to the number of items, so it is preferable
     to use this data structure only for sequences of very few items.
     """
@@ -45,7 +45,7 @@ class SimpleOrderedSequence(Sequence):
         """Add x to the end of the sequence."""
         if not self._next:  # add to empty sequence
             Sequence.append(self, x)
-            self._tag[self.key(x)] = sys.maxint // 2
+            self._tag[self.key(x)] = sys.maxsize // 2
         else:
             self.insertAfter(self._prev[self._first], x)
 
@@ -56,7 +56,7 @@ class SimpleOrderedSequence(Sequence):
         y = self.key(y)
         next = self._next[y]
         if next == self._first:
-            nexttag = sys.maxint
+            nexttag = sys.maxsize
         else:
             nexttag = self._tag[next]
         xtag = self._tag[x]
@@ -77,7 +77,7 @@ class SimpleOrderedSequence(Sequence):
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
         base = 0
-        increment = sys.maxint // len(self)
+        increment = sys.maxsize // len(self)
         for y in self:
             self._tag[y] = base
             base += increment
-- 
2.43.0


From 138fcaab12e4cac0333d9d61cd56254cb927b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:21 +0000
Subject: [PATCH 06/47] fix: give a position to items inserted before a later
 item of an ordered sequence

---
 pads/ordered_sequence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 5f4e146..f3eccce 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -66,6 +66,9 @@ class SimpleOrderedSequence(Sequence):
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
+        if self.key(x) != self._first:
+            self.insertAfter(self.predecessor(x), y)
+            return
         Sequence.insertBefore(self, x, y)
         x = self.key(x)
         y = self.key(y)
-- 
2.43.0


From ca3139d38a629730c1606224e6b13113bc3fc943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:21 +0000
Subject: [PATCH 07/47] fix: support key functions in ordered sequences

---
 pads/ordered_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index f3eccce..b0794f0 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -47,7 +47,7 @@ class SimpleOrderedSequence(Sequence):
             Sequence.append(self, x)
             self._tag[self.key(x)] = sys.maxsize // 2
         else:
-            self.insertAfter(self._prev[self._first], x)
+            self.insertAfter(self.predecessor(self[0]), x)
 
     def insertAfter(self, x, y):
         """Add y after x and compute a tag for it."""
@@ -82,7 +82,7 @@ class SimpleOrderedSequence(Sequence):
         base = 0
         increment = sys.maxsize // len(self)
         for y in self:
-            self._tag[y] = base
+            self._tag[self.key(y)] = base
             base += increment
 
 
-- 
2.43.0


From 0dc807c7013ef754bc1f48ec4d3c1bbe88050791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:53 +0000
Subject: [PATCH 08/47] fix: allow a partition to be frozen more than once

---
 pads/partition_refinement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partition_refinement.py b/pads/partition_refinement.py
index b907d5d..c3f5f48 100644
--- a/pads/partition_refinement.py
+++ b/pads/partition_refinement.py
@@ -87,5 +87,5 @@ class PartitionRefinement:
             F = frozenset(S)
             for x in F:
                 self._partition[x] = F
-            self._sets[id(F)] = F
             del self._sets[id(S)]
+            self._sets[id(F)] = F
-- 
2.43.0


From b10c13d04809d173af3b5474ba326621f92e3ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:29 +0000
Subject: [PATCH 09/47] fix: refuse to st-orient a graph with isolated vertices

---
 pads/biconnectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/biconnectivity.py b/pads/biconnectivity.py
index eacc0b1..3534831 100644
--- a/pads/biconnectivity.py
+++ b/pads/biconnectivity.py
@@ -191,7 +191,7 @@ class STOrienter(Searcher):
 def st_orientation(G):
     """Find an acyclic orientation of G, with one source and one sink."""
     stO = STOrienter(G)
-    if len(stO.roots) != 1:
+    if len(stO.roots) != 1 or any(not G[v] for v in G):
         raise NotBiconnected
 
     source, dest = stO.roots[0]
-- 
2.43.0


From 851278c06505d4e3d85c070b41661b742768abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:29 +0000
Subject: [PATCH 10/47] fix: report all edges as imperfect when one side has
 more vertices

---
 pads/bipartite_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 7a4b156..9058a05 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -98,7 +98,7 @@ def imperfections(graph):
     not including v.
     """
     M, A, B = matching(graph)
-    if len(M) != len(graph):
+    if len(M) != len(graph) or any(w not in M for v in graph for w in graph[v]):
         return graph    # whole graph is imperfect
 
     orientation = {}
-- 
2.43.0


From 6307c5b719b582f01b6468edb5e25f4302cdec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:02 +0000
Subject: [PATCH 11/47] fix: find long augmenting paths of bipartite graphs
 without recursion

---
 pads/bipartite_matching.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 9058a05..d75e52c 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -67,23 +67,29 @@ def matching(graph):
                         unlayered[v] = None
             return (matching, list(pred), list(unlayered))
 
-        # recursively search backward through layers to find alternating paths
-        # recursion returns true if found path, false otherwise
-        def recurse(v):
-            if v in preds:
-                L = preds[v]
-                del preds[v]
-                for u in L:
+        # search backward through layers to find alternating paths, using an
+        # explicit stack because the paths may exceed the recursion limit
+        def augment(v):
+            path = []   # path[i] is the vertex of U between stack[i], stack[i+1]
+            stack = [(v, iter(preds.pop(v, [])))]
+            while stack:
+                for u in stack[-1][1]:
                     if u in pred:
                         pu = pred[u]
                         del pred[u]
-                        if pu is unmatched or recurse(pu):
-                            matching[v] = u
-                            return True
-            return False
+                        path.append(u)
+                        if pu is unmatched:
+                            for (v, L), u in zip(stack, path):
+                                matching[v] = u
+                            return
+                        stack.append((pu, iter(preds.pop(pu, []))))
+                        break
+                else:
+                    stack.pop()
+                    del path[-1:]
 
         for v in unmatched:
-            recurse(v)
+            augment(v)
 
 
 def imperfections(graph):
-- 
2.43.0


From 88d410101daff7137f6c301b0cbf356d6ea4b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:03 +0000
Subject: [PATCH 12/47] fix: compare only the weights when sorting edges for
 the spanning tree

---
 pads/minimum_spanning_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/minimum_spanning_tree.py b/pads/minimum_spanning_tree.py
index 53cb041..a0759da 100644
--- a/pads/minimum_spanning_tree.py
+++ b/pads/minimum_spanning_tree.py
@@ -28,7 +28,8 @@ def MinimumSpanningTree(G):
     # part (the sort) is sped up by being built in to Python.
     subtrees = UnionFind()
     tree = []
-    for W, u, v in sorted((G[u][v], u, v) for u in G for v in G[u]):
+    for W, u, v in sorted(((G[u][v], u, v) for u in G for v in G[u]),
+                          key=lambda edge: edge[0]):
         if subtrees[u] != subtrees[v]:
             tree.append((u, v))
             subtrees.union(u, v)
-- 
2.43.0


From c19b54ee1c6810999ca6bddc9d0fd735e432c658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:03 +0000
Subject: [PATCH 13/47] fix: return an empty core when k exceeds the degeneracy

---
 pads/graphdegeneracy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/graphdegeneracy.py b/pads/graphdegeneracy.py
index 344d486..f6a378e 100644
--- a/pads/graphdegeneracy.py
+++ b/pads/graphdegeneracy.py
@@ -49,6 +49,8 @@ def core(G, k=None):
                 coreset = set()         # yes, restart core
                 level = d
         coreset.add(v)
+    if k is not None and level < k:     # no subgraph is that dense
+        return set()
     return coreset
 
 
-- 
2.43.0


From 86b352fafff84e790f4774b3a1e06600dbeebc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:30 +0000
Subject: [PATCH 14/47] fix: do not accept a topological order that repeats a
 vertex

---
 pads/partial_order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index 630744f..f151579 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -13,7 +13,7 @@ def isTopologicalOrder(G, L):
     """Check that L is a topological ordering of directed graph G."""
     vnum = {}
     for i in range(len(L)):
-        if L[i] not in G:
+        if L[i] not in G or L[i] in vnum:
             return False
         vnum[L[i]] = i
     for v in G:
-- 
2.43.0


From 742a4c8e46053dac820152d02ec4874c29a95493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:30 +0000
Subject: [PATCH 15/47] fix: trace whole paths whatever order their vertices
 are listed in

---
 pads/partial_order.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index f151579..3070003 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -57,14 +57,13 @@ def TracePaths(G):
     """
     Turn a DAG with indegree and outdegree <= 1 into a sequence of lists.
     """
-    L = []
+    successors = {w for v in G for w in G[v]}
     for v in TopologicalOrder(G):
-        if L and v not in G[L[-1]]:
+        if v not in successors:
+            L = [v]
+            while G[L[-1]]:
+                L.extend(G[L[-1]])
             yield L
-            L = []
-        L.append(v)
-    if L:
-        yield L
 
 
 def MinimumPathDecomposition(G):
-- 
2.43.0


From 317ed55479f9c1044cab9ea25f1c06c6639f6ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:30 +0000
Subject: [PATCH 16/47] fix: keep elements without predecessors in the maximum
 antichain

---
 pads/partial_order.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index 3070003..48a7a7b 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -94,5 +94,7 @@ def MaximumAntichain(G):
     """
     if not isAcyclic(G):
         raise ValueError("MaximumAntichain: input is not acyclic.")
-    M, A, B = matching(TransitiveClosure(G))
+    TC = TransitiveClosure(G)
+    M, A, B = matching(TC)
+    B = set(B).union(v for v in G if not any(v in TC[w] for w in G))
     return set(A).intersection(B)
-- 
2.43.0


From 5b0aa5d7b9474ecd3063d8710f77b55579417b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:13 +0000
Subject: [PATCH 17/47] fix: let lexicographic breadth first search handle the
 empty graph

---
 pads/lex_bfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/lex_bfs.py b/pads/lex_bfs.py
index b23d0bd..c02c1df 100644
--- a/pads/lex_bfs.py
+++ b/pads/lex_bfs.py
@@ -22,7 +22,7 @@ def lex_bfs(G):
     Running time is O(n+m) and additional space usage over G is O(n).
     """
     P = PartitionRefinement(G)
-    S = Sequence(P, key=id)
+    S = Sequence([A for A in P if A], key=id)
     while S:
         set = S[0]
         v = arbitrary_item(set)
-- 
2.43.0


From 1e41d12c3f61076f69d54a0a743cb5ef7c963c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:31 +0000
Subject: [PATCH 18/47] fix: test regular languages for emptiness on Python 3

The truth value hook had its Python 2 name and called a method that states
do not have, so every language counted as nonempty and the subset
comparisons of languages gave wrong answers.
---
 pads/automata.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 590ae02..92f59cc 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -94,13 +94,16 @@ class RegularLanguage:
             raise LanguageError("Unable to intersect nonregular language")
         return language(self.recognizer.symmetricDifference(other.recognizer))
 
-    def __nonzero__(self):
-        """Is this the empty language?"""
-        for x in self.recognizer.states():
-            if x.isfinal():
+    def __bool__(self):
+        """Does this language contain any strings?"""
+        N = self.recognizer.asNFA()
+        for x in N.states():
+            if N.isfinal(x):
                 return True
         return False
 
+    __nonzero__ = __bool__
+
 
 class FiniteAutomaton:
 
-- 
2.43.0


From 3950a2d00fd0801ef28b82c22a106b6cbb8de3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:31 +0000
Subject: [PATCH 19/47] fix: compare the accepting states of two automata

Automata with the same transitions were equal whatever states accepted, so a
language could be equal to its complement.
---
 pads/automata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index 92f59cc..2b4c4e1 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -212,6 +212,8 @@ class DFA(FiniteAutomaton):
         while unprocessed:
             x = unprocessed.pop()
             y = equivalences[x]
+            if bool(self.isfinal(x)) != bool(other.isfinal(y)):
+                return False
             for c in self.alphabet:
                 xc = self.transition(x, c)
                 yc = other.transition(y, c)
-- 
2.43.0


From 376d86b6d2b4da06642315afef20ad3b77a57bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:31 +0000
Subject: [PATCH 20/47] fix: accept the empty string without accepting at its
 initial letters

When an expression matched the empty string, the states of its first letters
became accepting.  Expressions without letters accepted nothing, and
expressions such as a*b+() accepted too much.
---
 pads/automata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 2b4c4e1..6d53656 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -394,7 +394,10 @@ class RegExp(NFA):
             self.successor[state].add(final)
         self.final = frozenset([final])
         if epsilon:
-            self.final = self.final | self.initial
+            # separate accepting start state, to which nothing returns
+            start = frozenset([self.newstate(None)])
+            self.initial = self.initial | start
+            self.final = self.final | start
 
     def transition(self, state, c):
         """Implement NFA transition function."""
-- 
2.43.0


From 2f74486887eda139a113e907c8610c0e38b9ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:31 +0000
Subject: [PATCH 21/47] fix: parse an empty alternative before a plus sign

A plus sign at the start of an expression or group was read as a letter.
---
 pads/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 6d53656..58df56f 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -434,7 +434,7 @@ class RegExp(NFA):
         """Parse a subexpression that can be starred: single letter or group.
 
         """
-        if self.pos == len(self.expr) or self.expr[self.pos] == ')':
+        if self.pos == len(self.expr) or self.expr[self.pos] in ')+':
             return self.epsilon()
         if self.expr[self.pos] == '(':
             self.pos += 1
-- 
2.43.0


From 091f6f2e8f8092da76277b9745d951efb57fbc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:31 +0000
Subject: [PATCH 22/47] fix: escape special characters when writing regular
 expressions

---
 pads/automata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 58df56f..2f419f7 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -296,10 +296,13 @@ class NFA(FiniteAutomaton):
         for x in self.states():
             for c in self.alphabet:
                 for y in self.transition(x, c):
+                    letter = str(c)
+                    if letter in ('(', ')', '+', '*', '\\'):
+                        letter = '\\' + letter
                     if expr[x, y]:
-                        expr[x, y] += '+' + str(c)
+                        expr[x, y] += '+' + letter
                     else:
-                        expr[x, y] = str(c)
+                        expr[x, y] = letter
 
         # eliminate states one at a time
         for s in self.states():
-- 
2.43.0


From 87f739de5d3fe9d239edb80892b91843d897af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:04 +0000
Subject: [PATCH 23/47] fix: refine by the whole part when minimizing an
 automaton

A part could be split by its own first symbol, and the remaining symbols then
used only one half of it, so inequivalent states could be merged.
---
 pads/automata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 2f419f7..02f3c76 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -595,9 +595,10 @@ class _MinimumDFA(DFA):
         while unrefined:
             part = arbitrary_item(unrefined)
             unrefined.remove(part)
+            members = list(part)    # part may be split while we use it
             for symbol in D.alphabet:
                 neighbors = set()
-                for state in part:
+                for state in members:
                     neighbors |= N.transition(state, symbol)
                 for new, old in P.refine(neighbors):
                     if old in unrefined or len(new) < len(old):
-- 
2.43.0


From 2be1f0511ce79356ef67032f1834ba5ddb307263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:19 +0000
Subject: [PATCH 24/47] fix: find common ancestors of nodes that cannot be
 compared

A query over several blocks compared two different nodes of the same level
before looking at the blocks between them.
---
 pads/lca.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 3d2de70..9fb3b7f 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -139,10 +139,12 @@ class RestrictedRangeMin:
             position = self._blocks[firstblock][i:i + right - left][1]
             return self._data[position + (firstblock << self._blocksize)]
         else:
-            best = min(self._suffix[left], self._prefix[right])
+            # combine from left to right, so that pairs from the same level
+            # are only compared when they are for the same tree node
+            best = self._suffix[left]
             if lastblock > firstblock + 1:
                 best = min(best, self._blockrange[firstblock + 1:lastblock])
-            return best
+            return min(best, self._prefix[right])
 
     def _blockid(self, XX):
         """Return value such that all blocks with the same
-- 
2.43.0


From 5a5430382b1a6d7faded190ace0379902a4ed857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:19 +0000
Subject: [PATCH 25/47] fix: traverse deep trees without recursion

The common ancestor structure failed on trees deeper than the recursion limit,
and with it range minima of long sorted sequences.
---
 pads/lca.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 9fb3b7f..de77d51 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -225,11 +225,18 @@ class LCA:
     def _visit(self, children, levels, node, level):
         """Perform Euler traversal of tree."""
         self._representatives[node] = len(levels)
-        pair = (level, node)
-        levels.append(pair)
-        for child in children[node]:
-            self._visit(children, levels, child, level + 1)
-            levels.append(pair)
+        levels.append((level, node))
+        path = [(levels[-1], iter(children[node]))]
+        while path:
+            for child in path[-1][1]:
+                self._representatives[child] = len(levels)
+                levels.append((level + len(path), child))
+                path.append((levels[-1], iter(children[child])))
+                break
+            else:
+                path.pop()
+                if path:
+                    levels.append(path[-1][0])
 
 
 class OfflineLCA(defaultdict):
-- 
2.43.0


From dfebbb4a12bb44dce77bcc812577b1e9225722be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:19 +0000
Subject: [PATCH 26/47] fix: find offline common ancestors in deep trees
 without recursion

---
 pads/lca.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index de77d51..996287e 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -277,15 +277,24 @@ class OfflineLCA(defaultdict):
     def traverse(self, node):
         """Perform depth first traversal of tree."""
         self.ancestors[self.descendants[node]] = node
-        for child in self.children[node]:
-            self.traverse(child)
-            self.descendants.union(child, node)
-            self.ancestors[self.descendants[node]] = node
-        self.visited.add(node)
-        for query in self[node]:
-            if query in self.visited:
-                lca = self.ancestors[self.descendants[query]]
-                self[node][query] = self[query][node] = lca
+        path = [(node, iter(self.children[node]))]
+        while path:
+            node, remaining = path[-1]
+            for child in remaining:
+                self.ancestors[self.descendants[child]] = child
+                path.append((child, iter(self.children[child])))
+                break
+            else:
+                path.pop()
+                self.visited.add(node)
+                for query in self[node]:
+                    if query in self.visited:
+                        lca = self.ancestors[self.descendants[query]]
+                        self[node][query] = self[query][node] = lca
+                if path:
+                    parent = path[-1][0]
+                    self.descendants.union(node, parent)
+                    self.ancestors[self.descendants[parent]] = parent
 
 # Various utility functions
 
-- 
2.43.0


From 639b289e774f8f54e77cb6852c018e13491cc5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:19 +0000
Subject: [PATCH 27/47] fix: refuse offline common ancestor input that contains
 a cycle

---
 pads/lca.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/lca.py b/pads/lca.py
index 996287e..c167214 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -273,6 +273,8 @@ class OfflineLCA(defaultdict):
         # initiate depth first traversal
         self.visited = set()
         self.traverse(root[0])
+        if [x for x in parent if x not in self.visited]:
+            raise ValueError("LCA input is not a tree")
 
     def traverse(self, node):
         """Perform depth first traversal of tree."""
-- 
2.43.0


From 68ed1c6ff5bcea32e96b8bb08a6ac45d38d12254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:50 +0000
Subject: [PATCH 28/47] fix: partial cube labelling of graphs whose vertices
 cannot be ordered

---
 pads/partial_cube.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/partial_cube.py b/pads/partial_cube.py
index 19ac1ba..bae4af4 100644
--- a/pads/partial_cube.py
+++ b/pads/partial_cube.py
@@ -60,7 +60,8 @@ def PartialCubeEdgeLabeling(G):
             raise MediumError("graph is not bipartite")
 
         # Find max degree vertex in G, and update label limit
-        deg, root = max([(len(CG[v]), v) for v in CG])
+        root = max(CG, key=lambda v: len(CG[v]))
+        deg = len(CG[root])
         if deg > NL:
             raise MediumError("graph has too many equivalence classes")
         NL -= deg
-- 
2.43.0


From 020ef47d43dc7fa1bdf921cda44bc6c56c226196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:45 +0000
Subject: [PATCH 29/47] fix: factorizations already generated no longer change
 as the sieve advances

---
 pads/eratosthenes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/eratosthenes.py b/pads/eratosthenes.py
index 7822da8..bb01f21 100644
--- a/pads/eratosthenes.py
+++ b/pads/eratosthenes.py
@@ -76,12 +76,12 @@ def factored_integers():
     while True:
         if i not in factorization:  # prime
             F = {i: 1}
-            yield i, F
+            yield i, dict(F)
             factorization[2 * i] = F
         elif len(factorization[i]) == 1:    # prime power
             p, x = next(iter(factorization[i].items()))
             F = {p: x + 1}
-            yield i, F
+            yield i, dict(F)
             factorization[2 * i] = F
             factorization[i + p**x][p] = x
             del factorization[i]
-- 
2.43.0


From 35143afa7688f442aa7d3169a82a0ad4a8c0e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:45 +0000
Subject: [PATCH 30/47] fix: import of the wrapping module

---
 pads/wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/wrap.py b/pads/wrap.py
index f9dc6e0..cc83250 100644
--- a/pads/wrap.py
+++ b/pads/wrap.py
@@ -10,7 +10,7 @@ time via the OnlineConcaveMinima algorithm in SMAWK.py.
 D. Eppstein, August 2005.
 """
 
-from smawk import OnlineConcaveMinima
+from .smawk import OnlineConcaveMinima
 
 
 def wrap(text,                 # string or unicode to be wrapped
-- 
2.43.0


From b5f4e5e0a8d5f8432c1f2d69ad2b1d66a30a612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:52 +0000
Subject: [PATCH 31/47] fix: reading graph formats of more than one line

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index b0299d3..583df2e 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -370,7 +370,7 @@ def ledaLines(lines):
     """
     def relevant(line):
         return line and not line.startswith('#')
-    return filter(relevant, lines)
+    return list(filter(relevant, lines))
 
 
 def readLeda(lines):
-- 
2.43.0


From 279953ce410858cb4d707c2e3bc2dc625adea8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:52 +0000
Subject: [PATCH 32/47] fix: sparse6 header, end of data and padding

---
 pads/read_undirected_graph.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 583df2e..2d5455c 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -307,7 +307,7 @@ def readGraph6(str):
 def readSparse6(str):
     """Read undirected graph in sparse6 format."""
     if str.startswith('>>sparse6<<'):
-        str = str[10:]
+        str = str[11:]
     if not str.startswith(':'):
         raise GraphFormatError('Expected colon in sparse6')
     n, data = graph6n(graph6data(str[1:]))
@@ -323,7 +323,9 @@ def readSparse6(str):
 
         while 1:
             if dLen < 1:
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
             dLen -= 1
             b = (d >> dLen) & 1  # grab top remaining bit
@@ -331,7 +333,9 @@ def readSparse6(str):
             x = d & ((1 << dLen) - 1) 	# partially built up value of x
             xLen = dLen				# how many bits included so far in x
             while xLen < k:			# now grab full chunks until we have enough
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
                 x = (x << 6) + d
                 xLen += 6
@@ -348,7 +352,7 @@ def readSparse6(str):
     for b, x in parseData():
         if b:
             v += 1
-        if x >= n:
+        if x >= n or v >= n:
             break			# padding with ones can cause overlarge number here
         elif x > v:
             v = x
-- 
2.43.0


From f3964fc0615637f303dbc98a3d755af4705be5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:52 +0000
Subject: [PATCH 33/47] fix: vertical position of rectangles

---
 pads/svg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/svg.py b/pads/svg.py
index 0ebc634..a439293 100644
--- a/pads/svg.py
+++ b/pads/svg.py
@@ -111,11 +111,11 @@ class SVG:
     def rectangle(self, p, q, style={}, **morestyle):
         """Rectangle with corners at points p and q"""
         x = min(p.real, q.real)
-        # y = min(p.imag, q.imag)
+        y = min(p.imag, q.imag)
         width = abs((p - q).real)
         height = abs((p - q).imag)
         self.element('rect x="%s" y="%s" width="%s" height="%s"' %
-                     (_coord(x), _coord(x), _coord(width), _coord(height)),
+                     (_coord(x), _coord(y), _coord(width), _coord(height)),
                      style=style, **morestyle)
 
     def polygon(self, points, style={}, **morestyle):
-- 
2.43.0


From bcdf3d7f0c48af576eb5c9381b8e44f9af568e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:52 +0000
Subject: [PATCH 34/47] fix: normalizing a circle packing

---
 pads/circle_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 49ce484..75cc7d8 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -85,7 +85,7 @@ def NormalizePacking(packing, k=None, target=1.0):
     else:
         z, r = packing[k]
     s = target / r
-    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.iteritems())
+    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.items())
 
 
 def InvertAround(packing, k, smallCircles=None):
-- 
2.43.0


From 03a2dd3209063f8e1fe60f03709249770f7caad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:52 +0000
Subject: [PATCH 35/47] fix: inversion around a circle that is not one of the
 small circles

---
 pads/circle_pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 75cc7d8..f16898b 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -101,7 +101,8 @@ def InvertAround(packing, k, smallCircles=None):
     for the minimum radius circle will look only at these circles"""
     z, r = packing[k]
     if smallCircles:
-        optpack = {k: packing[k] for k in smallCircles}
+        optpack = {kk: packing[kk] for kk in smallCircles}
+        optpack[k] = packing[k]
     else:
         optpack = packing
     q, g = z, r * 0.4
-- 
2.43.0


From 25801b213ff93a8e2b5f6347123f855899f41a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:52 +0000
Subject: [PATCH 36/47] fix: refuse self-loops in LEDA files

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 2d5455c..4738ba3 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -401,7 +401,7 @@ def readLeda(lines):
         if not reversal:
             raise GraphFormatError('Edge %d is directed in LEDA.GRAPH.'
                                    % (i + 1))
-        if source < target:
+        if source <= target:
             edge(G, source, target, i + 1)
 
     return G
-- 
2.43.0


From 4aab34eef83ee8b4b707a794e50ff9900dd07ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:52 +0000
Subject: [PATCH 37/47] fix: GraphML tags that continue on the next line

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 4738ba3..79460f8 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -241,7 +241,7 @@ def readGraphML(lines):
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
     for line in lines:
-        p.Parse(line)
+        p.Parse(line + '\n')
     p.Parse("", 1)
     return G
 
-- 
2.43.0


From 3f45e371566a761effc73b6aefe164d1fc8ca164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:21 +0000
Subject: [PATCH 38/47] fix: truncated or malformed graphs raise
 GraphFormatError

---
 pads/read_undirected_graph.py | 36 ++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 79460f8..b364295 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -53,6 +53,13 @@ def graphNum(s):
         raise GraphFormatError('Number expected: "%s"' % s)
 
 
+def graphLine(lines):
+    """Take the next of an iterator of lines, complain if there is none."""
+    for line in lines:
+        return line
+    raise GraphFormatError('Unexpected end of graph')
+
+
 def graph():
     """Create a new empty graph."""
     return {}
@@ -156,7 +163,7 @@ def readNodeEdgeList(lines):
 
     def addEdge(line, id):
         u = line
-        v = next(lines)
+        v = graphLine(lines)
         if v.startswith('//'):
             raise GraphFormatError('Missing edge endpoint in node edge list')
         edge(G, u, v, id)
@@ -170,7 +177,7 @@ def readNodeEdgeList(lines):
         if id in EdgeNames:
             raise GraphFormatError('Edge name "%s" used twice in node edge'
                                    ' list' % id)
-        addEdge(next(lines), id)
+        addEdge(graphLine(lines), id)
         EdgeNames[id] = id
 
     def noActionYet(line):
@@ -240,9 +247,12 @@ def readGraphML(lines):
     p = xml.parsers.expat.ParserCreate()
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
-    for line in lines:
-        p.Parse(line + '\n')
-    p.Parse("", 1)
+    try:
+        for line in lines:
+            p.Parse(line + '\n')
+        p.Parse("", 1)
+    except xml.parsers.expat.ExpatError as err:
+        raise GraphFormatError('Malformed GraphML: %s' % err)
     return G
 
 
@@ -253,7 +263,7 @@ def readGraphML(lines):
 def graph6data(str):
     """Convert graph6 character sequence to 6-bit integers."""
     v = [ord(c) - 63 for c in str]
-    if min(v) < 0 or max(v) > 63:
+    if not v or min(v) < 0 or max(v) > 63:
         return None
     return v
 
@@ -263,8 +273,12 @@ def graph6n(data):
     value, rest of seq.
 
     """
+    if not data:
+        raise GraphFormatError('Missing or invalid data in graph6 or sparse6')
     if data[0] <= 62:
         return data[0], data[1:]
+    if len(data) < 4:
+        raise GraphFormatError('Truncated size in graph6 or sparse6')
     return (data[1] << 12) + (data[2] << 6) + data[3], data[4:]
 
 
@@ -381,17 +395,17 @@ def readLeda(lines):
     """Parse filtered LEDA.GRAPH format file."""
     lines = iter(lines)
     for i in range(3):
-        next(lines)			    # skip header lines
+        graphLine(lines)	    # skip header lines
     G = graph()
 
-    n = graphNum(next(lines))  # number of vertices
+    n = graphNum(graphLine(lines))  # number of vertices
     for i in range(n):
         vertex(G, i + 1)
-        next(lines)			    # skip LEDA data
+        graphLine(lines)	    # skip LEDA data
 
-    m = graphNum(next(lines))  # number of edges
+    m = graphNum(graphLine(lines))  # number of edges
     for i in range(m):
-        words = next(lines).split()
+        words = graphLine(lines).split()
         if len(words) < 4:
             raise GraphFormatError('Too few fields in LEDA.GRAPH edge %d'
                                    % (i + 1))
-- 
2.43.0


From 59c2a53b0c90f53a6230ebd235f2ed9633c706bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:28 +0000
Subject: [PATCH 39/47] fix: a Sudoku search branch keeps the eliminated
 candidates

The branch was rebuilt from the filled cells alone, so candidates already
tried and ruled out came back and their solutions were generated twice.
---
 pads/sudoku.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index 72b1f2e..a3ff027 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1595,6 +1595,7 @@ def all_solutions(grid, fastrules=True):
 
         # try it both ways
         branch = Sudoku(grid)
+        branch.locations = list(grid.locations)
         grid.log("Failed to progress, "
                  "creating a new backtracking search branch.")
         branch.logstream = grid.logstream
-- 
2.43.0


From 43840e54afacdd4afa36596051d070e1b56fece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:28 +0000
Subject: [PATCH 40/47] fix: initialize the bivalues field of a Sudoku grid

The repeat, path and conflict rules raised AttributeError when the bilocal
rule had run but the bivalue rule had not.
---
 pads/sudoku.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index a3ff027..509d56a 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -237,6 +237,7 @@ class Sudoku:
         self.progress = False
         self.pairs = None
         self.bilocation = None
+        self.bivalues = None
         self.logstream = False
         self.steps = 0
         self.original_cells = 0
-- 
2.43.0


From 07da4303a80ff26b70100ef4fb160b9f2a0764ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:28 +0000
Subject: [PATCH 41/47] fix: the Sudoku subproblem rule reports a group that
 cannot be filled

Without a perfect matching imperfections() returns its argument, which the
rule then misread as a description of unplaceable cells.
---
 pads/sudoku.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index 509d56a..23e50b6 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -771,6 +771,9 @@ def subproblem(grid):
                 graph[d].append(unmask[bit])
                 locs &= ~ bit
         imp = imperfections(graph)
+        if imp == graph:
+            grid.log(["Unable to place all digits in", g.name + "."])
+            raise BadSudoku("No placement of all digits in %s" % g.name)
         for d in list(imp.keys()):
             if not imp[d]:
                 del imp[d]
-- 
2.43.0


From 7833edf625d6d6ed6499af4c89c38b0d4e25802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:40 +0000
Subject: [PATCH 42/47] fix: Sudoku twosat rule on cells with one remaining
 candidate

The rule raised KeyError when it was applied before the remaining forced
cells had been filled in.
---
 pads/sudoku.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index 23e50b6..79ac34a 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1291,12 +1291,11 @@ def twosat(grid):
 
     # If a cell has value d, it can't also have value e
     for cell in range(81):
-        if len(grid.choices(cell)) > 1:
-            for d in grid.choices(cell):
-                T[(cell, d)] = [Not((cell, e))
-                                for e in grid.choices(cell)
-                                if d != e]
-                T[Not((cell, d))] = []
+        for d in grid.choices(cell):
+            T[(cell, d)] = [Not((cell, e))
+                            for e in grid.choices(cell)
+                            if d != e]
+            T[Not((cell, d))] = []
 
     # If a cell has value d, its neighbors can't have the same value
     for cell in range(81):
-- 
2.43.0


From b1027b79b4f2f472ccae13cfb5aecbba6cb2a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:05 +0000
Subject: [PATCH 43/47] fix: third cycle of generalized Coxeter graphs

Its vertices were linked to those of the first cycle, so the graph was not
undirected and not cubic.
---
 pads/graph_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/graph_examples.py b/pads/graph_examples.py
index 69108a1..4584991 100644
--- a/pads/graph_examples.py
+++ b/pads/graph_examples.py
@@ -23,7 +23,7 @@ def GeneralizedCoxeterGraph(n, a, b):
         G[i, 0] = (i, 1), (i, 2), (i, 3)
         G[i, 1] = (i, 0), ((i + 1) % n, 1), ((i - 1) % n, 1)
         G[i, 2] = (i, 0), ((i + a) % n, 2), ((i - a) % n, 2)
-        G[i, 3] = (i, 0), ((i + b) % n, 1), ((i - b) % n, 1)
+        G[i, 3] = (i, 0), ((i + b) % n, 3), ((i - b) % n, 3)
     return G
 
 CoxeterGraph = GeneralizedCoxeterGraph(7, 2, 3)
-- 
2.43.0


From aacc6d5e403ee6d5c0658a67021038d2e11ac728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:25 +0000
Subject: [PATCH 44/47] fix: imperfections() returns a copy of an imperfect
 graph

It returned its argument itself, so deleting entries from the result, as
its caller in the Sudoku solver does, changed the caller's graph.
---
 pads/bipartite_matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index d75e52c..4542fff 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -105,7 +105,8 @@ def imperfections(graph):
     """
     M, A, B = matching(graph)
     if len(M) != len(graph) or any(w not in M for v in graph for w in graph[v]):
-        return graph    # whole graph is imperfect
+        # whole graph is imperfect
+        return {v: list(graph[v]) for v in graph}
 
     orientation = {}
     for v in graph:
-- 
2.43.0


From 85a049907bfd4b3651c14e8125e70d5f0c29795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:40:38 +0000
Subject: [PATCH 45/47] fix: pretty-printing automata under Python 3

---
 pads/automata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 02f3c76..43c70a8 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -266,12 +266,12 @@ class NFA(FiniteAutomaton):
             if not [c for c in self.alphabet if self.transition(state, c)]:
                 adjectives.append("terminal")
             if not adjectives:
-                print >>output, state
+                print(state, file=output)
             else:
-                print >>output, state, "(" + ", ".join(adjectives) + ")"
+                print(state, "(" + ", ".join(adjectives) + ")", file=output)
             for c in self.alphabet:
                 for neighbor in self.transition(state, c):
-                    print >>output, "  --[" + str(c) + "]-->", neighbor
+                    print("  --[" + str(c) + "]-->", neighbor, file=output)
 
     def RegExp(self):
         """Convert to regular expression and return as a string.
-- 
2.43.0


From 55901a989b572f5e8562fc2a2c349e54313c1f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:40:38 +0000
Subject: [PATCH 46/47] fix: blank line between a Sudoku puzzle and its
 solution

---
 pads/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index 79ac34a..aed80b6 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1817,7 +1817,7 @@ if __name__ == '__main__':
         print_level = outputter(puzzle)
 
     if options.output_both and print_level:
-        print
+        print()
 
     if options.backtrack:
         solns = all_solutions(puzzle, False)
-- 
2.43.0


From b9f1a8cf6d78661637336ff1a7193905607d5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:28:50 +0000
Subject: [PATCH 47/47] fix: keep the stored item when a keyed Sequence is
 asked about an equal key

Sequence.key() replaced the stored item on every call.  Asking for the
successor of another object with the same key, or a refused insertion of
one, changed the contents of the sequence.
---
 pads/sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/sequence.py b/pads/sequence.py
index 38bc354..b4598f0 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -72,7 +72,8 @@ class Sequence:
         if not self._key:
             return x
         key = self._key(x)
-        self._items[key] = x
+        if key not in self._next:
+            self._items[key] = x
         return key
 
     def _insafter(self, x, y):
-- 
2.43.0

