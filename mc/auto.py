"""Reference automata: plain tables simulated directly."""
from itertools import product


class Ref:
    """Nondeterministic automaton: n states, alphabet list, init set, delta[(s, c)] -> set, final set."""

    def __init__(self, n, sigma, init, delta, final):
        self.n, self.sigma, self.init, self.delta, self.final = n, list(sigma), frozenset(init), delta, frozenset(final)

    def accepts(self, w):
        S = self.init
        for c in w:
            T = set()
            for s in S:
                T |= self.delta[s, c]
            S = T
        return not self.final.isdisjoint(S)

    def determinize(self):
        """(start, table {S: {c: T}}, accepting set)"""
        start = self.init
        table, todo = {}, [start]
        while todo:
            S = todo.pop()
            if S in table:
                continue
            table[S] = {}
            for c in self.sigma:
                T = frozenset(t for s in S for t in self.delta[s, c])
                table[S][c] = T
                if T not in table:
                    todo.append(T)
        return start, table, {S for S in table if not self.final.isdisjoint(S)}

    def classes(self):
        """Number of states of the minimal complete DFA (Moore refinement)."""
        start, table, acc = self.determinize()
        cls = {S: int(S in acc) for S in table}
        k = len(set(cls.values()))
        while True:
            sig = {S: (cls[S],) + tuple(cls[table[S][c]] for c in self.sigma) for S in table}
            names = {}
            for S in table:
                names.setdefault(sig[S], len(names))
            cls = {S: names[sig[S]] for S in table}
            if len(names) == k:
                return k
            k = len(names)


def relation(A, B):
    """(A<=B, B<=A, disjoint) over the same alphabet, by search of the product."""
    a0, ta, fa = A.determinize()
    b0, tb, fb = B.determinize()
    seen, todo = {(a0, b0)}, [(a0, b0)]
    sub = sup = dis = True
    while todo:
        a, b = todo.pop()
        x, y = a in fa, b in fb
        if x and not y:
            sub = False
        if y and not x:
            sup = False
        if x and y:
            dis = False
        for c in A.sigma:
            p = (ta[a][c], tb[b][c])
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return sub, sup, dis


def nfas(n, sigma, inits=None, finals=None):
    subs = [frozenset(i for i in range(n) if m >> i & 1) for m in range(1 << n)]
    keys = [(s, c) for s in range(n) for c in sigma]
    for t in product(subs, repeat=len(keys)):
        d = dict(zip(keys, t))
        for i in (subs if inits is None else inits):
            for f in (subs if finals is None else finals):
                yield Ref(n, sigma, i, d, f)


def dfa_tables(n, sigma):
    """Initially connected complete DFAs in canonical breadth-first numbering."""
    k = len(sigma)

    def ok(t):
        nxt, order = 1, 0
        for s in range(n):
            if s >= nxt:
                return False
            for c in range(k):
                x = t[s * k + c]
                if x > nxt:
                    return False
                if x == nxt:
                    nxt += 1
        return nxt == n

    def rec(t, nxt):
        s = len(t) // k
        if len(t) == n * k:
            if nxt == n:
                yield tuple(t)
            return
        if s >= nxt:
            return
        for x in range(min(nxt + 1, n)):
            t.append(x)
            yield from rec(t, nxt + (x == nxt))
            t.pop()
    yield from rec([], 1)


def dfas(n, sigma, finals=None):
    k = len(sigma)
    for t in dfa_tables(n, sigma):
        d = {(s, c): frozenset([t[s * k + j]]) for s in range(n) for j, c in enumerate(sigma)}
        for m in (range(1 << n) if finals is None else finals):
            yield Ref(n, sigma, [0], d, [i for i in range(n) if m >> i & 1])


def make(ref, how, name=lambda i: i, alphabet=set):
    """Library automaton for a reference one: 'nfa' (lookup table) or 'dfa' (subclass)."""
    from .core import lib
    au = lib('automata')
    if how == 'nfa':
        return au.LookupNFA(alphabet(ref.sigma), [name(i) for i in sorted(ref.init)],
                            {(name(s), c): [name(t) for t in sorted(ref.delta[s, c])] for s, c in ref.delta},
                            [name(i) for i in sorted(ref.final)])

    class Table(au.DFA):
        def __init__(self):
            self.alphabet = alphabet(ref.sigma)
            (i,) = ref.init
            self.initial = name(i)
            self.table = {(name(s), c): name(next(iter(ref.delta[s, c]))) for s, c in ref.delta}
            self.fin = {name(i) for i in ref.final}

        def transition(self, state, symbol):
            return self.table[state, symbol]

        def isfinal(self, state):
            return state in self.fin
    return Table()


def words(sigma, L):
    for m in range(L + 1):
        yield from product(sigma, repeat=m)


def difference(D, ref):
    """Search the product of a library DFA with a reference: a word on which they differ, or None."""
    start, table, acc = ref.determinize()
    seen, todo = {(D.initial, start)}, [(D.initial, start, ())]
    for x, y, w in todo:
        if bool(D.isfinal(x)) != (y in acc):
            return w
        for c in ref.sigma:
            p = (D.transition(x, c), table[y][c])
            if p not in seen:
                seen.add(p)
                todo.append(p + (w + (c,) if len(w) < 400 else w,))
    return None


def reversal(ref):
    d = {(s, c): set() for s in range(ref.n) for c in ref.sigma}
    for (s, c), T in ref.delta.items():
        for t in T:
            d[t, c].add(s)
    return Ref(ref.n, ref.sigma, ref.final, {k: frozenset(v) for k, v in d.items()}, ref.init)


def larger():
    """(name, deterministic?, reference): structured automata well beyond the enumerated sizes."""
    one = lambda x: frozenset([x])
    for n in (13, 31, 65, 130):
        d = {(s, c): one((s + (c == 'a')) % n) for s in range(n) for c in 'ab'}
        yield 'counter%d' % n, True, Ref(n, 'ab', [0], d, [0])
        yield 'counter-halves%d' % n, True, Ref(n, 'ab', [0], d, range(n // 2))
        d = {(s, 'a'): one((s + 1) % n) for s in range(n)}
        d.update({(s, 'b'): one(0 if s == n - 2 else s) for s in range(n)})
        yield 'reset%d' % n, True, Ref(n, 'ab', [0], d, [n - 1])
        d = {(s, 'a'): one(min(s + 1, n - 1)) for s in range(n)}
        d.update({(s, 'b'): one(n - 1) for s in range(n)})
        yield 'chain%d' % n, True, Ref(n, 'ab', [0], d, [n - 2])
        d = {(s, c): one(min(2 * s + 1 + (c == 'b'), n - 1) if 2 * s + 2 < n else n - 1) for s in range(n) for c in 'ab'}
        yield 'tree%d' % n, True, Ref(n, 'ab', [0], d, [s for s in range(n - 1) if s % 5 in (1, 2)])
        d = {(s, c): one((2 * s + (c == 'b')) % n) for s in range(n) for c in 'ab'}
        yield 'binary%d' % n, True, Ref(n, 'ab', [0], d, [0])
    for m in (5, 7):
        d = {(s, c): frozenset() for s in range(m + 1) for c in 'ab'}
        d[0, 'a'], d[0, 'b'] = frozenset([0, 1]), one(0)
        for s in range(1, m):
            d[s, 'a'] = d[s, 'b'] = one(s + 1)
        yield 'from-the-end%d' % m, False, Ref(m + 1, 'ab', [0], d, [m])
        d = {(s, c): one((s + (c == 'a')) % m) for s in range(m) for c in 'ab'}
        d[0, 'b'] = frozenset()
        yield 'lossy-cycle%d' % m, False, Ref(m, 'ab', range(m), d, [0])
    for n in (8, 12):
        full = frozenset(range(n))
        d = {(s, c): full - {s} if c == 'a' else one((s + 1) % n) for s in range(n) for c in 'ab'}
        yield 'dense%d' % n, False, Ref(n, 'ab', [0], d, [n - 1])
        d = {(s, c): frozenset([(s + 1) % n, (s * 2) % n, (s + n // 2) % n][:1 + (c == 'b') * 2]) if s % 3 else frozenset() for s in range(n) for c in 'ab'}
        yield 'many-starts%d' % n, False, Ref(n, 'ab', range(n), d, [1, n - 2])
    sig = 'abcdefghijkl'
    for n in (5, 7):
        yield 'letters%d' % n, True, Ref(n, sig, [0], {(s, c): one((s + i) % n if i < n else s * (i - n + 2) % n) for s in range(n) for i, c in enumerate(sig)}, [n - 1, 1])


def variants(ref, step):
    """Deterministic references with one accepting state or one arrow changed."""
    for s in range(0, ref.n, step):
        yield Ref(ref.n, ref.sigma, ref.init, ref.delta, ref.final ^ {s})
        for c in ref.sigma[:2]:
            for t in (0, ref.n - 1, (s + ref.n // 2) % ref.n):
                d = dict(ref.delta)
                d[s, c] = frozenset([t])
                yield Ref(ref.n, ref.sigma, ref.init, d, ref.final)
