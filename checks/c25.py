"""C25 minimization and comparison."""
from mc.core import lib
from mc.gen import kind, shard
from mc.auto import Ref, nfas, dfas, make, words, relation, larger, difference, variants

RULE = ('all initially connected DFAs with <=4 states over 2 symbols and <=3 states over 3 symbols, all NFAs 2x2 and 3x1, in several namings of states; '
        'state counts by Moore refinement; all ordered pairs of small automata for the comparisons, decided on the product; all pairs of small DFAs compared as automata; structured automata of up to 256 states and their variants with one change')


def minimal(ctx, ref, A, W):
    ctx.case(ref.sigma, sorted(ref.init), {k: sorted(v) for k, v in ref.delta.items()}, sorted(ref.final))
    M = A.minimize()
    ctx.t += 2
    k = ref.classes()
    S = list(M.states())
    ctx.check(len(S) == len(set(S)), 'states listed twice', S)
    ctx.equal(len(S), k, 'number of states of the minimal automaton')
    ctx.equal(len(M), k, 'length of the minimal automaton')
    for w in W:
        ctx.t += 1
        if bool(M(w)) != ref.accepts(w):
            ctx.check(False, 'minimal automaton answers', bool(M(w)), 'on', w)
    ctx.equal(len(M.minimize()), k, 'states after minimizing twice')
    ctx.outcome(k)


def single(ctx, spec, how, name, L, i, k, perm=0, finals=None):
    n, s = spec[1], spec[2]
    vk = kind(name)
    nm = [lambda x: vk(x), lambda x: vk(n - 1 - x), lambda x: vk((x * 3 + 1) % 7)][perm]
    sigma = 'abc'[:s]
    src = nfas(n, sigma) if spec[0] == 'nfa' else dfas(n, sigma, finals)
    W = list(words(sigma, L))
    for ref in shard(src, i, k):
        minimal(ctx, ref, make(ref, how, nm), W)


def compare(ctx, A, B, ra, rb):
    sub, sup, dis = relation(ra, rb)
    X, Y = A.language(), B.language()
    ctx.t += 9
    for name, got, want in (('==', X == Y, sub and sup), ('!=', X != Y, not (sub and sup)), ('<=', X <= Y, sub), ('>=', X >= Y, sup),
                            ('<', X < Y, sub and not sup), ('>', X > Y, sup and not sub),
                            ('intersection nonempty', bool(X & Y), not dis),
                            ('symmetric difference nonempty', bool(X ^ Y), not (sub and sup))):
        if bool(got) != want:
            ctx.check(False, name, 'gives', got)
    ctx.outcome(sub, sup, dis)


def pairs(ctx, spec, spec2, i, k):
    s = spec[2]
    sigma = 'ab'[:s]
    f = lambda sp: list(nfas(sp[1], sigma) if sp[0] == 'nfa' else dfas(sp[1], sigma))
    P, Q = f(spec), f(spec2)
    if spec[0] == 'nfa' and s == 2:
        P = P[::5]
    for x in range(i, len(P), k):
        for y in range(len(Q)):
            ctx.case(spec, x, spec2, y)
            compare(ctx, make(P[x], spec[0]), make(Q[y], spec2[0], kind('str')), P[x], Q[y])


def isomorphic(p, q):
    """Do two deterministic references have the same reachable part up to names?"""
    if set(p.sigma) != set(q.sigma):
        return False
    (a,), (b,) = p.init, q.init
    there, back, todo = {a: b}, {b: a}, [a]
    while todo:
        x = todo.pop()
        if (x in p.final) != (there[x] in q.final):
            return False
        for c in p.sigma:
            (u,), (v,) = p.delta[x, c], q.delta[there[x], c]
            if there.get(u, v) != v or back.get(v, u) != u:
                return False
            if u not in there:
                there[u], back[v] = v, u
                todo.append(u)
    return True


def automata(ctx, specs, name, i, k):
    """Comparisons of deterministic automata as such, not of their languages."""
    P = [r for n, s in specs for r in dfas(n, 'ab'[:s])]
    for x in range(i, len(P), k):
        A = make(P[x], 'dfa')
        for y, r in enumerate(P):
            B = make(r, 'dfa', kind(name))
            ctx.case(specs, x, y, name)
            ctx.t += 2
            want = isomorphic(P[x], r)
            if bool(A == B) != want or bool(A != B) == want:
                ctx.check(False, 'automata', P[x].delta, sorted(P[x].final), 'and', r.delta, sorted(r.final), 'compare', A == B, A != B)
            ctx.outcome(want)
        for other in (None, 3, 'a', A.asNFA(), A.language(), P):
            ctx.check(not (A == other) and A != other, 'an automaton equals', other)
        L = A.language()
        for other in (None, 3, 'a', A, P):
            ctx.check(not (L == other) and L != other, 'a language equals', other)


def emptiness(ctx, spec, i, k):
    sigma = 'ab'[:spec[2]]
    src = nfas(spec[1], sigma) if spec[0] == 'nfa' else dfas(spec[1], sigma)
    for ref in shard(src, i, k):
        ctx.case(spec, {k: sorted(v) for k, v in ref.delta.items()}, sorted(ref.init), sorted(ref.final))
        start, table, acc = ref.determinize()
        A = make(ref, spec[0])
        L = A.language()
        ctx.t += 3
        ctx.equal(bool(L), bool(acc), 'non-emptiness')
        ctx.equal(bool(~L), len(acc) < len(table), 'non-emptiness of the complement')
        ctx.check(L == L and not (L == ~L) and L != ~L and L <= L and not L < L, 'self comparison')
        ctx.check(L == A.minimize().language() and L == A.reverse().reverse().language(), 'comparison with equivalent automata')


def foreign(ctx):
    au = lib('automata')
    A = make(Ref(1, 'a', [0], {(0, 'a'): frozenset([0])}, [0]), 'nfa').language()
    B = make(Ref(1, 'ab', [0], {(0, 'a'): frozenset([0]), (0, 'b'): frozenset([0])}, [0]), 'nfa').language()
    ctx.case('alphabets')
    ctx.check(not (A == B) and A != B, 'languages over different alphabets are equal')
    for f in (lambda: A <= B, lambda: A >= B, lambda: A < B, lambda: B > A):
        ctx.raises(au.LanguageError, f)


def counters(ctx, n):
    for m in range(1, n):
        for e in range(1, n):
            # states 0..m*e-1 counting mod m*e but accepting mod m: minimal size m
            t = m * e
            d = {(s, 'a'): frozenset([(s + 1) % t]) for s in range(t)}
            d.update({(s, 'b'): frozenset([s]) for s in range(t)})
            ref = Ref(t, 'ab', [0], d, [s for s in range(t) if s % m == 0])
            ctx.case('counter', m, e)
            A = make(ref, 'dfa')
            M = A.minimize()
            ctx.t += 2
            ctx.equal(len(M), m, 'states')
            ctx.check(M == make(ref, 'nfa').minimize(), 'equal automata differ')
            ref2 = Ref(t, 'ab', [0], d, [s for s in range(t) if s % m == 0 and s != t - m or t == m and s == 0])
            ctx.equal(A.language() == make(ref2, 'dfa').language(), ref.final == ref2.final, 'equality')


def large(ctx, i, k):
    for name, det, ref in shard(larger(), i, k):
        ctx.case(name)
        n = ref.classes()
        for how, lab in [('nfa', 'str')] + [('dfa', 'int'), ('dfa', 'U')] * det:
            M = make(ref, how, kind(lab)).minimize()
            ctx.t += 2
            ctx.equal(len(M), n, 'number of states of the minimal automaton')
            w = difference(M, ref)
            ctx.check(w is None, 'the minimal automaton is wrong on', w)
        ctx.outcome(n)


def near(ctx, i, k, step):
    """Larger automata against copies with one accepting state or one arrow changed."""
    todo = [(name, ref, j, v) for name, det, ref in larger() if det and ref.n < 70 for j, v in enumerate(variants(ref, step if ref.n < 40 else 3 * step))]
    for name, ref, j, v in shard(todo, i, k):
        ctx.case(name, j)
        sub, sup, dis = relation(ref, v)
        A, B = make(ref, 'dfa'), make(v, 'dfa', kind('str'))
        X, Y = A.language(), B.language()
        ctx.t += 6
        for what, got, want in (('==', X == Y, sub and sup), ('reverse ==', Y == X, sub and sup), ('!=', X != Y, not (sub and sup)), ('<=', X <= Y, sub), ('>=', X >= Y, sup), ('<', X < Y, sub and not sup)):
            if bool(got) != want:
                ctx.check(False, what, 'gives', got)
        M = B.minimize()
        ctx.equal(len(M), v.classes(), 'number of states of the minimal automaton')
        ctx.check(difference(M, v) is None, 'the minimal automaton has another language')
        ctx.outcome(sub, sup)


def units(tier):
    q = tier == 'quick'
    U = []
    for i in range(8):
        for p in range(3):
            U.append(('d4k2-%d-%d' % (p, i), single, dict(spec=('dfa', 4, 2), how='dfa', name=('int', 'str', 'U')[p], L=2, i=i, k=8, perm=p)))
        U.append(('d3k3-%d' % i, single, dict(spec=('dfa', 3, 3), how='dfa', name='int', L=2, i=i, k=8)))
        U.append(('n3k1-%d' % i, single, dict(spec=('nfa', 3, 1), how='nfa', name='int', L=8, i=i, k=8)))
        U.append(('n2k2-%d' % i, single, dict(spec=('nfa', 2, 2), how='nfa', name='int', L=4, i=i, k=8)))
        U.append(('cmp-n2k1-%d' % i, pairs, dict(spec=('nfa', 2, 1), spec2=('nfa', 2, 1), i=i, k=8)))
        U.append(('cmp-d2k2-%d' % i, pairs, dict(spec=('dfa', 2, 2), spec2=('dfa', 2, 2), i=i, k=8)))
        U.append(('cmp-d3k1-%d' % i, pairs, dict(spec=('dfa', 3, 1), spec2=('dfa', 4, 1), i=i, k=8)))
        U.append(('empty-n2k2-%d' % i, emptiness, dict(spec=('nfa', 2, 2), i=i, k=8)))
    U += [('d%dk2' % n, single, dict(spec=('dfa', n, 2), how='dfa', name='mix', L=5, i=0, k=1)) for n in (1, 2, 3)]
    U += [('d%dk1' % n, single, dict(spec=('dfa', n, 1), how='dfa', name='int', L=14, i=0, k=1)) for n in (1, 2, 3, 4, 5, 6, 7)]
    for i in range(16):
        U.append(('d5k2one-%d' % i, single, dict(spec=('dfa', 5, 2), how='dfa', name='int', L=0, i=i, k=16, finals=[2])))
    if not q:
        for i in range(64):
            U.append(('d5k2-%d' % i, single, dict(spec=('dfa', 5, 2), how='dfa', name='int', L=2, i=i, k=64)))
        for i in range(32):
            U.append(('d4k3-%d' % i, single, dict(spec=('dfa', 4, 3), how='dfa', name='int', L=0, i=i, k=32, finals=[2])))
            U.append(('cmp-d3k2-%d' % i, pairs, dict(spec=('dfa', 3, 2), spec2=('dfa', 2, 2), i=i, k=32)))
            U.append(('cmp-n2k2-%d' % i, pairs, dict(spec=('nfa', 2, 2), spec2=('dfa', 2, 2), i=i, k=32)))
    for i in range(4):
        U.append(('auto2-%d' % i, automata, dict(specs=((1, 1), (2, 1), (1, 2), (2, 2)), name='str', i=i, k=4)))
        U.append(('auto3-%d' % i, automata, dict(specs=((1, 1), (2, 1), (3, 1), (4, 1)), name='U', i=i, k=4)))
        if not q:
            U.append(('auto32-%d' % i, automata, dict(specs=((2, 2), (3, 2)), name='mix', i=i, k=32)))
    U += [('large-%d' % i, large, dict(i=i, k=4)) for i in range(4)]
    U += [('near-%d' % i, near, dict(i=i, k=8, step=3 if q else 1)) for i in range(8)]
    U.append(('foreign', foreign, {}))
    U.append(('counters', counters, dict(n=7)))
    return U
