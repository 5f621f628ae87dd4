"""C24 automaton constructions."""
from mc.core import lib
from mc.gen import kind, shard
from mc.auto import Ref, nfas, dfas, make, words, larger, difference, reversal

RULE = ('all NFAs with 2 states over 2 symbols and 3 states over 1 symbol, all initially connected DFAs with 3 states over 2 symbols; every construction '
        'compared on all words up to a length exceeding the number of states; all pairs of small automata for the binary constructions; '
        'structured automata of up to 256 deterministic states decided exactly on the product')


def same(ctx, A, f, W, what):
    for w in W:
        ctx.t += 1
        if bool(A(w)) != f(w):
            ctx.check(False, what, 'answers', bool(A(w)), 'on', w)


def unary(ctx, ref, A, W):
    au = lib('automata')
    ctx.case(ref.sigma, sorted(ref.init), {k: sorted(v) for k, v in ref.delta.items()}, sorted(ref.final))
    acc = {w: ref.accepts(w) for w in W}
    f = acc.__getitem__
    same(ctx, A, f, W, 'the automaton')
    D, N = A.asDFA(), A.asNFA()
    same(ctx, D, f, W, 'deterministic view')
    same(ctx, N, f, W, 'nondeterministic view')
    same(ctx, D.asNFA(), f, W, 'nondeterministic view of the deterministic view')
    same(ctx, N.asDFA().asNFA().asDFA(), f, W, 'repeated views')
    start, table, _ = ref.determinize()
    ctx.equal(len(D), len(table), 'number of states of the deterministic view')
    for off in (0, 5, None):
        R = A.renumber() if off is None else A.renumber(off)
        off = off or 0
        same(ctx, R, f, W, 'renumbered automaton')
        S = list(R.states())
        ctx.check(sorted(S) == list(range(off, off + len(S))), 'renumbered states', S)
    rev = lambda w: acc[w[::-1]]
    same(ctx, A.reverse(), rev, W, 'reversal')
    same(ctx, A.reverse().reverse(), f, W, 'double reversal')
    same(ctx, D.reverse(), rev, W, 'reversal of the deterministic view')
    neg = lambda w: not acc[w]
    same(ctx, A.complement(), neg, W, 'complement')
    same(ctx, A.complement().complement(), f, W, 'double complement')
    same(ctx, A.complement().reverse(), lambda w: not acc[w[::-1]], W, 'reversal of the complement')
    L = au.language(A)
    for w in W:
        ctx.t += 2
        ctx.equal(w in L, acc[w], 'membership of', w)
        ctx.equal(w in ~L, not acc[w], 'membership in the complement of', w)
    ctx.outcome(sum(acc.values()))


def single(ctx, spec, how, name, L, i, k):
    kindname = kind(name)
    n, s = spec[1], spec[2]
    sigma = 'ab'[:s] if s < 3 else 'abc'
    src = nfas(n, sigma) if spec[0] == 'nfa' else dfas(n, sigma)
    W = list(words(sigma, L))
    for ref in shard(src, i, k):
        unary(ctx, ref, make(ref, how, kindname), W)


def pairs(ctx, spec, how, L, i, k, how2='nfa', name2='str', neg=False):
    au = lib('automata')
    n, s = spec[1], spec[2]
    sigma = 'ab'[:s]
    src = list(nfas(n, sigma) if spec[0] == 'nfa' else dfas(n, sigma))
    W = list(words(sigma, L))
    accs = [{w: r.accepts(w) for w in W} for r in src]
    for x in range(i, len(src), k):
        for y in range(len(src)):
            A, B = make(src[x], how), make(src[y], how2, kind(name2))
            ctx.case(spec, x, y, how)
            a, b = accs[x], accs[y]
            if neg:
                A, B = B, A.complement()
                a, b = b, {w: not a[w] for w in W}
            for name, op, got, lang in (
                    ('union', lambda p, q: p or q, A.union(B), A.language() | B.language()),
                    ('intersection', lambda p, q: p and q, A.intersection(B), A.language() & B.language()),
                    ('symmetric difference', lambda p, q: p != q, A.symmetricDifference(B), A.language() ^ B.language())):
                for w in W:
                    ctx.t += 2
                    want = op(a[w], b[w])
                    if bool(got(w)) != want:
                        ctx.check(False, name, 'answers', not want, 'on', w)
                    if (w in lang) != want:
                        ctx.check(False, name, 'of languages answers', not want, 'on', w)


def alphabets(ctx):
    au = lib('automata')
    for a in ('', 'a', 'b', 'ab', 'abc', 'ba'):
        for b in ('', 'a', 'b', 'ab', 'abc', 'ac'):
            A = make(Ref(1, a, [0], {(0, c): frozenset([0]) for c in a}, [0]), 'nfa')
            B = make(Ref(1, b, [0], {(0, c): frozenset([0]) for c in b}, [0]), 'dfa')
            ctx.case(a, b)
            for f in (lambda: A.union(B), lambda: B.intersection(A), lambda: A.symmetricDifference(B),
                      lambda: A.language() | B.language(), lambda: A.language() & B.language(), lambda: B.language() ^ A.language()):
                if set(a) != set(b):
                    ctx.raises(au.LanguageError, f)
                else:
                    f()
                    ctx.t += 1
            for c in 'abz':
                if c not in a:
                    ctx.raises(au.LanguageError, A, c)
                    ctx.raises(au.LanguageError, A.complement(), c)
    L = au.RegularLanguage('ab*')
    for bad in (3, None, ['a'], L.recognizer):
        ctx.case(bad)
        if bad is not L.recognizer:
            ctx.raises(au.LanguageError, au.RegularLanguage, bad)
        for f in (lambda: L & bad, lambda: L | bad, lambda: L ^ bad):
            ctx.raises((au.LanguageError, TypeError), f)


def chains(ctx, n):
    """Counters mod n and 'n-th letter from the end' automata: larger state spaces."""
    au = lib('automata')
    for m in range(1, n + 1):
        d = {(s, c): frozenset([(s + (c == 'a')) % m]) for s in range(m) for c in 'ab'}
        A = make(Ref(m, 'ab', [0], d, [0]), 'dfa')
        W = list(words('ab', 6)) + [tuple('a' * j) for j in range(7, 3 * m)]
        ctx.case('counter', m)
        f = lambda w: w.count('a') % m == 0
        same(ctx, A, f, W, 'counter')
        same(ctx, A.reverse(), f, W, 'reversed counter')
        same(ctx, A.complement(), lambda w: not f(w), W, 'complement')
        ctx.equal(len(A), m, 'states')
    for m in range(1, 7):
        d = {(s, c): frozenset() for s in range(m + 1) for c in 'ab'}
        d[0, 'a'] = frozenset([0, 1])
        d[0, 'b'] = frozenset([0])
        for s in range(1, m):
            d[s, 'a'] = d[s, 'b'] = frozenset([s + 1])
        A = make(Ref(m + 1, 'ab', [0], d, [m]), 'nfa')
        W = list(words('ab', 8))
        ctx.case('from the end', m)
        f = lambda w: len(w) >= m and w[-m] == 'a'
        same(ctx, A, f, W, 'automaton')
        ctx.equal(len(A.asDFA()), 2 ** m, 'deterministic states')
        same(ctx, A.reverse(), lambda w: f(w[::-1]), W, 'reversal')
        same(ctx, A.union(A.reverse()), lambda w: f(w) or f(w[::-1]), W, 'union with the reversal')


def exact(ctx, A, ref, what):
    ctx.t += 1
    w = difference(A.asDFA(), ref)
    if w is not None:
        ctx.check(False, what, 'is wrong on', ''.join(map(str, w)))


def complement(ref):
    start, table, acc = ref.determinize()
    no = {S: i for i, S in enumerate(table)}
    return Ref(len(no), ref.sigma, [no[start]], {(no[S], c): frozenset([no[T]]) for S in table for c, T in table[S].items()}, [no[S] for S in table if S not in acc])


def side_by_side(p, q):
    """Union of two languages."""
    d = {(s, c): frozenset(T) for (s, c), T in p.delta.items()}
    d.update({(s + p.n, c): frozenset(t + p.n for t in T) for (s, c), T in q.delta.items()})
    return Ref(p.n + q.n, p.sigma, set(p.init) | {s + p.n for s in q.init}, d, set(p.final) | {s + p.n for s in q.final})


def large(ctx, i, k):
    """Constructions of larger automata, decided exactly on the product with a reference."""
    for name, det, ref in shard(larger(), i, k):
        for how, lab in [('nfa', 'int'), ('nfa', 'str')] + [('dfa', 'int')] * det:
            ctx.case(name, how, lab)
            A = make(ref, how, kind(lab))
            neg, rev = complement(ref), reversal(ref)
            exact(ctx, A, ref, 'the automaton')
            exact(ctx, A.asDFA().asNFA(), ref, 'the view of the view')
            exact(ctx, A.renumber(), ref, 'the renumbered automaton')
            R = A.asDFA().renumber(7)
            S = list(R.states())
            ctx.check(sorted(S) == list(range(7, 7 + neg.n)), 'renumbered states', len(S), 'expected', neg.n)
            exact(ctx, R, ref, 'the renumbered deterministic view')
            exact(ctx, A.complement(), neg, 'the complement')
            ctx.equal(len(A.asDFA()), neg.n, 'number of deterministic states')
            exact(ctx, A.reverse().reverse(), ref, 'the double reversal')
            if not det or name.startswith(('counter', 'chain', 'letters', 'binary13')) and 'halves' not in name:
                exact(ctx, A.reverse(), rev, 'the reversal')
            if ref.sigma == ['a', 'b']:
                d = {(s, c): frozenset([(s + (c == 'b')) % 3]) for s in range(3) for c in 'ab'}
                three = Ref(3, 'ab', [0], d, [1])
                B = make(three, 'dfa')
                exact(ctx, A.union(B), side_by_side(ref, three), 'the union')
                exact(ctx, B.intersection(A), complement(side_by_side(neg, complement(three))), 'the intersection')
            ctx.outcome(neg.n)


def units(tier):
    q = tier == 'quick'
    U = [('n1', single, dict(spec=('nfa', 1, 2), how='nfa', name='U', L=4, i=0, k=1))]
    for i in range(8):
        U.append(('n2k2-%d' % i, single, dict(spec=('nfa', 2, 2), how='nfa', name='int' if i % 2 else 'U', L=4, i=i, k=8)))
        U.append(('n3k1-%d' % i, single, dict(spec=('nfa', 3, 1), how='nfa', name='str' if i % 2 else 'int', L=8, i=i, k=8)))
        U.append(('d3k2-%d' % i, single, dict(spec=('dfa', 3, 2), how='dfa', name='mix' if i % 2 else 'int', L=4, i=i, k=8)))
        U.append(('p2k1-%d' % i, pairs, dict(spec=('nfa', 2, 1), how='nfa', L=5, i=i, k=8)))
        U.append(('q2k2-%d' % i, pairs, dict(spec=('dfa', 2, 2), how='dfa', L=4, i=i, k=8)))
        U.append(('r2k2-%d' % i, pairs, dict(spec=('dfa', 2, 2), how='nfa', L=3, i=i, k=8, how2='dfa', name2='int')))
        U.append(('s2k1-%d' % i, pairs, dict(spec=('nfa', 2, 1), how='nfa', L=4, i=i, k=8, how2='nfa', name2='U', neg=True)))
        U.append(('s2k2-%d' % i, pairs, dict(spec=('dfa', 2, 2), how='dfa', L=3, i=i, k=8, how2='dfa', name2='U', neg=True)))
        if not q:
            U.append(('d4k2-%d' % i, single, dict(spec=('dfa', 4, 2), how='dfa', name='int', L=5, i=i, k=8)))
            U.append(('d3k3-%d' % i, single, dict(spec=('dfa', 3, 3), how='nfa', name='int', L=4, i=i, k=8)))
            U.append(('q3k1-%d' % i, pairs, dict(spec=('dfa', 3, 1), how='nfa', L=10, i=i, k=8)))
    U += [('large-%d' % i, large, dict(i=i, k=8)) for i in range(8)]
    U.append(('alphabets', alphabets, {}))
    U.append(('chains', chains, dict(n=12)))
    return U
