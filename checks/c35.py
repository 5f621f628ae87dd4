"""C35 Lyndon factorization."""
from itertools import product
from functools import total_ordering
from mc.core import lib
from mc.gen import shard

RULE = ('every word over 2 letters up to length 14 (quick) or 17, 3 letters up to 9/10, 4 letters up to 7/8, 5 letters up to 6, as text, list and tuple, '
        'with letters of several ordered types that are equal without being the same object; unique factorization, least rotation and suffix by definition; periodic words and staircases of up to 600 letters')


@total_ordering
class Letter:
    """Comparable, equal by value, always false."""
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return self.k == o.k

    def __lt__(self, o):
        return self.k < o.k

    def __hash__(self):
        return hash(self.k)

    def __bool__(self):
        return False

    def __repr__(self):
        return 'L%d' % self.k


ALPH = {'str': 'abcdefgh', 'int': range(8), 'neg': range(-4, 4), 'big': range(10**9, 10**9 + 8), 'tup': [(), (0,), (0, 0), (1,), (1, 0)], 'nested': ['', 'a', 'ab', 'b', 'ba'], 'letter': [Letter(k) for k in range(8)],
        'float': [float('-inf'), -0.5, 0.0, 0.5, float('inf')], 'set': [frozenset(), frozenset('a'), frozenset('ab'), frozenset('abc'), frozenset('abcd')]}


def lyndon(w):
    return all(w < w[i:] + w[:i] for i in range(1, len(w)))


def factor(w):
    """Longest Lyndon prefix first (Chen, Fox and Lyndon); in long words a
    factor starts wherever the suffix is less than every longer one."""
    if len(w) > 64:
        starts, best = [], None
        for i in range(len(w)):
            if best is None or w[i:] < best:
                best = w[i:]
                starts.append(i)
        return [w[a:b] for a, b in zip(starts, starts[1:] + [len(w)])]
    out = []
    while w:
        for k in range(len(w), 0, -1):
            if lyndon(w[:k]):
                break
        out.append(w[:k])
        w = w[k:]
    return out


def word(ctx, w, forms):
    m = lib('lyndon')
    ctx.case(w)
    ctx.t += 5
    F = factor(w)
    rot = min(w[i:] + w[:i] for i in range(len(w)))
    suf = min(w[i:] for i in range(len(w)))
    ends, k = [], 0
    for f in F:
        k += len(f)
        ends.append(k)
    isl = len(F) == 1
    for s, back in forms(w):
        conv = lambda x: back(x)
        got = [conv(x) for x in m.ChenFoxLyndon(s)]
        if got != F:
            ctx.check(False, 'factorization of', s, 'is', got, 'expected', F)
        got = list(m.ChenFoxLyndonBreakpoints(s))
        if got != ends:
            ctx.check(False, 'breakpoints of', s, 'are', got, 'expected', ends)
        got = conv(m.SmallestRotation(s))
        if got != rot:
            ctx.check(False, 'smallest rotation of', s, 'is', got, 'expected', rot)
        got = conv(m.SmallestSuffix(s))
        if got != suf:
            ctx.check(False, 'smallest suffix of', s, 'is', got, 'expected', suf)
        if bool(m.isLyndonWord(s)) != isl:
            ctx.check(False, 'isLyndonWord of', s, 'is', not isl)
    ctx.outcome(len(F))


def fresh(x):
    """An equal letter that is another object."""
    if isinstance(x, Letter):
        return Letter(x.k)
    if isinstance(x, tuple):
        return tuple(list(x))
    if isinstance(x, (int, float)):
        return type(x)(str(x))
    if isinstance(x, frozenset):
        return frozenset(set(x))
    return x


def typed(alph):
    A = list(ALPH[alph])

    def back(x):
        return tuple(a.k if alph == 'letter' else A.index(a) for a in x)

    def forms(w):
        l = [fresh(A[k]) for k in w]
        yield l, back
        yield tuple(l), back
        if alph == 'str':
            yield ''.join(l), back
    return forms


def plain(w):
    yield w, tuple
    yield ''.join('abcdefgh'[k] for k in w), lambda x: tuple(ord(c) - 97 for c in x)


def numbers(w):
    yield list(w), tuple
    yield w, tuple


def all_words(ctx, s, n, alph, i, k):
    forms = plain if alph is None else typed(alph)
    for w in shard(product(range(s), repeat=n), i, k):
        word(ctx, w, forms)


def long_words(ctx):
    """Powers and near powers of every short word."""
    for n in range(1, 6):
        for w in product(range(2), repeat=n):
            for r in (2, 3, 7):
                W = w * r
                word(ctx, W, plain)
                for i in range(len(W)):
                    word(ctx, W[:i] + (1 - W[i],) + W[i + 1:], plain)
                    word(ctx, W[:i] + (2,) + W[i:], plain)


def longer(ctx):
    """Powers of every word of up to four letters, up to 600 letters long,
    followed by every word of up to two letters, and staircases."""
    tails = [t for n in range(3) for t in product(range(3), repeat=n)]
    for n in range(1, 5):
        for w in product(range(3 if n < 3 else 2), repeat=n):
            for size in (65, 129, 260, 600):
                for t in tails:
                    word(ctx, w * (size // n) + t, plain)
    for n in (12, 20, 33):
        up = [(0,) * i + (1,) for i in range(n)]
        for seq in (up, up[::-1]):
            word(ctx, sum(seq, ()), plain)
        word(ctx, tuple(range(n * n)), numbers)
        word(ctx, tuple(reversed(range(n * n))), numbers)


def empty(ctx):
    m = lib('lyndon')
    for w in ('', [], ()):
        ctx.case('empty word', w)
        ctx.check(ctx.call(m.isLyndonWord, w), 'the empty word is not accepted as a Lyndon word')
        ctx.equal(list(ctx.call(m.ChenFoxLyndon, w)), [], 'factors of the empty word')
        ctx.equal(list(ctx.call(m.ChenFoxLyndonBreakpoints, w)), [], 'breakpoints of the empty word')


def units(tier):
    q = tier == 'quick'
    U = []
    for s, top in ((1, 14), (2, 14 if q else 17), (3, 9 if q else 10), (4, 7 if q else 8), (5, 6)):
        for n in range(1, top + 1):
            k = max(1, s ** n // 4000)
            k = min(k, 16)
            for i in range(k):
                U.append(('w%d^%d-%d' % (s, n, i), all_words, dict(s=s, n=n, alph=None, i=i, k=k)))
    for a in ALPH:
        for s, top in ((2, 8), (3, 6), (4, 4), (5, 4)):
            U += [('%s%d^%d' % (a, s, n), all_words, dict(s=s, n=n, alph=a, i=0, k=1)) for n in range(1, top + 1)
                  if not (a == 'set' and s > 5)]
    U.append(('long', long_words, {}))
    U.append(('longer', longer, {}))
    U.append(('empty', empty, {}))
    return U
