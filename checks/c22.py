"""C22 range minima."""
import importlib
from itertools import product
from mc.core import lib
from mc.gen import shard

RULE = ('all weak orders of length <=6 and all +-1 walks of length <=12 with every slice, walks and sequences of every length across block-size changes '
        'up to 1100, sequences of up to 70001 values between boundary positions, every index and stride other than one refused and every empty slice on sequences of length <=4, and all build/query histories of small structures starting from a freshly loaded module')


def slices(n, wide):
    if wide:
        ends = [None] + list(range(-n - 1, n + 2))
    else:
        ends = list(range(n + 1))
    for i in ends:
        for j in ends:
            yield slice(i, j)


def verify(ctx, R, X, S):
    X = list(X)
    for s in S:
        want = X[s]
        if want:
            ctx.t += 1
            got = R[s]
            want = min(want)
            if got != want or type(got) is not type(want):
                ctx.check(False, 'slice', s, 'of', X, 'answers', got, 'instead of', want)
    ctx.equal(len(R), len(X), 'length')


def weak_orders(n):
    """All sequences of length n whose value set is {0..k}."""
    for t in product(range(n), repeat=n):
        if t and max(t) + 1 == len(set(t)):
            yield t


FORMS = {'int': lambda v: v, 'neg': lambda v: -v, 'str': lambda v: 'z' * (5 - v) if v < 5 else '', 'tup': lambda v: (v // 2, str(v)), 'float': lambda v: v / 3 - 0.5}


def small(ctx, n, form, i, k):
    lca = lib('lca')
    f = FORMS[form]
    S = list(slices(n, n <= 5))
    for t in shard(weak_orders(n), i, k):
        X = [f(v) for v in t]
        ctx.case(X)
        for c in (lca.RangeMin, lca.LogarithmicRangeMin, lca.PrecomputedRangeMin):
            verify(ctx, c(X), X, S)
        verify(ctx, lca.RangeMin(tuple(X)), X, S[::3])
        ctx.equal(list(lca.PrefixMinima(X)), [min(X[:j + 1]) for j in range(n)], 'prefix minima')
        ctx.equal(list(lca.PrefixMinima(X, reversed=True)), [min(X[j:]) for j in range(n)], 'suffix minima')


def walk(bits, start=0):
    X = [start]
    for b in bits:
        X.append(X[-1] + (1 if b else -1))
    return X


def walks(ctx, n, i, k):
    lca = lib('lca')
    S = list(slices(n, n <= 6))
    for bits in shard(product((0, 1), repeat=n - 1), i, k):
        X = walk(bits, 3)
        ctx.case(X)
        verify(ctx, lca.RestrictedRangeMin(X), X, S)
        if n <= 8:
            for c in (lca.RangeMin, lca.LogarithmicRangeMin, lca.PrecomputedRangeMin):
                verify(ctx, c(X), X, S)


def patterns(n):
    for p in (1, 2, 3, 4, 5, 7, 8, 11, 16):
        yield 'saw%d' % p, [(j // p) % 2 for j in range(n - 1)]
        yield 'drift%d' % p, [j % (p + 1) != 0 for j in range(n - 1)]
        yield 'fall%d' % p, [j % (p + 1) == 0 for j in range(n - 1)]
    for m in (5, 11, 19, 45, 77):
        yield 'mul%d' % m, [(j * j * m >> 3) & 1 for j in range(n - 1)]
    yield 'up', [1] * (n - 1)
    yield 'down', [0] * (n - 1)
    yield 'vee', [j > n // 2 for j in range(n - 1)]


def sampleslices(n):
    """All slices between a set of boundary positions."""
    B = sorted({b for p in range(0, 12) for b in (1 << p, (1 << p) - 1, (1 << p) + 1, n - (1 << p), n // 2, n // 3, n - 1, n, 0)
                if 0 <= b <= n} | {b for b in range(0, n, 37)})
    for x, i in enumerate(B):
        for j in B[x + 1:]:
            yield slice(i, j)


def lengths(ctx, ns):
    lca = lib('lca')
    for n in ns:
        S = list(slices(n, False)) if n <= 40 else list(sampleslices(n))
        for name, bits in patterns(n):
            X = walk(bits)
            ctx.case(n, name)
            verify(ctx, lca.RestrictedRangeMin(X), X, S)
        for a, m in ((1, n + 1), (7, 11), (5, 17), (13, 101), (37, 257), (1, 3), (0, 1)):
            X = [(a * j * j + 3 * j) % m for j in range(n)]
            for Y in (X, sorted(X), sorted(X)[::-1]):
                ctx.case(n, a, m)
                verify(ctx, lca.RangeMin(Y), Y, S)
                verify(ctx, lca.LogarithmicRangeMin(Y), Y, S)


def deep(ctx, n):
    lca = lib('lca')
    for name, X in (('up', list(range(n))), ('down', list(range(n, 0, -1))), ('flat', [5] * n), ('vee', [abs(j - n // 2) for j in range(n)])):
        ctx.case(name, n)
        R = lca.RangeMin(X)
        verify(ctx, R, X, [slice(0, n), slice(n // 3, n), slice(0, 1), slice(n // 2, n // 2 + 2), slice(-3, None), slice(None, -3)])


def huge(ctx, n, what):
    """Tens of thousands of values: many blocks and large logarithms; slices between boundary positions."""
    lca = lib('lca')
    B = sorted({b for p in range(0, 18) for b in (1 << p, (1 << p) - 1, (1 << p) + 1, n - (1 << p), n // 2 + (1 << p), n // 3 * 2 - (1 << p), n, 0)
                if 0 <= b <= n})
    if what == 'RestrictedRangeMin':
        seqs = [walk([(j * j * m >> 3) & 1 for j in range(n - 1)]) for m in (5, 11)]
        seqs += [walk([(j // p) % 2 for j in range(n - 1)]) for p in (1, 9, 1000)]
        seqs.append(walk([(j * 7 >> 2) % 5 < 3 for j in range(n - 1)]))
        seqs.append(walk([(j * 7 >> 2) % 5 < 2 for j in range(n - 1)]))
    else:
        seqs = [[(a * j * j + 3 * j) % m for j in range(n)] for a, m in ((7, 65537), (1, 9973), (5, 17))]
        seqs += [[abs(j - n // 3) for j in range(n)], [-abs(j - n // 3) for j in range(n)]]
    for x, X in enumerate(seqs):
        ctx.case(what, n, x)
        low = [min(X[a:b]) for a, b in zip(B, B[1:])]
        R = getattr(lca, what)(X)
        ctx.equal(len(R), n, 'length')
        for i in range(len(B)):
            best = None
            for j in range(i + 1, len(B)):
                best = low[j - 1] if best is None else min(best, low[j - 1])
                ctx.t += 1
                got = R[B[i]:B[j]]
                if got != best:
                    ctx.check(False, 'slice', (B[i], B[j]), 'answers', got, 'instead of', best)


def histories(ctx, first):
    """Build sizes in every order, starting from a module without any tables; query all old and new structures."""
    lca = lib('lca')
    sizes = (1, 2, 3, 5, 8, 17)
    S = {n: list(slices(n, False)) for n in sizes}
    kinds = ('RangeMin', 'RestrictedRangeMin', 'LogarithmicRangeMin', 'PrecomputedRangeMin')
    ops = [(c, n) for c in kinds for n in sizes]
    for rest in product(ops, repeat=2):
        importlib.reload(lca)
        alive = []
        ctx.case(first, rest)
        for c, n in (first,) + rest:
            X = walk([(j * 5 >> 1) & 1 for j in range(n - 1)], 2)
            alive.append((getattr(lca, c)(X), X))
            for R, X in alive:
                verify(ctx, R, X, S[len(X)] if len(X) < 6 else S[len(X)][::7])


def refused(ctx, n):
    """Only slices of stride one are answered; the empty ones have no minimum."""
    lca = lib('lca')
    ends = [None] + list(range(-n - 2, n + 3))
    for X in weak_orders(n) if n else [()]:
        for c in ('RangeMin', 'LogarithmicRangeMin', 'PrecomputedRangeMin') if n else ('RangeMin',):
            R = getattr(lca, c)(list(X))
            ctx.case(c, X)
            for x in [*ends, 0.5, 'a', (0, n), (slice(0, n),)]:
                ctx.raises((ValueError, TypeError), lambda: R[x])
            for i, j in product(ends, repeat=2):
                for step in (-2, -1, 0, 2, 3):
                    ctx.raises((ValueError, TypeError), lambda: R[i:j:step])
                if not X[i:j] and c == 'RangeMin':
                    ctx.check(R[i:j] is None, 'empty slice', (i, j), 'answers', R[i:j])
                    ctx.check(R[i:j:1] is None, 'empty slice', (i, j, 1), 'answers', R[i:j:1])
                elif X[i:j]:
                    ctx.equal(R[i:j:1], min(X[i:j]), 'slice', (i, j, 1))
            ctx.equal(len(R), n, 'length')
        if n:
            R = lca.RestrictedRangeMin(walk([j % 2 for j in range(n - 1)]))
            ctx.case('RestrictedRangeMin', n)
            for x in (0, -1, None, (0, n)):
                ctx.raises((ValueError, TypeError), lambda: R[x])
            for step in (-1, 0, 2, 3):
                ctx.raises((ValueError, TypeError), lambda: R[::step])


def units(tier):
    q = tier == 'quick'
    U = []
    for form in FORMS:
        for n in (1, 2, 3, 4):
            U.append(('w%d-%s' % (n, form), small, dict(n=n, form=form, i=0, k=1)))
    U.append(('w5-int', small, dict(n=5, form='int', i=0, k=1)))
    U.append(('w5-str', small, dict(n=5, form='str', i=0, k=1)))
    for i in range(4):
        U.append(('w6-%d' % i, small, dict(n=6, form='int', i=i, k=4)))
    for n in range(1, 13 if q else 17):
        k = 1 if n < 10 else 4
        for i in range(k):
            U.append(('walk%d-%d' % (n, i), walks, dict(n=n, i=i, k=k)))
    U += [('len-%d' % i, lengths, dict(ns=list(range(1 + i, 41, 8)))) for i in range(8)]
    big = [63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 1100]
    if not q:
        big = list(range(41, 300)) + big[10:] + [2047, 2048, 2049, 4095, 4096, 4097]
    U += [('big-%d' % i, lengths, dict(ns=big[i::8])) for i in range(8)]
    U += [('refused%d' % n, refused, dict(n=n)) for n in range(5)]
    U.append(('deep', deep, dict(n=3000)))
    for c in ('RangeMin', 'RestrictedRangeMin', 'LogarithmicRangeMin'):
        for n in (1500, 2047, 4097, 9000, 70001) if q else (1500, 2047, 4097, 9000, 70001, 150000, 300000):
            U.append(('huge-%s-%d' % (c, n), huge, dict(n=n, what=c)))
    for c in ('RangeMin', 'RestrictedRangeMin', 'LogarithmicRangeMin', 'PrecomputedRangeMin'):
        for n in (1, 2, 3, 5, 8, 17):
            U.append(('hist-%s-%d' % (c, n), histories, dict(first=(c, n))))
    return U
