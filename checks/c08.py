"""C08 frequency estimator."""
from collections import Counter
from fractions import Fraction
from itertools import product
from mc.core import lib
from mc.gen import MIX, shard

RULE = ('every stream (up to renaming of keys) up to a length bound, every accuracy of a list, checked after every prefix; long periodic streams')


def rgs(n):
    """Restricted growth strings of length n."""
    def rec(w, m):
        if len(w) == n:
            yield tuple(w)
            return
        for x in range(m + 1):
            w.append(x)
            yield from rec(w, max(m, x + 1))
            w.pop()
    yield from rec([], 0)


def verify(ctx, F, stream, acc, keys, others=()):
    C = Counter(stream)
    n = len(stream)
    A = Fraction(acc).limit_denominator(10 ** 6)
    eps = Fraction(1, 10 ** 9)
    tracked = list(F)
    ctx.t += len(keys) + 1
    ctx.check(len(set(tracked)) == len(tracked) and len(tracked) <= 1 / A, 'tracks', tracked, 'with accuracy', acc)
    for k in keys:
        est = Fraction(F[k])
        true = Fraction(C[k], n) if n else Fraction(0)
        ctx.check(est <= true + eps, 'estimate', float(est), 'of', k, 'exceeds', float(true), 'stream', stream)
        ctx.check(true - est <= A + eps, 'estimate', float(est), 'of', k, 'too far below', float(true), 'accuracy', acc, 'stream', stream)
        if true > A:
            ctx.check(k in tracked, 'frequent key', k, 'is not listed', tracked, 'stream', stream)
    ctx.check(all(k in C for k in tracked), 'lists a key that never occurred', tracked)
    ctx.outcome(len(tracked))


def streams(ctx, acc, length, i, k, mix):
    fe = lib('frequencyestimator')
    name = (lambda x: MIX[x]) if mix else (lambda x: x)
    for n in range(length + 1):
        for w in shard(rgs(n), i, k):
            ctx.case(acc, w, mix)
            F = fe.FrequencyEstimator(acc)
            for x in w:
                F += name(x)
                ctx.t += 1
            verify(ctx, F, [name(x) for x in w], acc, [name(x) for x in range(max(w, default=-1) + 2)])


def periodic(ctx, acc, period, letters, reps):
    fe = lib('frequencyestimator')
    for p in range(1, period + 1):
        for w in product(range(letters), repeat=p):
            ctx.case(acc, w)
            F = fe.FrequencyEstimator(acc)
            s = []
            for r in range(reps):
                for j, x in enumerate(w):
                    y = x if x < letters - 1 else 100 + r * p + j      # the last letter means a fresh key
                    F += y
                    s.append(y)
                    ctx.t += 1
                if r in (1, 5) or r == reps - 1:
                    verify(ctx, F, s, acc, set(s) | {-1})


def lengthy(ctx, acc, n):
    """Streams of thousands of keys, checked at several prefixes."""
    fe = lib('frequencyestimator')
    for name, f in (('same', lambda j: 0), ('mostly', lambda j: 0 if j % 3 else j), ('squares', lambda j: j * j % 17), ('cube', lambda j: j ** 3 % 101),
                    ('late', lambda j: j % 50 if j < n // 2 else -1), ('early', lambda j: -1 if j < n // 2 else j % 50), ('fresh', lambda j: j),
                    ('bits', lambda j: (j & -j).bit_length()), ('runs', lambda j: j // 100 % 7), ('two', lambda j: j % 2 if j % 4 else j)):
        ctx.case(acc, n, name)
        F = fe.FrequencyEstimator(acc)
        s = []
        for j in range(n):
            F += f(j)
            s.append(f(j))
            ctx.t += 1
            if j + 1 in (999, 1000, 1001, 1024, 1500, 2500, n):
                verify(ctx, F, s, acc, sorted(set(s) | {-7})[:400])


ACCS = [1, 1.0, 0.9, 0.5, 0.6, 0.51, 0.4, 0.34, 0.3, 0.25, 0.2, 0.1]


def units(tier):
    q = tier == 'quick'
    U = []
    for acc in ACCS:
        for i in range(2):
            U.append(('acc%s-%d' % (repr(acc), i), streams, dict(acc=acc, length=9 if q else 11, i=i, k=2, mix=False)))
        U.append(('mix%s' % repr(acc), streams, dict(acc=acc, length=7 if q else 8, i=0, k=1, mix=True)))
    for acc in (0.5, 0.34, 0.25, 0.1, 0.05, 0.01):
        U.append(('per%s' % acc, periodic, dict(acc=acc, period=4 if q else 6, letters=5, reps=12)))
    for acc in (0.5, 0.1, 0.04, 0.01, 0.003):
        U.append(('lengthy%s' % acc, lengthy, dict(acc=acc, n=4000)))
    U.append(('long', periodic, dict(acc=0.02, period=3, letters=4, reps=120)))
    return U
