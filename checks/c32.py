"""C32 integer partitions."""
from itertools import islice
from mc.core import lib
from mc.gen import shard

RULE = ('all n up to 34 (quick) or 46 for the full generators, up to 130/220 for binary partitions, every length for the fixed-length ones; '
        'conjugates of every partition of every n up to 27; the first partitions of n up to 300; the reference lists partitions recursively by largest part')


def parts(n, m=None):
    """Partitions of n with parts <= m, largest part first: reverse lexicographic order."""
    if n == 0:
        yield ()
        return
    for k in range(min(n, n if m is None else m), 0, -1):
        for r in parts(n - k, k):
            yield (k,) + r


def bparts(n, m=None):
    if n == 0:
        yield ()
        return
    k = 1 << (n.bit_length() - 1)
    if m is not None:
        k = min(k, m)
    while k:
        for r in bparts(n - k, k):
            yield (k,) + r
        k >>= 1


def compare(ctx, name, got, want):
    """Lazily compare two sequences of partitions."""
    it = iter(got)
    k = 0
    for w in want:
        ctx.t += 1
        g = next(it, None)
        if g is None:
            ctx.check(False, name, 'stops after', k, 'partitions, expected', w)
        if tuple(g) != w:
            ctx.check(False, name, 'item', k, 'is', list(g), 'expected', w)
        k += 1
    g = next(it, None)
    ctx.check(g is None, name, 'lists a further', g)
    return k


def full(ctx, n):
    ip = lib('integer_partitions')
    ctx.case(n)
    P = list(parts(n)) if n >= 0 else []
    for name in ('mckay', 'revlex_partitions', 'partitions'):
        ctx.case(name, n)
        ctx.outcome(name, compare(ctx, name, getattr(ip, name)(n), P))
    ctx.case('lex', n)
    compare(ctx, 'lex_partitions', ip.lex_partitions(n), reversed(P))


def binary(ctx, lo, hi):
    ip = lib('integer_partitions')
    for n in range(lo, hi):
        ctx.case(n)
        ctx.outcome(compare(ctx, 'binary', ip.binary_partitions(n), bparts(n) if n >= 0 else ()))


def fixed(ctx, lo, hi):
    ip = lib('integer_partitions')
    for n in range(lo, hi):
        by = {}
        for p in (parts(n) if n >= 0 else ()):
            by.setdefault(len(p), []).append(p)
        for L in range(0, max(n, 0) + 3):
            ctx.case(n, L)
            want = sorted(by.get(L, []), key=lambda p: p[::-1])
            ctx.outcome(compare(ctx, 'fixed length', ip.fixed_length_partitions(n, L), want))


def conj(ctx, n):
    ip = lib('integer_partitions')
    for p in parts(n):
        ctx.case(p)
        want = [sum(x > i for x in p) for i in range(p[0] if p else 0)]
        for src in (list(p), p):
            ctx.t += 1
            c = ip.conjugate(src)
            if list(c) != want or list(ip.conjugate(c)) != list(p):
                ctx.check(False, 'conjugate is', c, 'expected', want, 'and back', ip.conjugate(want))
        ctx.outcome(len(want))


def lexparts(n, m=None):
    if n == 0:
        yield ()
        return
    for k in range(1, min(n, n if m is None else m) + 1):
        for r in lexparts(n - k, k):
            yield (k,) + r


def colex(n, L, lo=1):
    """Partitions into L parts of at least lo, ordered by the smallest part, then the next smallest and so on."""
    if L == 0:
        if n == 0:
            yield ()
        return
    for a in range(lo, n // L + 1):
        for r in colex(n - a, L - 1, a):
            yield r + (a,)


def prefix(ctx, n, K):
    """The first K partitions of larger numbers."""
    ip = lib('integer_partitions')
    for name, want in (('mckay', parts), ('revlex_partitions', parts), ('lex_partitions', lexparts), ('binary_partitions', bparts)):
        if n > 150 and name in ('revlex_partitions', 'lex_partitions'):
            continue
        ctx.case(name, n, K)
        it = getattr(ip, name)(n)
        compare(ctx, name, islice(it, K), islice(want(n), K))
    for L in (2, 3, 5, 11, 12, n // 2, n - 3, n):
        ctx.case('fixed', n, L)
        compare(ctx, 'fixed length', islice(ip.fixed_length_partitions(n, L), K), islice(colex(n, L), K))


def conj_big(ctx, n):
    ip = lib('integer_partitions')
    for p in ([n], [1] * n, [n] * n, list(range(n, 0, -1)), [n, 1], [n] + [1] * n, [n, n // 2, n // 3 + 1, 1, 1], [i * i // 7 + 1 for i in range(n, 0, -1)],
              [n - i // 3 * 2 for i in range(n) if i // 3 * 2 < n], [n // (i + 1) for i in range(n)]):
        ctx.case(n, p[:3], len(p))
        want = [sum(x > i for x in p) for i in range(p[0])]
        ctx.t += 2
        ctx.check(list(ip.conjugate(list(p))) == want, 'conjugate of a partition with largest part', p[0])
        ctx.check(list(ip.conjugate(want)) == p, 'conjugate of the conjugate')


def units(tier):
    q = tier == 'quick'
    U = [('n%d' % n, full, dict(n=n)) for n in range(-2, 35 if q else 47)]
    U += [('binary%d' % n, binary, dict(lo=n, hi=n + 10)) for n in range(-10, 131 if q else 221, 10)]
    U += [('fixed%d' % n, fixed, dict(lo=n, hi=n + 2)) for n in range(-2, 32 if q else 42, 2)]
    U += [('prefix%d' % n, prefix, dict(n=n, K=1500 if q else 20000)) for n in (47, 48, 63, 64, 65, 100, 128, 150, 300)]
    U += [('conj-big%d' % n, conj_big, dict(n=n)) for n in (31, 32, 40, 41, 64, 100, 256)]
    U += [('conj%d' % n, conj, dict(n=n)) for n in range(0, 28 if q else 36)]
    return U
