"""C38 common and increasing subsequences."""
from itertools import product
from mc.core import lib
from mc.gen import shard, kind, U

RULE = ('every pair of words over 2 letters up to length 7 (quick) or 8, 3 letters up to 5, 4 letters up to 4, and every single word over up to 4 letters up to length 8 '
        '(5^6, 2^12) and every permutation up to 8, with several item types; patterned words of up to 700 items; reference by exhaustive subsets or recursive definition')


def is_sub(s, w):
    it = iter(w)
    return all(any(x == y for y in it) for x in s)


def lcs_len(a, b, memo):
    """By definition: the longest subsequence of a that is a subsequence of b."""
    k = (a, b)
    if k not in memo:
        if not a or not b:
            memo[k] = 0
        else:
            r = lcs_len(a[1:], b, memo)
            for j, y in enumerate(b):
                if y == a[0]:
                    r = max(r, 1 + lcs_len(a[1:], b[j + 1:], memo))
                    break
            memo[k] = r
    return memo[k]


FORMS = {'tuple': lambda w: w, 'list': list, 'text': lambda w: ''.join('abcdef'[x] for x in w), 'iter': iter, 'gen': lambda w: (x for x in w),
         'opaque': lambda w: [U(x) for x in w], 'unhashable': lambda w: [[x] for x in w], 'mix': lambda w: [kind('mix')(x) for x in w]}
BACK = {'text': lambda x: 'abcdef'.index(x), 'opaque': lambda x: next(k for k in range(6) if U(k) == x), 'unhashable': lambda x: x[0],
        'mix': lambda x: next(k for k in range(6) if kind('mix')(k) == x)}


def lcs(ctx, s, n, m, forms, i, k):
    f = lib('lcs').longest_common_subsequence
    memo = {}
    for a in shard(product(range(s), repeat=n), i, k):
        for b in product(range(s), repeat=m):
            ctx.case(a, b)
            want = lcs_len(a, b, memo)
            for fa, fb in forms:
                ctx.t += 1
                r = f(FORMS[fa](a), FORMS[fb](b))
                r = [BACK.get(fa, lambda x: x)(x) for x in r]
                if len(r) != want or not is_sub(r, a) or not is_sub(r, b):
                    ctx.check(False, 'common subsequence is', r, 'expected one of length', want)
            ctx.outcome(want)


class Item:
    """Ordered by value only, with an identity."""
    def __init__(self, v, pos):
        self.v, self.pos = v, pos

    def __eq__(self, o):
        return self.v == o.v

    def __lt__(self, o):
        return self.v < o.v

    def __gt__(self, o):
        return self.v > o.v

    def __le__(self, o):
        return self.v <= o.v

    def __ge__(self, o):
        return self.v >= o.v

    __hash__ = None

    def __repr__(self):
        return '%d@%d' % (self.v, self.pos)


def lis_word(ctx, w, plain):
    f = lib('longest_increasing_subsequence').longest_increasing_subsequence
    ctx.case(w)
    n = len(w)
    L = []
    for i in range(n):
        L.append(1 + max([L[j] for j in range(i) if w[j] < w[i]], default=0))
    best = max(L, default=0)
    ctx.t += 1
    S = [Item(v, i) for i, v in enumerate(w)]
    r = f(S)
    pos = [x.pos for x in r]
    if len(r) != best or any(a >= b for a, b in zip(pos, pos[1:])) or any(w[a] >= w[b] for a, b in zip(pos, pos[1:])):
        ctx.check(False, 'increasing subsequence is', r, 'expected one of length', best)
    if best:
        v, p = min((w[i], i) for i in range(n) if L[i] == best)
        if pos[-1] != p:
            ctx.check(False, 'subsequence', r, 'should end at', Item(v, p))
    if plain:
        for src in (list(w), w, iter(w), (x for x in w)):
            ctx.t += 1
            r2 = list(f(src))
            if r2 != [x.v for x in r]:
                ctx.check(False, 'for plain numbers', r2, 'for wrapped numbers', r)
        r3 = f(''.join('abcdefghijklm'[x] for x in w))
        ctx.equal([ 'abcdefghijklm'.index(x) for x in r3], [x.v for x in r], 'for text')
    ctx.outcome(best)


def big_words(n):
    yield 'up', list(range(n))
    yield 'down', list(range(n, 0, -1))
    yield 'flat', [3] * n
    yield 'two', [i * i // 3 % 2 for i in range(n)]
    yield 'halves', list(range(n // 2, n)) + list(range(n // 2))
    for m in (3, 7, 17, 40, 101, 257):
        yield 'mod%d' % m, [(i * i * 3 + 5 * i) % m for i in range(n)]
        yield 'drift%d' % m, [i + (i * i * 7) % m for i in range(n)]
    yield 'zigzag', [i if i % 2 else n - i for i in range(n)]
    yield 'blocks', [i // 9 * 9 + 8 - i % 9 for i in range(n)]
    yield 'restart', list(range(2 * n // 5, n)) + [i // 2 for i in range(2 * n // 5)]
    yield 'late', ([50] * n + [1, 2, 3])[-n:]


def lis_big(ctx, n):
    for name, w in big_words(n):
        lis_word(ctx, w, False)


def lcs_big(ctx, n, m):
    """Long words: the length by the usual table."""
    f = lib('lcs').longest_common_subsequence
    for (na, a), (nb, b) in product(big_words(n), big_words(m)):
        ctx.case(na, nb, n, m)
        row = [0] * (m + 1)
        for x in a:
            new = [0]
            for j, y in enumerate(b):
                new.append(row[j] + 1 if x == y else max(row[j + 1], new[j]))
            row = new
        ctx.t += 1
        r = f(a, b)
        ctx.check(len(r) == row[m] and is_sub(r, a) and is_sub(r, b), 'common subsequence is', r, 'expected one of length', row[m])
        ctx.outcome(row[m])


def lis(ctx, s, n, i, k, plain):
    for w in shard(product(range(s), repeat=n), i, k):
        lis_word(ctx, w, plain)


def lis_perm(ctx, n, i, k):
    from itertools import permutations
    for w in shard(permutations(range(n)), i, k):
        lis_word(ctx, w, False)


def units(tier):
    q = tier == 'quick'
    U = []
    allf = [('tuple', 'tuple'), ('list', 'iter'), ('gen', 'list'), ('text', 'text'), ('opaque', 'opaque'), ('unhashable', 'unhashable'), ('mix', 'mix')]
    one = [('tuple', 'list')]
    for s, top, small in ((1, 6, 6), (2, 7 if q else 8, 4), (3, 5, 3), (4, 4, 2)):
        for n in range(0, top + 1):
            for m in range(0, top + 1):
                k = max(1, s ** (n + m) // 6000)
                for i in range(min(k, 8)):
                    U.append(('lcs%d:%d,%d-%d' % (s, n, m, i), lcs, dict(s=s, n=n, m=m, forms=allf if max(n, m) <= small else one, i=i, k=min(k, 8))))
    for s, top in ((1, 8), (2, 12), (3, 9), (4, 8 if q else 9), (5, 6 if q else 7), (6, 6)):
        for n in range(0, top + 1):
            k = max(1, min(8, s ** n // 8000))
            for i in range(k):
                U.append(('lis%d^%d-%d' % (s, n, i), lis, dict(s=s, n=n, i=i, k=k, plain=n <= 5)))
    for n in (15, 16, 17, 33, 64, 100, 300, 700):
        U.append(('lis-big%d' % n, lis_big, dict(n=n)))
    for n, m in ((20, 20), (33, 9), (9, 33), (100, 100), (2, 150), (150, 2), (130, 70)):
        U.append(('lcs-big%d,%d' % (n, m), lcs_big, dict(n=n, m=m)))
    for n in range(6, 9 if q else 10):
        for i in range(8):
            U.append(('perm%d-%d' % (n, i), lis_perm, dict(n=n, i=i, k=8)))
    return U
