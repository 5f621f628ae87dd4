"""C34 Lyndon word generation."""
from itertools import product, islice
from mc.core import lib

RULE = ('every (alphabet size s, length n) with s^n up to 20000 (quick) or 300000, against a brute-force scan of all words; de Bruijn sequences additionally against the '
        'lexicographically first Euler tour; the first 4000 words for lengths up to 64 against a walk of the tree of prefixes; counts for s<=12, n<=120 by the divisor identity')


def lyndon(w):
    return all(w < w[i:] + w[:i] for i in range(1, len(w)))


def listing(ctx, s, n):
    m = lib('lyndon')
    ctx.case(s, n)
    by = [[w for w in product(range(s), repeat=k) if lyndon(w)] for k in range(n + 1)]
    want = sorted(w for k in range(1, n + 1) for w in by[k])
    if n:
        got = []
        for w in m.LengthLimitedLyndonWords(s, n):
            ctx.t += 1
            got.append(tuple(w))
            if len(got) > len(want):
                break
        ctx.check(got == want, 'length limited listing', got[:50], 'expected', want[:50])
    for k in range(n + 1):
        got = [tuple(w) for w in islice(m.LyndonWordsWithLength(s, k), len(by[k]) + 1)]
        ctx.t += len(got) + 1
        ctx.check(got == by[k], 'words of length', k, got[:50], 'expected', by[k][:50])
        ctx.equal(m.CountLyndonWords(s, k), len(by[k]), 'count for length', k)
    flat = [w for k in range(n + 1) for w in by[k]]
    got = [tuple(w) for w in islice(m.LyndonWords(s), len(flat))]
    ctx.t += len(got)
    ctx.check(got == flat, 'listing of all lengths', got[:50], 'expected', flat[:50])
    ctx.outcome(len(flat))


def first_tour(s, n):
    """Lexicographically least de Bruijn sequence: greedy Euler tour with a look-ahead for completability."""
    N = s ** (n - 1)
    used = set()
    out = []
    node = 0

    def completable(v, target):
        # unused edges must all be reachable from v (degrees are balanced by construction)
        left = s * N - len(used)
        if not left:
            return v == target
        seen, todo, edges = {v}, [v], 0
        while todo:
            x = todo.pop()
            for c in range(s):
                if (x, c) not in used:
                    edges += 1
                    y = (x * s + c) % N
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
        return edges == left
    # the least sequence starts with n zeros; the tour then starts at node 0 with edge 0 taken first
    for step in range(s * N):
        for c in range(s):
            if (node, c) in used:
                continue
            used.add((node, c))
            nxt = (node * s + c) % N
            if completable(nxt, 0):
                out.append(c)
                node = nxt
                break
            used.discard((node, c))
    # the tour began in node 0^(n-1) so the sequence read so far is preceded by zeros: rotate to the least rotation
    return min(out[i:] + out[:i] for i in range(len(out)))


def bruijn(ctx, s, n, tour):
    m = lib('lyndon')
    ctx.case(s, n)
    ctx.t += 1
    D = list(m.DeBruijnSequence(s, n))
    ctx.equal(len(D), s ** n, 'length')
    W = {tuple(D[(i + j) % len(D)] for j in range(n)) for i in range(len(D))}
    ctx.check(len(W) == s ** n and all(0 <= c < s for c in D), 'words of', D)
    if tour:
        ctx.equal(D, first_tour(s, n), 'sequence')
    ctx.outcome(len(D))


def small_bruijn(ctx, s, n):
    """Try every cyclic sequence: the least one is the answer."""
    m = lib('lyndon')
    ctx.case(s, n)
    for D in product(range(s), repeat=s ** n):
        if len({tuple(D[(i + j) % len(D)] for j in range(n)) for i in range(len(D))}) == s ** n:
            break
    ctx.t += 1
    ctx.equal(list(m.DeBruijnSequence(s, n)), list(D), 'sequence')


def counts(ctx, smax, nmax):
    m = lib('lyndon')
    for s in range(1, smax + 1):
        for n in range(1, nmax + 1):
            ctx.case(s, n)
            ctx.t += 1
            tot = sum(d * m.CountLyndonWords(s, d) for d in range(1, n + 1) if n % d == 0)
            ctx.equal(tot, s ** n, 'sum over divisors of length times count')


def trie(s, n):
    """Lyndon words of length up to n in lexicographic order, by walking all words that can start one."""
    stack = [(c,) for c in range(s - 1, -1, -1)]
    while stack:
        w = stack.pop()
        if any(w[:len(w) - i] > w[i:] for i in range(1, len(w))):
            continue
        if lyndon(w):
            yield w
        if len(w) < n:
            stack += [w + (c,) for c in range(s - 1, -1, -1)]


def far(ctx, s, n, count):
    """The beginning of the listings for longer words."""
    m = lib('lyndon')
    ctx.case(s, n, count)
    want = list(islice(trie(s, n), count))
    got = [tuple(w) for w in islice(m.LengthLimitedLyndonWords(s, n), count)]
    ctx.t += len(got)
    for x, y in zip(got, want):
        ctx.equal(x, y, 'word of the length limited listing')
    ctx.equal(len(got), len(want), 'number of words listed')
    got = [tuple(w) for w in islice(m.LyndonWordsWithLength(s, n), 40)]
    ctx.check(got == [w for w in want if len(w) == n][:40], 'words of length', n, got)
    ctx.outcome(len(want))


def units(tier):
    q = tier == 'quick'
    cap = 20000 if q else 300000
    U = [('counts', counts, dict(smax=12, nmax=120))]
    for s in range(1, 151):
        n = 0
        while n <= 12 if s == 1 else s ** n <= cap:
            if s <= 12 or s % 16 < 2:
                if s ** (n + 1) > cap or (s == 1 and n == 12) or s <= 3:
                    U.append(('list%d,%d' % (s, n), listing, dict(s=s, n=n)))
                if n:
                    U.append(('bruijn%d,%d' % (s, n), bruijn, dict(s=s, n=n, tour=s ** n <= 800)))
            n += 1
    for s, n in ((2, 15), (2, 16), (2, 17), (2, 24), (2, 33), (2, 64), (3, 12), (3, 20), (3, 40), (5, 17), (10, 10), (26, 8), (26, 20)):
        U.append(('far%d,%d' % (s, n), far, dict(s=s, n=n, count=20000 if n == 16 or n == 17 else 4000)))
    for s, n in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2)):
        U.append(('least%d,%d' % (s, n), small_bruijn, dict(s=s, n=n)))
    return U
