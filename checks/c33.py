"""C33 permutation listings."""
from itertools import permutations, islice
from mc.core import lib
from mc.gen import kind

RULE = ('n up to 9 (quick) or 10 for permutations, as a number and as items of several types and containers; double and Stirling permutations up to n=7/8; '
        'involutions up to n=13/14; the first 4000 of each listing for n up to 50; reference sets by recursive insertion or itertools')


def doubles(n):
    """Arrangements of pairs 0..n-1 whose first occurrences come in increasing order."""
    def rec(left, nxt, word):
        if len(word) == 2 * n:
            yield tuple(word)
            return
        for v in sorted(left):
            yield from rec(left - {v}, nxt, word + [v])
        if nxt < n:
            yield from rec(left | {nxt}, nxt + 1, word + [nxt])
    return set(rec(frozenset(), 0, []))


def stirlings(n):
    S = {()}
    for v in range(n):
        S = {w[:i] + (v, v) + w[i:] for w in S for i in range(len(w) + 1)}
    return S


def involutions(n):
    def rec(p, free):
        if not free:
            yield tuple(p)
            return
        a, rest = free[0], free[1:]
        yield from rec(p, rest)
        for k, b in enumerate(rest):
            p[a], p[b] = b, a
            yield from rec(p, rest[:k] + rest[k + 1:])
            p[a], p[b] = a, b
    return set(rec(list(range(n)), tuple(range(n))))


def listing(ctx, it, want, step=None):
    seen = set()
    prev = first = None
    for p in it:
        ctx.t += 1
        p = tuple(p)
        if p in seen:
            ctx.check(False, 'listed twice', p)
        if p not in want:
            ctx.check(False, 'listed', p, 'which is not of the kind')
        seen.add(p)
        if prev is None:
            first = p
        elif step and not step(prev, p):
            ctx.check(False, 'step from', prev, 'to', p)
        prev = p
    ctx.equal(len(seen), len(want), 'number listed')
    ctx.outcome(len(seen))
    return first, prev


def adjacent(p, q):
    d = [i for i in range(len(p)) if p[i] != q[i]]
    return len(d) == 2 and d[1] == d[0] + 1 and p[d[0]] == q[d[1]] and p[d[1]] == q[d[0]]


def perms(ctx, n, how):
    m = lib('permutations')
    ctx.case(n, how)
    if how == 'number':
        x, items = n, tuple(range(n))
    else:
        vk, cont = how
        f = kind(vk)
        items = tuple(f(i) for i in range(n))
        x = {'list': list, 'tuple': tuple, 'iter': iter, 'dict': dict.fromkeys, 'gen': lambda s: (y for y in s),
             'text': lambda s: 'abcdefghijkl'[:n]}[cont](items)
        if cont == 'text':
            items = tuple('abcdefghijkl'[:n])
    listing(ctx, m.SteinhausJohnsonTrotter(x), set(permutations(items)), adjacent)


def other(ctx, what, n):
    m = lib('permutations')
    ctx.case(what, n)
    if what == 'double':
        listing(ctx, m.DoubleSteinhausJohnsonTrotter(n), doubles(n), adjacent)
    elif what == 'stirling':
        listing(ctx, m.StirlingPermutations(n), stirlings(n))
    else:
        first, last = listing(ctx, m.Involutions(n), involutions(n))
        ctx.equal(first, tuple(range(n)), 'first involution')
        if n >= 2:
            ctx.equal(last, tuple(range(n - 2)) + (n - 1, n - 2), 'last involution')


def nested(p):
    """Is p a Stirling permutation: between equal values only larger ones?"""
    at = {}
    for i, v in enumerate(p):
        at.setdefault(v, []).append(i)
    return all(len(x) == 2 and all(p[j] > v for j in range(x[0] + 1, x[1])) for v, x in at.items())


def beginning(ctx, what, n, count):
    """The first part of a listing too long to finish: of the kind, without repetition, and not ending early."""
    m = lib('permutations')
    ctx.case('beginning', what, n)
    it = {'number': m.SteinhausJohnsonTrotter, 'double': m.DoubleSteinhausJohnsonTrotter, 'stirling': m.StirlingPermutations, 'involution': m.Involutions}[what](n)
    values = sorted(list(range(n)) * (2 if what in ('double', 'stirling') else 1))
    seen, prev = set(), None
    for p in islice(it, count):
        ctx.t += 1
        p = tuple(p)
        ctx.check(sorted(p) == values, 'values of', p)
        ctx.check(p not in seen, 'listed twice', p)
        seen.add(p)
        if what in ('number', 'double') and prev is not None:
            ctx.check(adjacent(prev, p), 'step from', prev, 'to', p)
        if what == 'double':
            ctx.check([v for i, v in enumerate(p) if v not in p[:i]] == list(range(n)), 'order of the first occurrences in', p)
        if what == 'stirling':
            ctx.check(nested(p), 'listed', p)
        if what == 'involution':
            ctx.check(all(p[p[i]] == i for i in range(n)), 'listed', p)
        prev = p
    ctx.equal(len(seen), count, 'number listed')


def units(tier):
    q = tier == 'quick'
    U = []
    for n in range(0, 10 if q else 11):
        U.append(('number%d' % n, perms, dict(n=n, how='number')))
        if n <= 7:
            for how in (('U', 'list'), ('mix', 'tuple'), ('int', 'iter'), ('str', 'dict'), ('tup', 'gen'), ('str', 'text'), ('neg', 'list')):
                U.append(('%s-%s%d' % (how + (n,)), perms, dict(n=n, how=how)))
    for n in range(0, 8 if q else 9):
        U.append(('double%d' % n, other, dict(what='double', n=n)))
        U.append(('stirling%d' % n, other, dict(what='stirling', n=n)))
    for what in ('number', 'double', 'stirling', 'involution'):
        for n in (11, 14, 15, 17, 24, 33, 50):
            if n > 14 or what != 'involution':
                U.append(('begin-%s%d' % (what, n), beginning, dict(what=what, n=n, count=4000 if q else 40000)))
    for n in range(0, 14 if q else 15):
        U.append(('involution%d' % n, other, dict(what='involution', n=n)))
    return U
