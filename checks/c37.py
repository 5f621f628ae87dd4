"""C37 integer points by distance."""
from itertools import islice
from mc.core import lib

RULE = ('the first points of the listing up to radius 600 (quick) or 1500: every point inside the radius once, distances non-decreasing at every step; two listings '
        'advanced alternately')


def points(ctx, R):
    m = lib('integerpoints')
    # number of points at each squared distance
    count = {}
    for x in range(-R, R + 1):
        for y in range(-R, R + 1):
            d = x * x + y * y
            if d <= R * R:
                count[d] = count.get(d, 0) + 1
    it = m.IntegerPointsByDistance()
    for d in sorted(count):
        ctx.case(d)
        level = set()
        for _ in range(count[d]):
            ctx.t += 1
            p = next(it, None)
            if p is None or p[0] ** 2 + p[1] ** 2 != d or p in level:
                ctx.check(False, 'next point is', p, 'expected one of squared distance', d, 'other than', level)
            level.add(p)
        ctx.outcome(count[d])


def two(ctx, N, step):
    """Two listings advanced at different speeds."""
    m = lib('integerpoints')
    ctx.case(N, step)
    want = list(islice(m.IntegerPointsByDistance(), N))
    a, b = m.IntegerPointsByDistance(), m.IntegerPointsByDistance()
    A, B = [], []
    for i in range(N):
        ctx.t += 2
        A.append(next(a))
        if i % step == 0:
            B.append(next(b))
    key = lambda p: p[0] ** 2 + p[1] ** 2
    ctx.equal(list(map(key, A)), list(map(key, want)), 'distances')
    ctx.equal(list(map(key, B)), list(map(key, want[:len(B)])), 'distances of the slower listing')
    ctx.equal(len(set(A)), N, 'distinct points')


def units(tier):
    q = tier == 'quick'
    return [('points', points, dict(R=600 if q else 1500))] + [('two%d' % s, two, dict(N=2000, step=s)) for s in (1, 2, 5)]
