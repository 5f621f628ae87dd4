"""C40 online concave minima."""
from fractions import Fraction
from itertools import product, permutations
from mc.core import lib
from mc.gen import shard

RULE = ('every totally monotone triangular cost table with N columns (N=4 values 0..2, N=5 values 0..1, quick; N=5 values 0..2 thorough), every Monge table from 0/1 densities at N=6, both as plain costs and as '
        'recurrences on earlier values; every request order for small N; larger families up to N=260, tables where one late row takes over at every place; guard against asking for rows not yet known')


def tables(N, vals, i=0, k=1):
    """t[j][i], 0<=i<j<=N: totally monotone where both rows are defined."""
    def ok(cols, new):
        # i<i', j<j': M(i,j) > M(i',j) => M(i,j') > M(i',j')
        for old in cols:
            for b in range(len(old)):
                for a in range(b):
                    if old[a] > old[b] and not new[a] > new[b]:
                        return False
        return True

    def rec(cols):
        j = len(cols) + 1
        if j > N:
            yield tuple(cols)
            return
        for new in product(range(vals), repeat=j):
            if ok(cols, new):
                yield from rec(cols + [new])
    n = 0
    for first in product(range(vals), repeat=1):
        for second in product(range(vals), repeat=2):
            for third in product(range(vals), repeat=3):
                if ok([first], second) and ok([first, second], third):
                    n += 1
                    if n % k == i:
                        yield from rec([first, second, third])


def ask(ctx, N, w, recur, requests, initial=0, conv=None):
    """w(i,j) static cost; recur adds the value of row i."""
    smawk = lib('smawk')
    val = [initial]
    for j in range(1, N + 1):
        val.append(min((val[i] if recur else 0) + w(i, j) for i in range(j)))
    depth = [0]
    obj = []

    def M(i, j):
        ctx.t += 1
        if depth[0]:
            ctx.check(False, 'entry', (i, j), 'requested while the value of an earlier row was being looked up')
        if not 0 <= i < j:
            ctx.check(False, 'entry', (i, j), 'requested')
        depth[0] += 1
        v = obj[0].value(i)
        depth[0] -= 1
        if j > N:
            return -i
        if v != val[i]:
            ctx.check(False, 'value of', i, 'seen as', v, 'by the cost function, expected', val[i])
        return (v if recur else 0) + w(i, j)
    o = smawk.OnlineConcaveMinima(M, initial)
    obj.append(o)
    for what, j in requests:
        ctx.t += 1
        if what == 'v':
            g = o.value(j)
            if g != val[j]:
                ctx.check(False, 'value of', j, 'is', g, 'expected', val[j], 'requests', requests)
        elif what == 'i':
            g = o.index(j)
            if j and (not isinstance(g, int) or not 0 <= g < j or (val[g] if recur else 0) + w(g, j) != val[j]):
                ctx.check(False, 'index of', j, 'is', g, 'which does not attain', val[j], 'requests', requests)
            if not j and g is not None:
                ctx.check(False, 'index of 0 is', g)
        else:
            it = iter(o)
            for x in range(j + 1):
                v, g = next(it)
                if v != val[x] or (x and (val[g] if recur else 0) + w(g, x) != val[x]):
                    ctx.check(False, 'pair', x, 'of the iteration is', (v, g), 'expected value', val[x])
    ctx.outcome(val[-1])


def REQ(N):
    full = [x for j in range(N + 1) for x in (('v', j), ('i', j))]
    return [full, full[::-1], [('i', N)] + full, [('it', N), ('v', N), ('it', N)]]


def every(ctx, N, vals, i, k, nreq):
    for t in tables(N, vals, i, k):
        ctx.case(t)
        w = lambda a, b: t[b - 1][a]
        for rq in REQ(N)[:nreq]:
            ask(ctx, N, w, False, rq)


def orders(ctx, N, vals, i, k):
    """Every order of requesting the values, on every table."""
    P = list(permutations(range(N + 1)))
    for t in tables(N, vals, i, k):
        ctx.case(t)
        w = lambda a, b: t[b - 1][a]
        for p in P:
            ask(ctx, N, w, False, [('vi'[(a + p[0]) % 2], a) for a in p])
            ask(ctx, N, w, False, [('iv'[(a + p[0]) % 2], a) for a in p])


def monge(ctx, N, i, k, scale):
    """w(i,j) = r*i + c*j + sum of density over the cells between i and j (convex in the span): Monge."""
    cells = [(a, b) for b in range(2, N + 1) for a in range(1, b)]
    for m in shard(range(1 << len(cells)), i, k):
        d = {c for x, c in enumerate(cells) if m >> x & 1}
        # W(i,j) = #cells (a,b) with i < a and b <= j  -> supermodular the right way round
        W = {(a, b): sum(1 for (x, y) in d if x > a and y <= b) for b in range(1, N + 1) for a in range(b)}
        for r in scale:
            w = lambda a, b: W[a, b] + r
            ctx.case(m, r)
            ask(ctx, N, w, True, REQ(N)[0])
            ask(ctx, N, lambda a, b: W[a, b] - r * a, False, REQ(N)[2])


def family(ctx, name, N, only=None):
    F = {'square': lambda i, j: (j - i - 3) ** 2, 'far': lambda i, j: (j - i - 11) ** 2, 'lin': lambda i, j: j - i, 'one': lambda i, j: 1, 'zero': lambda i, j: 0, 'setup': lambda i, j: 5 + (j - i) ** 2,
         'slack': lambda i, j: max(0, j - i - 4) * 100 + (max(0, 4 - (j - i))) ** 2, 'lumpy': lambda i, j: (j * j // 3 - i * i // 3 - 9) ** 2, 'neg': lambda i, j: -((j - i) == 1) * 0 - 2 * i,
         'frac': lambda i, j: Fraction((j - i - 3) ** 2, 7), 'float': lambda i, j: (j - i - 2.5) ** 2}[name]
    for n in only or range(1, N + 1):
        # F must be monge on the triangle
        bad = any(F(a, j) + F(a + 1, j + 1) > F(a, j + 1) + F(a + 1, j) for j in range(2, n) for a in range(j - 1))
        if bad:
            ctx.check(False, 'harness: family is not Monge', name)
        ctx.case(name, n)
        for rq in REQ(n):
            ask(ctx, n, F, True, rq)
            ask(ctx, n, F, True, rq, initial=-3)
        ask(ctx, n, lambda i, j: F(i, j), False, REQ(n)[0])


def switches(ctx, N, step):
    """A good row 0, then one row p that becomes the best at column x; every other row is dear.  With (j-i)^2 added the table is Monge."""
    for p in range(1, N - 1, step):
        for x in sorted({p + 1, p + 2, p + p // 2 + 1, 2 * p - 1, 2 * p, 2 * p + 1, 2 * p + 2, (p + N) // 2, N - 1, N}):
            if not p < x <= N:
                continue
            c = x * x - (x - p) ** 2 - 1
            for dear in (c + 1, 4 * N * N):
                ctx.case(N, p, x, dear)
                C = [0] + [dear] * N
                C[p] = c
                ask(ctx, N, lambda i, j: C[i] + (j - i) ** 2, False, REQ(N)[0])


def units(tier):
    q = tier == 'quick'
    U = [('switch%d' % n, switches, dict(N=n, step=a)) for n, a in ((12, 1), (30, 1), (70, 3 if q else 1), (150, 16 if q else 3), (270, 43 if q else 8))]
    for i in range(8):
        U.append(('t3-%d' % i, every, dict(N=3, vals=3, i=i, k=8, nreq=4)))
        U.append(('t4-%d' % i, every, dict(N=4, vals=3, i=i, k=8, nreq=2)))
        U.append(('t5b-%d' % i, every, dict(N=5, vals=2, i=i, k=8, nreq=4)))
        U.append(('t6b-%d' % i, every, dict(N=6, vals=2, i=i, k=8, nreq=1)))
        U.append(('orders3-%d' % i, orders, dict(N=3, vals=3, i=i, k=8)))
        U.append(('orders4-%d' % i, orders, dict(N=4, vals=2, i=i, k=8)))
        U.append(('monge5-%d' % i, monge, dict(N=5, i=i, k=8, scale=(0, 1, 2, 3))))
        U.append(('monge6-%d' % i, monge, dict(N=6, i=i, k=8, scale=(1, 2) if q else (0, 1, 2, 3, 5))))
        if not q:
            U.append(('t5-%d' % i, every, dict(N=5, vals=3, i=i, k=8, nreq=1)))
    for n in ('square', 'far', 'setup', 'slack', 'lumpy', 'one', 'neg'):
        U.append(('long-' + n, family, dict(name=n, N=0, only=[64, 65, 131, 260])))
    for n in ('square', 'far', 'lin', 'one', 'zero', 'setup', 'slack', 'lumpy', 'neg', 'frac', 'float'):
        U.append(('family-' + n, family, dict(name=n, N=40 if q else 80)))
    return U
