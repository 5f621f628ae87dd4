"""C39 totally monotone matrix search."""
from fractions import Fraction
from itertools import product
from mc.core import lib
from mc.gen import shard

RULE = ('every totally monotone matrix of each shape up to 4x4 with values 0..2 (0..1 for larger shapes up to 6x4 and 4x6), several labellings and index containers; every Monge '
        'matrix from a 0/1 density up to 4x4 (quick) or 4x5; larger Monge families up to 40x40; column scan as reference')


def monotone(r, c, vals, i=0, k=1):
    """Totally monotone matrices as tuples of rows, built column by column with pruning."""
    cols = list(product(range(vals), repeat=r))
    gt = {x: frozenset((a, b) for a in range(r) for b in range(a + 1, r) if x[a] > x[b]) for x in cols}

    def rec(done, need):
        if len(done) == c:
            yield done
            return
        for x in cols:
            if need <= gt[x]:
                yield from rec(done + (x,), gt[x])      # gt[x] contains every earlier requirement
    for x in shard(cols, i, k):
        yield from rec((x,), gt[x])


def labels(n, how):
    if how == 'range':
        return range(n)
    if how == 'list':
        return list(range(n))
    if how == 'tuple':
        return tuple(range(-2, 3 * n - 2, 3))
    if how == 'shift':
        return range(5, 5 + n)
    if how == 'squares':
        return [i * i - 3 for i in range(n)]


def search(ctx, cols, r, hows, val=None):
    """cols[j][i] is the entry in row i, column j."""
    f = lib('smawk').ConcaveMinima
    c = len(cols)
    for hr, hc in hows:
        R, C = labels(r, hr), labels(c, hc)
        ri, ci = {x: i for i, x in enumerate(R)}, {x: j for j, x in enumerate(C)}
        if val:
            M = lambda i, j: val(cols[ci[j]][ri[i]])
        else:
            M = lambda i, j: cols[ci[j]][ri[i]]
        ctx.t += 1
        got = f(R, C, M)
        ok = set(got) == set(C)
        if ok:
            for j in range(c):
                m = min(cols[j])
                v, i = got[C[j]]
                if v != (val(m) if val else m) or i != R[cols[j].index(m)]:
                    ok = False
        if not ok:
            ctx.check(False, 'minima are', got, 'for columns', cols)


def every(ctx, r, c, vals, i, k, hows, val=None):
    for cols in monotone(r, c, vals, i, k):
        ctx.case(cols)
        search(ctx, cols, r, hows, val and {'frac': lambda x: Fraction(x, 3), 'text': lambda x: 'abc'[x], 'float': lambda x: x * 0.1 if x < 2 else float('inf'),
                                            'neg': lambda x: x - 7, 'tuple': lambda x: (0, x)}[val])
        ctx.outcome(tuple(x.index(min(x)) for x in cols))


def monge_cols(r, c, dens, rows):
    """M(i,j) = rows[i] - (sum of density over a<=i, b<=j), plus nothing per column."""
    out = []
    for j in range(c):
        out.append(tuple(rows[i] - sum(dens[a][b] for a in range(1, i + 1) for b in range(j + 1)) for i in range(r)))
    return tuple(out)


def monge(ctx, r, c, i, k):
    cells = (r - 1) * c
    for m in shard(range(1 << cells), i, k):
        dens = [[0] * c] + [[m >> (a * c + b) & 1 for b in range(c)] for a in range(r - 1)]
        for slope in (0, 1, 2):
            cols = monge_cols(r, c, dens, [slope * a for a in range(r)])
            ctx.case(cols)
            search(ctx, cols, r, [('range', 'range')])
        ctx.outcome(tuple(x.index(min(x)) for x in cols))


def families(ctx, name):
    F = {'square': lambda i, j: (i - j) ** 2, 'scaled': lambda i, j: (3 * i - 2 * j) ** 2, 'far': lambda i, j: (i - 2 * j) ** 2, 'abs': lambda i, j: abs(i - j),
         'flat': lambda i, j: 0, 'column': lambda i, j: j * 7 % 5, 'row': lambda i, j: (i * 7) % 11, 'step': lambda i, j: (i // 3 - j // 4) ** 2, 'drop': lambda i, j: -i * j,
         'late': lambda i, j: (i - 39) ** 2 - (i * j) // 1, 'hinge': lambda i, j: max(0, i - j) + max(0, j - i) // 2 * 1, 'vhinge': lambda i, j: max(0, 2 * j - i) ** 2 + i}[name]
    for r, c in product((1, 2, 3, 5, 8, 13, 17, 40), repeat=2):
        cols = tuple(tuple(F(i, j) for i in range(r)) for j in range(c))
        bad = any(cols[j][a] > cols[j][b] and not cols[j2][a] > cols[j2][b] for a in range(r) for b in range(a + 1, r) for j in range(c) for j2 in (j + 1,) if j2 < c)
        if bad:
            ctx.outcome('skipped: not totally monotone')
            continue
        ctx.case(name, r, c)
        search(ctx, cols, r, [('range', 'range'), ('list', 'squares'), ('tuple', 'shift')])


def wide(ctx, name):
    """Matrices of up to 300 columns; the functions are Monge."""
    F = {'square': lambda i, j: (i - j) ** 2, 'scaled': lambda i, j: (3 * i - 2 * j) ** 2, 'slow': lambda i, j: (2 * i - 3 * j) ** 2, 'drop': lambda i, j: -i * j, 'flat': lambda i, j: 0,
         'step': lambda i, j: (i // 5 - j // 7) ** 2, 'lumpy': lambda i, j: (i * i // 50 - j) ** 2, 'early': lambda i, j: i, 'late': lambda i, j: -i}[name]
    for r, c in product((1, 5, 63, 64, 65, 130, 300), (1, 6, 63, 64, 65, 129, 130, 300)):
        cols = tuple(tuple(F(i, j) for i in range(r)) for j in range(c))
        # adjacent rows and columns suffice for the Monge condition, which implies total monotonicity
        ctx.check(all(cols[j][a] + cols[j + 1][a + 1] <= cols[j + 1][a] + cols[j][a + 1] for j in range(c - 1) for a in range(r - 1)), 'harness: not Monge', name)
        ctx.case(name, r, c)
        search(ctx, cols, r, [('range', 'range'), ('list', 'squares')])


def units(tier):
    q = tier == 'quick'
    hows = [('range', 'range'), ('list', 'tuple'), ('squares', 'list'), ('shift', 'squares')]
    U = []
    for r in range(1, 5):
        for c in range(0, 5):
            if c == 0:
                continue
            k = 1 if r * c < 9 else 8
            v = 3 if r * c <= 16 else 2
            if r == 4 and c >= 3 and q and c == 4:
                v = 3
            for i in range(k):
                U.append(('%dx%d:%d-%d' % (r, c, v, i), every, dict(r=r, c=c, vals=v, i=i, k=k, hows=hows if r * c < 12 else hows[:2])))
    for r, c, v in ((5, 3, 2), (6, 3, 2), (6, 4, 2), (3, 6, 2), (4, 6, 2), (5, 5, 2), (7, 2, 2), (2, 7, 2), (2, 6, 3), (3, 5, 3), (5, 2, 3), (2, 4, 4), (3, 3, 4)) + \
            (() if q else ((4, 5, 3), (5, 3, 3), (5, 4, 3), (7, 4, 2), (4, 8, 2), (3, 4, 4))):
        for i in range(8):
            U.append(('%dx%d:%d-%d' % (r, c, v, i), every, dict(r=r, c=c, vals=v, i=i, k=8, hows=hows[:2])))
    for val in ('frac', 'text', 'float', 'neg', 'tuple'):
        U.append(('val-' + val, every, dict(r=3, c=3, vals=3, i=0, k=1, hows=hows[:1], val=val)))
    for i in range(8):
        U.append(('monge44-%d' % i, monge, dict(r=4, c=4, i=i, k=8)))
        U.append(('monge35-%d' % i, monge, dict(r=3, c=5, i=i, k=8)))
        if not q:
            U.append(('monge45-%d' % i, monge, dict(r=4, c=5, i=i, k=8)))
    for n in ('square', 'scaled', 'slow', 'drop', 'flat', 'step', 'lumpy', 'early', 'late'):
        U.append(('wide-' + n, wide, dict(name=n)))
    for n in ('square', 'scaled', 'far', 'abs', 'flat', 'column', 'row', 'step', 'drop', 'late', 'hinge', 'vhinge'):
        U.append(('family-' + n, families, dict(name=n)))
    return U
