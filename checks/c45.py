"""C45 circle packing."""
from cmath import phase
from itertools import permutations, product
from math import pi
from mc.core import lib
from mc.gen import kind, shard

RULE = ('every chord-free triangulated disk with boundary 3..6 and up to 3 interior circles (up to 5 for boundary 3, 4 for boundary 4 and 5; one more in the thorough tier), by closing under flips, with every assignment of two boundary radii, all starting '
        'circles and both orientations; every patch of the regular packing with up to 4 interior circles, one rim circle changed and all orders; inversion about a grid of centres, normalization of every circle, optimized inversion around every circle against an independent grid search')

EPS = 1e-6


# ------------------------------------------------------------------ triangulated disks

def start(b, i):
    """One triangulation of a b-gon (vertices 0..b-1 clockwise) with i interior vertices, as oriented triangles."""
    T = {(0, k, k + 1) for k in range(1, b - 1)}
    for v in range(b, b + i):
        x, y, z = t = sorted(T)[0]
        T = (T - {t}) | {(x, y, v), (y, z, v), (z, x, v)}
    return frozenset(norm(t) for t in T)


def norm(t):
    k = t.index(min(t))
    return t[k:] + t[:k]


def flips(T):
    at = {}
    for x, y, z in T:
        at[x, y], at[y, z], at[z, x] = z, x, y
    E = {frozenset(e) for e in at}
    for (u, v), w in at.items():
        if u < v and (v, u) in at:
            x = at[v, u]
            if frozenset((w, x)) not in E:
                yield frozenset((T - {norm((u, v, w)), norm((v, u, x))}) | {norm((x, v, w)), norm((u, x, w))})


def canon(T, b, i):
    best = None
    for r in range(b):
        rot = {v: (v + r) % b for v in range(b)}
        for p in permutations(range(b, b + i)):
            m = dict(rot)
            m.update(zip(range(b, b + i), p))
            c = tuple(sorted(norm((m[x], m[y], m[z])) for x, y, z in T))
            if best is None or c < best:
                best = c
    return best


def disks(b, i):
    """Chord-free triangulated disks up to rotation, by flips (all triangulations are connected by flips through those with chords)."""
    s = start(b, i)
    seen, todo, out = {canon(s, b, i)}, [s], []
    for T in todo:
        for F in flips(T):
            c = canon(F, b, i)
            if c not in seen:
                seen.add(c)
                todo.append(F)
    for c in sorted(seen):
        E = {frozenset(e) for t in c for e in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))}
        if all(not (max(e) < b) or (max(e) - min(e)) in (1, b - 1) for e in map(tuple, E)):
            out.append(c)
    return out


def links(T, b, i):
    """Cyclic order of neighbours around each interior vertex."""
    nxt = {}
    for x, y, z in T:
        for p, q, r in ((x, y, z), (y, z, x), (z, x, y)):
            nxt.setdefault(p, {})[q] = r
    out = {}
    for v in range(b, b + i):
        s = min(nxt[v])
        cyc, w = [s], nxt[v][s]
        while w != s:
            cyc.append(w)
            w = nxt[v][w]
        out[v] = cyc
    return out


# ------------------------------------------------------------------ verification

def touching(a, b):
    """0 for outer tangency, 1 for inner, None otherwise (relative tolerance)."""
    d = abs(a[0] - b[0])
    tol = EPS * max(a[1], b[1], d)
    if abs(d - (a[1] + b[1])) < tol:
        return 0
    if abs(d - abs(a[1] - b[1])) < tol:
        return 1


def edges(link):
    E = set()
    for v, cyc in link.items():
        for k in range(len(cyc)):
            E.add(frozenset((v, cyc[k])))
            E.add(frozenset((cyc[k - 1], cyc[k])))
    return [tuple(e) for e in E]


def packing(ctx, link, radii):
    m = lib('circle_pack')
    ctx.t += 1
    P = m.circle_pack(link, radii)
    ctx.equal(set(P), set(link) | set(radii), 'circles')
    for k, r in radii.items():
        if abs(P[k][1] - r) > 1e-9 * r:
            ctx.check(False, 'radius of', k, 'is', P[k][1], 'expected', r)
    for k, (z, r) in P.items():
        ctx.check(r > 0, 'radius of', k, 'is', r)
    for u, v in edges(link):
        if touching(P[u], P[v]) != 0:
            ctx.check(False, 'circles', u, v, 'not tangent:', P[u], P[v])
    turn = set()
    for v, cyc in link.items():
        tot = 0
        for k in range(len(cyc)):
            a = phase((P[cyc[k]][0] - P[v][0]) / (P[cyc[k - 1]][0] - P[v][0]))
            turn.add(a > 0)
            tot += a
        if abs(abs(tot) - 2 * pi) > 1e-5:
            ctx.check(False, 'neighbours of', v, 'turn by', tot)
    ctx.equal(len(turn), 1, 'directions of turning')
    return P


def table(ctx, b, i, vals, names, i0, k0, orient=True):
    D = disks(b, i)
    f = kind(names)
    for T in shard(D, i0, k0):
        L = links(T, b, i)
        for rad in product(vals, repeat=b):
            ctx.case(T, rad)
            link = {f(v): [f(w) for w in c] for v, c in L.items()}
            radii = {f(v): rad[v] for v in range(b)}
            P = packing(ctx, link, radii)
            ctx.outcome(round(sum(r for z, r in P.values()), 3))
        if not orient:
            continue
        # other orientation, starting points of the cycles, order of the dictionary, containers
        for rot in range(1, 3):
            link = {f(v): tuple(f(w) for w in (c[rot:] + c[:rot])[::-1]) for v, c in reversed(list(L.items()))}
            ctx.case(T, 'reversed', rot)
            packing(ctx, link, radii)


def same_circle(a, b):
    return abs(a[0] - b[0]) < EPS * max(1, abs(a[0]), a[1]) and abs(a[1] - b[1]) < EPS * max(1, a[1])


def image(c, q):
    """Image of a circle under z -> 1/(z-q), from three of its points."""
    z, r = c
    p = [1 / (z + r * w - q) for w in (1, -0.6 + 0.8j, -0.28 - 0.96j)]
    (a, b, d) = p
    # circumcentre
    bx, dx = b - a, d - a
    D = 2 * (bx.real * dx.imag - bx.imag * dx.real)
    ux = (dx.imag * abs(bx) ** 2 - bx.imag * abs(dx) ** 2) / D
    uy = (bx.real * abs(dx) ** 2 - dx.real * abs(bx) ** 2) / D
    return a + complex(ux, uy), abs(complex(ux, uy))


def operations(ctx, b, i, i0, k0):
    m = lib('circle_pack')
    for T in shard(disks(b, i), i0, k0):
        link = links(T, b, i)
        rad = {v: (1, 2, 0.7)[v % 3] for v in range(b)}
        ctx.case(T)
        P = packing(ctx, link, rad)
        keep = dict(P)
        E = edges(link)
        zs = [z for z, r in P.values()]
        lo, hi = min(z.real for z in zs) - 2, max(z.real for z in zs) + 2
        lo2, hi2 = min(z.imag for z in zs) - 2, max(z.imag for z in zs) + 2
        for gx in range(6):
            for gy in range(6):
                q = complex(lo + (hi - lo) * (gx + .37) / 6, lo2 + (hi2 - lo2) * (gy + .41) / 6)
                if any(abs(abs(z - q) - r) < 0.02 for z, r in P.values()):
                    continue
                ctx.case(T, q)
                ctx.t += 1
                I = m.InvertPacking(P, q)
                ctx.equal(set(I), set(P), 'inverted circles')
                for k in P:
                    if not same_circle(I[k], image(P[k], q)):
                        ctx.check(False, 'inverse of', k, P[k], 'about', q, 'is', I[k], 'expected', image(P[k], q))
                for u, v in E:
                    if touching(I[u], I[v]) is None:
                        ctx.check(False, 'tangency of', u, v, 'lost by inversion about', q)
        for q in zs:            # centres of circles
            ctx.t += 1
            I = m.InvertPacking(P, q)
            for k in P:
                if not same_circle(I[k], image(P[k], q)):
                    ctx.check(False, 'inverse of', k, P[k], 'about', q, 'is', I[k], 'expected', image(P[k], q))
        for k in [None] + list(P):
            for target in (None, 1.0, 3):
                ctx.t += 1
                N = m.NormalizePacking(P, k) if target is None else m.NormalizePacking(P, k, target)
                s = (target or 1.0) / (P[k][1] if k is not None else min(r for z, r in P.values()))
                for x in P:
                    if not same_circle(N[x], (P[x][0] * s, P[x][1] * s)):
                        ctx.check(False, 'normalized', x, 'is', N[x])
        ctx.t += 1
        ctx.equal(m.NormalizePacking(P), m.NormalizePacking(P, None), 'default normalization')
        ctx.equal(P, keep, 'packing passed in')


def around(ctx, b, i, i0, k0, ks):
    m = lib('circle_pack')
    for T in shard(disks(b, i), i0, k0):
        link = links(T, b, i)
        P = packing(ctx, link, {v: 1 for v in range(b)})
        if any(abs(P[u][0] - P[v][0]) < P[u][1] + P[v][1] - 1e-6 for u in P for v in P if u < v):
            ctx.outcome('overlapping')
            continue
        E = edges(link)
        for k in list(P)[::ks]:
            for small in (None, list(link), [x for x in P if x != k][:2], [k] + list(P)[-3:], [x for x in P if x != k]):
                if small and len(set(small) - {k}) < 2:
                    continue            # a single circle touching k can grow without a maximum
                ctx.case(T, k, small)
                ctx.t += 1
                I = m.InvertAround(P, k) if small is None else m.InvertAround(P, k, small)
                ctx.equal(set(I), set(P), 'circles')
                Z, R = I[k]
                for x in P:
                    if x != k and abs(I[x][0] - Z) + I[x][1] > R * (1 + EPS):
                        ctx.check(False, 'circle', x, 'not inside', k, I)
                for u, v in E:
                    t = touching(I[u], I[v])
                    if t != (1 if k in (u, v) else 0):
                        ctx.check(False, 'tangency of', u, v, 'lost')
                # no grid point does better
                opt = [x for x in (small or P) if x != k] or [k]
                val = min(I[x][1] for x in opt) / R
                z, r = P[k]
                for gx in range(-7, 8):
                    for gy in range(-7, 8):
                        q = z + r * complex(gx, gy) / 7.5
                        if abs(q - z) >= 0.97 * r:
                            continue
                        o = {x: image(P[x], q)[1] for x in opt + [k]}
                        if min(o[x] for x in opt) / o[k] > val * (1 + 1e-4):
                            ctx.check(False, 'inversion around', k, 'reaches', val, 'but centre', q, 'gives', min(o[x] for x in opt) / o[k])
                ctx.outcome('ok')


def refused(ctx):
    m = lib('circle_pack')
    for I, X in (({0: [1, 2, 3]}, {1: 1, 2: 1, 3: 0}), ({0: [1, 2, 3]}, {1: 1, 2: -1, 3: 1}), ({0: [1, 2, 3]}, {0: 1, 1: 1, 2: 1, 3: 1})):
        ctx.case(I, X)
        ctx.raises(ValueError, m.circle_pack, I, X)


def wheels(ctx):
    """One interior circle with many neighbours, and exact values."""
    for n in range(3, 25):
        for vals in ((1,), (1, 2), (1, 1, 5), (0.001, 1), (1000, 1)):
            link = {'c': ['r%d' % j for j in range(n)]}
            ctx.case(n, vals)
            P = packing(ctx, link, {'r%d' % j: vals[j % len(vals)] for j in range(n)})
    from math import sin
    for n in range(3, 25):
        P = packing(ctx, {'c': list(range(n))}, {j: 1.0 for j in range(n)})
        want = 1 / sin(pi / n) - 1
        ctx.check(abs(P['c'][1] - want) < 1e-6, 'radius of the hub of', n, 'unit circles is', P['c'][1])
    # layered triangulated hexagonal patches
    for layers in (2, 3, 4, 5):
        pts = [(x, y) for x in range(-layers, layers + 1) for y in range(-layers, layers + 1) if abs(x + y) <= layers]
        dirs = [(1, 0), (0, 1), (-1, 1), (-1, 0), (0, -1), (1, -1)]
        inner = [p for p in pts if max(abs(p[0]), abs(p[1]), abs(p[0] + p[1])) < layers]
        link = {p: [(p[0] + d[0], p[1] + d[1]) for d in dirs] for p in inner}
        rim = [p for p in pts if p not in link]
        for r in ((1,), (1, 2), (3, 1, 1)):
            ctx.case('hex', layers, r)
            P = packing(ctx, link, {p: r[j % len(r)] for j, p in enumerate(rim)})
            if r == (1,):
                ctx.check(all(abs(x[1] - 1) < 1e-6 for x in P.values()), 'radii of the regular packing', P)


DIRS = [(1, 0), (0, 1), (-1, 1), (-1, 0), (0, -1), (1, -1)]


def shapes(m):
    """Connected sets of m points of the triangular lattice, up to translation, whose neighbourhood is a disk without chords."""
    out = {((0, 0),)}
    for _ in range(m - 1):
        grown = set()
        for S in out:
            for p in S:
                for d in DIRS:
                    x = (p[0] + d[0], p[1] + d[1])
                    if x not in S:
                        T = sorted(S + (x,))
                        grown.add(tuple((a - T[0][0], b - T[0][1]) for a, b in T))
        out = grown
    for S in sorted(out):
        rim = {(p[0] + d[0], p[1] + d[1]) for p in S for d in DIRS} - set(S)
        # the rim is one cycle: every rim point has exactly two neighbours in it
        if all(sum((p[0] + d[0], p[1] + d[1]) in rim for d in DIRS) == 2 for p in rim):
            yield S, sorted(rim)


def lattice(ctx, m, vals, i0, k0):
    """Patches of the regular packing with one circle of the rim changed: most circles start at their final size."""
    for S, rim in shard(shapes(m), i0, k0):
        for odd in rim:
            for val in vals:
                for order in permutations(S):
                    ctx.case(S, odd, val, order)
                    packing(ctx, {p: [(p[0] + d[0], p[1] + d[1]) for d in DIRS] for p in order}, {p: val if p == odd else 1 for p in rim})


def units(tier):
    q = tier == 'quick'
    U = [('refused', refused, {}), ('wheels', wheels, {})]
    for b, i, vals in ((3, 1, (1, 2, 0.3)), (4, 1, (1, 2, 0.3)), (5, 1, (1, 3)), (6, 1, (1, 3)), (7, 1, (1, 3)), (3, 2, (1, 3)), (4, 2, (1, 3)), (5, 2, (1, 3)), (6, 2, (1, 2)), (3, 3, (1, 3)), (4, 3, (1, 3)), (5, 3, (1, 2)),
                       (3, 4, (1, 3)), (4, 4, (1, 2)), (6, 3, (1, 2)), (3, 5, (1, 2)), (5, 4, (1, 2))) + (() if q else ((6, 4, (1,)), (4, 5, (1, 2)))):
        k = 1 if i < 3 else 8
        for j in range(k):
            U.append(('disk%d,%d-%d' % (b, i, j), table, dict(b=b, i=i, vals=vals, names=('int', 'U', 'mix', 'str')[(b + i) % 4], i0=j, k0=k)))
    for m in (1, 2, 3):
        U.append(('lattice%d' % m, lattice, dict(m=m, vals=(2, 0.5), i0=0, k0=1)))
    for j in range(8):
        U.append(('lattice4-%d' % j, lattice, dict(m=4, vals=(2,), i0=j, k0=8)))
    for b, i in ((3, 1), (4, 1), (3, 2), (4, 2), (5, 2), (3, 3), (4, 3)) + (() if q else ((5, 3), (3, 4))):
        for j in range(4):
            U.append(('ops%d,%d-%d' % (b, i, j), operations, dict(b=b, i=i, i0=j, k0=4)))
    for b, i in ((3, 1), (4, 1), (3, 2), (4, 2), (5, 1), (5, 2), (3, 3)) + (() if q else ((4, 3), (6, 2))):
        for j in range(2):
            U.append(('around%d,%d-%d' % (b, i, j), around, dict(b=b, i=i, i0=j, k0=2, ks=1)))
    return U
