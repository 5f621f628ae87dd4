"""C06 order-maintenance sequences."""
from itertools import product
from mc.core import lib
from mc.explore import explore
from mc.gen import kind

RULE = ('explicit-state search over edit histories from the empty sequence and from states one step before a renumbering; '
        'plus every periodic insertion pattern up to a few hundred insertions; all pairs of items compared in every state')


class Item:
    __hash__ = None

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'I%d' % self.i


class SmallSys:
    """Stand-in for the sys module of ordered_sequence with a smaller largest integer."""

    def __init__(self, m):
        import sys
        self.maxsize = m
        self.version_info = sys.version_info


def cls(name):
    return getattr(lib('ordered_sequence'), name + 'OrderedSequence')


def pairs_ok(ctx, s, L, item):
    n = len(L)
    for i in range(n):
        for j in range(n):
            c = s.cmp(item(L[i]), item(L[j]))
            if not ((c < 0) == (i < j) and (c > 0) == (i > j)):
                ctx.check(False, 'cmp of item', L[i], 'and item', L[j], 'is', c, 'in the sequence', L)
    ctx.t += n * n


def histories(ctx, which, keyed, n, depth, prefix=(), maxsize=None, near=None):
    if maxsize:
        lib('ordered_sequence').sys = SmallSys(maxsize)
    C = cls(which)
    if keyed == 'key':
        pool = [Item(i) for i in range(200)]
        mk = lambda init=(): C([pool[i] for i in init], key=lambda b: b.i)
    elif keyed == 'idkey':
        pool = [Item(i) for i in range(200)]
        mk = lambda init=(): C([pool[i] for i in init], key=id)
    else:
        vk = kind(keyed)
        pool = [vk(i) for i in range(200 if keyed != 'mix' else 8)]
        mk = lambda init=(): C([pool[i] for i in init])
    item = lambda i: pool[i]
    back = {id(p): i for i, p in enumerate(pool)}
    eq = {p: i for i, p in enumerate(pool)} if keyed not in ('key', 'idkey') else None
    num = (lambda x: back[id(x)]) if eq is None else (lambda x: eq[x])

    class W:
        pass

    def new():
        w = W()
        w.s = mk()
        return w, ()

    def ops(L):
        if near is None:
            fresh = [i for i in range(n) if i not in L]
            spots = L
        else:
            fresh = [next(i for i in range(200) if i not in L)]
            p = near(L)
            spots = sorted({L[0], L[-1], L[1]} | set(L[max(0, p - 1):p + 2]))
        for y in fresh:
            yield ('append', y)
            for x in spots:
                yield ('after', x, y)
                yield ('before', x, y)
        for x in spots:
            yield ('remove', x)

    def step(ctx, w, L, op, checking):
        if checking:
            ctx.t += 1
        M = list(L)
        if op[0] == 'append':
            w.s.append(item(op[1]))
            M.append(op[1])
        elif op[0] == 'remove':
            w.s.remove(item(op[1]))
            M.remove(op[1])
        elif op[0] == 'after':
            w.s.insertAfter(item(op[1]), item(op[2]))
            M.insert(M.index(op[1]) + 1, op[2])
        else:
            w.s.insertBefore(item(op[1]), item(op[2]))
            M.insert(M.index(op[1]), op[2])
        return tuple(M)

    def observe(ctx, w, L):
        ctx.equal([num(x) for x in w.s], list(L), 'items')
        ctx.equal(len(w.s), len(L), 'length')
        pairs_ok(ctx, w.s, L, item)
        if L:
            ctx.equal(num(w.s[len(L) - 1]), L[-1], 'last item')

    ops0 = []
    if prefix:
        style, k = prefix
        ops0 = [('append', 0), ('append', 1), ('append', 2)]
        for i in range(3, k + 3):
            ops0.append({'append': ('append', i), 'front': ('before', (i - 1) if i > 3 else 0, i),
                         'after0': ('after', 0, i), 'before2': ('before', 2, i),
                         'chain': ('after', i - 1 if i > 3 else 0, i), 'zig': (('after' if i % 2 else 'before'), i - 1 if i > 3 else 1, i),
                         'after2': ('after', 2, i), 'chainb': ('before', i - 1 if i > 3 else 2, i)}[style])
    explore(ctx, new, ops, step, observe, depth, ops0=ops0, ids=keyed == 'idkey')


MOVES = ('append', 'front', 'afterlast', 'beforelast', 'afterfirst', 'beforeend', 'mid', 'removelast')


def periodic(ctx, which, keyed, length, size, i, k):
    C = cls(which)
    words = [w for m in range(1, length + 1) for w in product(range(len(MOVES)), repeat=m)]
    for w in words[i::k]:
        ctx.case(which, [MOVES[x] for x in w], size)
        if keyed:
            pool = [Item(j) for j in range(size + 2)]
            s = C(key=lambda b: b.i)
        else:
            pool = list(range(size + 2))
            s = C()
        s.append(pool[0])
        s.append(pool[1])
        L = [0, 1]
        last, nxt = 1, 2
        while nxt < size:
            for m in w:
                if nxt >= size:
                    break
                mv = MOVES[m]
                y = nxt
                if mv == 'removelast':
                    if len(L) > 3:
                        p = L.index(last)
                        s.remove(pool[last])
                        L.remove(last)
                        last = L[min(p, len(L) - 1)]
                    nxt += 1
                    continue
                nxt += 1
                ctx.t += 1
                if mv == 'append':
                    s.append(pool[y])
                    L.append(y)
                elif mv in ('front', 'beforelast', 'beforeend'):
                    x = {'front': L[0], 'beforelast': last, 'beforeend': L[-1]}[mv]
                    s.insertBefore(pool[x], pool[y])
                    L.insert(L.index(x), y)
                else:
                    x = {'afterlast': last, 'afterfirst': L[0], 'mid': L[len(L) // 2]}[mv]
                    s.insertAfter(pool[x], pool[y])
                    L.insert(L.index(x) + 1, y)
                last = y
                # neighbours of the new item, and both ends
                p = L.index(y)
                for q in {0, len(L) - 1, max(p - 1, 0), min(p + 1, len(L) - 1), p}:
                    c = s.cmp(pool[L[q]], pool[y])
                    ctx.check((c < 0) == (q < p) and (c > 0) == (q > p), 'cmp', c, 'of positions', q, p, 'of', len(L))
                if len(L) % 16 == 0 or nxt == size:
                    for a in range(len(L) - 1):
                        if not (s.cmp(pool[L[a]], pool[L[a + 1]]) < 0 < s.cmp(pool[L[a + 1]], pool[L[a]])):
                            ctx.check(False, 'positions', a, a + 1, 'of', len(L), 'compare wrongly')
        got = [x.i for x in s] if keyed else list(s)
        ctx.equal(got, L, 'items')
        if len(L) <= 150:
            pairs_ok(ctx, s, L, lambda j: pool[j])


def units(tier):
    q = tier == 'quick'
    U = []
    for which in ('Simple', 'Logarithmic'):
        for keyed in ('int', 'U', 'mix', 'key', 'idkey'):
            U.append(('%s-%s' % (which, keyed), histories, dict(which=which, keyed=keyed, n=4, depth=5 if q else 6)))
        for style in ('append', 'front', 'after0', 'before2', 'chain', 'chainb', 'zig', 'after2'):
            for k in range(58, 66, 1):
                U.append(('%s-pre-%s-%d' % (which, style, k), histories,
                          dict(which=which, keyed='key' if k % 2 else 'int', n=100, depth=2 if q else 3, prefix=(style, k),
                               near=NEAR[style])))
        for i in range(4):
            U.append(('%s-periodic-%d' % (which, i), periodic, dict(which=which, keyed=False, length=3 if q else 4, size=140, i=i, k=4)))
        U.append(('%s-periodic-key' % which, periodic, dict(which=which, keyed=True, length=2, size=140, i=0, k=1)))
        U.append(('%s-periodic-2000' % which, periodic, dict(which=which, keyed=False, length=1, size=2000, i=0, k=1)))
        U.append(('%s-periodic-long' % which, periodic, dict(which=which, keyed=False, length=1 if q else 2, size=500, i=0, k=1)))
    for m in (7, 8, 15, 16, 31, 64):
        U.append(('Simple-max%d' % m, histories, dict(which='Simple', keyed='int', n=4, depth=6 if q else 8, maxsize=m)))
        U.append(('Simple-max%d-key' % m, histories, dict(which='Simple', keyed='key', n=4, depth=5 if q else 6, maxsize=m)))
    return U


def at_front(L):
    return 0


def at_end(L):
    return len(L) - 1


def at_newest(L):
    return max(range(len(L)), key=lambda i: L[i])


NEAR = {'append': at_end, 'front': at_front, 'after0': at_front, 'before2': at_end, 'chain': at_newest, 'chainb': at_newest,
        'zig': at_newest, 'after2': at_end}
