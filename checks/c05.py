"""C05 linked sequence."""
from mc.core import lib
from mc.explore import explore
from mc.gen import kind

RULE = ('explicit-state search over append/insertBefore/insertAfter/remove histories (invalid ones included), keyed and unkeyed, also with distinct items sharing a key; state = (list, fingerprint); every index and neighbour in sequences of 700 items')


class Box:
    """Unhashable payload used with a key function."""
    __hash__ = None

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'B%d' % self.i


def histories(ctx, mode, n, depth, init=()):
    sq = lib('sequence')
    if mode == 'key':
        pool = [Box(i) for i in range(n)]
        key = lambda b: b.i
    elif mode == 'twin':
        pool = [Box(i) for i in range(n)]       # items 2k and 2k+1 share the key k
        key = lambda b: b.i // 2
    elif mode == 'id':
        pool = [[i] for i in range(n)]
        key = id
    else:
        vk = kind(mode)
        pool = [vk(i) for i in range(n)]
        key = None

    def same(i):
        return (i & ~1, i | 1) if mode == 'twin' else (i,)

    def place(M, i):
        """Position in M of the item with the key of item i, or None."""
        return next((p for p, j in enumerate(M) if j in same(i)), None)

    class Wrap:
        pass

    def num(x):
        for i, y in enumerate(pool):
            if x is y or (key is None and x == y and type(x) is type(y)):
                return i
        return x

    def new():
        w = Wrap()
        w.s = sq.Sequence([pool[i] for i in init], key=key) if key else sq.Sequence([pool[i] for i in init])
        return w, tuple(init)

    def ops(L):
        for i in range(n):
            yield ('append', i)
        for x in range(n):
            for y in range(n):
                yield ('after', x, y)
                yield ('before', x, y)
        for i in range(n):
            yield ('remove', i)

    def step(ctx, w, L, op, checking):
        if checking:
            ctx.t += 1
        s = w.s
        M = list(L)
        bad = None
        if op[0] == 'append':
            f = lambda: s.append(pool[op[1]])
            if place(M, op[1]) is not None:
                bad = True
            else:
                M.append(op[1])
        elif op[0] == 'remove':
            f = lambda: s.remove(pool[op[1]])
            if place(M, op[1]) is not None:
                del M[place(M, op[1])]
            else:
                bad = True
        else:
            x, y = op[1:]
            f = (lambda: s.insertAfter(pool[x], pool[y])) if op[0] == 'after' else (lambda: s.insertBefore(pool[x], pool[y]))
            if place(M, x) is None or place(M, y) is not None:
                bad = True
            else:
                M.insert(place(M, x) + (op[0] == 'after'), y)
        if bad:
            try:
                f()
            except (sq.SequenceError, KeyError):
                pass
            else:
                ctx.check(False, 'invalid operation', op, 'accepted on', L)
        else:
            f()
        return tuple(M)

    def observe(ctx, w, L):
        s = w.s
        ctx.t += 2 + 3 * len(L)
        ctx.equal([num(x) for x in s], list(L), 'iteration')
        ctx.equal(len(s), len(L), 'length')
        for i, x in enumerate(L):
            ctx.equal(num(s[i]), x, 'item', i)
            for y in same(x):
                ctx.equal(num(s.successor(pool[y])), L[(i + 1) % len(L)], 'successor of', y)
                ctx.equal(num(s.predecessor(pool[y])), L[i - 1], 'predecessor of', y)
        ctx.raises(IndexError, s.__getitem__, len(L))
        ctx.raises(IndexError, s.__getitem__, len(L) + 2)
        for i in range(-len(L) - 2, 0):     # counting from the end may be refused
            try:
                x = s[i]
            except IndexError:
                continue
            ctx.check(i >= -len(L) and num(x) == L[i], 'item', i, 'is', x)
        for i in range(n):
            if place(L, i) is None:
                ctx.raises((KeyError, sq.SequenceError), s.successor, pool[i])
                ctx.raises((KeyError, sq.SequenceError), s.predecessor, pool[i])
        ctx.equal(repr(s), 'Sequence([' + ','.join(repr(pool[i]) for i in L) + '])', 'repr')

    closed = explore(ctx, new, ops, step, observe, depth, ids=mode == 'id')
    ctx.outcome('closed' if closed else 'depth bound')


def long_(ctx, n):
    """Every stride order of insertion/removal on long sequences."""
    sq = lib('sequence')
    for a in range(1, n, 2):
        for style in range(4):
            ctx.case(n, a, style)
            s, L = sq.Sequence(), []
            for i in range(n):
                y = (i * a) % n
                if y in L:
                    y = next(z for z in range(n) if z not in L)
                if not L or style == 0:
                    s.append(y)
                    L.append(y)
                else:
                    x = L[(i * a * 7) % len(L)]
                    if style == 1 or (style == 3 and i % 2):
                        s.insertAfter(x, y)
                        L.insert(L.index(x) + 1, y)
                    else:
                        s.insertBefore(x, y)
                        L.insert(L.index(x), y)
                ctx.t += 1
            ctx.equal(list(s), L, 'after insertions')
            for i in range(n):
                x = L[(i * a) % len(L)]
                s.remove(x)
                L.remove(x)
                ctx.t += 1
                if i % 4 == 0:
                    ctx.equal(list(s), L, 'after removals')
            ctx.equal(len(s), 0, 'length')


def far(ctx, n):
    """A sequence of n items built at its end, at its front, after its first
    item and around its middle; every index, neighbour and the whole listing."""
    m = lib('sequence')
    for how in ('append', 'front', 'second', 'middle'):
        for key in (None, lambda x: x * 3 + 1):
            ctx.case(how, n, key is not None)
            S, L = m.Sequence(key=key), []
            for i in range(n):
                if how == 'append' or not L:
                    S.append(i)
                    L.append(i)
                elif how == 'front':
                    S.insertBefore(L[0], i)
                    L.insert(0, i)
                elif how == 'second':
                    S.insertAfter(L[0], i)
                    L.insert(1, i)
                else:
                    p = len(L) // 2
                    S.insertBefore(L[p], i)
                    L.insert(p, i)
            for gone in (False, True):
                if gone:
                    for x in L[::3]:
                        S.remove(x)
                    L = [x for i, x in enumerate(L) if i % 3]
                ctx.equal(list(S), L, 'items')
                ctx.equal(len(S), len(L), 'length')
                ctx.equal(repr(S), 'Sequence([' + ','.join(map(repr, L)) + '])', 'printed')
                for i, x in enumerate(L):
                    ctx.t += 3
                    ctx.equal(S[i], x, 'item', i)
                    ctx.equal(S.successor(x), L[(i + 1) % len(L)], 'successor of', x)
                    ctx.equal(S.predecessor(x), L[i - 1], 'predecessor of', x)
                ctx.raises(IndexError, S.__getitem__, len(L))
            ctx.outcome(how)


def units(tier):
    q = tier == 'quick'
    U = []
    for mode in ('int', 'U', 'mix', 'key', 'id'):
        U.append(('hist3-' + mode, histories, dict(mode=mode, n=3, depth=8 if q else 12)))
        U.append(('hist4-' + mode, histories, dict(mode=mode, n=4, depth=5 if q else 7)))
    U.append(('twin4', histories, dict(mode='twin', n=4, depth=6 if q else 9)))
    U.append(('twin6', histories, dict(mode='twin', n=6, depth=4 if q else 5)))
    U.append(('init', histories, dict(mode='int', n=4, depth=4, init=(2, 0, 3))))
    U.append(('init-key', histories, dict(mode='key', n=4, depth=4, init=(2, 0, 3))))
    U.append(('long', long_, dict(n=30)))
    U.append(('far', far, dict(n=700)))
    return U
