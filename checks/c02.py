"""C02 integer heaps."""
from mc.core import lib
from mc.explore import explore

RULE = ('explicit-state search of all add/remove/min histories over a chosen key set per heap class and order until the state space closes '
        'or the depth bound is met; state = (key set, fingerprint); every new state is also drained completely; plus all affine insertion orders of whole universes')


def make(cls, order):
    ih = lib('integer_heap')
    if cls == 'bit':
        return ih.BitVectorHeap()
    if cls == 'linear':
        return ih.LinearHeap()
    if cls == 'flat':
        return ih.FlatHeap(order)
    return ih.IntegerHeap(order)


def limit(cls, order):
    if cls == 'flat' or (cls == 'int' and order > 3):
        return (1 << (1 << order)) - 1
    return None


def histories(ctx, cls, order, keys, depth):
    top = limit(cls, order)

    def new():
        return make(cls, order), frozenset()

    def ops(model):
        for k in keys:
            yield ('add', k)
        for k in keys:
            if k in model or cls != 'linear':
                yield ('remove', k)
        if top is not None:
            yield ('bad', -1)
            yield ('bad', top + 1)

    def step(ctx, H, model, op, checking):
        if checking:
            ctx.t += 1
        if op[0] == 'add':
            H.add(op[1])
            return model | {op[1]}
        if op[0] == 'remove':
            H.remove(op[1])
            return model - {op[1]}
        try:
            H.add(op[1])
        except ValueError:
            return model
        ctx.check(False, 'key', op[1], 'out of range was accepted')

    def observe(ctx, H, model):
        ctx.t += 2
        ctx.check(bool(H) == bool(model), 'truth value', bool(H), 'with keys', model)
        if model:
            ctx.equal(H.min(), min(model), 'min of', sorted(model))
            ctx.equal(H.min(), min(model), 'second min of', sorted(model))
        else:
            ctx.raises(ValueError, H.min)

    def final(ctx, H, model):
        left = sorted(model)
        while left:
            ctx.t += 2
            ctx.equal(H.min(), left[0], 'min while draining', left)
            H.remove(left.pop(0))
            ctx.check(bool(H) == bool(left), 'truth value while draining')
        ctx.raises(ValueError, H.min)
        H.add(keys[0])
        ctx.equal(H.min(), keys[0], 'min after refilling a drained heap')

    closed = explore(ctx, new, ops, step, observe, depth, final=final)
    ctx.outcome('closed' if closed else 'depth bound')


def sweeps(ctx, cls, order, size, mult=1):
    """Insert an arithmetic key set in every affine order, delete in another affine order."""
    for a in range(1, size, 2 if size > 20 else 1):
        for b in (1, 3, size - 1):
            keys = []
            for i in range(size):
                k = (i * a + a // 2) % size
                if k not in keys:
                    keys.append(k)
            for k in range(size):
                if k not in keys:
                    keys.append(k)
            ctx.case(cls, order, size, mult, a, b)
            H = make(cls, order)
            cur = set()
            for k in keys:
                H.add(k * mult)
                cur.add(k * mult)
                ctx.t += 1
                ctx.equal(H.min(), min(cur), 'min after insertions')
            dele = sorted(keys, key=lambda k: (k * b) % size)
            for k in dele:
                H.remove(k * mult)
                cur.discard(k * mult)
                ctx.t += 1
                ctx.check(bool(H) == bool(cur), 'truth value')
                if cur:
                    ctx.equal(H.min(), min(cur), 'min after removal of', k * mult)


def two(ctx, pairs_, depth):
    """Two heaps used alternately must not interfere (shared tables, shared sub-heaps)."""
    from itertools import product
    for (c1, o1), (c2, o2) in pairs_:
        keys = [0, 3, 9]
        ops = [(h, op, k) for h in (0, 1) for op in ('add', 'remove') for k in keys]
        for hist in product(ops, repeat=depth):
            ctx.case((c1, o1), (c2, o2), hist)
            H = [make(c1, o1), make(c2, o2)]
            M = [set(), set()]
            for h, op, k in hist:
                ctx.t += 1
                if op == 'add':
                    H[h].add(k)
                    M[h].add(k)
                elif k in M[h]:
                    H[h].remove(k)
                    M[h].discard(k)
                for x in (0, 1):
                    ctx.check(bool(H[x]) == bool(M[x]), 'truth value of heap', x)
                    if M[x]:
                        ctx.equal(H[x].min(), min(M[x]), 'min of heap', x)


def units(tier):
    q = tier == 'quick'
    U = []
    d = 9 if q else 14
    for cls, order in (('bit', 0), ('linear', 0), ('int', 0), ('int', 2), ('int', 3)):
        for nm, keys in (('low', [0, 1, 2, 3, 4]), ('mix', [0, 1, 7, 8, 15, 200]), ('high', [31, 32, 63, 64, 65, 128, 255])):
            U.append(('%s%d-%s' % (cls, order, nm), histories, dict(cls=cls, order=order, keys=keys, depth=d)))
    U.append(('flat1', histories, dict(cls='flat', order=1, keys=[0, 1, 2, 3], depth=12)))
    U.append(('flat2-a', histories, dict(cls='flat', order=2, keys=[0, 1, 3, 4, 5, 8, 15], depth=d)))
    U.append(('flat2-b', histories, dict(cls='flat', order=2, keys=[0, 4, 8, 12, 13, 14, 15], depth=d)))
    U.append(('flat3', histories, dict(cls='flat', order=3, keys=[0, 1, 15, 16, 17, 240, 255], depth=d)))
    for cls in ('flat', 'int'):
        U.append((cls + '4-a', histories, dict(cls=cls, order=4, keys=[0, 1, 255, 256, 257, 65280, 65535], depth=d)))
        U.append((cls + '4-b', histories, dict(cls=cls, order=4, keys=[5, 6, 7, 261, 262, 300], depth=d)))
        U.append((cls + '5-a', histories, dict(cls=cls, order=5, keys=[0, 1, 256, 65536, 65537, 65792, 0xffffffff], depth=d)))
        U.append((cls + '5-b', histories, dict(cls=cls, order=5, keys=[0x10001, 0x10100, 0x10101, 0x1000000, 0x1000001, 0x1010000], depth=d)))
        U.append((cls + '6', histories, dict(cls=cls, order=6, keys=[0, 1, 1 << 32, (1 << 32) + 65536, 1 << 48, (1 << 64) - 1], depth=d)))
        U.append((cls + '7', histories, dict(cls=cls, order=7, keys=[0, 1, 1 << 64, (1 << 64) + (1 << 32), (3 << 64) - 1, (1 << 127) + 5, (1 << 128) - 1], depth=d)))
        U.append((cls + '8', histories, dict(cls=cls, order=8, keys=[0, (1 << 128) - 1, 1 << 128, (1 << 192) + (1 << 64), 1 << 255, (1 << 256) - 1], depth=d)))
    for cls, order, size, mult in (('bit', 0, 40, 1), ('linear', 0, 40, 1), ('flat', 3, 64, 4), ('flat', 2, 16, 1), ('flat', 4, 60, 97),
                                   ('int', 5, 50, 65537), ('int', 5, 50, 255), ('flat', 5, 40, 1), ('int', 4, 256 if not q else 100, 1)):
        U.append(('sweep-%s%d-%d-%d' % (cls, order, size, mult), sweeps, dict(cls=cls, order=order, size=size, mult=mult)))
    U.append(('bit-wide', histories, dict(cls='bit', order=0, keys=[0, 255, 256, 700, 1024, 5000], depth=12)))
    U.append(('linear-wide', histories, dict(cls='linear', order=0, keys=[0, 255, 256, 700, 1 << 70], depth=10)))
    U.append(('two', two, dict(pairs_=[(('bit', 0), ('bit', 0)), (('flat', 4), ('flat', 4)), (('flat', 2), ('int', 5)), (('linear', 0), ('linear', 0))], depth=4 if q else 5)))
    return U
