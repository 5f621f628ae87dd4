"""C03 bucket queue."""
from itertools import product
from mc.core import lib
from mc.explore import explore
from mc.gen import kind

class Level(int):
    """Integers that are not of class int itself."""


RULE = ('explicit-state search over assign/delete/consume/lookup steps with up to two live iterators; state = (priority table, live iterators, fingerprint); '
        'consumption may return any item of minimum priority')


def histories(ctx, vk, n, prios, depth, iters):
    bq = lib('bucketqueue')
    vk = kind(vk)
    items = [vk(i) for i in range(n)]
    index = {x: i for i, x in enumerate(items)}

    class Box:
        pass

    def new():
        b = Box()
        b.q = bq.BucketQueue()
        b.its = []
        return b, (frozenset(), 0)

    def ops(model):
        D, k = model
        D = dict(D)
        for i in range(n):
            for p in prios:
                yield ('set', i, p)
            if i in D:
                yield ('del', i)
        if k < iters:
            yield ('iter',)
            yield ('items',)
        for j in range(k):
            yield ('next', j)
        yield ('badprio', 0)
        yield ('badprio', n - 1)
        yield ('baddel', 0)
        yield ('baddel', n - 1)

    def step(ctx, b, model, op, checking):
        D, k = model
        D = dict(D)
        if checking:
            ctx.t += 1
        if op[0] == 'set':
            b.q[items[op[1]]] = Level(op[2]) if op[1] % 2 else op[2]
            D[op[1]] = op[2]
        elif op[0] == 'del':
            del b.q[items[op[1]]]
            del D[op[1]]
        elif op[0] == 'baddel':
            if op[1] not in D:
                try:
                    del b.q[items[op[1]]]
                except KeyError:
                    pass
                else:
                    ctx.check(False, 'deleting an absent item was accepted')
        elif op[0] == 'badprio':
            for bad in (1.5, '1', None):
                try:
                    b.q[items[op[1]]] = bad
                except TypeError:
                    pass
                else:
                    ctx.check(False, 'non-integer priority accepted', bad)
        elif op[0] == 'iter':
            b.its.append((False, iter(b.q)))
            k += 1
        elif op[0] == 'items':
            b.its.append((True, b.q.items()))
            k += 1
        elif op[0] == 'next':
            pair, it = b.its[op[1]]
            try:
                r = next(it)
            except StopIteration:
                ctx.check(not D, 'iteration stopped although the queue holds', D)
                # a finished iterator is replaced so that indices stay valid
                b.its[op[1]] = (pair, b.q.items() if pair else iter(b.q))
                return frozenset(D.items()), k
            ctx.check(bool(D), 'item', r, 'from an empty queue')
            if pair:
                r, p = r
            x = index.get(r)
            ctx.check(x in D, 'consumed', r, 'which is not in the queue', D)
            ctx.check(D[x] == min(D.values()), 'consumed', r, 'of priority', D[x], 'while the minimum is', min(D.values()))
            if pair:
                ctx.equal(p, D[x], 'priority paired with', r)
            del D[x]
        return frozenset(D.items()), k

    def observe(ctx, b, model):
        D = dict(model[0])
        ctx.t += 1 + 2 * n
        ctx.equal(len(b.q), len(D), 'length')
        for i in range(n):
            ctx.equal(items[i] in b.q, i in D, 'membership of', items[i])
            if i in D:
                ctx.equal(b.q[items[i]], D[i], 'priority of', items[i])
            else:
                ctx.raises(KeyError, b.q.__getitem__, items[i])

    def final(ctx, b, model):
        D = dict(model[0])
        out = list(b.q.items()) if len(D) % 2 else [(x, None) for x in b.q]
        ctx.t += 1
        ctx.equal(sorted(index[x] for x, p in out), sorted(D), 'drained items')
        pr = [D[index[x]] for x, p in out]
        ctx.equal(pr, sorted(pr), 'drain order')
        for x, p in out:
            ctx.check(p is None or p == D[index[x]], 'priority of', x, 'reported as', p)
        ctx.equal(len(b.q), 0, 'length after draining')
        # usable again afterwards, below the old minimum
        b.q[items[0]] = min(prios) - 3
        b.q[items[n - 1]] = min(prios) - 5
        ctx.equal(list(b.q), [items[n - 1], items[0]] if n > 1 else [items[0]], 'order after refilling')

    closed = explore(ctx, new, ops, step, observe, depth, final=final)
    ctx.outcome('closed' if closed else 'depth bound')


def monotone(ctx, n):
    """Whole-queue consumption with a decrease/increase/insert rule applied at every step (Dijkstra/degeneracy style)."""
    bq = lib('bucketqueue')
    for init in range(1, 6):
        for rule in product(range(-3, 4), repeat=3):
            ctx.case(n, init, rule)
            q = bq.BucketQueue()
            D = {}
            for i in range(n):
                D[i] = q[i] = (i * init) % 11
            steps = 0
            for x, p in q.items():
                ctx.t += 1
                ctx.check(x in D and D[x] == p == min(D.values()), 'consumed', (x, p), 'queue', D)
                del D[x]
                steps += 1
                if steps > 3 * n:
                    for y in list(D):
                        del q[y]
                        del D[y]
                    continue
                for j, r in enumerate(rule):
                    y = (x * (j + 2) + steps) % n
                    if y in D:
                        D[y] = q[y] = D[y] + r
                    elif r == 3:
                        D[y] = q[y] = p - 1
            ctx.equal(len(q), 0, 'left over')


def large(ctx, n, base, step):
    """Many items, many priorities far apart or far from zero: every affine assignment order, changed while it is drained."""
    bq = lib('bucketqueue')
    for a in range(1, n, 2):
        for change in (0, 1, 2, 3):
            ctx.case(n, base, step, a, change)
            q = bq.BucketQueue()
            D = {}
            for i in range(n):
                D[i] = q[i] = base + step * (i * a % n)
            for i in range(0, n, 5):
                D[i] = q[i] = base + step * (i * 3 % n) - i % 3
            for i in range(1, n, 7):
                del q[i], D[i]
            ctx.equal(len(q), len(D), 'length')
            done = 0
            for x, p in q.items():
                ctx.t += 1
                if not (x in D and D[x] == p == min(D.values())):
                    ctx.check(False, 'consumed', (x, p), 'while the minimum is', min(D.values()))
                del D[x]
                done += 1
                if done < n:
                    y = (x * 11 + done) % n
                    if change == 1 and y in D:
                        D[y] = q[y] = D[y] - 1
                    elif change == 2:
                        D[y] = q[y] = p + step * (y % 4)
                    elif change == 3 and y in D:
                        del q[y], D[y]
            ctx.check(not D and not len(q), 'left over', D)


def units(tier):
    q = tier == 'quick'
    U = []
    for vk in ('int', 'U', 'mix'):
        U.append(('hist-%s' % vk, histories, dict(vk=vk, n=3, prios=[0, 1, 3], depth=6 if q else 8, iters=1)))
    U.append(('neg', histories, dict(vk='int', n=2, prios=[-2, 0, 1, 4], depth=7 if q else 9, iters=2)))
    U.append(('one', histories, dict(vk='int', n=1, prios=[-1, 0, 2], depth=7 if q else 9, iters=2)))
    U.append(('n4', histories, dict(vk='int', n=4, prios=[0, 2], depth=6 if q else 8, iters=1)))
    U.append(('two', histories, dict(vk='int', n=3, prios=[0, 2], depth=5 if q else 7, iters=2)))
    for n, base, step in ((40, 0, 1), (64, -20, 2), (100, 1 << 40, 1), (100, -(1 << 40), 3), (150, 5, 40), (50, (1 << 20) - 30, 1), (33, 0, 1000)):
        U.append(('large%d-%d-%d' % (n, base, step), large, dict(n=n, base=base, step=step)))
    for n in (4, 9, 20):
        U.append(('mono%d' % n, monotone, dict(n=n)))
    return U
