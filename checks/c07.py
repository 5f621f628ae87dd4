"""C07 partition refinement."""
from itertools import combinations
from mc.core import lib
from mc.explore import explore
from mc.gen import kind

RULE = ('explicit-state search over refine/add/remove/freeze histories; state = (partition, frozen?, fingerprint with identities); '
        'all refining sets over the items plus an unknown one, in several container types; up to 700 items in up to 90 blocks refined at once')


def histories(ctx, vk, n, depth, conts, adds=True):
    pr = lib('partition_refinement')
    vk = kind(vk)
    items = [vk(i) for i in range(n)]
    stranger = vk(n)
    num = {x: i for i, x in enumerate(items)}
    subs = [c for k in range(n + 1) for c in combinations(range(n), k)]
    wrap = {'set': set, 'list': lambda x: list(x) + list(x), 'tuple': tuple, 'dict': lambda x: {y: None for y in x},
            'gen': lambda x: (y for y in list(x)), 'frozenset': frozenset}

    class W:
        pass

    def new():
        w = W()
        w.P = pr.PartitionRefinement(items)
        return w, (frozenset([frozenset(range(n))]), False)

    def ops(model):
        blocks, frozen = model
        if frozen:
            yield ('freeze',)
            return
        for s in subs:
            for c in conts:
                yield ('refine', c, s, False)
            yield ('refine', conts[0], s, True)
        for i in range(n):
            yield ('refineblock', i)
        yield ('freeze',)
        if adds:
            present = {x for b in blocks for x in b}
            for i in range(n):
                if i in present:
                    yield ('remove', i)
                    for b in blocks:
                        if b:
                            yield ('badadd', i, min(b))
                else:
                    yield ('badremove', i)
                    for b in blocks:
                        if b:
                            yield ('add', i, min(b))
        yield ('foreign',)

    def step(ctx, w, model, op, checking):
        blocks, frozen = model
        P = w.P
        if checking:
            ctx.t += 1
        present = {x for b in blocks for x in b}
        if op[0] in ('refine', 'refineblock'):
            if op[0] == 'refine':
                S = set(op[2])
                arg = wrap[op[1]]([items[i] for i in op[2]] + ([stranger] if op[3] else []))
            else:
                if op[1] not in present:
                    return model
                arg = P[items[op[1]]]
                S = {num[x] for x in arg}
            old = {i: P[items[i]] for i in present}
            out = P.refine(arg)
            want = {}
            nb = set()
            for b in blocks:
                a, c = b & S, b - S
                if a and c:
                    want[a] = c
                    nb |= {a, c}
                else:
                    nb.add(b)
            if checking:
                got = {}
                for pair in out:
                    i, o = pair
                    got[frozenset(num[x] for x in i)] = frozenset(num[x] for x in o)
                    for x in i:
                        ctx.check(P[x] is i, 'reported inside part is not the block of', x)
                        ctx.check(old[num[x]] is o, 'outside part is not the original block of', x)
                    for x in o:
                        ctx.check(P[x] is o, 'reported outside part is not the block of', x)
                ctx.check(len(got) == len(out), 'a split was reported twice')
                ctx.equal(got, want, 'reported splits')
            return frozenset(nb), False
        if op[0] == 'freeze':
            P.freeze()
            return blocks, True
        if op[0] == 'remove':
            P.remove(items[op[1]])
            return frozenset(b - {op[1]} for b in blocks), False
        if op[0] == 'add':
            P.add(items[op[1]], P[items[op[2]]])
            return frozenset(b | {op[1]} if op[2] in b else b for b in blocks), False
        if op[0] == 'badadd':
            try:
                P.add(items[op[1]], P[items[op[2]]])
            except pr.PartitionError:
                return model
            ctx.check(False, 'adding an item twice was accepted')
        if op[0] == 'badremove':
            try:
                P.remove(items[op[1]])
            except KeyError:
                return model
            ctx.check(False, 'removing an absent item was accepted')
        if op[0] == 'foreign':
            f = set()
            try:
                P.add(stranger, f)
            except pr.PartitionError:
                ctx.check(not f, 'rejected addition changed the set')
                return model
            ctx.check(False, 'adding to a foreign set was accepted')

    def observe(ctx, w, model):
        blocks, frozen = model
        P = w.P
        ctx.t += n + 2
        L = [s for s in P]
        got = [frozenset(num[x] for x in s) for s in L if s]
        ctx.equal(sorted(map(sorted, got)), sorted(sorted(b) for b in blocks if b), 'blocks')
        ctx.equal(len(P), len(L), 'length')
        if all(blocks):
            ctx.equal(len(P), len(blocks), 'number of blocks')
        for b in blocks:
            for x in b:
                s = P[items[x]]
                ctx.equal({num[y] for y in s}, set(b), 'block of', items[x])
                ctx.check(any(s is t for t in L), 'block of', items[x], 'is not among the listed blocks')
        for i in set(range(n)) - {x for b in blocks for x in b}:
            ctx.raises(KeyError, P.__getitem__, items[i])
        ctx.raises(KeyError, P.__getitem__, stranger)
        if frozen:
            ctx.check(all(isinstance(s, frozenset) for s in L), 'a block is still mutable after freezing')

    closed = explore(ctx, new, ops, step, observe, depth, ids=True)
    ctx.outcome('closed' if closed else 'depth bound')


def strides(ctx, n):
    """Larger partitions refined by every arithmetic progression, alone and in pairs."""
    pr = lib('partition_refinement')
    progs = [(a, d) for d in range(2, 9) for a in range(d)]
    for p in progs:
        for r in progs:
            ctx.case(n, p, r)
            P = pr.PartitionRefinement(range(n))
            ref = [set(range(n))]
            for a, d in (p, r, (a0 + 1 for a0 in p), r):
                S = range(a, n + 3, d)
                out = P.refine(S)
                ctx.t += 1
                new, want = [], []
                for b in ref:
                    i, o = b & set(S), b - set(S)
                    if i and o:
                        new += [i, o]
                        want.append((sorted(i), sorted(o)))
                    else:
                        new.append(b)
                ctx.equal(sorted((sorted(x), sorted(y)) for x, y in out), sorted(want), 'splits')
                ref = new
            ctx.equal(sorted(map(sorted, P)), sorted(map(sorted, ref)), 'blocks')
            for b in ref:
                for x in b:
                    ctx.check(P[x] == b, 'block of', x)


def wide(ctx, n, size, kind_):
    """Many blocks split by one call, and large blocks frozen."""
    pr = lib('partition_refinement')
    vk = kind(kind_)
    items = [vk(i) for i in range(n)]
    num = {x: i for i, x in enumerate(items)}
    for step in (2, 3, size // 2 + 1, size, 2 * size + 1, n - 1):
        ctx.case(n, size, kind_, step)
        P = pr.PartitionRefinement(items)
        ref = [set(range(n))]

        def refine(S):
            out = P.refine([items[i] for i in S])
            ctx.t += 1
            new, want = [], []
            for b in ref:
                i, o = b & set(S), b - set(S)
                if i and o:
                    new += [i, o]
                    want.append((sorted(i), sorted(o)))
                else:
                    new.append(b)
            ctx.equal(sorted((sorted(num[a] for a in x), sorted(num[a] for a in y)) for x, y in out), sorted(want), 'splits')
            ref[:] = new

        def same():
            ctx.equal(sorted(sorted(num[a] for a in x) for x in P), sorted(map(sorted, ref)), 'blocks')
            ctx.equal(len(P), len(ref), 'number of blocks')
            for b in ref:
                for x in b:
                    ctx.check({num[a] for a in P[items[x]]} == b, 'block of', x)
        for a in range(0, n, size):
            refine(range(a, min(a + size, n)))
        refine(range(0, n, step))
        refine(range(1, n, step))
        refine(range(n))
        same()
        P.freeze()
        same()
        for x in items:
            ctx.check(isinstance(P[x], frozenset), 'block of', x, 'is still mutable after freezing')


def units(tier):
    q = tier == 'quick'
    U = []
    for vk in ('int', 'U', 'mix', 'str'):
        U.append(('n3-' + vk, histories, dict(vk=vk, n=3, depth=7 if q else 9, conts=['list', 'set'])))
    U.append(('n4', histories, dict(vk='int', n=4, depth=5 if q else 6, conts=['list'])))
    U.append(('n4-cont', histories, dict(vk='int', n=4, depth=3 if q else 4, conts=['set', 'tuple', 'dict', 'gen', 'frozenset'], adds=False)))
    U.append(('n5', histories, dict(vk='int', n=5, depth=4 if q else 5, conts=['list'], adds=False)))
    U.append(('n1', histories, dict(vk='int', n=1, depth=8, conts=['list'])))
    U.append(('n2', histories, dict(vk='int', n=2, depth=7, conts=['list'])))
    for n, size in ((60, 3), (200, 7), (400, 100), (700, 10), (300, 300)):
        U.append(('wide%d-%d' % (n, size), wide, dict(n=n, size=size, kind_='U' if n == 200 else 'int')))
    U.append(('strides', strides, dict(n=60)))
    return U
