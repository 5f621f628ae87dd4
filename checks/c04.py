"""C04 sorted set."""
from itertools import product
from mc.core import lib
from mc.explore import explore
from mc.gen import U as Un

RULE = ('explicit-state search over add/remove/re-rank/iterate histories; state = (contents, ranks, fingerprint); comparison function with mutable ranks, '
        'natural order, and reversed order; up to 150 items with every pair of bulk changes between listings')


def histories(ctx, mode, n, ranks, depth, init):
    ss = lib('sorted_set')

    class Box:
        pass

    def new():
        b = Box()
        b.rank = {i: i % ranks for i in range(n)}
        items = range(n)
        b.item = {}
        if mode == 'rank':
            b.item = {i: Un(i) for i in items}
            b.num = {b.item[i]: i for i in items}
            cmpf = lambda x, y: (b.rank[b.num[x]] > b.rank[b.num[y]]) - (b.rank[b.num[x]] < b.rank[b.num[y]])
            b.S = ss.SortedSet([b.item[i] for i in init], comparison=cmpf)
        else:
            # natural order of items (int subclass-free), optionally reversed by comparison
            b.item = {i: i - 1 for i in items}
            b.num = {b.item[i]: i for i in items}
            if mode == 'rev':
                b.S = ss.SortedSet([b.item[i] for i in init], comparison=lambda x, y: y - x)
            else:
                b.S = ss.SortedSet([b.item[i] for i in init])
        return b, (frozenset(init), tuple(b.rank[i] for i in items))

    def ops(model):
        S, rank = model
        for i in range(n):
            yield ('add', i)
            if i in S:
                yield ('remove', i)
                if mode == 'rank':
                    for r in range(ranks):
                        yield ('rerank', i, r)
                else:
                    yield ('update', i)
            else:
                yield ('badremove', i)
        yield ('iter',)

    def listing(ctx, b, model):
        S, rank = model
        out = [b.num[x] for x in b.S]
        ctx.equal(sorted(out), sorted(S), 'iteration contents (item numbers)')
        if mode == 'rank':
            rs = [rank[i] for i in out]
            ctx.check(rs == sorted(rs), 'order of iteration', out, 'with ranks', rank)
        else:
            ctx.equal(out, sorted(S, reverse=mode == 'rev'), 'iteration order')

    def step(ctx, b, model, op, checking):
        S, rank = model
        if checking:
            ctx.t += 1
        if op[0] == 'add':
            b.S.add(b.item[op[1]])
            S = S | {op[1]}
        elif op[0] == 'remove':
            b.S.remove(b.item[op[1]])
            S = S - {op[1]}
        elif op[0] == 'badremove':
            try:
                b.S.remove(b.item[op[1]])
            except KeyError:
                pass
            else:
                ctx.check(False, 'removing an absent item was accepted')
        elif op[0] == 'rerank':
            b.rank[op[1]] = op[2]
            b.S.update(b.item[op[1]])
            rank = rank[:op[1]] + (op[2],) + rank[op[1] + 1:]
        elif op[0] == 'update':
            b.S.update(b.item[op[1]])
        elif op[0] == 'iter':
            if checking:
                listing(ctx, b, model)
            else:
                list(b.S)
        return S, rank

    def observe(ctx, b, model):
        ctx.t += 1
        ctx.equal(len(b.S), len(model[0]), 'length')

    def final(ctx, b, model):
        ctx.t += 2
        listing(ctx, b, model)
        listing(ctx, b, model)
        for i in range(n):
            ctx.equal(b.item[i] in b.S, i in model[0], 'membership of item', i)

    closed = explore(ctx, new, ops, step, observe, depth, final=final)
    ctx.outcome('closed' if closed else 'depth bound')


def large(ctx, n):
    """Scripted large histories: every stride pattern of removals/additions between listings."""
    ss = lib('sorted_set')
    for a in range(1, n, 3):
        for b in range(1, 8):
            ctx.case(n, a, b)
            S = ss.SortedSet(range(0, n, 2))
            M = set(range(0, n, 2))
            for rnd in range(4):
                ctx.t += 1
                ctx.equal(list(S), sorted(M), 'listing in round', rnd)
                for i in range(rnd, n, b):
                    x = (i * a) % n
                    if x in M:
                        S.remove(x)
                        M.remove(x)
                    else:
                        S.add(x)
                        M.add(x)
                    if i % 5 == 0:
                        S.add(x)
                        M.add(x)
            ctx.equal(list(S), sorted(M), 'final listing')
            ctx.equal(len(S), len(M), 'length')


def mass(ctx, n, ranked):
    """Many changes between two listings: every pair out of a set of bulk changes, after every start."""
    ss = lib('sorted_set')
    half, even, third = range(n // 2), range(0, n, 2), range(0, n, 3)
    bulk = [(op, part) for op in ('add', 'remove', 'rerank', 'toggle', 'flash') for part in ('half', 'even', 'third', 'all')]
    parts = {'half': half, 'even': even, 'third': third, 'all': range(n)}
    for start in ('half', 'even', 'all'):
        for script in product(bulk, repeat=2):
            ctx.case(n, ranked, start, script)
            rank = {i: i * 7 % n for i in range(n)}
            S = ss.SortedSet(parts[start], comparison=(lambda x, y: (rank[x] > rank[y]) - (rank[x] < rank[y])) if ranked else None)
            M = set(parts[start])

            def listing(what):
                ctx.t += 1
                out = list(S)
                ctx.equal(sorted(out), sorted(M), what)
                ctx.check(all((rank[a] <= rank[b]) if ranked else a < b for a, b in zip(out, out[1:])), 'order of', what)
                ctx.equal(len(S), len(M), 'length')
            listing('first listing')
            for op, part in script:
                for i in parts[part]:
                    if op == 'add' or op in ('toggle', 'flash') and i not in M:
                        S.add(i)
                        M.add(i)
                        if op == 'flash':
                            S.remove(i)
                            M.remove(i)
                    elif op == 'remove' and i in M or op in ('toggle', 'flash'):
                        S.remove(i)
                        M.remove(i)
                        if op == 'flash':
                            S.add(i)
                            M.add(i)
                    elif op == 'rerank' and i in M:
                        rank[i] = i * 11 % (n + 1)
                        S.update(i)
                    elif op == 'rerank':
                        rank[i] = i
            listing('listing after the changes')
            listing('repeated listing')


def units(tier):
    q = tier == 'quick'
    U = []
    U.append(('rank3', histories, dict(mode='rank', n=3, ranks=2, depth=8 if q else 12, init=[0, 2])))
    U.append(('rank3b', histories, dict(mode='rank', n=3, ranks=3, depth=8 if q else 10, init=[])))
    U.append(('rank4', histories, dict(mode='rank', n=4, ranks=2, depth=6 if q else 7, init=[1])))
    for m in ('nat', 'rev'):
        U.append((m + '3', histories, dict(mode=m, n=3, ranks=1, depth=10 if q else 14, init=[])))
        U.append((m + '4', histories, dict(mode=m, n=4, ranks=1, depth=8 if q else 10, init=[0, 1, 3])))
    U.append(('large', large, dict(n=40)))
    for n in (30, 70, 150):
        for ranked in (False, True):
            U.append(('mass%d-%s' % (n, ranked), mass, dict(n=n, ranked=ranked)))
    return U
