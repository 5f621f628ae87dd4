"""C01 union-find."""
from mc.core import lib
from mc.explore import explore
from mc.gen import kind
from itertools import product

RULE = ('all sequences of lookups and unions (0-3 arguments, repeats allowed) over a small item pool up to the depth bound; '
        'state = (partition, names) + fingerprint of the live structure; plus all periodic union patterns on larger pools and repeated doubling up to 1024 items')


def histories(ctx, vk, n, depth, arity):
    uf = lib('union_find')
    vk = kind(vk)
    items = [vk(i) for i in range(n)]

    def new():
        return uf.UnionFind(), frozenset()

    def ops(model):
        for i in range(n):
            yield ('find', i)
        for a in arity:
            if a == 2:
                for i in range(n):
                    for j in range(n):
                        yield ('union', i, j)
            elif a == 1:
                for i in range(n):
                    yield ('union', i)
            elif a == 3:
                for t in product(range(n), repeat=3):
                    yield ('union',) + t

    def step(ctx, impl, model, op, checking):
        blocks = model
        args = op[1:]
        known = set().union(*blocks) if blocks else set()
        for a in args:
            if a not in known:
                known.add(a)
                blocks = blocks | {frozenset([a])}
        if op[0] == 'find':
            if checking:
                ctx.t += 1
            r = impl[items[args[0]]]
            if checking:
                blk = next(b for b in blocks if args[0] in b)
                ctx.check(r in [items[i] for i in blk], 'name', r, 'of', items[args[0]], 'is not a member of its set', blk)
        else:
            if checking:
                ctx.t += 1
            impl.union(*[items[a] for a in args])
            new = frozenset().union(*[b for b in blocks if b & set(args)])
            blocks = frozenset([b for b in blocks if not (b & set(args))]) | {new}
        return blocks

    def observe(ctx, impl, model):
        blocks = model
        known = set().union(*blocks) if blocks else set()
        seen = list(iter(impl))
        ctx.t += 1
        ctx.check(len(seen) == len(known) and all(items[i] in seen for i in known),
                  'iteration gives', seen, 'expected the items', known)

    def final(ctx, impl, model):
        blocks = model
        name = {}
        for b in blocks:
            for i in b:
                r = ctx.call(impl.__getitem__, items[i])
                if b in name:
                    ctx.check(name[b] == r, 'two names', name[b], r, 'for one set', b)
                name[b] = r
            ctx.check(name[b] in [items[i] for i in b], 'name', name[b], 'is not a member of', b)
        ctx.check(len(set(name.values())) == len(blocks), 'two sets share a name', name)
        for b in blocks:
            # union inside a set and with itself changes nothing; names stay in any lookup order
            for i in reversed(sorted(b)):
                impl.union(items[i])
                impl.union(items[i], items[min(b)])
                impl.union(items[min(b)], items[max(b)], items[i])
                impl.union(*[items[j] for j in sorted(b)])
                ctx.t += 4
                ctx.check(impl[items[i]] == name[b], 'name of', b, 'changed although the set did not')
        for b in blocks:
            for i in b:
                ctx.check(ctx.call(impl.__getitem__, items[i]) == name[b], 'name of', b, 'changed')
        ctx.outcome(len(blocks))

    explore(ctx, new, ops, step, observe, depth, final=final)


def stability(ctx, n, depth):
    """Full (not deduplicated) histories: names may only change when the set changes."""
    uf = lib('union_find')
    ops = [('f', i) for i in range(n)] + [('u', i, j) for i in range(n) for j in range(n) if i != j]
    for hist in product(ops, repeat=depth):
        ctx.case(hist)
        X = uf.UnionFind()
        block = {}
        names = {}
        for op in hist:
            for a in op[1:]:
                if a not in block:
                    block[a] = frozenset([a])
            if op[0] == 'f':
                r = X[op[1]]
                b = block[op[1]]
                ctx.check(r in b, 'name', r, 'outside', b)
                ctx.check(names.setdefault(b, r) == r, 'name of unchanged set', b, 'changed from', names[b], 'to', r)
            else:
                X.union(op[1], op[2])
                b = block[op[1]] | block[op[2]]
                for x in b:
                    block[x] = b
            ctx.t += 1
            for x in list(block):
                b = block[x]
                r = X[x]
                ctx.check(r in b and names.setdefault(b, r) == r, 'name', r, 'of unchanged set', b, 'was', names[b])
        ctx.t += len(block)


def patterns(ctx, vk, sizes):
    """Larger pools: all affine union orders; every element queried after each phase."""
    uf = lib('union_find')
    vk = kind(vk)
    for n in sizes:
        for a in range(1, n):
            for style in range(5):
                ctx.case(n, a, style)
                X = uf.UnionFind()
                blk = {i: {i} for i in range(n)}
                for i in range(n - 1):
                    x, y = (i * a) % n, ((i + 1) * a) % n
                    if style == 1:
                        y = 0
                    elif style == 2:
                        x, y = y, (i * a * a) % n
                    elif style == 3:
                        x, y = i // 2, i
                    if style == 4:
                        z = (x + a * a + 1) % n
                        X.union(vk(x), vk(y), vk(z), vk(y))
                        b = blk[x] | blk[y] | blk[z]
                    else:
                        X.union(vk(x), vk(y))
                        b = blk[x] | blk[y]
                    ctx.t += 1
                    for t in b:
                        blk[t] = b
                    if i % 3 == 0:
                        ctx.check((X[vk(x)] == X[vk(a)]) == (blk[x] is blk[a] or blk[x] == blk[a]), 'wrong connectivity', x, a, 'after step', i)
                groups = {}
                for t in range(n):
                    ctx.t += 1
                    groups.setdefault(frozenset(blk[t]), set()).add(X[vk(t)])
                for g, names in groups.items():
                    ctx.check(len(names) == 1, 'set', g, 'has names', names)
                    ctx.check(next(iter(names)) in [vk(t) for t in g], 'name not a member')
                ctx.check(len({next(iter(s)) for s in groups.values()}) == len(groups), 'shared names')
                ctx.equal(len(list(X)), n, 'number of items')


def doubling(ctx, d):
    """2^d items joined in pairs of equal sets through chosen members; lookups as rare or as frequent as the pattern says, every
    item first or last in the lookups at the end."""
    uf = lib('union_find')
    n = 1 << d
    for pick in product(range(3), repeat=2):
        for order in range(4):
            ctx.case(d, pick, order)
            X = uf.UnionFind()
            for level in range(d):
                w = 1 << level
                for b in range(0, n, 2 * w):
                    member = lambda k, c: b + k * w + (0, w - 1, w // 2)[c]
                    X.union(member(0, pick[0]), member(1, pick[1]))
                    ctx.t += 1
            items = [range(n), range(n - 1, -1, -1), [i * 5 % n for i in range(n)], [int(bin(i + n)[:2:-1], 2) for i in range(n)]][order]
            names = {X[i] for i in items}
            ctx.t += n
            ctx.check(len(names) == 1 and names <= set(range(n)), 'names of one set', sorted(names)[:5])
            ctx.check({X[i] for i in items} == names, 'the name changed')
            ctx.equal(sorted(X), list(range(n)), 'items')


def units(tier):
    q = tier == 'quick'
    U = []
    for vk in ('int', 'U', 'mix'):
        U.append(('hist2-%s' % vk, histories, dict(vk=vk, n=4, depth=6 if q else 8, arity=(1, 2))))
        U.append(('hist3-%s' % vk, histories, dict(vk=vk, n=3, depth=7 if q else 9, arity=(1, 2, 3))))
    U.append(('hist-n5', histories, dict(vk='int', n=5, depth=5 if q else 6, arity=(2,))))
    U.append(('stability-n3', stability, dict(n=3, depth=5 if q else 6)))
    U.append(('stability-n4', stability, dict(n=4, depth=4 if q else 5)))
    U.append(('patterns', patterns, dict(vk='int', sizes=[5, 7, 8, 13, 16, 17, 32, 33, 61])))
    U.append(('patternsU', patterns, dict(vk='U', sizes=[5, 7, 8, 13, 16, 17, 40])))
    U += [('doubling%d' % d, doubling, dict(d=d)) for d in range(1, 11 if q else 14)]
    return U
