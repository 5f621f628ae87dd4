"""C21 2-satisfiability."""
from itertools import product, combinations
from mc.core import lib
from mc.gen import kind, MIX

RULE = ('every implication graph over 1-2 variables, every set of <=4 implications over 3 variables and <=3 over 4, every orientation of implication '
        'chains and rings over more variables; compared with all truth assignments; up to 100 variables with many implications at one literal, compared with implication search')


def solve(n, clauses):
    """Satisfying assignments; a clause is a pair of literals (v, sign) => (w, sign)."""
    out = []
    for bits in product((False, True), repeat=n):
        if all(not (bits[a] == s) or (bits[b] == t) for (a, s), (b, t) in clauses):
            out.append(bits)
    return out


def verify(ctx, n, clauses, vk, cont=list, extra=()):
    ts, nt = lib('two_satisfiability'), lib('_not')
    lit = lambda l: vk(l[0]) if l[1] else nt.Not(vk(l[0]))
    G = {}
    for x in extra:
        G.setdefault(lit(x), [])
    for a, b in clauses:
        G.setdefault(lit(a), []).append(lit(b))
    G = {k: cont(v) for k, v in G.items()}
    ctx.case(G)
    sols = solve(n, clauses)
    ctx.t += 2
    ctx.equal(bool(ts.Satisfiable(G)), bool(sols), 'satisfiable')
    F = ts.Forced(G)
    if not sols:
        ctx.check(F is None, 'forced values', F, 'of an unsatisfiable system')
    else:
        used = {l[0] for c in clauses for l in c} | {x[0] for x in extra}
        want = {vk(v): sols[0][v] for v in used if len({s[v] for s in sols}) == 1}
        ctx.equal(F, want, 'forced values')
        ctx.check(all(type(x) is bool for x in F.values()), 'forced values', F)
    ctx.outcome(bool(sols), len(F) if F is not None else -1)
    # the symmetric form contains the implications, their contrapositives and nothing else
    S = ts.Symmetrize(G)
    ctx.t += 1
    Not = nt.Not
    want = {}
    for v in G:
        for x in [v] + list(G[v]):
            want.setdefault(x, set())
            want.setdefault(Not(x), set())
    for v in G:
        for w in G[v]:
            want[v].add(w)
            want[Not(w)].add(Not(v))
    ctx.equal({k: set(S[k]) for k in S}, want, 'symmetric form')


def graphs(ctx, n, maxk, mink, vk, i, k, cont='list'):
    lits = [(v, s) for v in range(n) for s in (True, False)]
    imps = [(a, b) for a in lits for b in lits]
    vk = kind(vk)
    c = {'list': list, 'set': set, 'tuple': tuple}[cont]
    j = 0
    for m in range(mink, maxk + 1):
        for cl in combinations(imps, m):
            j += 1
            if j % k == i:
                verify(ctx, n, cl, vk, c)


def isolated(ctx, n):
    lits = [(v, s) for v in range(n) for s in (True, False)]
    for m in range(1 << len(lits)):
        ex = [l for q, l in enumerate(lits) if m >> q & 1]
        for cl in [(), (((0, True), (1, False)),), (((0, False), (0, True)),)]:
            for vk in ('int', 'U', 'mix', 'str'):
                verify(ctx, n, cl, kind(vk), list, ex)


def rings(ctx, n):
    """x0^s0 => x1^s1 => ... => x0^t for every sign pattern, open and closed, plus unit implications."""
    for signs in product((True, False), repeat=n):
        chain = [((i, signs[i]), (i + 1, signs[i + 1])) for i in range(n - 1)]
        for close in (None, True, False):
            for unit in (None, 0, n - 1, n // 2):
                for us in (True, False):
                    if unit is None and us:
                        continue
                    cl = list(chain)
                    if close is not None:
                        cl.append(((n - 1, signs[n - 1]), (0, close)))
                    if unit is not None:
                        cl.append(((unit, not us), (unit, us)))
                    verify(ctx, n, cl, kind('int'))


def deep(ctx, n):
    ts, nt = lib('two_satisfiability'), lib('_not')
    Not = nt.Not
    for end, want in ((None, {}), ('force', 'all'), ('unsat', None), ('back', {})):
        G = {i: [i + 1] for i in range(n)}
        if end == 'force':
            G[Not(0)] = [0]
        elif end == 'unsat':
            G[Not(0)] = [0]
            G[n] = [Not(0)]
        elif end == 'back':
            G[n] = [0]
        ctx.case('chain', n, end)
        ctx.t += 2
        ctx.equal(bool(ts.Satisfiable(G)), end != 'unsat', 'satisfiable')
        F = ts.Forced(G)
        ctx.equal(F, {i: True for i in range(n + 1)} if want == 'all' else want, 'forced')


def implied(n, clauses):
    """Reference for many variables: (satisfiable?, forced values) by following the implications from every literal."""
    step = {}
    for (a, s), (b, t) in clauses:
        step.setdefault((a, s), set()).add((b, t))
        step.setdefault((b, not t), set()).add((a, not s))
    forced = {}
    for v in range(n):
        for s in (True, False):
            seen, todo = {(v, s)}, [(v, s)]
            for x in todo:
                for y in step.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            if (v, not s) in seen:
                if v in forced:
                    return False, None
                forced[v] = not s
    return True, forced


def wide(ctx, n):
    """Many implications from and to one literal, complete and layered systems, with every combination of extra clauses."""
    ts, Not = lib('two_satisfiability'), lib('_not').Not
    bases = {
        'in': [((i, True), (0, True)) for i in range(1, n)],
        'in-mixed': [((i, i % 2 == 0), (0, i % 3 == 0)) for i in range(1, n)],
        'out': [((0, True), (i, i % 4 != 0)) for i in range(1, n)],
        'complete': [((i, True), (j, False)) for i in range(min(n, 24)) for j in range(min(n, 24)) if i < j],
        'layers': [((i, True), (j, True)) for i in range(n) for j in (i + 5, i + 6, i + 7) if j < n],
        'ring': [((i, i % 3 > 0), ((i + 1) % n, (i + 1) % n % 3 > 0)) for i in range(n)]}
    extra = [((0, True), (0, False)), ((n - 1, False), (n - 1, True)), ((n - 1, True), (1, False)), ((2, True), (n - 2, False)), ((0, False), (n - 1, False))]
    for name, base in bases.items():
        for m in range(1 << len(extra)):
            cl = base + [e for j, e in enumerate(extra) if m >> j & 1]
            for rev in (False, True):
                ctx.case(name, n, m, rev)
                lit = lambda l: l[0] if l[1] else Not(l[0])
                G = {}
                for a, b in (cl[::-1] if rev else cl):
                    G.setdefault(lit(a), []).append(lit(b))
                sat, forced = implied(n, cl)
                ctx.t += 2
                ctx.equal(bool(ts.Satisfiable(G)), sat, 'satisfiable')
                ctx.equal(ts.Forced(G), forced, 'forced values')
                S = ts.Symmetrize(G)
                ctx.equal(sum(len(S[x]) for x in S), len({x for a, b in cl for x in ((a, b), ((b[0], not b[1]), (a[0], not a[1])))}), 'implications in the symmetric form')


def agree(ctx):
    """The reference for many variables agrees with all truth assignments."""
    lits = [(v, s) for v in range(3) for s in (True, False)]
    for cl in combinations([(a, b) for a in lits for b in lits], 3):
        ctx.case(cl)
        sols = solve(3, cl)
        want = (bool(sols), {v: sols[0][v] for v in range(3) if len({s[v] for s in sols}) == 1} if sols else None)
        ctx.equal(implied(3, cl), want, 'reference')


def negation(ctx):
    nt = lib('_not')
    Not, SN = nt.Not, nt.SymbolicNegation
    vals = MIX + [True, 1, 1.0, 'x', ('t', ('u',)), frozenset(), -1, -2, 2 ** 61 - 1, -(2 ** 61 - 1), float('inf')]
    for x in vals:
        for y in vals:
            ctx.case(x, y)
            ctx.t += 6
            ctx.equal(Not(x) == Not(y), x == y, 'equality of negations')
            ctx.equal(Not(x) != Not(y), x != y, 'inequality of negations')
            ctx.check(not (Not(x) == y) and Not(x) != y and not (y == Not(x)), 'negation equals a value')
            if x == y:
                ctx.equal(hash(Not(x)), hash(Not(y)), 'hash')
            ctx.equal(len({x, y, Not(x), Not(y)}), 2 * len({x, y}), 'set of values and negations')
        ctx.check(Not(Not(x)) == x and Not(Not(Not(x))) == Not(x), 'double negation of', x)
        ctx.check(isinstance(Not(x), SN) and not isinstance(Not(Not(x)), SN), 'type of negation')
        ctx.equal({Not(x): 1}.get(Not(x)), 1, 'lookup')
        ctx.raises(nt.DoubleNegationError, SN, Not(x))


def units(tier):
    q = tier == 'quick'
    U = [('n1', graphs, dict(n=1, maxk=4, mink=0, vk='U', i=0, k=1))]
    for i in range(4):
        U.append(('n2-%d' % i, graphs, dict(n=2, maxk=16, mink=0, vk='int', i=i, k=4)))
    U += [('n2U', graphs, dict(n=2, maxk=4, mink=0, vk='U', i=0, k=1, cont='set')), ('n2mix', graphs, dict(n=2, maxk=4, mink=0, vk='mix', i=0, k=1, cont='tuple'))]
    m = 8 if q else 32
    for i in range(m):
        U.append(('n3-%d' % i, graphs, dict(n=3, maxk=4 if q else 5, mink=0, vk='int', i=i, k=m)))
        U.append(('n4-%d' % i, graphs, dict(n=4, maxk=3 if q else 4, mink=0, vk='int' if i % 2 else 'U', i=i, k=m)))
    U.append(('isolated', isolated, dict(n=2)))
    for n in (2, 3, 4, 5, 6):
        U.append(('rings%d' % n, rings, dict(n=n)))
    for n in (8, 16, 40, 100):
        U.append(('wide%d' % n, wide, dict(n=n)))
    U.append(('agree', agree, {}))
    U.append(('deep', deep, dict(n=900)))
    U.append(('not', negation, {}))
    return U
