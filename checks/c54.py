"""C54 Sudoku rules make every deduction they describe."""
from itertools import combinations, product
from mc import sudokuref as R
from mc.core import lib
from mc.gen import shard
from checks.c47 import clone, false_candidates, key, make, rules

RULE = ('in each state the solver passes through on the graded puzzles, and on candidate states made of a solution plus every small set of further candidates: every described deduction is gone after the rule has been applied '
        'until it changes nothing; all subsets of two lines of a box, of the cells of one digit in a window, all sets of one or two further candidates, all pairs of further transversals')

LINES = R.ROWS + R.COLS
D9 = range(1, 10)


# -- what each rule promises, on candidates ch[c] and contents --------------------------------

def where(ch, d, cells):
    return [c for c in cells if d in ch[c]]


def p_locate(ch, contents):
    for d in D9:
        for g in R.GROUPS:
            w = where(ch, d, g)
            if len(w) == 1 and contents[w[0]] != d:
                return 'digit %d has one cell %d in a group and is not placed' % (d, w[0])


def p_eliminate(ch, contents):
    for c in range(81):
        if not contents[c] and len(ch[c]) == 1:
            return 'cell %d has one candidate and is not filled' % c


def p_align(ch, contents):
    for b in R.BOXES:
        for l in LINES:
            both = set(b) & set(l)
            if both:
                for d in D9:
                    for g, h in ((b, l), (l, b)):
                        w = where(ch, d, g)
                        if len(w) > 1 and both.issuperset(w):
                            left = where(ch, d, set(h) - both)
                            if left:
                                return 'digit %d is confined to %s but still allowed in %s' % (d, w, left)


def p_pair(ch, contents):
    two = {}
    for d in D9:
        for g in R.GROUPS:
            w = where(ch, d, g)
            if len(w) == 2:
                two.setdefault(tuple(sorted(w)), set()).add(d)
    for w, ds in two.items():
        if len(ds) == 2:
            for c in w:
                if set(ch[c]) - ds:
                    return 'digits %s own cells %s but others remain there: %s' % (sorted(ds), w, ch[c])


def p_triad(ch, contents):
    for b in R.BOXES:
        for l in LINES:
            both = set(b) & set(l)
            if both:
                forced = [d for d in D9 if both.issuperset(where(ch, d, b)) or both.issuperset(where(ch, d, l))]
                if len(forced) == 3:
                    for c in both:
                        if set(ch[c]) - set(forced):
                            return 'digits %s own cells %s but others remain: %s' % (forced, sorted(both), ch[c])
                    for d in forced:
                        if where(ch, d, (set(b) | set(l)) - both):
                            return 'digit %d belongs to cells %s but is allowed elsewhere' % (d, sorted(both))


def transversals(cells):
    """Cells of one digit that lie on a full placement of it inside `cells`: rows one after the other."""
    by = [[c for c in cells if c // 9 == r] for r in range(9)]
    used = set()

    def rec(r, cols, boxes, sofar):
        if r == 9:
            used.update(sofar)
            return True
        k = (r, cols, boxes)
        if k in dead:
            return False
        ok = False
        for c in by[r]:
            col, box = 1 << c % 9, 1 << (r // 3 * 3 + c % 9 // 3)
            if not (cols & col or boxes & box):
                k2 = (r, cols, boxes, c)
                if k2 in good:
                    # the rest is known to work: only the cells so far are news
                    used.update(sofar + (c,))
                    ok = True
                elif rec(r + 1, cols | col, boxes | box, sofar + (c,)):
                    good.add(k2)
                    ok = True
        if not ok:
            dead.add(k)
        return ok
    dead, good = set(), set()
    rec(0, 0, 0, ())
    return used


def p_nishio(ch, contents):
    for d in D9:
        cells = where(ch, d, range(81))
        if set(cells) - transversals(cells):
            return 'digit %d remains in cells on no full placement: %s' % (d, sorted(set(cells) - transversals(cells)))


def extendable(ch, g):
    """Candidates (c, d) of a group that belong to some assignment of all nine digits."""
    reach = [{0: set()}]
    for c in g:
        reach.append({})
        for m in reach[-2]:
            for d in ch[c]:
                if not m >> d & 1:
                    reach[-1].setdefault(m | 1 << d, set()).add((m, d))
    full = sum(1 << d for d in D9)
    alive, out = {full} & set(reach[9]), set()
    for k in range(9, 0, -1):
        nxt = set()
        for m in alive:
            for p, d in reach[k][m]:
                out.add((g[k - 1], d))
                nxt.add(p)
        alive = nxt
    return out


def p_subproblem(ch, contents):
    for g in R.GROUPS:
        ok = extendable(ch, g)
        for c in g:
            for d in ch[c]:
                if (c, d) not in ok:
                    return 'digit %d in cell %d extends to no assignment of its group' % (d, c)


def edges_pair(ch):
    """Labelled edges between the only two cells of a digit in a group."""
    E = {}
    for d in D9:
        for g in R.GROUPS:
            w = where(ch, d, g)
            if len(w) == 2:
                for a, b in (w, w[::-1]):
                    E.setdefault((a, b), set()).add(d)
    return E


def edges_value(ch):
    """Labelled edges between cells with two candidates each, sharing one, in a common group."""
    E = {}
    two = [c for c in range(81) if len(ch[c]) == 2]
    for a in two:
        for b in two:
            if b in R.PEERS[a]:
                for d in set(ch[a]) & set(ch[b]):
                    E.setdefault((a, b), set()).add(d)
    return E


def walks(E):
    """Successors of every labelled edge in walks whose successive labels differ."""
    arcs = [(a, b, d) for (a, b), L in E.items() for d in L]
    out = {}
    for e in arcs:
        out.setdefault(e[0], []).append(e)
    return {e: [f for f in out.get(e[1], ()) if f[2] != e[2]] for e in arcs}


def reach(W, starts):
    seen, todo = set(starts), list(starts)
    while todo:
        for f in W[todo.pop()]:
            if f not in seen:
                seen.add(f)
                todo.append(f)
    return seen


def on_cycles(W):
    """Labelled edges on closed walks of that kind."""
    return [e for e in W if e in reach(W, W[e])]


def p_bilocal(ch, contents):
    at = {}
    for a, b, d in on_cycles(walks(edges_pair(ch))):
        at.setdefault(a, set()).add(d)
        at.setdefault(b, set()).add(d)
    for c, ds in at.items():
        if len(ds) == 2 and set(ch[c]) - ds:
            return 'cell %d lies on a cycle labelled %s but allows %s' % (c, sorted(ds), ch[c])


def p_bivalue(ch, contents):
    for a, b, d in on_cycles(walks(edges_value(ch))):
        for g in R.GROUPS:
            if a in g and b in g and where(ch, d, set(g) - {a, b}):
                return 'digit %d is tied to cells %d and %d but allowed elsewhere in their group' % (d, a, b)


def p_path(ch, contents):
    W = walks(edges_pair(ch))
    starts = {}
    for e in W:
        starts.setdefault((e[0], e[2]), []).append(e)
    for (c, d), S in starts.items():
        if not contents[c]:
            for a, b, dd in reach(W, S):
                if dd == d and where(ch, d, set(R.PEERS[c]) & set(R.PEERS[b])):
                    return 'digit %d is in cell %d or %d but allowed in a common neighbour' % (d, c, b)
    W = walks(edges_value(ch))
    starts = {}
    for e in W:
        starts.setdefault((e[0], e[2]), []).append(e)
    for (c, other), S in starts.items():
        if not contents[c]:
            d, = set(ch[c]) - {other}
            for a, b, dd in reach(W, S):
                if set(ch[b]) - {dd} == {d} and where(ch, d, set(R.PEERS[c]) & set(R.PEERS[b])):
                    return 'digit %d is in cell %d or %d but allowed in a common neighbour (two-candidate cells)' % (d, c, b)


RECT = [(r1, r2, c1, c2) for r1, r2 in combinations(range(9), 2) for c1, c2 in combinations(range(9), 2) if (r1 // 3 == r2 // 3) != (c1 // 3 == c2 // 3)]


def p_rectangle(ch, contents, given):
    for r1, r2, c1, c2 in RECT:
        corners = [9 * r + c for r in (r1, r2) for c in (c1, c2)]
        if not any(given[c] for c in corners):
            for k in corners:
                rest = [ch[c] for c in corners if c != k]
                if len(rest[0]) == 2 and rest[0] == rest[1] == rest[2] and len(ch[k]) > 2 and set(rest[0]) & set(ch[k]):
                    return 'corners %s have candidates %s and the fourth corner still allows one of them: %s' % ([c for c in corners if c != k], rest[0], ch[k])


PROMISE = {'locate': p_locate, 'eliminate': p_eliminate, 'align': p_align, 'pair': p_pair, 'triad': p_triad, 'nishio': p_nishio, 'subproblem': p_subproblem}
GRAPH = {'bilocal': p_bilocal, 'bivalue': p_bivalue, 'path': p_path}


# -- running the rules ------------------------------------------------------------------------

def settle(ctx, grid, names, limit=400):
    """Apply the rules one after the other until none of them changes anything; False on a contradiction."""
    S, rl = lib('sudoku'), rules()
    for _ in range(limit):
        k = key(grid)
        for n in names:
            grid.progress = False           # as a solver step does
            try:
                ctx.call(rl[n], grid)
            except S.BadSudoku:
                return False
        if key(grid) == k:
            return True
    ctx.check(False, names, 'never stop changing the grid')


def promised(ctx, grid, names, desc, given=None, graph=True):
    """Settle copies of the grid under each rule and look for deductions left."""
    for n in names:
        ctx.case(desc, n, state=False)
        g = clone(grid)
        k = key(g)
        if settle(ctx, g, (n,)):
            left = PROMISE[n](key(g)[1], g.contents)
            ctx.check(not left, n, 'leaves a deduction it describes:', left)
            ctx.outcome(n, key(g) != k)
    if graph:
        for n, need in (('bilocal', ('pair', 'bilocal')), ('bivalue', ('bivalue',)), ('path', ('pair', 'bilocal', 'bivalue', 'path'))):
            ctx.case(desc, need, state=False)
            g = clone(grid)
            k = key(g)
            if settle(ctx, g, need):
                for m in need if n == 'path' else (n,):
                    left = {**PROMISE, **GRAPH}[m](key(g)[1], g.contents)
                    ctx.check(not left, m, 'leaves a deduction it describes:', left)
                ctx.outcome(n, key(g) != k)
    if given is not None:
        ctx.case(desc, 'rectangle', state=False)
        g = clone(grid)
        k = key(g)
        if settle(ctx, g, ('rectangle',)):
            left = p_rectangle(key(g)[1], g.contents, given)
            ctx.check(not left, 'rectangle leaves a deduction it describes:', left)
            ctx.outcome('rectangle', key(g) != k)


def walk(ctx, puzzles, i, k, every):
    """The states the solver passes through; a step that finds nothing leaves nothing the rules describe."""
    S = lib('sudoku')
    for givens in shard(puzzles, i, k):
        for unique in (True, False):
            g = make(givens, unique, False)
            g.twosat = False
            n = 0
            while True:
                ctx.s += 1
                if n % every == 0:
                    promised(ctx, g, PROMISE, (R.text(givens), unique, 'after', n, 'steps'), givens if unique else None)
                if not unique:
                    for off in ('rectangle', 'trapezoid', 'twosat'):
                        ctx.case(R.text(givens), 'after', n, 'steps', off, 'switched off', state=False)
                        h = clone(g)
                        ctx.call(rules()[off], h)
                        ctx.equal(key(h), key(g), 'grid after a rule that is switched off')
                n += 1
                ctx.case(R.text(givens), unique, 'step', n, state=False)
                if not ctx.call(S.step, g):
                    break
            if not g.complete():
                ch = key(g)[1]
                for name, p in list(PROMISE.items()) + list(GRAPH.items()):
                    left = p(ch, g.contents)
                    ctx.check(not left, 'the solver gives up although', name, 'describes a deduction:', left)
            ctx.outcome('solver', g.complete())
            q = make(givens, unique, False)
            ctx.case(R.text(givens), unique, 'quick steps', state=False)
            while ctx.call(S.step, q, True):
                ctx.s += 1
            if not q.complete():
                ch = key(q)[1]
                for name in ('locate', 'eliminate', 'align', 'pair', 'triad'):
                    left = PROMISE[name](ch, q.contents)
                    ctx.check(not left, 'the quick solver gives up although', name, 'describes a deduction:', left)
        if ctx.overtime('walk'):
            return


def state(cands):
    """A grid with exactly these candidates and nothing filled in."""
    g = lib('sudoku').Sudoku()
    for d in D9:
        g.unplace(d, sum(1 << c for c in range(81) if d not in cands[c]))
    return g


def solved(which):
    return R.CYCLIC if which is None else R.completions(R.HARD[which])[0]


def extra(which, add):
    sol = solved(which)
    cands = [{sol[c]} for c in range(81)]
    for c, d in add:
        cands[c].add(d)
    return cands


def check_state(ctx, cands, names, desc, graph=False):
    ctx.s += 1
    g = ctx.call(state, cands)
    ctx.equal([set(x) for x in key(g)[1]], [set(x) for x in cands], 'candidates')
    promised(ctx, g, names, desc, None, graph)


def one_digit(ctx, which, d, cells, names, i, k):
    """Every subset of the given cells as further places of one digit."""
    sol = solved(which)
    free = [c for c in cells if sol[c] != d]
    for m in shard(range(1 << len(free)), i, k):
        add = [(c, d) for j, c in enumerate(free) if m >> j & 1]
        check_state(ctx, extra(which, add), names, ('solution', which, 'and', add))
        if ctx.overtime('one digit'):
            return


def box_line(ctx, which, b, line, i, k, names=('align',)):
    """One digit: every subset of a box and a line through it."""
    sol = solved(which)
    cells = sorted(set(R.BOXES[b]) | set(line))
    d = sol[R.BOXES[b][(b * 5) % 9]]
    one_digit(ctx, which, d, cells, names, i, k)


def few(ctx, which, size, names, cells, i, k, graph=False):
    """Every set of `size` further candidates in some cells."""
    sol = solved(which)
    false = [(c, d) for c in cells for d in D9 if d != sol[c]]
    for add in shard(combinations(false, size), i, k):
        check_state(ctx, extra(which, add), names, ('solution', which, 'and', add), graph)
        if ctx.overtime('few'):
            return


def permuted(ctx, which, g, size, i, k):
    """Two further assignments of some cells of a group, each a permutation of their digits."""
    from itertools import permutations
    sol = solved(which)
    for sub in shard(combinations(R.GROUPS[g], size), i, k):
        ds = [sol[c] for c in sub]
        ps = list(permutations(ds))
        for p in ps:
            for q in ps[::5]:
                check_state(ctx, extra(which, list(zip(sub, p)) + list(zip(sub, q))), ('subproblem', 'pair', 'triad', 'locate', 'eliminate'), ('solution', which, 'group', g, sub, p, q))
        if ctx.overtime('permuted'):
            return


def digit_sets(ctx, which, size, i, k):
    """All candidates the givens allow for some digits; for the others the solution alone."""
    givens = R.HARD[which]
    sols = R.completions(givens)
    false = false_candidates(givens, sols)
    for ds in shard(combinations(D9, size), i, k):
        for area in [range(81)] + R.GROUPS:
            cands = extra(which, [(c, d) for c, d in false if d in ds and c in area])
            check_state(ctx, cands, PROMISE, ('puzzle', which, 'digits', ds, 'area', list(area)), True)
        if ctx.overtime('digit sets'):
            return


def rectangles(ctx, which, i, k):
    """Three corners with the same two candidates, the fourth with one or two more."""
    sol = solved(which)
    for r1, r2, c1, c2 in shard(RECT, i, k):
        corners = [9 * r + c for r in (r1, r2) for c in (c1, c2)]
        for kk in corners:
            rest = [c for c in corners if c != kk]
            x, y, z = [(r1 + 2 * c1 + kk * j) % 9 + 1 for j in (1, 2, 4)]
            if len({x, y, z}) < 3:
                x, y, z = 1, 5, 9
            cands = extra(which, [])
            for c in rest:
                cands[c] = {x, y}
            for more in ({x, y, z}, {x, z, z % 9 + 1}):
                cands[kk] = more
                ctx.case('rectangle', corners, kk, x, y, more)
                g = ctx.call(state, cands)
                g.assume_unique = True
                if settle(ctx, g, ('rectangle',)):
                    left = p_rectangle(key(g)[1], g.contents, [0] * 81)
                    ctx.check(not left, 'rectangle leaves a deduction it describes:', left)
        if ctx.overtime('rectangles'):
            return


def hopeless(ctx, which, i, k):
    """States in which a digit has no cell in a group, or a cell no digit, or a group no assignment: the rule that looks there says so."""
    S, rl = lib('sudoku'), rules()
    for cells in shard([(c,) for c in range(81)] + [p for g in R.GROUPS for p in combinations(g, 2)], i, k):
        sol = solved(which)
        for mode in ('none', 'same'):
            cands = extra(which, [])
            for c in cells:
                cands[c] = set() if mode == 'none' else {sol[cells[0]]}
            ctx.case(which, cells, mode)
            ch = [sorted(x) for x in cands]
            nodigit = any(not where(ch, d, g) for d in D9 for g in R.GROUPS)
            nocell = any(not x for x in ch)
            nogroup = any(not extendable(ch, g) for g in R.GROUPS)
            for n, bad in (('locate', nodigit), ('eliminate', nocell), ('subproblem', nogroup)):
                if bad:
                    g = ctx.call(state, cands)
                    g.progress = False
                    ctx.raises(S.BadSudoku, rl[n], g)
            ctx.outcome(nodigit, nocell, nogroup)


def units(tier):
    q = tier == 'quick'
    U = []
    names = ('locate', 'eliminate', 'align', 'pair', 'triad', 'nishio', 'subproblem')
    for i in range(16):
        U.append(('walk-%d' % i, walk, dict(puzzles=R.LADDER + R.HARD, i=i, k=16, every=4 if q else 1)))
    for b in range(9) if not q else (0, 4, 5):
        for line in [l for l in LINES if set(l) & set(R.BOXES[b])][::1 if not q else 3]:
            U.append(('box%d-%d' % (b, LINES.index(line)), box_line, dict(which=(None, 0, 3)[b % 3], b=b, line=line, i=0, k=1 if not q else 8)))
    for w, cells in ((None, list(range(0, 12))), (0, [9 * r + c for r in (0, 4, 8) for c in (0, 3, 4, 8)]), (5, [9 * r + c for r in range(0, 9, 2) for c in (1, 7)])):
        for d in (1, 5, 9):
            U.append(('digit%s-%d' % (w, d), one_digit, dict(which=w, d=d, cells=cells, names=('nishio', 'align', 'locate'), i=0, k=1 if not q else 4)))
    for w in (None, 1):
        U.append(('one%s' % w, few, dict(which=w, size=1, names=names, cells=list(range(81)), i=0, k=1 if not q else 2, graph=True)))
    for i in range(4):
        U.append(('row-%d' % i, few, dict(which=2, size=2, names=('subproblem', 'align', 'locate', 'eliminate'), cells=R.ROWS[3], i=i, k=4 if not q else 12)))
        U.append(('box-%d' % i, few, dict(which=4, size=2, names=('subproblem', 'align', 'triad', 'pair'), cells=R.BOXES[7], i=i, k=4 if not q else 12)))
        U.append(('permuted-%d' % i, permuted, dict(which=0, g=i * 7, size=4, i=i, k=16 if q else 1)))
        U.append(('digits2-%d' % i, digit_sets, dict(which=(0, 3, 6, 9)[i], size=2, i=0, k=12 if q else 1)))
        U.append(('digits4-%d' % i, digit_sets, dict(which=(1, 4, 7, 10)[i], size=4, i=0, k=40 if q else 2)))
        U.append(('rectangles-%d' % i, rectangles, dict(which=None, i=i, k=8 if q else 4)))
        U.append(('hopeless-%d' % i, hopeless, dict(which=(None, 0)[i % 2], i=i // 2, k=2)))
    return U
