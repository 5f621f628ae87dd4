"""C47 soundness of every Sudoku deduction rule."""
import copy
import io
from itertools import combinations, product
from mc import sudokuref as R
from mc.core import lib
from mc.gen import shard

RULE = ('breadth-first over every order of the 15 rules to a depth bound from solvable and unsolvable puzzles; every rule in every state the solver passes through on %d graded puzzles;' % len(R.LADDER) + ' every rule, and the chains the graph rules need, on every candidate state of bounded families: each set of one or two '
        'false candidates left in place, each choice of false candidates in a window, each pair or triple of digits left open, with logging on and off')

CHAIN = ('bilocal', 'bivalue', 'repeat', 'path', 'conflict')


def rules():
    return {n: f for n, f, _ in lib('sudoku').rules}


def key(grid):
    return tuple(grid.contents), tuple(tuple(grid.choices(c)) for c in range(81))


def sound(ctx, grid, sols, what):
    """Every solution of the puzzle must still be there."""
    ch = [grid.choices(c) for c in range(81)]
    for s in sols:
        for c in range(81):
            if s[c] not in ch[c]:
                ctx.check(False, what, 'removes', s[c], 'from cell', c, 'although a solution has it there')
            if grid.contents[c] and grid.contents[c] != s[c]:
                ctx.check(False, what, 'places', grid.contents[c], 'in cell', c, 'although a solution has', s[c], 'there')


def consistent(ctx, grid, what):
    """A filled cell is its own only candidate unless the state is contradictory: nothing more is claimed."""
    for c in range(81):
        d = grid.contents[c]
        ctx.check(0 <= d <= 9, what, 'leaves a bad digit', d, 'in cell', c)


def apply(ctx, grid, name, rule, sols):
    """Apply a rule; False when it reports a contradiction."""
    S = lib('sudoku')
    try:
        ctx.call(rule, grid)
    except S.BadSudoku as e:
        ctx.check(not sols, name, 'reports a contradiction for a solvable grid:', str(e))
        return False
    sound(ctx, grid, sols, name)
    consistent(ctx, grid, name)
    return True


def make(givens, unique, log):
    S = lib('sudoku')
    g = S.Sudoku(givens)
    g.assume_unique = unique
    g.twosat = True
    if log:
        g.logstream = io.StringIO()
    return g


def clone(grid):
    stream = grid.logstream
    grid.logstream = None
    g = copy.deepcopy(grid)
    grid.logstream = stream
    g.logstream = io.StringIO() if stream else stream
    return g


# -- orders of rules -------------------------------------------------

def orders(ctx, givens, depth, log, stuck=False, skip=()):
    S = lib('sudoku')
    sols = R.completions(givens, 200)
    if len(sols) > 200:
        return
    unique = len(sols) == 1
    try:
        start = make(givens, unique, log)
    except S.BadSudoku:
        ctx.check(not sols, 'a solvable puzzle is refused')
        return
    rl = [(n, f) for n, f in rules().items() if n not in skip]
    if stuck:
        start.assume_unique = False
        ctx.case(R.text(givens), 'quick steps first')
        try:
            while ctx.call(S.step, start, True):
                sound(ctx, start, sols, 'a quick step')
        except S.BadSudoku:
            ctx.check(not sols, 'a quick step reports a contradiction for a solvable puzzle')
            return
        start.assume_unique = unique
    level = [(start, (), (None, None, None))]
    seen = {(key(start), (None, None, None))}
    for d in range(depth):
        nxt = []
        for grid, hist, snap in level:
            for n, rule in rl:
                ctx.case(R.text(givens), 'log' if log else '', hist + (n,), state=False)
                g = clone(grid)
                if not apply(ctx, g, n, rule, sols):
                    ctx.outcome('contradiction')
                    continue
                k = key(g)
                changed = k != key(grid)
                ctx.outcome(n, 'progress' if changed else 'none')
                sn = (k if n == 'pair' else None if changed else snap[0], k if n == 'bilocal' else snap[1], k if n == 'bivalue' else snap[2])
                kk = (k, sn)
                if kk not in seen:
                    seen.add(kk)
                    ctx.s += 1
                    nxt.append((g, hist + (n,), sn))
            if ctx.overtime('orders'):
                return
        level = nxt


def order_family(ctx, kind, which, depth, log, i, k, stuck=False):
    def source():
        if kind == 'hard':
            yield R.HARD[which]
        elif kind == 'advanced':
            yield advanced(R.HARD[which])
        elif kind == 'bad':
            base = R.HARD[which]
            for c in range(0, 81):
                for d in range(1, 10):
                    if not base[c] and all(base[p] != d for p in R.PEERS[c]):
                        g = base[:c] + [d] + base[c + 1:]
                        if not R.completions(g, 0):
                            yield g
        elif kind == 'multi':
            base = R.HARD[which]
            for c in range(81):
                if base[c]:
                    g = base[:c] + [0] + base[c + 1:]
                    if len(R.completions(g, 60)) <= 60:
                        yield g
        elif kind == 'digits':
            sol = R.CYCLIC if which is None else R.completions(R.HARD[which])[0]
            for ds in combinations(range(1, 10), 2):
                yield [0 if x in ds else x for x in sol]
    for g in shard(source(), i, k):
        orders(ctx, g, depth, log, stuck)


def advanced(givens):
    """The puzzle with everything the two simplest rules find filled in as givens."""
    g = list(givens)
    while True:
        ch = [[d for d in range(1, 10) if all(g[p] != d for p in R.PEERS[c])] if not g[c] else [g[c]] for c in range(81)]
        for grp in R.GROUPS:
            for d in range(1, 10):
                where = [c for c in grp if d in ch[c]]
                if len(where) == 1 and not g[where[0]]:
                    g[where[0]] = d
                    break
            else:
                continue
            break
        else:
            for c in range(81):
                if not g[c] and len(ch[c]) == 1:
                    g[c] = ch[c][0]
                    break
            else:
                return g


def walk(ctx, puzzles, log, i, k):
    """Every rule, and every rule after the three that set up its graphs, in each state the solver passes through."""
    S = lib('sudoku')
    rl = rules()
    for givens, unique in shard(product(puzzles, (True, False)), i, k):
        sols = R.completions(givens)
        g = make(givens, unique, False)
        n = 0
        while True:
            base = clone(g)
            if log:
                base.logstream = io.StringIO()
            for name, rule in rl.items():
                if name in CHAIN[2:]:
                    continue
                ctx.case(R.text(givens), unique, n, name, state=False)
                apply(ctx, clone(base), name, rule, sols)
            for name in CHAIN[2:]:
                h = clone(base)
                for pre in ('pair', 'bilocal', 'bivalue', name):
                    ctx.case(R.text(givens), unique, n, 'pair', 'bilocal', 'bivalue', name, state=False)
                    if not apply(ctx, h, pre, rl[pre], sols):
                        break
            ctx.s += 1
            n += 1
            before = key(g)
            ctx.case(R.text(givens), unique, 'step', n, state=False)
            try:
                more = ctx.call(S.step, g)
            except S.BadSudoku as e:
                ctx.check(False, 'a step reports a contradiction for a solvable puzzle:', str(e))
            sound(ctx, g, sols, 'a step')
            ctx.check(bool(more) or key(g) == before, 'a step makes progress and says it did not')
            ctx.check(not more or key(g) != before, 'a step says it made progress and did not')
            if not more:
                break
            ctx.check(n < 1000, 'the steps do not end')
        if ctx.overtime('walk'):
            return


# -- candidate states ------------------------------------------------

def strike(grid, cands):
    """Leave exactly the candidates cands[c] (and what they contain) in every cell."""
    for c in range(81):
        for d in grid.choices(c):
            if d not in cands[c]:
                grid.unplace(d, 1 << c)


def everyrule(ctx, givens, cands, sols, unique, log, names=None, desc=()):
    """Each rule alone, and the graph rules in their chain, from one candidate state."""
    S = lib('sudoku')
    base = make(givens, unique, False)
    strike(base, cands)
    if log:
        base.logstream = io.StringIO()
    rl = rules()
    hit = 0
    before = key(base)
    for n in names or rl:
        if n in CHAIN:
            continue
        if n in ('rectangle', 'trapezoid') and not unique:
            continue
        ctx.case(desc, n, state=False)
        g = clone(base)
        if apply(ctx, g, n, rl[n], sols) and key(g) != before:
            hit += 1
            ctx.outcome(n)
    if names and not set(names) & set(CHAIN):
        return hit
    ctx.case(desc, 'pair', state=False)
    g = clone(base)
    while True:
        k = key(g)
        if not apply(ctx, g, 'pair', rl['pair'], sols):
            return hit
        if key(g) == k:
            break
    pre = g
    for chain in (('bilocal',), ('bivalue', 'bilocal', 'repeat'), ('bilocal', 'bivalue', 'path'), ('bilocal', 'bivalue', 'conflict'), ('bilocal', 'bivalue', 'repeat', 'path', 'conflict')):
        g = clone(pre)
        for n in chain:
            ctx.case(desc, 'pair', chain, n, state=False)
            k = key(g)
            if not apply(ctx, g, n, rl[n], sols):
                break
            if key(g) != k:
                hit += 1
                ctx.outcome(n)
    return hit


def false_candidates(givens, sols):
    """Candidates allowed by the givens that no solution uses."""
    out = []
    for c in range(81):
        if not givens[c]:
            for d in range(1, 10):
                if all(givens[p] != d for p in R.PEERS[c]) and all(s[c] != d for s in sols):
                    out.append((c, d))
    return out


def exact(givens, sols):
    return [{s[c] for s in sols} for c in range(81)]


def leftover(ctx, which, size, i, k, log, names=None):
    """All but `size` false candidates struck, every choice of them."""
    givens = R.HARD[which]
    sols = R.completions(givens)
    false = false_candidates(givens, sols)
    for cs in shard(combinations(false, size), i, k):
        cands = exact(givens, sols)
        for c, d in cs:
            cands[c].add(d)
        ctx.s += 1
        everyrule(ctx, givens, cands, sols, True, log, names, ('puzzle', which, 'left', cs))
        if ctx.overtime('leftover'):
            return


def window(ctx, which, cells, i, k, log, names=None):
    """In each cell of a window at most one false candidate stays; outside the window none."""
    givens = R.HARD[which]
    sols = R.completions(givens)
    false = {}
    for c, d in false_candidates(givens, sols):
        false.setdefault(c, []).append(d)
    use = [c for c in cells if c in false]
    for pick in shard(product(*[[0] + false[c] for c in use]), i, k):
        cands = exact(givens, sols)
        for c, d in zip(use, pick):
            if d:
                cands[c].add(d)
        ctx.s += 1
        everyrule(ctx, givens, cands, sols, True, log, names, ('puzzle', which, 'window', list(zip(use, pick))))
        if ctx.overtime('window'):
            return


def digitsets(ctx, which, size, most, i, k, log):
    """Candidates of every chosen set of digits stay in the cells allowing them; the others are struck."""
    givens = R.HARD[which]
    sols = R.completions(givens)
    false = false_candidates(givens, sols)
    boxes = [x for j in range(most + 1) for x in combinations(range(9), j)]
    for ds in shard(combinations(range(1, 10), size), i, k):
        for lines in boxes:
            for kind in (R.ROWS, R.COLS, R.BOXES) if lines else (R.ROWS,):
                area = {c for x in lines for c in kind[x]} if lines else set(range(81))
                cands = exact(givens, sols)
                for c, d in false:
                    if d in ds and c in area:
                        cands[c].add(d)
                ctx.s += 1
                everyrule(ctx, givens, cands, sols, True, log, None, ('puzzle', which, 'digits', ds, 'area', sorted(area)))
        if ctx.overtime('digitsets'):
            return


def rare(ctx, which, size, i, k, log):
    """All but `size` of the false candidates present."""
    givens = R.HARD[which]
    sols = R.completions(givens)
    false = false_candidates(givens, sols)
    for cs in shard(combinations(false, size), i, k):
        cands = exact(givens, sols)
        for c, d in false:
            if (c, d) not in cs:
                cands[c].add(d)
        ctx.s += 1
        everyrule(ctx, givens, cands, sols, True, log, None, ('puzzle', which, 'struck', cs))
        if ctx.overtime('rare'):
            return


def manysol(ctx, which, i, k, log):
    """Puzzles with several solutions: states made of exactly the candidates of some of the false ones in one group."""
    base = R.CYCLIC if which is None else R.completions(R.HARD[which])[0]
    for ds in shard(combinations(range(1, 10), 3), i, k):
        givens = [0 if x in ds else x for x in base]
        sols = R.completions(givens, 300)
        if len(sols) > 300:
            ctx.outcome('more than 300 solutions')
            continue
        false = false_candidates(givens, sols)
        for g in [()] + R.GROUPS:
            cands = exact(givens, sols)
            for c, d in false:
                if c in g:
                    cands[c].add(d)
            ctx.s += 1
            everyrule(ctx, givens, cands, sols, False, log, None, ('digits', ds, 'removed from', which, 'group', g))
        if ctx.overtime('manysol'):
            return


def units(tier):
    q = tier == 'quick'
    U = []
    n = len(R.HARD)
    for h in range(n):
        U.append(('stuck%d' % h, order_family, dict(kind='hard', which=h, depth=4 if q else 6, log=h % 2 == 0, i=0, k=1, stuck=True)))
    for h in range(n):
        for kind in ('hard', 'advanced'):
            U.append(('%s%d' % (kind, h), order_family, dict(kind=kind, which=h, depth=3 if q else 4, log=h % 2 == 1, i=0, k=1)))
    for i in range(8):
        U.append(('walk-%d' % i, walk, dict(puzzles=R.LADDER[i % 2::6] if q else R.LADDER, log=i % 2 == 0, i=i // 2, k=4)))
    for h in (1,) if q else range(n):
        k = 12 if q else 4
        for i in range(4):
            U.append(('bad%d-%d' % (h, i), order_family, dict(kind='bad', which=h, depth=2, log=True, i=i, k=k)))
            U.append(('badstuck%d-%d' % (h, i), order_family, dict(kind='bad', which=h, depth=3, log=True, i=i, k=k, stuck=True)))
            U.append(('multi%d-%d' % (h, i), order_family, dict(kind='multi', which=h, depth=3, log=i % 2 == 0, i=i, k=4, stuck=True)))
    for h in (0, 3, 7) if q else range(n):
        U.append(('left1-%d' % h, leftover, dict(which=h, size=1, i=0, k=1, log=True)))
        U.append(('rare%d' % h, rare, dict(which=h, size=1, i=0, k=1, log=h == 3)))
    if not q:
        for h in range(n):
            for i in range(8):
                U.append(('left2-%d-%d' % (h, i), leftover, dict(which=h, size=2, i=i, k=8, log=False)))
        for h in range(n):
            for i in range(8):
                for top in (0, 3, 6):
                    U.append(('window%d-%d-%d' % (h, top, i), window, dict(which=h, cells=[9 * r + c for r in (top, top + 1) for c in range(6)], i=i, k=8, log=i == 0)))
    for h, cells in ((0, (0, 1, 2, 9, 10, 11)), (3, (27, 31, 35, 36, 40, 44)), (9, (4, 5, 13, 14, 22, 23))):
        for i in range(2):
            U.append(('window%d-%d' % (h, i), window, dict(which=h, cells=cells, i=i, k=2, log=i == 0)))
    for h in (6, 7) if q else range(n):
        for i in range(4):
            U.append(('digits%d-%d' % (h, i), digitsets, dict(which=h, size=2, most=1 if q else 2, i=i, k=4, log=i == 0)))
        if not q:
            for i in range(8):
                U.append(('digitsc%d-%d' % (h, i), digitsets, dict(which=h, size=3, most=1, i=i, k=8, log=i == 0)))
    for w in (None, 0, 1):
        for i in range(2):
            U.append(('many%s-%d' % (w, i), manysol, dict(which=w, i=i, k=20 if q else 2, log=False)))
    return U
