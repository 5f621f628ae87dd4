"""C46 Sudoku search against exhaustive completion."""
import io
from itertools import combinations, product
from mc import sudokuref as R
from mc.core import lib
from mc.gen import shard

RULE = ('every removal of two or three digits, two lines or two squares from completed grids; every subset of cells removed from two-band windows; every single extra given, dropped given and altered given of hard '
        'puzzles; puzzles listed as placements with every further placement in three positions; all with both rule sets, with and without logging and the 2-satisfiability rule')


def without(base, cells):
    cells = set(cells)
    return [0 if c in cells else base[c] for c in range(81)]


def bases():
    return [R.CYCLIC] + [list(R.completions(h)[0]) for h in R.HARD[:3]]


def digits(k, b):
    base = bases()[b]
    for ds in combinations(range(1, 10), k):
        yield without(base, [c for c in range(81) if base[c] in ds])


def lines(b):
    base = bases()[b]
    for kind in (R.ROWS, R.COLS, R.BOXES):
        for x, y in combinations(kind, 2):
            yield without(base, x + y)
        for x in kind:
            for other in (R.ROWS, R.COLS, R.BOXES):
                if other is not kind:
                    for y in other:
                        yield without(base, x + y)


def subsets(b, top, cols):
    base = bases()[b]
    cells = [9 * r + c for r in range(top, top + 3) for c in cols]
    for bits in product((0, 1), repeat=len(cells)):
        yield without(base, [c for c, x in zip(cells, bits) if x])


def extra(h):
    base = R.HARD[h]
    for c in range(81):
        if not base[c]:
            for d in range(1, 10):
                if all(base[p] != d for p in R.PEERS[c]):
                    yield base[:c] + [d] + base[c + 1:]


def dropped(h, most):
    base = R.HARD[h]
    givens = [c for c in range(81) if base[c]]
    for k in range(1, most + 1):
        for cs in combinations(givens, k):
            yield without(base, cs)


def altered(h):
    base = R.EASY if h < 0 else R.HARD[h]
    for c in range(81):
        if base[c]:
            for d in range(1, 10):
                if d != base[c]:
                    yield base[:c] + [d] + base[c + 1:]


def partial(b):
    """The first k cells of a completed grid, in three orders."""
    base = bases()[b]
    orders = [list(range(81)), [9 * (i % 9) + i // 9 for i in range(81)], [c for x in R.BOXES for c in x]]
    for o in orders:
        for k in range(82):
            yield without(base, o[k:])
            yield without(base, o[:81 - k])


FAMILIES = dict(digits=digits, lines=lines, subsets=subsets, extra=extra, dropped=dropped, altered=altered, partial=partial)
FORMS = {
    'list': list,
    'text': R.text,
    'iter': iter,
    'pairs': lambda g: [(g[c], c) for c in reversed(range(81)) if g[c]],
    'chars': lambda g: [str(d) for d in g],
}


def run(ctx, givens, want, fast, log, sat, form, struck=()):
    S = lib('sudoku')
    stream = io.StringIO() if log else None
    try:
        grid = ctx.call(S.Sudoku, FORMS[form](givens))
    except S.BadSudoku:
        ctx.check(R.clash(givens) or not want, 'a solvable puzzle is refused as contradictory')
        return
    for d, c in struck:
        ctx.call(grid.unplace, d, 1 << c)
    if log:
        grid.logstream = stream
    if sat:
        grid.twosat = True
    got, held = [], []
    for sol in ctx.call(S.all_solutions, grid, fast):
        ctx.t += 1
        got.append(tuple(sol))
        held.append(sol)
        if len(got) > len(want) + 3:
            break
    for g in got:
        ctx.check(g in want, 'a grid that is no completion is generated:', R.text(g))
    ctx.equal(len(got), len(set(got)), 'solutions generated more than once')
    ctx.equal(len(got), len(want), 'number of solutions')
    ctx.equal([tuple(s) for s in held], got, 'solutions after the search went on')
    if log:
        ctx.check(stream.getvalue().strip() or not want, 'nothing is logged')


def puzzle(ctx, givens, configs, forms, LIMIT):
    S = lib('sudoku')
    want = R.completions(givens, LIMIT)
    if len(want) > LIMIT:
        ctx.outcome('more than %d solutions (uniqueness only)' % LIMIT)
    else:
        want = set(want)
        for n, (fast, log, sat) in enumerate(configs):
            for form in forms if n == 0 else forms[:1]:
                ctx.case(R.text(givens), 'fast' if fast else 'all rules', 'log' if log else 'no log', 'twosat' if sat else '', form, state=n == 0 and form == forms[0])
                run(ctx, givens, want, fast, log, sat, form)
        ctx.outcome(min(len(want), 9))
    ctx.case(R.text(givens), 'uniqueness', state=False)
    try:
        grid = S.Sudoku(givens)
    except S.BadSudoku:
        ctx.check(not want, 'a solvable puzzle is refused as contradictory')
        return
    got = ctx.call(S.unisolvent, grid)
    ctx.equal(bool(got), len(want) == 1, 'uniqueness test')


def family(ctx, name, args, configs, forms, limit, i, k):
    for givens in shard(FAMILIES[name](*args), i, k):
        puzzle(ctx, givens, configs, forms, limit)
        if ctx.overtime(name):
            break


def strike(ctx, name, args, configs, limit, i, k):
    """Search grids from which candidates were ruled out beforehand."""
    for givens in shard(FAMILIES[name](*args), i, k):
        sols = R.completions(givens, limit)
        if not 1 < len(sols) <= limit:
            continue
        open_ = [c for c in range(81) if len({s[c] for s in sols}) > 1]
        for c in open_:
            for d in sorted({s[c] for s in sols}):
                want = {s for s in sols if s[c] != d}
                for fast, log, sat in configs:
                    ctx.case(R.text(givens), 'without', d, 'in cell', c, 'fast' if fast else 'all rules', 'log' if log else '', state=fast)
                    run(ctx, givens, want, fast, log, sat, 'list', [(d, c)])
        for c, e in zip(open_, open_[1:] + open_[:1]):
            for d in sorted({s[c] for s in sols}):
                for f in sorted({s[e] for s in sols}):
                    want = {s for s in sols if s[c] != d and s[e] != f}
                    ctx.case(R.text(givens), 'without', d, 'in cell', c, 'and', f, 'in cell', e)
                    run(ctx, givens, want, True, False, False, 'list', [(d, c), (f, e)])
        if ctx.overtime(name):
            break


def placements(ctx, b, ds):
    """Puzzles as (digit, cell) pairs, with every further pair before, after or among the others."""
    S = lib('sudoku')
    base = bases()[b]
    givens = without(base, [c for c in range(81) if base[c] in ds])
    sols = R.completions(givens, 1000)
    assert len(sols) < 1000
    pairs = [(givens[c], c) for c in range(80, -1, -1) if givens[c]]
    for c in range(81):
        for d in range(1, 10):
            want = {s for s in sols if s[c] == d}
            for at in (0, len(pairs) // 2, len(pairs)):
                seq = pairs[:at] + [(d, c)] + pairs[at:]
                ctx.case('pairs', R.text(givens), 'with', d, 'in cell', c, 'at', at)
                try:
                    grid = ctx.call(S.Sudoku, seq)
                except S.BadSudoku:
                    ctx.check(not want, 'a solvable puzzle is refused as contradictory')
                    continue
                got = []
                for sol in ctx.call(S.all_solutions, grid):
                    ctx.t += 1
                    got.append(tuple(sol))
                    if len(got) > len(want) + 3:
                        break
                ctx.check(len(got) == len(want) and set(got) == want, 'solutions', [R.text(g) for g in got], 'expected', len(want))
                ctx.outcome('pairs', min(len(want), 9))


PLAIN = [(True, False, False)]
BOTH = [(True, False, False), (False, True, False)]
ALL = [(True, False, False), (False, False, False), (False, True, True), (True, True, False), (False, True, False)]
ONE, FIVE = ['list'], list(FORMS)


def units(tier):
    q = tier == 'quick'
    U = []

    def add(label, name, args, configs, forms, k):
        for i in range(k):
            U.append(('%s-%d' % (label, i), family, dict(name=name, args=args, configs=configs, forms=forms, limit=24 if q else 150, i=i, k=k)))
    for h in range(12):
        add('dropped%d' % h, 'dropped', (h, 2 if h == 1 or not q else 1), ALL if not q else BOTH, ONE, 8 if h == 1 else 1)
    for h in ((11, 10) if q else range(12)):
        add('extra%d' % h, 'extra', (h,), ALL if not q else PLAIN if h == 11 else BOTH, ONE, 4)
    for b in range(4):
        add('digits2-%d' % b, 'digits', (2, b), ALL, FIVE, 1)
        add('lines-%d' % b, 'lines', (b,), BOTH, ONE, 2)
        add('partial-%d' % b, 'partial', (b,), ALL if b == 1 or not q else BOTH, FIVE if b == 1 else ONE, 3)
        if not q or b in (0, 2):
            add('digits3-%d' % b, 'digits', (3, b), BOTH, ONE, 4)
    for b in range(2 if q else 4):
        add('subsets-%d' % b, 'subsets', (b, 0, (0, 1, 3, 4)), PLAIN if q else BOTH, ONE, 2)
        if not q:
            add('subsetsb-%d' % b, 'subsets', (b, 3, (0, 4, 5, 8)), BOTH, ONE, 2)
    for b in range(4):
        for i in range(2):
            U.append(('strike%d-%d' % (b, i), strike, dict(name='digits', args=(2, b), configs=BOTH, limit=16, i=i, k=8 if q else 2)))
    for b in range(4):
        for i in range(2):
            U.append(('strikec%d-%d' % (b, i), strike, dict(name='digits', args=(3, b), configs=PLAIN if q else BOTH, limit=24 if q else 60, i=i, k=28 if q else 2)))
    for h in (0,) if q else range(12):
        for i in range(2):
            U.append(('strikeh%d-%d' % (h, i), strike, dict(name='dropped', args=(h, 1), configs=BOTH, limit=4 if q else 60, i=i, k=8 if q else 2)))
    for b in range(2 if q else 4):
        for ds in ((), (1, 2), (8, 9)):
            U.append(('placements%d-%s' % (b, ''.join(map(str, ds))), placements, dict(b=b, ds=ds)))
    add('altered', 'altered', (-1,), BOTH, ONE, 1)
    add('altered4', 'altered', (4,), BOTH, ONE, 2)
    return U
