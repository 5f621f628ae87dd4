"""C53 the Sudoku command line."""
import contextlib
import io
import re
import runpy
import sys
import warnings
import xml.etree.ElementTree
from itertools import combinations, product
from checks.c47 import key, make
from checks.c48 import Cells, POLICIES, Scripted, equivalent, symmetric, STAIRS
from mc import sudokuref as R
from mc.core import lib
from mc.gen import shard

RULE = ('every combination of the switches -t -2 -b -u -s -v and every output format name, in short and long spelling, on each test puzzle (quick: all formats on two puzzles, text on the rest); '
        'puzzles with 0 to 12 solutions under -b; puzzles of every difficulty total from 0 to 35 (thorough: to 84); four ways to write empty cells; permuted and generated puzzles under scripted draws; the informational options; the standard output parsed and compared')

FORMATS = {'text': 'text', 'txt': 'text', 't': 'text', 'numeric': 'numeric', 'num': 'numeric', 'n': 'numeric',
           'html': 'html', 'h': 'html', 'svg': 'svg', 's': 'svg'}
LONG = {'-t': '--translate', '-2': '--output-both', '-b': '--backtrack', '-u': '--unique', '-s': '--satisfiability', '-v': '--verbose',
        '-p': '--permute', '-g': '--generate', '-a': '--asymmetric', '-f': '--format', '-x': '--empty', '-0': '--blank', '-r': '--rules', '-l': '--levels'}
LEVELS = ['easy', 'moderate', 'tricky', 'difficult', 'evil', 'fiendish']


def run(ctx, argv, stdin, source=None):
    """Run the program; returns its output and error output."""
    lib('sudoku')
    out, err, inp = io.StringIO(), io.StringIO(), io.StringIO(stdin)
    old = sys.argv, sys.stdin
    import random
    saved = {}
    if source is not None:
        for name in ('choice', 'shuffle', 'randrange', 'randint', 'random', 'sample', 'choices', 'getrandbits', 'uniform'):
            saved[name] = getattr(random, name)
            setattr(random, name, getattr(source, name))
    sys.argv, sys.stdin = ['sudoku.py'] + argv, inp

    def program():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                runpy.run_module('pads.sudoku', run_name='__main__', alter_sys=False)
            except SystemExit as e:
                return e.code
        return None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            code = ctx.call(program)
    finally:
        sys.argv, sys.stdin = old
        for name, value in saved.items():
            setattr(random, name, value)
    ctx.t += 1
    return out.getvalue(), err.getvalue(), code


def tail(ctx, text):
    """Split at the report on the rules: (grids part, rules or None, number or None, level or None)."""
    at = text.find('Rules used:')
    if at < 0:
        ctx.check('Level:' not in text and 'Number of solutions' not in text, 'an incomplete report', text[-80:])
        return text, None, None, None
    head, report = text[:at], text[at:].strip().splitlines()
    rules = [x.strip() for x in report[0].split(':', 1)[1].split(',') if x.strip()]
    number = level = None
    for line in report[1:]:
        key, _, value = line.partition(':')
        if key == 'Level':
            ctx.check(level is None, 'two levels')
            level = value.strip()
        elif key == 'Number of solutions':
            number = int(value)
        else:
            ctx.check(not line.strip(), 'unexpected line in the report:', line)
    return head, rules, number, level


def grids(ctx, text, kind):
    """Boards in the output, in order."""
    out = []
    if kind in ('text', 'numeric'):
        empty = '.' if kind == 'text' else '0'
        cells = [ch for ch in text if ch.isdigit() or ch == '.']
        ctx.check(all(ch == empty or ch in '123456789' for ch in cells), 'unexpected mark for an empty cell')
        nums = [0 if ch == empty else int(ch) for ch in cells]
        ctx.check(len(nums) % 81 == 0, len(nums), 'cells printed')
        return [nums[j:j + 81] for j in range(0, len(nums), 81)]
    if kind == 'html':
        # boards are the outermost tables
        depth = start = 0
        for m in re.finditer(r'<(/?)table\b', text):
            if not m.group(1):
                if depth == 0:
                    start = m.start()
                depth += 1
            else:
                depth -= 1
                if depth == 0:
                    p = Cells()
                    p.feed(text[start:text.index('>', m.start()) + 1])
                    ctx.equal(len(p.out), 81, 'cells in the table')
                    got = [None] * 81
                    for (br, bc, r, c), d in p.out.items():
                        got[9 * (3 * br + r) + 3 * bc + c] = 0 if d == '_' else int(d)
                    out.append(got)
        ctx.equal(depth, 0, 'unclosed tables')
        return out
    for m in re.finditer(r'<svg\b.*?</svg>', text, re.S):
        got = [0] * 81
        for el in xml.etree.ElementTree.fromstring(m.group(0)).iter():
            if el.tag.split('}')[-1] == 'text':
                col, row = (float(el.get('x')) - 2) / 30, (float(el.get('y')) - 2) / 30
                got[9 * int(row) + int(col)] = int(el.text)
        out.append(got)
    return out


_sol = {}


def solutions(g):
    key = tuple(g)
    if key not in _sol:
        _sol[key] = sorted(R.completions(g, 400))
    return _sol[key]


_trace = {}


def traced(givens, unique, twosat):
    """Names of the rules that change something when they are tried in order, and whether they finish the puzzle."""
    k = (tuple(givens), unique, twosat)
    if k not in _trace:
        S = lib('sudoku')
        used, g = set(), make(givens, unique, False)
        g.twosat = twosat
        try:
            while 0 in list(g):
                g.progress = False
                for name, rule, _ in S.rules:
                    before = key(g)
                    rule(g)
                    if key(g) != before:
                        used.add(name)
                        break
                else:
                    break
        except S.BadSudoku:
            used = None
        _trace[k] = used, 0 not in list(g)
    return _trace[k]


def report_ok(ctx, rules, number, level, n, backtrack, finished, unique, twosat):
    names = [r[0] for r in lib('sudoku').rules]
    weight = {r[0]: (1 << r[2]) - 1 for r in lib('sudoku').rules}
    ctx.check(rules is not None, 'no report on the rules used')
    ctx.check(all(r in names or r == 'backtrack' for r in rules), 'unknown rules', rules)
    ctx.check(len(set(rules)) == len(rules), 'rules listed twice', rules)
    ctx.equal([r for r in names if r in rules], [r for r in rules if r != 'backtrack'], 'order of the rules used')
    if not twosat:
        ctx.check('twosat' not in rules, 'the 2-satisfiability rule was used without -s')
    if not unique:
        ctx.check(not {'trapezoid', 'rectangle'} & set(rules), 'a rule that assumes a unique solution was used under -u:', rules)
    if not backtrack:
        ctx.check('backtrack' not in rules, 'backtracking was used without -b')
    ctx.equal(number, None if n == 1 else n, 'reported number of solutions')
    if not finished or 'backtrack' in rules:
        want = 'impossible'
    else:
        d = sum(weight[r] for r in rules)
        want = LEVELS[sum(d > t for t in (0, 5, 9, 17, 33))]
    ctx.equal(level, want, 'level with the rules', rules)


def spelled(flags, fmt, style):
    a = []
    if style == 'joined' and len(flags) > 1:
        a.append('-' + ''.join(f[1] for f in flags))
    else:
        a += [LONG[f] if style == 'long' else f for f in flags]
    if fmt is not None:
        a += ['--format=' + fmt] if style == 'long' else ['-f' + fmt] if style == 'joined' else ['-f', fmt]
    return a


def solve(ctx, givens, flags, fmt, style='short', extra=(), stdin=None):
    kind = FORMATS[(fmt or 'text').lower()]
    argv = spelled(flags, fmt, style) + list(extra)
    ctx.case('sudoku', argv, R.text(givens))
    out, err, code = run(ctx, argv, R.text(givens) if stdin is None else stdin)
    ctx.check(not code, 'exit status', code)
    sols = solutions(givens)
    t, both, back = '-t' in flags, '-2' in flags, '-b' in flags
    head, rules, number, level = tail(ctx, out)
    shown = grids(ctx, head, kind)
    if both and kind in ('text', 'numeric') and shown:
        cells = [j for j, ch in enumerate(head) if ch.isdigit() or ch == '.']
        if len(cells) > 81:
            between = head[cells[80]:cells[81] + 1].splitlines()
            ctx.check(any(not x.strip() for x in between[1:-1]), 'no blank line between the puzzle and its solution')
    if t or both:
        ctx.check(shown, 'the puzzle is not printed')
        ctx.equal(shown[0], list(givens), 'puzzle printed first')
        shown = shown[1:]
    n, finished = 1, True
    if t and not both:
        ctx.equal(len(shown), 0, 'boards printed besides the puzzle')
        n = len(sols) if back else 1
    elif back:
        n = len(sols)
        ctx.equal(sorted(map(tuple, shown)), sols, 'solutions printed')
    else:
        ctx.equal(len(shown), 1, 'solutions printed')
        finished = 0 not in shown[0]
        if finished:
            ctx.check(tuple(shown[0]) in sols, 'the printed board is not a solution:', R.text(shown[0]))
        else:
            ctx.check(all(not a or a == b for a, b in zip(shown[0], sols[0])), 'a printed digit differs from the only solution')
    if kind in ('html', 'svg') and (n and not t or both or t):
        ctx.check(rules is None, 'a report follows a document in', kind)
    else:
        if t and not both and level == 'impossible' and not back:
            finished = False   # not observable
        report_ok(ctx, rules, number, level, n, back, finished, '-u' not in flags, '-s' in flags)
        used, done = traced(givens, '-u' not in flags, '-s' in flags)
        if used is not None:
            if done or not back:
                ctx.equal(set(rules), used, 'rules reported as used')
            else:
                ctx.check(used | {'backtrack'} <= set(rules), 'rules', rules, 'reported although these make progress before the search branches:', sorted(used))
        ctx.outcome(level)
    if '-v' in flags:
        if not all(givens):
            ctx.check(err.strip(), 'no description of the steps')
    else:
        ctx.equal(err, '', 'error output')


FLAGS = ['-t', '-2', '-b', '-u', '-s', '-v']
EASY5 = [R.EASY, R.HARD[1], R.HARD[4], R.HARD[7], list(R.CYCLIC)]


def subsets():
    for m in range(len(FLAGS) + 1):
        yield from combinations(FLAGS, m)


def switches(ctx, which, fmts, styles, i, k):
    cases = [(p, f, flags, style) for p in which for f in fmts for flags in subsets() for style in styles]
    for p, f, flags, style in shard(cases, i, k):
        solve(ctx, p, flags, f, style)


def holes(n):
    """Puzzles from the cyclic grid with everything in some rows of one band, or some digits, removed."""
    out = []
    for a, b in combinations(range(9), 2):
        g = [0 if d in (a + 1, b + 1) else d for d in R.CYCLIC]
        out.append(g)
    for a, b in combinations(range(9), 2):
        out.append([0 if c // 9 in (a, b) else d for c, d in enumerate(R.CYCLIC)])
        out.append([0 if c % 9 in (a, b) else d for c, d in enumerate(R.CYCLIC)])
    return [g for g in out if len(R.completions(g, n)) <= n]


def dead():
    """Puzzles without clashing givens but without solutions."""
    out = []
    base = list(R.completions(R.EASY)[0])
    for c in range(0, 81, 10):
        g = [0] * 81
        for x in R.ROWS[c // 9]:
            g[x] = base[x]
        g[c] = 0
        # the missing digit elsewhere in the column of the hole
        for p in R.COLS[c % 9]:
            if p // 27 != c // 27:
                h = list(g)
                h[p] = base[c]
                if not R.clash(h):
                    out.append(h)
    return [h for h in out if not R.completions(h, 1)]


def several(ctx, n, fmts, i, k):
    src = holes(n)
    for g, f, more in shard(product(src, fmts, (('-b', '-u'), ('-2', '-b', '-u'), ('-t', '-b', '-u'), ('-b', '-u', '-s'))), i, k):
        solve(ctx, g, more, f)


def levels(ctx, puzzles, i, k):
    """Puzzles of every total of rule weights around the boundaries of the levels."""
    for g, more in shard(product(puzzles, ((), ('-u',), ('-s',), ('-u', '-s'))), i, k):
        solve(ctx, g, more, None)


def none(ctx, i, k):
    for g, f, more in shard(product(dead(), (None, 'numeric', 'html', 'svg'), (('-b',), ('-2', '-b'), ('-b', '-u'), ('-b', '-u', '-s', '-v'))), i, k):
        ctx.case('no solutions', R.text(g), f, more)
        out, err, code = run(ctx, spelled(more, f, 'short'), R.text(g))
        ctx.check(not code, 'exit status', code)
        kind = FORMATS[f or 'text']
        head, rules, number, level = tail(ctx, out)
        shown = grids(ctx, head, kind)
        ctx.equal(shown, [g] if '-2' in more else [], 'boards printed')
        if kind in ('text', 'numeric') or '-2' not in more:
            ctx.equal((number, level), (0, 'impossible'), 'report on a puzzle without solutions')


def empties(ctx, i, k):
    """Other characters for empty cells, other layouts of the input."""
    cases = [(p, e, lay, style) for p in EASY5[:3] for e in ('-', 'x', '_*', '.', '0', '.0', ' ', 'abc') for lay in ('', '\n', '|') for style in ('short', 'long')]
    for p, e, lay, style in shard(cases, i, k):
        t = [str(d) if d else e[c % len(e)] for c, d in enumerate(p)]
        if lay == '\n':
            text = '\n'.join(''.join(t[9 * r:9 * r + 9]) for r in range(9)) + '\n'
        else:
            text = lay.join(t)
        extra = ['--empty=' + e] if style == 'long' else ['-x', e]
        if e.startswith('-') and style == 'short':
            extra = ['-x' + e]
        for flags in ((), ('-t',), ('-2', '-b')):
            solve(ctx, p, flags, 'n', style, extra=extra, stdin=text)
            if set(e) <= set('.0'):
                solve(ctx, p, flags, None, style, stdin=text)


def drawn(ctx, policy, firsts, i, k):
    pol = POLICIES[policy]
    for first, flags, f in shard(product(firsts, (('-p', '-t'), ('-p', '-2'), ('-p',), ('-p', '-t', '-a'), ('-p', '-2', '-a', '-v')), (None, 'n', 'h', 's')), i, k):
        src = Scripted({0: first}, pol)
        argv = spelled(flags, f, 'short')
        for base in (R.EASY, R.HARD[1]):
            ctx.case('permuted', policy, first, argv, R.text(base))
            src = Scripted({0: first}, pol)
            out, err, code = run(ctx, argv, R.text(base), src)
            head, rules, number, level = tail(ctx, out)
            shown = grids(ctx, head, FORMATS[f or 'text'])
            ctx.equal(len(shown), 2 if '-2' in flags else 1, 'boards printed')
            if '-t' in flags or '-2' in flags:
                p = shown[0]
                ctx.equal(sorted(sum(map(bool, (p[c] for c in g))) for g in R.BOXES), sorted(sum(map(bool, (base[c] for c in g))) for g in R.BOXES), 'givens in the blocks')
                if '-a' not in flags and symmetric(base):
                    ctx.check(symmetric(p), 'the givens lost their symmetry')
                sol = R.completions(p, 1)
                ctx.equal(len(sol), 1, 'solutions of the permuted puzzle')
                if len(shown) == 2 and 0 not in shown[1]:
                    ctx.equal(tuple(shown[1]), sol[0], 'solution of the permuted puzzle')
            elif 0 not in shown[0]:
                ctx.check(not R.clash(shown[0]), 'the solution of the permuted puzzle is not a Sudoku grid')
        if '-t' in flags:
            out, err, code = run(ctx, argv, R.text(STAIRS), Scripted({0: first}, pol))
            p = grids(ctx, tail(ctx, out)[0], FORMATS[f or 'text'])
            ctx.check(len(p) == 1 and equivalent(STAIRS, p[0]), 'the permuted puzzle is not a rearrangement')


def generated(ctx, policy, firsts, i, k):
    pol = POLICIES[policy]
    for first, flags, f in shard(product(firsts, (('-g',), ('-g', '-2'), ('-g', '-a'), ('-g', '-2', '-a'), ('-g', '-p'), ('-g', '-2', '-b')), (None, 'n', 'h', 's')), i, k):
        argv = spelled(flags, f, 'short')
        ctx.case('generated', policy, first, argv)
        src = Scripted({0: first}, lambda j, n: pol(j, n) if j < 400 else (7919 * j + j * j // 3) % n)
        out, err, code = run(ctx, argv, '', src)
        ctx.check(not code, 'exit status', code)
        head, rules, number, level = tail(ctx, out)
        shown = grids(ctx, head, FORMATS[f or 'text'])
        ctx.equal(len(shown), 2 if '-2' in flags else 1, 'boards printed')
        p = shown[0]
        if '-a' not in flags:
            ctx.check(symmetric(p), 'the generated givens are not symmetric')
        sol = R.completions(p, 1)
        ctx.equal(len(sol), 1, 'solutions of the generated puzzle', R.text(p))
        if len(shown) == 2 and (0 not in shown[1] or '-b' in flags):
            ctx.equal(tuple(shown[1]), sol[0], 'printed solution')
        ctx.check((rules is None) == (f in ('h', 's')), 'report', rules)
        if rules is not None and '-b' not in flags and len(shown) == 2:
            report_ok(ctx, rules, number, level, 1, False, 0 not in shown[1], True, False)
        if ctx.overtime('generated'):
            return


def informational(ctx):
    S = lib('sudoku')
    for style, f in product(('short', 'long'), [None] + list(FORMATS) + ['TEXT', 'Num', 'HTML', 'Svg']):
        argv = spelled(('-0',), f, style)
        ctx.case('blank', argv)
        out, err, code = run(ctx, argv, '')
        ctx.check(not code, 'exit status', code)
        head, rules, number, level = tail(ctx, out)
        ctx.equal(grids(ctx, head, FORMATS[(f or 'text').lower()]), [[0] * 81], 'blank board')
        ctx.equal(rules, None, 'report after a blank board')
        if f and f.lower() != f:
            solve(ctx, R.EASY, ('-2',), f, style)
    for o in ('-r', '--rules'):
        ctx.case(o)
        out, err, code = run(ctx, [o], '')
        ctx.check(not code, 'exit status', code)
        at = [out.find('\n%s:' % name) for name, _, _ in S.rules]
        ctx.check(-1 not in at and at == sorted(at), 'rules described', at)
        for name, fn, _ in S.rules:
            ctx.check(' '.join(fn.__doc__.split()) in ' '.join(out.split()), 'no description of', name)
    for o in ('-l', '--levels'):
        ctx.case(o)
        out, err, code = run(ctx, [o], '')
        ctx.check(not code, 'exit status', code)
        words = re.findall(r'[a-z]+', out)
        at = [words.index(x) if x in words else -1 for x in LEVELS]
        ctx.check(-1 not in at and at == sorted(at) and 'impossible' in words, 'levels described', at)
    for argv in (['puzzle.txt'], ['-t', 'x'], ['-b', '-2', 'a', 'b'], ['-f', 'bogus'], ['--format=xml', '-t'], ['-f', 'bogus', '-0'], ['-t', '-g'], ['-g', '-t', '-f', 'n'], ['-tg']):
        ctx.case('misuse', argv)
        out, err, code = run(ctx, argv, R.text(R.EASY))
        ctx.check(out.strip() or err.strip(), 'no complaint')
        ctx.check(not re.search(r'\d[\d.|\s]{60}', out), 'a board is printed all the same')


def units(tier):
    q = tier == 'quick'
    U = []
    k = 4
    for i in range(k):
        U.append(('formats-%d' % i, switches, dict(which=[R.EASY, list(R.CYCLIC)], fmts=[None] + list(FORMATS), styles=('short',) if q else ('short', 'long', 'joined'), i=i, k=k)))
        U.append(('puzzles-%d' % i, switches, dict(which=EASY5[1:4] if q else R.HARD, fmts=[None] if q else [None, 'n', 'h', 's'], styles=('joined',), i=i, k=k)))
    U.append(('spelling', switches, dict(which=[R.EASY], fmts=['num'], styles=('long', 'joined'), i=0, k=1)))
    for i in range(2 if q else 6):
        U.append(('several-%d' % i, several, dict(n=12 if q else 100, fmts=[None, 'n'] if q else [None, 'n', 'h', 's'], i=i, k=2 if q else 6)))
    for i in range(4):
        U.append(('levels-%d' % i, levels, dict(puzzles=R.LADDER[:36] if q else R.LADDER, i=i, k=4)))
    U.append(('no-solutions', none, dict(i=0, k=1)))
    for i in range(3):
        U.append(('empty-cells-%d' % i, empties, dict(i=i, k=3)))
    for policy in POLICIES:
        U.append(('permuted-' + policy, drawn, dict(policy=policy, firsts=range(3) if q else range(6), i=0, k=1)))
    for policy in ('middle', 'turn'):
        U.append(('generated-' + policy, generated, dict(policy=policy, firsts=(0, 365) if q else range(0, 729, 9), i=0, k=1)))
    U.append(('informational', informational, {}))
    return U
