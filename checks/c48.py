"""C48 Sudoku permutation, generation and formats."""
import contextlib
import html.parser
import io
import random
import re
import sys
import xml.etree.ElementTree
from itertools import combinations, product
from mc import sudokuref as R
from mc.core import lib
from mc.gen import shard

RULE = ('permutation: every outcome of the random draws that differs from each of four base policies in at most three (quick: two) draws, and all outcomes of every run of five consecutive draws; '
        'generation: every outcome of the first draw (quick: every ninth) under three policies for the rest; formats: a puzzle for every single cell and digit and the shapes of every test puzzle')


class Scripted(random.Random):
    """A random source whose draws are chosen by the check: every method of Random goes through _randbelow."""

    def __new__(cls, *a):
        return super().__new__(cls)

    def __init__(self, script, policy):
        self.script, self.policy, self.drawn = script, policy, []
        super().__init__(0)

    def _randbelow(self, n):
        j = len(self.drawn)
        v = self.script.get(j)
        if v is None:
            v = self.policy(j, n)
        self.drawn.append(n)
        return v % n

    def random(self):
        return self._randbelow(1024) / 1024.0

    def getrandbits(self, k):
        return self._randbelow(1 << k)


POLICIES = {
    'first': lambda j, n: 0,
    'last': lambda j, n: n - 1,
    'middle': lambda j, n: n // 2,
    'turn': lambda j, n: (5 * j + 2) % n,
}


@contextlib.contextmanager
def draws(script, policy):
    """Let the Sudoku module draw from a scripted source."""
    S = lib('sudoku')
    src = Scripted(script, POLICIES[policy])
    old = {}
    for name, value in list(vars(S).items()):
        if value is random:
            old[name] = value
            setattr(S, name, src)
        elif getattr(value, '__self__', None) is random._inst:
            old[name] = value
            setattr(S, name, getattr(src, value.__name__))
    try:
        yield src
    finally:
        for name, value in old.items():
            setattr(S, name, value)


# A puzzle whose rows have pairwise different numbers of givens, and whose
# columns do too, so that a rearrangement can be read off the counts.
STAIRS = [R.CYCLIC[9 * r + c] if c < r else 0 for r in range(9) for c in range(9)]
SYMMETRIC = [h for h in R.HARD if all(bool(h[c]) == bool(h[80 - c]) for c in range(81))]


def symmetric(g):
    return all(bool(g[c]) == bool(g[80 - c]) for c in range(81))


def blocks_kept(perm):
    return all(perm[3 * b + i] // 3 == perm[3 * b] // 3 for b in range(3) for i in range(3))


def equivalent(src, dst):
    """dst is src with rows, columns and digits rearranged (and possibly transposed); counts of src are distinct."""
    for tr in (False, True):
        d = [dst[9 * (c % 9) + c // 9] for c in range(81)] if tr else dst

        def counts(g):
            return ([sum(1 for c in row if g[c]) for row in R.ROWS], [sum(1 for c in col if g[c]) for col in R.COLS])
        sr, sc = counts(src)
        dr, dc = counts(d)
        if sorted(sr) != sorted(dr) or sorted(sc) != sorted(dc):
            continue
        rp = [dr.index(x) for x in sr]
        cp = [dc.index(x) for x in sc]
        if not (blocks_kept(rp) and blocks_kept(cp)):
            continue
        m = {0: 0}
        ok = True
        for r in range(9):
            for c in range(9):
                a, b = src[9 * r + c], d[9 * rp[r] + cp[c]]
                if m.setdefault(a, b) != b:
                    ok = False
        if ok and len(set(m.values())) == len(m) and all(0 <= v <= 9 for v in m.values()):
            return True
    return False


def one_script(ctx, script, policy, keep):
    S = lib('sudoku')
    ctx.case('permute', policy, sorted(script.items()), 'preserving symmetry' if keep else 'freely', state=False)
    with draws(script, policy) as src:
        g = S.Sudoku(STAIRS)
        p = ctx.call(S.permute, g, keep)
    ctx.check(equivalent(STAIRS, list(p)), 'the permuted puzzle is not a rearrangement:', R.text(p))
    ctx.equal(list(g), STAIRS, 'the input puzzle afterwards')
    if keep:
        for h in SYMMETRIC[:1]:
            with draws(script, policy):
                p = ctx.call(S.permute, S.Sudoku(h), True)
            ctx.check(symmetric(list(p)), 'a symmetric pattern of givens becomes asymmetric:', R.text(p))
            ctx.equal(sum(map(bool, p)), sum(map(bool, h)), 'number of givens')
    ctx.state(tuple(p))
    return src.drawn


def deviations(ctx, policy, keep, most, i, k):
    """Up to `most` draws differ from the policy."""
    ns = one_script(ctx, {}, policy, keep)

    def scripts():
        for m in range(1, most + 1):
            for pos in combinations(range(len(ns)), m):
                for vs in product(*[range(ns[j]) for j in pos]):
                    yield dict(zip(pos, vs))
    for s in shard(scripts(), i, k):
        one_script(ctx, s, policy, keep)


def runs(ctx, policy, keep, width, i, k):
    """All outcomes of `width` consecutive draws."""
    ns = one_script(ctx, {}, policy, keep)

    def scripts():
        for a in range(len(ns) - width + 1):
            size = 1
            for j in range(a, a + width):
                size *= ns[j]
            if size <= 2000:
                for vs in product(*[range(ns[j]) for j in range(a, a + width)]):
                    yield dict(zip(range(a, a + width), vs))
    for s in shard(scripts(), i, k):
        one_script(ctx, s, policy, keep)


def generate(ctx, policy, keep, stride, i, k):
    S = lib('sudoku')
    for first in shard(range(0, 729, stride), i, k):
        ctx.case('generate', policy, 'first draw', first, 'symmetric' if keep else 'free', state=False)
        script = {0: first}

        with draws(script, policy) as src:
            # a policy may lead to a contradiction for ever; from the 400th draw on take the scattered one
            src.policy = lambda j, n, p=src.policy: p(j, n) if j < 400 else (7919 * j + j * j // 3) % n
            p = ctx.call(S.random_puzzle, keep) if not keep or first % 2 else ctx.call(S.random_puzzle)
        g = list(p)
        ctx.equal(len(R.completions(g, 1)), 1, 'number of solutions (2 = several) of', R.text(g))
        if keep:
            ctx.check(symmetric(g), 'the givens are not symmetric:', R.text(g))
        for c in range(41 if keep else 81):
            if g[c]:
                h = [0 if e == c or keep and e == 80 - c else d for e, d in enumerate(g)]
                if len(R.completions(h, 1)) == 1:
                    ctx.check(False, 'the given in cell', c, 'is redundant in', R.text(g))
        ctx.state(tuple(g))
        ctx.outcome(sum(map(bool, g)))
        if ctx.overtime('generate'):
            return


# -- formats ---------------------------------------------------------

class Cells(html.parser.HTMLParser):
    """Innermost table cells as (block row, block column, row, column) -> digit."""

    def __init__(self):
        super().__init__()
        self.stack, self.out = [], {}

    def handle_starttag(self, tag, attrs):
        if tag in ('table', 'tr', 'td'):
            if self.stack:
                self.stack[-1][1] += 1
            self.stack.append([tag, 0, ''])
        elif tag == 'input' and self.stack:
            self.stack[-1][2] += '_'

    def handle_endtag(self, tag):
        if tag in ('table', 'tr', 'td'):
            top = self.stack.pop()
            if top[0] != tag:
                raise ValueError('misnested ' + tag)
            if tag == 'td' and top[1] == 0:
                idx = [s[1] - 1 for s in self.stack if s[0] in ('table', 'tr')]
                self.out[tuple(idx)] = top[2].strip()

    def handle_data(self, data):
        if self.stack:
            self.stack[-1][2] += data.strip()


def written(ctx, fn, grid):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ctx.call(fn, grid)
    return out.getvalue()


def reread(ctx, text, *a):
    S = lib('sudoku')
    old = sys.stdin
    sys.stdin = io.StringIO(text)
    try:
        return ctx.call(S.read_puzzle, *a)
    finally:
        sys.stdin = old


def format_one(ctx, givens):
    S = lib('sudoku')
    ctx.case('formats', R.text(givens))
    grid = S.Sudoku(givens)
    for name in ('text', 'txt', 't', 'numeric', 'num', 'n'):
        t = written(ctx, S.output_formats[name], grid)
        back = reread(ctx, t)
        ctx.equal(list(back), givens, 'puzzle read back from its %s form' % name)
    nums = [int(ch) for ch in written(ctx, S.numeric_format, grid) if ch.isdigit()]
    ctx.equal(nums, givens, 'digits in numeric form')
    for empty in ('-', 'x', '.', '0', '.0', 'ab'):
        t = ''.join(str(d) if d else empty[c % len(empty)] for c, d in enumerate(givens))
        if '0' in t and '0' not in empty:
            continue
        for sep in ('', '\n', ' | '):
            back = reread(ctx, sep.join(t), empty)
            ctx.equal(list(back), givens, 'puzzle read with empty cells written', empty)
        if '0' not in empty:            # then a zero is a separator like any other
            for sep in ('0', '0\n', '\u00b2', '\u0663'):
                ctx.equal(list(reread(ctx, sep.join(t), empty)), givens, 'puzzle read with separators', sep)
    for name in ('html', 'h'):
        p = Cells()
        p.feed(written(ctx, S.output_formats[name], grid))
        ctx.check(not p.stack, 'unclosed tables')
        got = [None] * 81
        ctx.equal(len(p.out), 81, 'cells in the table')
        for (br, bc, r, c), d in p.out.items():
            got[9 * (3 * br + r) + 3 * bc + c] = 0 if d == '_' else int(d)
        ctx.equal(got, givens, 'digits in the HTML table')
    for name in ('svg', 's'):
        doc = re.sub(r'<!DOCTYPE[^>]*>', '', written(ctx, S.output_formats[name], grid))
        root = xml.etree.ElementTree.fromstring(doc)
        got = [0] * 81
        for el in root.iter():
            if el.tag.split('}')[-1] == 'text':
                col, row = (float(el.get('x')) - 2) / 30, (float(el.get('y')) - 2) / 30
                ctx.check(0 <= col < 9 and 0 <= row < 9, 'a digit outside the board')
                got[9 * int(row) + int(col)] = int(el.text)
        ctx.equal(got, givens, 'digits in the SVG drawing')
    ctx.equal(list(grid), givens, 'the puzzle after writing it')


def format_all(ctx, kind, i, k):
    def source():
        if kind == 'single':
            for c in range(81):
                for d in range(1, 10):
                    yield [d if x == c else 0 for x in range(81)]
        else:
            yield [0] * 81
            yield list(R.CYCLIC)
            yield STAIRS
            for h in R.HARD:
                yield h
                yield list(R.completions(h)[0])
            for r in range(9):
                for g in (R.ROWS, R.COLS, R.BOXES):
                    yield [0 if c in g[r] else R.CYCLIC[c] for c in range(81)]
                    yield [R.CYCLIC[c] if c in g[r] else 0 for c in range(81)]
    for g in shard(source(), i, k):
        format_one(ctx, g)


def units(tier):
    q = tier == 'quick'
    U = []
    for policy in ('middle', 'turn', 'last'):
        for keep in (True, False):
            for i in range(4):
                U.append(('generate-%s-%s-%d' % (policy, keep, i), generate, dict(policy=policy, keep=keep, stride=9 if q else 1, i=i, k=4)))
    for policy in POLICIES:
        for keep in (True, False):
            for i in range(2):
                U.append(('permute-%s-%s-%d' % (policy, keep, i), deviations, dict(policy=policy, keep=keep, most=2 if q else 3, i=i, k=2)))
            U.append(('runs-%s-%s' % (policy, keep), runs, dict(policy=policy, keep=keep, width=5 if q else 6, i=0, k=1)))
    for i in range(2):
        U.append(('formats-single-%d' % i, format_all, dict(kind='single', i=i, k=2)))
    U.append(('formats', format_all, dict(kind='other', i=0, k=1)))
    return U
