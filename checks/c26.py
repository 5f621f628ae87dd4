"""C26 regular expressions."""
from itertools import product
from mc.core import lib
from mc.gen import shard
from mc.auto import Ref, nfas, dfas, make, words, difference, larger

RULE = ('all well-formed expressions up to a length bound over two letters and over escaped special characters, against a recursive set-of-words semantics; '
        'all small automata converted to an expression and back; expressions of up to 700 characters and automata of up to 130 states decided exactly by product search')


def tokens(expr):
    out, i = [], 0
    while i < len(expr):
        if expr[i] == '\\':
            out.append(expr[i:i + 2])
            i += 2
        else:
            out.append(expr[i])
            i += 1
    return out


class Bad(Exception):
    pass


def parse(tok):
    """Token list -> syntax tree; Bad if ill-formed."""
    pos = [0]

    def expression():
        alts = [term()]
        while pos[0] < len(tok) and tok[pos[0]] == '+':
            pos[0] += 1
            alts.append(term())
        return ('+', alts)

    def term():
        fs = []
        while pos[0] < len(tok) and tok[pos[0]] not in ('+', ')'):
            fs.append(factor())
        return ('.', fs)

    def factor():
        t = tok[pos[0]]
        pos[0] += 1
        if t == '(':
            b = expression()
            if pos[0] >= len(tok) or tok[pos[0]] != ')':
                raise Bad
            pos[0] += 1
        elif t == '*':
            raise Bad
        else:
            if t == '\\':
                raise Bad
            b = ('c', t[-1])
        while pos[0] < len(tok) and tok[pos[0]] == '*':
            pos[0] += 1
            b = ('*', b)
        return b
    e = expression()
    if pos[0] != len(tok):
        raise Bad
    return e


def meaning(t, L):
    """Words of length <= L."""
    if t[0] == 'c':
        return {t[1]}
    if t[0] == '+':
        return set().union(*[meaning(x, L) for x in t[1]])
    if t[0] == '.':
        out = {''}
        for x in t[1]:
            m = meaning(x, L)
            out = {a + b for a in out for b in m if len(a) + len(b) <= L}
        return out
    m = meaning(t[1], L) - {''}
    out, new = {''}, {''}
    while new:
        new = {a + b for a in new for b in m if len(a) + len(b) <= L} - out
        out |= new
    return out


def verify(ctx, expr, L):
    au = lib('automata')
    tree = parse(tokens(expr))
    letters = sorted({t[-1] for t in tokens(expr) if t not in '()+*'})
    want = meaning(tree, L)
    A = au.RegExp(expr)
    ctx.t += 1
    ctx.equal(set(A.alphabet), set(letters), 'alphabet of', expr)
    D = A.asDFA()
    for w in words(letters, L):
        w = ''.join(w)
        ctx.t += 1
        if bool(D(w)) != (w in want):
            ctx.check(False, 'expression', expr, 'answers', bool(D(w)), 'on', w)
    ctx.equal(bool(A('')), '' in want, 'empty word')
    R = au.RegularLanguage(expr)
    ctx.equal('' in R, '' in want, 'empty word in the language')
    ctx.outcome(len(want))


def expressions(ctx, alphabet, length, L, i, k):
    j = 0
    for n in length:
        for t in product(alphabet, repeat=n):
            try:
                parse(t)
            except Bad:
                continue
            j += 1
            if j % k != i:
                continue
            expr = ''.join(t)
            ctx.case(expr)
            verify(ctx, expr, L)


def back(ctx, spec, L, i, k, sigma):
    au = lib('automata')
    src = nfas(spec[1], sigma) if spec[0] == 'nfa' else dfas(spec[1], sigma)
    W = list(words(sigma, L))
    for ref in shard(src, i, k):
        ctx.case(sigma, {q: sorted(v) for q, v in ref.delta.items()}, sorted(ref.init), sorted(ref.final))
        start, table, acc = ref.determinize()
        if not acc:
            continue
        A = make(ref, spec[0])
        r = A.RegExp()
        ctx.t += 1
        ctx.check(isinstance(r, str), 'expression', r)
        B = au.RegExp(r)
        D = B.asDFA()
        for w in W:
            ctx.t += 1
            got = all(c in B.alphabet for c in w) and bool(D(w))
            if got != ref.accepts(w):
                ctx.check(False, 'expression', r, 'answers', got, 'on', w)
        ctx.outcome(len(r) // 4)


def position(tree, sigma):
    """Reference automaton of a syntax tree: one state per letter occurrence, plus the start."""
    letters, follow = [None], {0: set()}

    def walk(t):
        """(nullable, first, last), filling in follow."""
        if t[0] == 'c':
            letters.append(t[1])
            k = len(letters) - 1
            follow[k] = set()
            return False, {k}, {k}
        if t[0] == '+':
            parts = [walk(x) for x in t[1]]
            return any(p[0] for p in parts), set().union(*[p[1] for p in parts]), set().union(*[p[2] for p in parts])
        if t[0] == '*':
            n, f, l = walk(t[1])
            for x in l:
                follow[x] |= f
            return True, f, l
        n, f, l = True, set(), set()
        for x in t[1]:
            n2, f2, l2 = walk(x)
            for y in l:
                follow[y] |= f2
            f = f | f2 if n else f
            l = l | l2 if n2 else l2
            n = n and n2
        return n, f, l
    n, f, l = walk(tree)
    follow[0] = f
    d = {(s, c): frozenset(t for t in follow[s] if letters[t] == c) for s in follow for c in sigma}
    return Ref(len(letters), sigma, [0], d, l | ({0} if n else set()))


def exactly(ctx, D, ref, *what):
    ctx.t += 1
    w = difference(D, ref)
    ctx.check(w is None, *what, 'differs on', w if w is None else ''.join(w))


LONG = []
for _n in (3, 9, 20, 38, 39, 40, 41, 45, 64, 70, 100):
    _a, _b = 'a' * _n, 'ab' * (_n // 2)
    LONG += ['(%s+b)c' % _a, '(%s+b)*c' % _a, 'c(%s+b)' % _a, '(b+%s)c' % _a, '%s+%s' % (_a, _b), '(%s)*+%s' % (_b, _a), '%s(a+b)c' % _a, '(%s*)*b' % _a,
             'c(%s)*' % '+'.join('abc'[i % 3] * (i + 1) for i in range(min(_n, 20))), '(' * _n + 'a' + '+b)' * _n + 'c', '(' * _n + 'a' + 'b)*' * min(_n, 40) + ')' * (_n - min(_n, 40)) + 'c',
             '(a+b)' * _n, 'a(b+())' * _n, '%s\\+%s' % (_a, _b), '+'.join([_a, _b, 'c' * _n]), '(%s+b)(c+%s)' % (_a, _b)]


def long(ctx, i, k, turn):
    """Long expressions, decided exactly against the automaton of letter positions; and converted to an expression and back."""
    au = lib('automata')
    for expr in shard(LONG, i, k):
        ctx.case(expr)
        sigma = sorted({t[-1] for t in tokens(expr) if t not in '()+*'})
        ref = position(parse(tokens(expr)), sigma)
        A = au.RegExp(expr)
        ctx.equal(set(A.alphabet), set(sigma), 'alphabet')
        exactly(ctx, A.asDFA(), ref, 'expression')
        if len(expr) <= turn and expr.count('*') <= 2:
            r = A.asDFA().minimize().RegExp()
            ctx.check(isinstance(r, str), 'expression', r)
            exactly(ctx, au.RegExp(r).asDFA(), ref, 'expression', r)
            ctx.outcome(len(r) // 10)


def back_large(ctx, name):
    """Larger automata whose expressions stay short, converted to an expression and back."""
    au = lib('automata')
    for label, det, ref in larger():
        if label != name:
            continue
        ctx.case(label)
        r = make(ref, 'dfa').RegExp()
        ctx.check(isinstance(r, str), 'expression', r)
        B = au.RegExp(r)
        if set(B.alphabet) == set(ref.sigma):
            exactly(ctx, B.asDFA(), ref, 'expression', r[:200])
        else:
            ctx.check(label.startswith('chain') and set(B.alphabet) == {'a'}, 'alphabet', B.alphabet)
            n = ref.n
            for m in range(n + 3):
                ctx.equal(bool(B('a' * m)), m == n - 2, 'word of length', m)
        ctx.outcome(len(r) // 100)


def special(ctx):
    au = lib('automata')
    for expr in ['', '()', '(())', '()*', '(()())*', 'a', '\\\\', '\\(\\)', 'a\\*b', '(a+b)*abb', '((a*b)*+c)*d', 'a**', '(a*)*', '(+a)', '(a+)',
                 '+', '++', 'a++b', '(a+())*b', '(()+b)(()+a)', '0*(10*1)*0*', 'a' * 60, '(a+b)' * 12, '+'.join('abcdefghij'), '(' * 40 + 'a' + ')' * 40,
                 '(' * 20 + 'a' + '*)' * 20, 'a*b+()', '()+a*b', 'a*b*c*+b']:
        ctx.case(expr)
        verify(ctx, expr, 3)
        ctx.t += 1
    ctx.case('malformed')
    for bad in ('(', '(a', 'a(b', '((a)', 'a\\', '('):
        ctx.raises((au.RegExpError, au.LanguageError), au.RegExp, bad)
    # longer words
    for n in range(1, 8):
        ctx.case('power', n)
        A = au.RegExp('(' + 'a' * n + ')*')
        for m in range(4 * n + 1):
            ctx.t += 1
            ctx.equal(bool(A('a' * m)), m % n == 0, 'word of length', m)
        B = au.RegExp(A.RegExp())
        for m in range(4 * n + 1):
            ctx.equal(bool(B('a' * m)), m % n == 0, 'word of length', m, 'after conversion')


def units(tier):
    q = tier == 'quick'
    U = []
    AB = ['a', 'b', '(', ')', '+', '*']
    for i in range(16):
        U.append(('ab-%d' % i, expressions, dict(alphabet=AB, length=range(0, 8 if q else 9), L=4, i=i, k=16)))
        U.append(('esc-%d' % i, expressions, dict(alphabet=['a', '\\+', '\\*', '\\(', '\\)', '\\\\', '(', ')', '+', '*'], length=range(0, 6 if q else 7),
                                                  L=3, i=i, k=16)))
    for i in range(8):
        U.append(('a-%d' % i, expressions, dict(alphabet=['a', '(', ')', '+', '*'], length=range(8, 10 if q else 11), L=6, i=i, k=8)))
        U.append(('b-n2k2-%d' % i, back, dict(spec=('nfa', 2, 2), L=5, i=i, k=8, sigma='ab')))
        U.append(('b-n3k1-%d' % i, back, dict(spec=('nfa', 3, 1), L=9, i=i, k=8, sigma='a')))
        U.append(('b-d3k2-%d' % i, back, dict(spec=('dfa', 3, 2), L=5, i=i, k=8, sigma='ba')))
        if not q:
            U.append(('b-d4k2-%d' % i, back, dict(spec=('dfa', 4, 2), L=6, i=i, k=8, sigma='ab')))
    for s in ('()', '+*', '\\a', '(+', '*)'):
        U.append(('b-esc%s' % s, back, dict(spec=('dfa', 2, 2), L=5, i=0, k=1, sigma=s)))
        U.append(('b-escn%s' % s, back, dict(spec=('nfa', 2, 2), L=4, i=0, k=7, sigma=s)))
    for i in range(8):
        U.append(('long-%d' % i, long, dict(i=i, k=8, turn=130 if q else 210)))
    for name in ('counter13', 'counter31', 'chain13', 'chain31', 'chain65', 'chain130', 'tree13', 'tree31', 'tree65', 'reset13'):
        U.append(('large-' + name, back_large, dict(name=name)))
    U.append(('special', special, {}))
    return U
