"""C52 printing automata."""
import io
import re
from collections import Counter
from mc.core import lib
from mc.gen import shard
from mc.auto import Ref, nfas, dfas, make, larger

RULE = ('all NFAs with 2 states over 2 symbols (with every choice of initial and final states) and 3 states over 1 symbol, all initially connected DFAs with 3 states over 2 symbols, '
        'each printed itself and after determinisation, minimisation, renumbering, reversal and complementation; structured automata with up to 130 states or 62 letters; regular expressions up to 4 letters; every printed line parsed back')

HEAD = re.compile(r'^(\S.*?)(?: \(((?:initial|accepting|terminal)(?:, (?:initial|accepting|terminal))*)\))?$')
ARROW = re.compile(r'^\s+--\[(.*?)\]--> (.*)$')


def parse(ctx, text):
    """[(state, words, Counter of (symbol, state))] in the order of the lines."""
    out = []
    for line in text.splitlines():
        if not line.strip():
            continue
        m = ARROW.match(line)
        if m:
            ctx.check(out, 'an arrow before any state:', line)
            out[-1][2][m.group(1), m.group(2)] += 1
            continue
        m = HEAD.match(line)
        ctx.check(m, 'a line that is neither a state nor an arrow:', line)
        out.append((m.group(1), m.group(2).split(', ') if m.group(2) else [], Counter()))
    return out


def expected(nfa):
    """Reachable states of the automaton by its own transition function, as name -> (words, arrows)."""
    out, todo = {}, list(nfa.initial)
    seen = set(todo)
    while todo:
        s = todo.pop()
        words = set()
        arrows = Counter()
        if s in nfa.initial:
            words.add('initial')
        if nfa.isfinal(s):
            words.add('accepting')
        for c in nfa.alphabet:
            for t in nfa.transition(s, c):
                arrows[str(c), str(t)] += 1
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        if not arrows:
            words.add('terminal')
        out.setdefault(str(s), []).append((words, arrows))
    return out


def printed(ctx, A, want, what):
    buf = io.StringIO()
    ctx.call(A.pprint, buf)
    got = parse(ctx, buf.getvalue())
    names = [g[0] for g in got]
    ctx.check(sorted(names) == sorted(n for n, e in want.items() for _ in e), what, 'prints the states', names, 'expected', sorted(want))
    for name, words, arrows in got:
        ctx.t += 1
        ctx.check(len(set(words)) == len(words), what, 'repeats a remark on', name)
        ctx.check(any((set(words), arrows) == e for e in want[name]), what, 'prints', name, words, dict(arrows), 'expected', want[name])


def table(ref):
    """expected() of a reference automaton with integer names."""
    out, todo = {}, list(ref.init)
    seen = set(todo)
    while todo:
        s = todo.pop()
        words, arrows = set(), Counter()
        if s in ref.init:
            words.add('initial')
        if s in ref.final:
            words.add('accepting')
        for c in ref.sigma:
            for t in ref.delta[s, c]:
                arrows[c, str(t)] += 1
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        if not arrows:
            words.add('terminal')
        out[str(s)] = [(words, arrows)]
    return out


def one(ctx, ref, how, more):
    ctx.case(how, ref.sigma, sorted(ref.init), {k: sorted(v) for k, v in ref.delta.items()}, sorted(ref.final))
    A = make(ref, how)
    want = table(ref)
    printed(ctx, A, want, 'the automaton')
    ctx.outcome(tuple(sorted(len(w) for e in want.values() for w, _ in e)))
    if more:
        R = A.renumber(3)
        printed(ctx, R, expected(R), 'the renumbered automaton')
        M = A.minimize().renumber()
        printed(ctx, M, expected(M.asNFA()), 'the minimal automaton, renumbered')
        ctx.equal(len(expected(M.asNFA())), ref.classes(), 'states printed for the minimal automaton')
        C = A.complement()
        printed(ctx, C.renumber(), expected(C.renumber().asNFA()), 'the complement, renumbered')
        V = A.reverse()
        printed(ctx, V, expected(V), 'the reversal')


def automata(ctx, spec, how, more, i, k):
    n, s = spec[1], spec[2]
    sigma = 'abc'[:s]
    for ref in shard(nfas(n, sigma) if spec[0] == 'nfa' else dfas(n, sigma), i, k):
        one(ctx, ref, how, more)


def expressions(ctx, n, i, k):
    au = lib('automata')
    from itertools import product

    def exprs(m):
        if m == 1:
            return ['a', 'b']
        out = [x + '*' if len(x) == 1 else '(' + x + ')*' for x in exprs(m - 1)]
        for j in range(1, m):
            for x, y in product(exprs(j), exprs(m - j)):
                out.append('(' + x + '+' + y + ')')
                out.append(x + y)
        return out
    for m in range(1, n + 1):
        for e in shard(dict.fromkeys(exprs(m)), i, k):
            ctx.case('expression', e)
            A = au.RegExp(e)
            A = A.renumber()
            printed(ctx, A, expected(A), 'the expression automaton')
            M = A.minimize().renumber()
            printed(ctx, M, expected(M.asNFA()), 'the minimal expression automaton')


def wide(ctx):
    """Large alphabets."""
    sigma = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
    for k in (13, 26, 62):
        for n in (1, 2, 5):
            d = {(s, c): frozenset([(s * i + 1) % n]) for s in range(n) for i, c in enumerate(sigma[:k])}
            one(ctx, Ref(n, sigma[:k], [0], d, [n - 1]), 'nfa', True)
            one(ctx, Ref(n, sigma[:k], [0], d, [n - 1]), 'dfa', True)
            d = {(s, c): frozenset(t for t in range(n) if (s + t + i) % 3) for s in range(n) for i, c in enumerate(sigma[:k])}
            one(ctx, Ref(n, sigma[:k], range(0, n, 2), d, [0]), 'nfa', True)


def bigger(ctx, name):
    for label, det, ref in larger():
        if label == name:
            one(ctx, ref, 'nfa', ref.n <= 40)
            if det:
                one(ctx, ref, 'dfa', False)


def units(tier):
    q = tier == 'quick'
    U = []
    for i in range(4):
        U.append(('nfa-2-2-%d' % i, automata, dict(spec=('nfa', 2, 2), how='nfa', more=True, i=i, k=4)))
        U.append(('nfa-3-1-%d' % i, automata, dict(spec=('nfa', 3, 1), how='nfa', more=not q, i=i, k=4)))
        U.append(('dfa-3-2-%d' % i, automata, dict(spec=('dfa', 3, 2), how='dfa', more=True, i=i, k=4)))
    U.append(('dfa-as-nfa-3-2', automata, dict(spec=('dfa', 3, 2), how='nfa', more=False, i=0, k=1)))
    U.append(('dfa-4-1', automata, dict(spec=('dfa', 4, 1), how='dfa', more=True, i=0, k=1)))
    U.append(('dfa-2-3', automata, dict(spec=('dfa', 2, 3), how='dfa', more=True, i=0, k=1)))
    U.append(('wide', wide, {}))
    for name in ('counter31', 'reset65', 'chain130', 'binary65', 'dense8', 'dense12', 'many-starts12', 'letters5', 'letters7'):
        U.append(('bigger-' + name, bigger, dict(name=name)))
    for i in range(2):
        U.append(('expressions-%d' % i, expressions, dict(n=4 if q else 5, i=i, k=2)))
    return U
