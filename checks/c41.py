"""C41 paragraph wrapping."""
from itertools import product
from mc.core import lib
from mc.gen import shard

RULE = ('every text of up to 6 (quick) or 7 words from a vocabulary with hyphens, sentence ends, initials and over-long words, for every target width 1..14, all option flags, '
        'words filling lines around the default width with all defaults, '
        'penalties and measures; every single word of up to 4 (quick) or 5 characters over letters, digits, full stops and inner hyphens; minimum over all break sets by dynamic programming on prefixes')

VOC = ['a', 'bcd', 'e-f', 'gh.', 'I.', 'jklmnop']
VOC2 = ['qr', 's-t-u', 'vw--x.', 'y.']
DEF = dict(target=76, longlast=False, frenchspacing=False, measure=len, overpenalty=1000, nlinepenalty=1000, onewordpenalty=25, hyphenpenalty=25)


def tokens(text, french):
    """(piece, spaces after it when the line goes on)."""
    out = []
    for w in text.split():
        ps = w.split('-')
        ps = [p + '-' for p in ps[:-1]] + [ps[-1]]
        for p in ps[:-1]:
            out.append((p, 0))
        end = w.endswith('.') and not (len(w) == 2 and w[0].isupper())
        out.append((ps[-1], 2 if end and not french else 1))
    return out


def render(T, i, j):
    return ''.join(T[k][0] + ' ' * T[k][1] * (k < j - 1) for k in range(i, j))


def cost(T, i, j, o):
    """Penalty of a line of pieces i..j-1."""
    size = sum(o['measure'](T[k][0]) for k in range(i, j)) + sum(o['measure'](' ' * T[k][1]) if T[k][1] else 0 for k in range(i, j - 1))
    c = o['nlinepenalty']
    last = j == len(T)
    if size > o['target']:
        c += o['overpenalty'] * (size - o['target'])
    elif not last or o['longlast']:
        c += (o['target'] - size) ** 2
    elif j == i + 1:
        c += o['onewordpenalty']
    if T[j - 1][1] == 0:
        c += o['hyphenpenalty']
    return c


def one(ctx, text, opts):
    w = lib('wrap').wrap
    o = dict(DEF, **opts)
    T = tokens(text, o['frenchspacing'])
    n = len(T)
    best = [0]
    for j in range(1, n + 1):
        best.append(min(best[i] + cost(T, i, j, o) for i in range(j)))
    ctx.t += 1
    lines = list(w(text, **opts))
    pos, tot = 0, 0
    for l in lines:
        for j in range(pos + 1, n + 1):
            if render(T, pos, j) == l:
                break
        else:
            ctx.check(False, 'options', opts, 'line', l, 'of', lines, 'does not continue the text')
        tot += cost(T, pos, j, o)
        pos = j
    if pos != n:
        ctx.check(False, 'options', opts, 'lines', lines, 'lose text')
    if tot != best[n]:
        ctx.check(False, 'options', opts, 'lines', lines, 'have penalty', tot, 'expected', best[n])
    ctx.outcome(len(lines))


def half(s):
    return sum(0.5 if c in '. -' else 1 for c in s)


def framed(s):
    """Not additive: every measured piece has a margin of its own."""
    return len(s) + 1


def wide(s):
    return sum(3 if c in 'bg' else 2 for c in s)


OPTS = [dict(longlast=True), dict(frenchspacing=True), dict(onewordpenalty=500), dict(onewordpenalty=0, hyphenpenalty=0), dict(hyphenpenalty=300), dict(nlinepenalty=0),
        dict(nlinepenalty=10), dict(overpenalty=5), dict(overpenalty=0), dict(measure=half), dict(measure=wide), dict(measure=framed), dict(longlast=True, nlinepenalty=5, hyphenpenalty=9, overpenalty=20)]


def texts(ctx, n, voc, targets, opts, i, k):
    for ws in shard(product(voc, repeat=n), i, k):
        text = ' '.join(ws)
        ctx.case(text)
        for t in targets:
            for o in opts:
                one(ctx, text, dict(o, target=t))


def spaces(ctx):
    """White space of the input is only a separator; default width; text type."""
    for n in range(0, 4):
        for ws in product(['ab', 'c.', 'd-e'], repeat=n):
            for seps in product([' ', '  ', '\n', '\t \n'], repeat=n + 1):
                text = seps[0] * (seps[0] != ' ') + ''.join(a + b for a, b in zip(ws, seps[1:]))
                ctx.case(text)
                one(ctx, text, {})
                one(ctx, text, dict(target=4))


def longer(ctx, voc, m, targets):
    """Periodic long texts."""
    for per in product(voc, repeat=3):
        text = ' '.join((per * m)[:m])
        ctx.case(text)
        for t in targets:
            one(ctx, text, dict(target=t))


def paragraphs(ctx, m, targets):
    """Long texts whose word lengths follow many patterns; line sizes from running totals."""
    for name, f in (('mod7', lambda i: i * i % 7 + 1), ('mod11', lambda i: (i * i * 3 + i) % 11 + 1), ('ones', lambda i: 1), ('steps', lambda i: i // 20 % 9 + 1),
                    ('rare long', lambda i: 30 if i % 37 == 0 else i % 5 + 2), ('growing', lambda i: i * 12 // m + 1)):
        for style in range(3):
            ws = []
            for i in range(m):
                w = 'x' * f(i)
                if style == 1 and i % 9 == 8:
                    w += '.'
                if style == 2 and i % 6 == 5:
                    w += '-' + w
                ws.append(w)
            text = ' '.join(ws)
            ctx.case('paragraph', name, style, m)
            T = tokens(text, False)
            n = len(T)
            run, start = [0], []
            for p, s in T:
                start.append(run[-1])
                run.append(run[-1] + len(p) + s)
            for t in targets:
                def price(i, j):
                    size = run[j] - T[j - 1][1] - start[i]
                    c = 1000 + (1000 * (size - t) if size > t else (t - size) ** 2 if j < n else 25 if j == i + 1 else 0)
                    return c + 25 * (T[j - 1][1] == 0)
                best = [0]
                for j in range(1, n + 1):
                    best.append(min(best[i] + price(i, j) for i in range(j)))
                ctx.t += 1
                lines = list(lib('wrap').wrap(text, target=t))
                pos = tot = 0
                for l in lines:
                    j = next((j for j in range(pos + 1, n + 1) if run[j] - T[j - 1][1] - start[pos] == len(l)), None)
                    ctx.check(j is not None and render(T, pos, j) == l, 'line', l, 'does not continue the text')
                    tot += price(pos, j)
                    pos = j
                ctx.check(pos == n and tot == best[n], 'target', t, 'lines', len(lines), 'have penalty', tot, 'expected', best[n])
            ctx.outcome(len(lines))


def forms(ctx, n, i, k):
    """Every word of the given length over letters, digits, full stops and inner hyphens, among others."""
    for cs in shard(product('aB1.-', repeat=n), i, k):
        w = ''.join(cs)
        if w[0] == '-' or w[-1] == '-':
            continue
        ctx.case('word', w)
        for text in (w, w + ' x', 'x ' + w + ' y', w + ' ' + w, 'Mr. ' + w + ' Z.'):
            for o in ({}, dict(target=3), dict(target=6, frenchspacing=True), dict(target=9), dict(measure=half, target=5)):
                one(ctx, text, o)


def defaults(ctx, n, sizes, i, k):
    """Words whose lengths add up around the default width, every option left at its default."""
    for ls in shard(product(sizes, repeat=n), i, k):
        text = ' '.join('x' * (abs(l) - 2) + '-y' if l < 0 else 'x' * l for l in ls)
        ctx.case('lengths', ls)
        one(ctx, text, {})


def units(tier):
    q = tier == 'quick'
    U = [('spaces', spaces, {})]
    T = tuple(range(1, 15))
    for n in range(0, 6):
        k = 8 if n > 3 else 1
        for i in range(k):
            U.append(('t%d-%d' % (n, i), texts, dict(n=n, voc=VOC, targets=T, opts=[{}], i=i, k=k)))
    for i in range(8):
        U.append(('o4-%d' % i, texts, dict(n=4, voc=VOC, targets=(3, 5, 6, 8, 11), opts=OPTS, i=i, k=8)))
        U.append(('m4-%d' % i, texts, dict(n=4, voc=VOC2 + VOC[1:3], targets=(1, 4, 6, 9, 13), opts=[{}, dict(hyphenpenalty=0), dict(longlast=True)], i=i, k=8)))
        U.append(('t6-%d' % i, texts, dict(n=6, voc=VOC if not q else VOC[:4], targets=T[2:] if not q else (4, 6, 9, 12), opts=[{}], i=i, k=8)))
        if not q:
            U.append(('t7-%d' % i, texts, dict(n=7, voc=VOC[:5], targets=(4, 6, 9, 12), opts=[{}], i=i, k=8)))
    for n in range(1, 5 if q else 6):
        for i in range(2):
            U.append(('forms%d-%d' % (n, i), forms, dict(n=n, i=i, k=2)))
    for n in range(1, 4):
        U.append(('default%d' % n, defaults, dict(n=n, sizes=(1, 2, 5, 12, 13, 24, 25, 31, 36, 37, 38, 39, 44, 45, 63, 75, 76, 77, 78, -38, -39, -76, -77), i=0, k=1)))
    for i in range(4):
        U.append(('default5-%d' % i, defaults, dict(n=5, sizes=(5, 13, 25, 37, 38, -39, 76) if q else (1, 5, 13, 25, 31, 37, 38, -39, 63, 76), i=i, k=4)))
    U.append(('o2', texts, dict(n=2, voc=VOC + VOC2, targets=T, opts=OPTS, i=0, k=1)))
    U.append(('o3', texts, dict(n=3, voc=VOC + VOC2, targets=(3, 5, 8, 12), opts=OPTS, i=0, k=1)))
    for m in (70, 150, 330):
        U.append(('paragraphs%d' % m, paragraphs, dict(m=m, targets=(12, 40, 76))))
    U.append(('long40', longer, dict(voc=VOC, m=40, targets=(9, 16, 30, 76))))
    U.append(('long90', longer, dict(voc=VOC[:4], m=90, targets=(14, 33))))
    return U
