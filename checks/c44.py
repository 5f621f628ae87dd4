"""C44 SVG output."""
import io
import re
import xml.parsers.expat
from itertools import product
from mc.core import lib
from mc.gen import shard

RULE = ('every sequence of up to 4 (quick) or 5 calls over the drawing, grouping and element calls in every document mode, with parsed output compared element by element; every shape with all '
        'coordinates from a value set; all group open/close patterns up to length 8; long polygons, texts, styles and nestings')


class Bad(Exception):
    pass


def parse(text, wrap):
    """List tree [name, attrs, children, text]."""
    root = ['', {}, [], '']
    stack = [root]

    def start(n, a):
        node = [n, a, [], '']
        stack[-1][2].append(node)
        stack.append(node)

    def end(n):
        stack.pop()

    def chars(t):
        stack[-1][3] += t
    p = xml.parsers.expat.ParserCreate()
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, chars
    if wrap:
        text = '<outer>' + text + '</outer>'
    try:
        p.Parse(text, True)
    except xml.parsers.expat.ExpatError as e:
        raise Bad(str(e))
    return root[2][0] if not wrap else root[2][0][2][0]


def style(s):
    out = {}
    for part in s.split(';'):
        if part.strip():
            k, v = part.split(':')
            out[k.strip()] = v.strip()
    return out


def near(s, x):
    return abs(float(s) - x) < 6e-5


def close(a, b):
    return abs(a - b) < 6e-5


def matches(ctx, node, want, prefix):
    """want = (name, numeric attributes, style dict, text)"""
    name, nums, sty, text = want
    if node[0] != prefix + name:
        return 'element %s instead of %s' % (node[0], name)
    a = dict(node[1])
    got = style(a.pop('style', ''))
    if got != sty:
        return 'style %r instead of %r' % (got, sty)
    if name == 'polygon':
        pts = [tuple(map(float, p.split(','))) for p in a.pop('points').split()]
        if len(pts) != len(nums) or not all(close(p[0], q.real) and close(p[1], q.imag) for p, q in zip(pts, nums)):
            return 'points %r instead of %r' % (pts, nums)
    elif name == 'path':
        p, q, r, large = nums
        d = a.pop('d').replace(',', ' ').split()
        if len(d) != 11 or d[0] != 'M' or d[3] != 'A' or not (near(d[1], p.real) and near(d[2], p.imag) and near(d[4], abs(r)) and near(d[5], abs(r)) and float(d[6]) == 0 and
                                                             d[7] == ('1' if large else '0') and d[8] == '0' and near(d[9], q.real) and near(d[10], q.imag)):
            return 'arc %r instead of %r' % (d, nums)
    else:
        for k, v in nums.items():
            if k not in a or (a.pop(k) != v if isinstance(v, str) else not near(node[1][k], v)):
                return 'attribute %s of %r, expected %r' % (k, node[1], nums)
            a.pop(k, None)
    if a and name != 'svg':
        return 'further attributes %r' % a
    if text is not None and node[3] != text:
        return 'text %r instead of %r' % (node[3], text)
    if text is None and node[3].strip():
        return 'unexpected text %r' % node[3]


def calls():
    """name -> (invoke, expected (name, attributes, style, text))"""
    C = {}

    def add(key, f, want):
        C[key] = (f, want)
    add('circle', lambda s: s.circle(1 + 2j, 3), ('circle', {'cx': 1, 'cy': 2, 'r': 3}, {}, None))
    add('circle2', lambda s: s.circle(10.5 + 0j, 0.25, {'fill': 'none', 'stroke': 'red'}, fill='#FFFFFF'), ('circle', {'cx': 10.5, 'cy': 0, 'r': .25}, {'fill': '#FFFFFF', 'stroke': 'red'}, None))
    add('rect', lambda s: s.rectangle(1 + 7j, 4 + 2j, fill='blue'), ('rect', {'x': 1, 'y': 2, 'width': 3, 'height': 5}, {'fill': 'blue'}, None))
    add('poly', lambda s: s.polygon([0j, 10 + 0j, 3.5 + 20j]), ('polygon', [0j, 10 + 0j, 3.5 + 20j], {}, None))
    add('line', lambda s: s.segment(1 + 2j, 3 + 4j, style={'stroke': 'black'}), ('line', {'x1': 1, 'y1': 2, 'x2': 3, 'y2': 4}, {'stroke': 'black'}, None))
    add('arc', lambda s: s.arc(1 + 2j, 3 + 4j, -5), ('path', (1 + 2j, 3 + 4j, 5, False), {}, None))
    add('arc2', lambda s: s.arc(1 + 2j, 3 + 4j, 50, True, fill='none'), ('path', (1 + 2j, 3 + 4j, 50, True), {'fill': 'none'}, None))
    add('text', lambda s: s.text('a &amp; b', 5 + 6j), ('text', {'x': 5, 'y': 6}, {}, 'a & b'))
    add('text2', lambda s: s.text('', 5 + 6j, {'a': 'b'}), ('text', {'x': 5, 'y': 6}, {'a': 'b'}, ''))
    add('element', lambda s: s.element('use x="4"', stroke='green'), ('use', {'x': 4}, {'stroke': 'green'}, None))
    add('open', lambda s: s.group(), ('g', {}, {}, None))
    add('open2', lambda s: s.group({'fill': 'x'}, stroke='y'), ('g', {}, {'fill': 'x', 'stroke': 'y'}, None))
    add('open3', lambda s: s.element('defs', +1), ('defs', {}, {}, None))
    add('close', lambda s: s.ungroup(), None)
    add('close3', lambda s: s.element('defs', -1), None)
    return C


CALLS = calls()
MODES = [dict(), dict(standalone=False), dict(prefix='s', standalone=False), dict(indentation=4), dict(standalone=False, prefix='svg', indentation=3)]


def run(ctx, seq, mode, bbox=100 + 50j):
    svg = lib('svg')
    out = io.StringIO()
    ctx.t += len(seq) + 2
    s = svg.SVG(bbox, out, **mode)
    tree = [('svg', {'width': bbox.real, 'height': bbox.imag}, {}, None), []]
    stack = [tree]
    legal = True
    depth = 0
    for c in seq:
        f, want = CALLS[c] if isinstance(c, str) else c
        if want is None:
            depth -= 1
            if len(stack) > 1 and (stack[-1][0][0] == 'defs') == (c == 'close3'):
                stack.pop()
            else:
                legal = False
        else:
            node = [want, []]
            if legal:
                stack[-1][1].append(node)
            if want[0] in ('g', 'defs') and str(c).startswith('open'):
                depth += 1
                stack.append(node)
        f(s)
    if depth:
        try:
            s.close()
        except Exception:
            ctx.outcome('refused')
            return
        ctx.check(False, 'document with unbalanced groups was closed', seq)
    if not legal:
        return
    s.close()
    try:
        got = parse(out.getvalue(), not mode.get('standalone', True))
    except Bad as e:
        ctx.check(False, 'not well formed:', e, out.getvalue())
    prefix = mode.get('prefix', '')
    prefix += ':' if prefix else ''

    def compare(node, exp):
        err = matches(ctx, node, exp[0], prefix)
        if not err and len(node[2]) != len(exp[1]):
            err = '%d elements inside %s instead of %d' % (len(node[2]), node[0], len(exp[1]))
        if err:
            ctx.check(False, err, 'calls', seq, 'mode', mode, out.getvalue())
        for a, b in zip(node[2], exp[1]):
            compare(a, b)
    compare(got, tree)
    text = out.getvalue()
    ctx.equal(text.lstrip().startswith('<?xml'), mode.get('standalone', True), 'whether the output starts as an XML file of its own')
    line = next(x for x in text.splitlines() if '<' + prefix + 'svg' in x)
    ctx.equal(len(line) - len(line.lstrip()), mode.get('indentation', 0), 'indentation of the outermost element')
    vb = [float(x) for x in got[1]['viewBox'].split()]
    ctx.check(len(vb) == 4 and vb[:2] == [0, 0] and close(vb[2], bbox.real) and close(vb[3], bbox.imag), 'view box', vb)
    ctx.outcome('closed')


def sequences(ctx, n, keys, modes, i, k):
    for seq in shard(product(keys, repeat=n), i, k):
        ctx.case(seq)
        for m in modes:
            run(ctx, seq, MODES[m])


VALS = [0.0, 1.0, 10.0, 100.0, 1000000.0, 0.5, 0.1, 12.3456, 12.34564, 0.00004, 99.99996, 120.0, -3.0, -0.25, 7.1009, 123456.789, -2000000.5]


def numbers(ctx, what):
    """Every combination of coordinate values for one shape."""
    if what == 'box':
        for x, y in product([v for v in VALS if v > 0], repeat=2):
            ctx.case(what, x, y)
            run(ctx, (), {}, complex(x, y))
        return
    V = VALS if what in ('circle', 'text') else VALS[:4] + [0.5, 12.34564, -3.0, 120.0, 123456.789]
    for a, b in product(V, repeat=2):
        p = complex(a, b)
        if what == 'text':
            ctx.case(what, p)
            run(ctx, [(lambda s: s.text('t', p), ('text', {'x': a, 'y': b}, {}, 't'))], {})
            continue
        for c in V:
            if what == 'circle':
                ctx.case(what, p, c)
                run(ctx, [(lambda s: s.circle(p, c), ('circle', {'cx': a, 'cy': b, 'r': c}, {}, None))], {})
                continue
            for d in V:
                q = complex(c, d)
                ctx.case(what, p, q)
                if what == 'rect':
                    run(ctx, [(lambda s: s.rectangle(p, q), ('rect', {'x': min(a, c), 'y': min(b, d), 'width': abs(a - c), 'height': abs(b - d)}, {}, None))], {})
                elif what == 'line':
                    run(ctx, [(lambda s: s.segment(p, q), ('line', {'x1': a, 'y1': b, 'x2': c, 'y2': d}, {}, None))], {})
                elif what == 'poly':
                    pts = [p, q, complex(b, c), complex(d, a)]
                    for P in (pts, pts[:3], pts[:1], tuple(pts) * 2):
                        run(ctx, [(lambda s: s.polygon(P), ('polygon', list(P), {}, None))], {})
                    run(ctx, [(lambda s: s.polygon(iter(pts)), ('polygon', pts, {}, None))], {})
                elif what == 'arc':
                    for large in (False, True):
                        run(ctx, [(lambda s: s.arc(p, q, d, large), ('path', (p, q, d, large), {}, None))], {})


def styles(ctx):
    """Every split of three style items between the dictionary and the keywords."""
    items = [('fill', 'red'), ('stroke', 'blue'), ('opacity', '0.5')]
    shapes = [('circle', lambda s, **k: s.circle(1 + 1j, 2, **k), {'cx': 1, 'cy': 1, 'r': 2}), ('rect', lambda s, **k: s.rectangle(0j, 1 + 2j, **k), {'x': 0, 'y': 0, 'width': 1, 'height': 2}),
              ('polygon', lambda s, **k: s.polygon([1j], **k), [1j]), ('line', lambda s, **k: s.segment(0j, 1j, **k), {'x1': 0, 'y1': 0, 'x2': 0, 'y2': 1}),
              ('path', lambda s, **k: s.arc(0j, 1j, 1, **k), (0j, 1j, 1, False)), ('text', lambda s, **k: s.text('t', 0j, **k), {'x': 0, 'y': 0}),
              ('g', None, {})]
    for where in product((None, 'd', 'k', 'dk'), repeat=3):
        D = {k: (v if w == 'd' else 'other') for (k, v), w in zip(items, where) if w and 'd' in w}
        K = {k: v for (k, v), w in zip(items, where) if w and 'k' in w}
        want = {k: v for (k, v), w in zip(items, where) if w}
        for name, f, nums in shapes:
            ctx.case(name, where)
            for mode in MODES:
                keep = dict(D)
                if name == 'g':
                    CALLS['openx'] = (lambda s: s.group(D, **K), ('g', {}, want, None))
                    run(ctx, ['openx', 'circle', 'close', 'line'], mode)
                else:
                    run(ctx, [(lambda s: f(s, style=D, **K), (name, nums, want, 't' if name == 'text' else None))], mode)
                ctx.equal(D, keep, 'style dictionary passed in')


def long(ctx):
    """Polygons of many points, deep nesting, many elements, several style items."""
    for n in (31, 32, 33, 64, 65, 100, 257, 1000):
        P = [complex(i * i % 101 + i / 8, i * 7 % 13 - 3) for i in range(n)]
        ctx.case('polygon', n)
        run(ctx, [(lambda s: s.polygon(P), ('polygon', P, {}, None))], {})
        run(ctx, [(lambda s: s.polygon(tuple(P), {'fill': 'x'}), ('polygon', P, {'fill': 'x'}, None))], MODES[2])
    for n in (9, 17, 33, 64, 100):
        for mode in MODES:
            ctx.case('nested', n, mode)
            run(ctx, ['open'] * n + ['circle', 'text'] + ['close'] * n + ['line'], mode)
            run(ctx, (['open2', 'open3', 'rect'] * n) + ['arc'] + ['close3', 'close'] * n, mode)
            run(ctx, ['circle', 'open', 'text', 'close', 'line', 'poly'] * n, mode)
    for n in range(1, 12):
        items = [('fill', 'red'), ('stroke-width', '3'), ('font_family', 'a'), ('stroke_dasharray', '1 2'), ('x1', '5'), ('Opacity', '0.5'), ('font-size', '12pt'), ('color', '#123456'), ('marker-end', 'none'), ('a', 'b'), ('_', '-')][:n]
        D = dict(items)
        ctx.case('style', n)
        for mode in MODES:
            run(ctx, [(lambda s: s.circle(0j, 1, D), ('circle', {'cx': 0, 'cy': 0, 'r': 1}, D, None)), (lambda s: s.text('t', 1j, **{k.replace('-', 'Q'): v for k, v in items}), ('text', {'x': 0, 'y': 1}, {k.replace('-', 'Q'): v for k, v in items}, 't'))], mode)
    for text in ('x' * 500, 'a b  c', '&lt;&gt;', 'line\nbreak', '%s %d', '{}', '"quoted"', '\u00e9\u4e2d'):
        ctx.case('text', text)
        plain = text.replace('&lt;', '<').replace('&gt;', '>')
        for mode in MODES:
            run(ctx, ['open', (lambda s: s.text(text, 2 + 3j), ('text', {'x': 2, 'y': 3}, {}, plain)), 'close'], mode)


def palette(ctx):
    """The named colours, each used in a drawing."""
    svg = lib('svg')
    names = ['none', 'white', 'black', 'red', 'blue', 'green', 'yellow', 'magenta']
    ctx.case('colors')
    value = {n: getattr(svg.colors, n) for n in names}
    ctx.equal((value['none'].lower(), value['white'].lower(), value['black'].lower()), ('none', '#ffffff', '#000000'), 'none, white and black')
    ctx.equal(len({v.lower() for v in value.values()}), len(names), 'different colours')
    rgb = {}
    for n in names[3:]:
        ctx.check(re.fullmatch('#[0-9A-Fa-f]{6}', value[n]), 'colour', n, 'is', value[n])
        rgb[n] = [int(value[n][j:j + 2], 16) for j in (1, 3, 5)]
    for n, strong in (('red', (0,)), ('green', (1,)), ('blue', (2,)), ('yellow', (0, 1)), ('magenta', (0, 2))):
        ctx.check(all(rgb[n][a] > rgb[n][b] for a in strong for b in range(3) if b not in strong), n, 'has the components', rgb[n])
    for a, b in product(names, repeat=2):
        ctx.case(a, b)
        run(ctx, [(lambda s: s.circle(0j, 1, fill=value[a], stroke=value[b]), ('circle', {'cx': 0, 'cy': 0, 'r': 1}, {'fill': value[a], 'stroke': value[b]}, None))], {})


def units(tier):
    q = tier == 'quick'
    U = []
    keys = list(CALLS)
    for n in range(0, 4):
        U.append(('seq%d' % n, sequences, dict(n=n, keys=keys, modes=(0, 1, 2, 3, 4), i=0, k=1)))
    for i in range(8):
        U.append(('seq4-%d' % i, sequences, dict(n=4, keys=keys, modes=(0, 2), i=i, k=8)))
        U.append(('nest7-%d' % i, sequences, dict(n=7, keys=['open', 'text', 'close'], modes=(0, 4), i=i, k=8)))
        U.append(('nest6-%d' % i, sequences, dict(n=6, keys=['open2', 'open3', 'close', 'close3'], modes=(0, 1), i=i, k=8)))
        if not q:
            U.append(('seq5-%d' % i, sequences, dict(n=5, keys=keys, modes=(0,), i=i, k=8)))
            U.append(('nest9-%d' % i, sequences, dict(n=9, keys=['open', 'text', 'close'], modes=(0,), i=i, k=8)))
    U += [('num-' + w, numbers, dict(what=w)) for w in ('box', 'circle', 'text', 'rect', 'line', 'poly', 'arc')]
    U.append(('styles', styles, {}))
    U.append(('long', long, {}))
    U.append(('colors', palette, {}))
    return U
