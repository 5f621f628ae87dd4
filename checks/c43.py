"""C43 graph readers."""
import io
import os
import tempfile
from mc.core import lib
from mc.gen import usource, shard

RULE = ('every labelled graph up to 5 vertices in every format and carrier, every labelled graph on 6 in graph6 and sparse6, classes on 7, sparse families with up to 300 vertices (sparse6 up to 258047) across the bit-width '
        'boundaries; every line prefix and every single mutation of the refusal kinds on all graphs up to 4 vertices')


# ------------------------------------------------------------------ writers (from the format documents)

def size6(n):
    if n <= 62:
        return chr(63 + n)
    return chr(126) + ''.join(chr(63 + (n >> s & 63)) for s in (12, 6, 0))


def bits6(b, pad='0'):
    while len(b) % 6:
        b += pad
    return ''.join(chr(63 + int(b[i:i + 6], 2)) for i in range(0, len(b), 6))


def graph6(n, E):
    S = {tuple(sorted(e)) for e in E}
    return size6(n) + bits6(''.join('1' if (i, j) in S else '0' for j in range(1, n) for i in range(j)))


def sparse6(n, E):
    k = 1
    while 1 << k < n:
        k += 1
    b, v = '', 0
    put = lambda bit, x: bit + format(x, '0%db' % k)
    for x, y in sorted(sorted(((min(e), max(e)) for e in E)), key=lambda e: (e[1], e[0])):
        if y == v:
            b += put('0', x)
        elif y == v + 1:
            b += put('1', x)
            v = y
        else:
            b += put('1', y) + put('0', x)
            v = y
    if len(b) % 6:
        room = 6 - len(b) % 6
        # a run of ones could be read as a loop at the last vertex
        if k < 6 and n == 1 << k and room >= k + 1 and v < n - 1:
            b += '0'
        return ':' + size6(n) + bits6(b, '1')
    return ':' + size6(n) + bits6(b)


def leda(n, E, extra=False):
    L = ['LEDA.GRAPH', 'void', 'void', str(n)] + ['|{}|'] * n + [str(2 * len(E))]
    for i, (u, v) in enumerate(E):
        L += ['%d %d %d |{}|' % (u + 1, v + 1, 2 * i + 2), '%d %d %d |{}|' % (v + 1, u + 1, 2 * i + 1)]
    if extra:
        out = ['# a comment', '']
        for l in L:
            out += [l.replace('{}', '{a#%d}' % len(out)), '# more', '']
        L = out
    return L


def graphml(n, E, style=0):
    head = '<graphml xmlns="http://graphml.graphdrawing.org/xmlns">'
    if style == 0:
        L = ['<?xml version="1.0" encoding="UTF-8"?>', head, '<graph id="G" edgedefault="undirected">'] + ['<node id="n%d"/>' % v for v in range(n)]
        L += ['<edge source="n%d" target="n%d"/>' % e for e in E] + ['</graph>', '</graphml>']
    elif style == 1:        # data children, per-edge directedness, tags over several lines
        L = [head, '<key id="d" for="node"/>', '<graph edgedefault="directed">']
        for v in range(n):
            L += ['<node', 'id="n%d">' % v, '<data key="d">x</data>', '</node>']
        for u, v in E:
            L += ['<edge directed="false"', 'source="n%d"' % u, 'target="n%d">' % v, '<data key="d"/></edge>']
        L += ['</graph></graphml>']
    else:                   # edges before nodes are not allowed by the reader; nested unknown elements are ignored
        L = ['<graphml><graph edgedefault="undirected"><desc>t</desc>' + ''.join('<node id="n%d"><port name="p"/></node>' % v for v in range(n)) +
             ''.join('<edge id="e%d-%d" source="n%d" target="n%d" directed="false"/>' % (e + e) for e in E) + '</graph></graphml>']
    return L


def nel(n, E, named=False, mixed=False):
    L = ['// nodes'] + ['v%d' % v for v in range(n)]
    if mixed:
        L.append('// named edges')
        for u, v in E[::2]:
            L += ['edge %d %d' % (u, v), 'v%d' % u, 'v%d' % v]
        L.append('// edges')
        for u, v in E[1::2]:
            L += ['v%d' % u, 'v%d' % v]
        return L
    L.append('// named edges' if named else '// edges')
    for u, v in E:
        if named:
            L.append('edge %d %d' % (u, v))
        L += ['v%d' % u, 'v%d' % v]
    return L


def malf(n, E, note=False):
    return ['%d%s' % (v + 1, ' 0 0 name' if note else '') for v in range(n)] + ['#'] + ['%d 0 %d %d' % (i + 1, u + 1, v + 1) for i, (u, v) in enumerate(E)]


def edgelist(n, E, dash):
    return ['v%d%sv%d' % (u, ' - ' if dash else ' ', v) for u, v in E]


# ------------------------------------------------------------------ reading

def same(ctx, what, G, n, E, name, edgesonly=False):
    A = {name(v): set() for v in range(n)}
    for u, v in E:
        A[name(u)].add(name(v))
        A[name(v)].add(name(u))
    if edgesonly:
        A = {v: a for v, a in A.items() if a}
    got = {v: set(G[v]) for v in G}
    if got != A:
        ctx.check(False, what, 'read as', G)
    ids = {}
    for v in G:
        for w in G[v]:
            if ids.setdefault(frozenset((v, w)), G[v][w]) != G[v][w]:
                ctx.check(False, what, 'edge ids of', v, w, 'differ by direction in', G)
    if len(set(ids.values())) != len(ids):
        ctx.check(False, what, 'edge ids repeat in', G)


def docs(n, E):
    """(format name, lines, vertex namer, edges only, also as one string)"""
    z, one, s = (lambda v: v), (lambda v: v + 1), (lambda v: 'v%d' % v)
    g = lambda v: 'n%d' % v
    R = [(v, u) for u, v in reversed(E)]
    yield 'graph6', [graph6(n, E)], z, False, True
    yield 'graph6 with header', ['>>graph6<<' + graph6(n, E)], z, False, True
    yield 'sparse6', [sparse6(n, E)], z, False, True
    yield 'sparse6 with header', ['>>sparse6<<' + sparse6(n, E)], z, False, True
    yield 'LEDA', leda(n, E), one, False, False
    yield 'LEDA reversed', leda(n, R), one, False, False
    yield 'LEDA with comments', leda(n, E, True), one, False, False
    for st in (0, 1, 2):
        yield 'GraphML %d' % st, graphml(n, R if st else E, st), g, False, st == 2
    yield 'node edge list', nel(n, E), s, False, False
    yield 'node edge list with names', nel(n, R, True), s, False, False
    yield 'node edge list with both', nel(n, E, mixed=True), s, False, False
    yield 'MALF', malf(n, R), one, False, False
    yield 'MALF with notes', malf(n, E, True), one, False, False
    if E:
        yield 'edge list', edgelist(n, E, False), s, True, False
        yield 'edge list with dashes', edgelist(n, R, True), s, True, False


def carriers(lines, string, realfile):
    yield 'list', list(lines)
    yield 'tuple', tuple(lines)
    yield 'iterator', iter(lines)
    yield 'text stream', io.StringIO('\n'.join(lines) + '\n')
    yield 'text stream without final newline', io.StringIO('\n'.join(lines))
    yield 'indented stream', io.StringIO(''.join('  ' + l + ' \r\n' for l in lines))
    if string:
        yield 'string', lines[0]
    if realfile:
        yield 'file', None


def graphs(ctx, spec, only=None, files=False):
    m = lib('read_undirected_graph')
    tmp = tempfile.mkdtemp(prefix='c43-') if files else None
    try:
        for n, E in usource(spec):
            E = [tuple(e) for e in E]
            for what, lines, name, eo, string in docs(n, E):
                if only and not what.startswith(only):
                    continue
                for how, src in carriers(lines, string, files):
                    if only and how not in ('list', 'string'):
                        continue
                    ctx.case(what, how, n, E)
                    ctx.t += 1
                    if how == 'file':
                        p = os.path.join(tmp, 'g.txt')
                        with open(p, 'w') as f:
                            f.write('\n'.join(lines) + '\n')
                        with open(p) as f:
                            G = m.readUndirectedGraph(f)
                    else:
                        G = m.readUndirectedGraph(src)
                    same(ctx, what + ' as ' + how, G, n, E, name, eo)
            ctx.outcome(n, len(E))
    finally:
        if tmp:
            p = os.path.join(tmp, 'g.txt')
            if os.path.exists(p):
                os.unlink(p)
            os.rmdir(tmp)


def large(ctx, lo, hi):
    m = lib('read_undirected_graph')
    for n in range(lo, hi):
        fams = {'empty': [], 'path': [(i, i + 1) for i in range(n - 1)], 'star': [(0, i) for i in range(1, n)], 'last': [(n - 2, n - 1)] if n > 1 else [], 'first': [(0, 1)] if n > 1 else [],
                'but': [(0, n - 2)] if n > 2 else [], 'ends': [(0, n - 1)] if n > 1 else [], 'hub': [(i, n - 1) for i in range(n - 1)], 'gap': [(i, i + 3) for i in range(0, n - 3, 4)],
                'butone': [(n - 3, n - 2)] if n > 2 else [], 'two': [(0, 1), (n - 2, n - 1)] if n > 3 else []}
        for fam, E in fams.items():
            for what, line in (('graph6', graph6(n, E)), ('sparse6', sparse6(n, E)), ('header', '>>sparse6<<' + sparse6(n, E)), ('header6', '>>graph6<<' + graph6(n, E))):
                ctx.case(what, n, fam)
                ctx.t += 1
                same(ctx, what, m.readUndirectedGraph(line if n % 2 else [line]), n, E, lambda v: v)


def sparse_big(ctx, ns):
    """sparse6 with vertex numbers of many bits."""
    m = lib('read_undirected_graph')
    for n in ns:
        for fam, E in (('ends', [(0, n - 1)]), ('spread', [(i, i + n // 3) for i in range(0, n // 2, max(1, n // 40))]), ('top', [(n - 2 - i, n - 1) for i in range(20)]), ('start', [(i, i + 1) for i in range(30)])):
            ctx.case('sparse6', n, fam)
            ctx.t += 1
            G = m.readUndirectedGraph(sparse6(n, E))
            ctx.equal(len(G), n, 'number of vertices')
            ctx.equal({v: set(G[v]) for v in G if G[v]}, {v: {b if a == v else a for a, b in E if v in (a, b)} for e in E for v in e}, 'edges')
            ctx.check(all(v in G for v in (0, 1, n // 2, n - 1)), 'vertices')


def crowd(ctx, n):
    """Graphs with hundreds of vertices and edges in every format and carrier, and refused variants."""
    m = lib('read_undirected_graph')
    fams = {'path': [(i, i + 1) for i in range(n - 1)], 'square': [(i, (i + 1) % n) for i in range(n)] + [(i, (i + 7) % n) for i in range(n)], 'far': [(i, n - 1 - i) for i in range(n // 2)]}
    for fam, E in fams.items():
        E = sorted({(min(e), max(e)) for e in E})
        for what, lines, name, eo, string in docs(n, E):
            for how, src in carriers(lines, string, False):
                ctx.case(what, how, n, fam)
                ctx.t += 1
                same(ctx, what + ' as ' + how, m.readUndirectedGraph(src), n, E, name, eo)
        bad = lambda lines, *why: (ctx.case(why, n, fam), ctx.raises(m.GraphFormatError, m.readUndirectedGraph, list(lines)))
        for j in (0, n // 2, n - 2):
            L = malf(n, E)
            bad(L[:j] + L[j + 1:], 'MALF without vertex', j)
            bad(L[:j + 1] + L[j:], 'MALF with vertex twice', j)
            k = n + 1 + min(j, len(E) - 2)
            bad(L[:k] + L[k + 1:], 'MALF without edge', j)
            for X in (E[:j] + [(j, j)] + E[j:], E[:j] + [(j, n)] + E[j:], E + [(n, 0)]):
                for what, lines in (('LEDA', leda(n, X)), ('GraphML', graphml(n, X)), ('nodes', nel(n, X)), ('names', nel(n, X, True)), ('MALF', malf(n, X))):
                    bad(lines, what, 'with a bad edge', j)
            L = nel(n, E)
            bad(L[:n + 1] + [L[1 + j]] + L[n + 1:], 'node twice', j)
            L = nel(n, E, True)
            k = n + 2 + 3 * min(j, len(E) - 1)
            bad(L + L[k:k + 3], 'edge name twice', j)
            L = graphml(n, E)
            bad(L[:3 + j] + [L[3 + j]] + L[3 + j:], 'node twice', j)
            k = 3 + n + min(j, len(E) - 1)
            bad(L[:k] + [L[k].replace('<edge', '<edge directed="true"')] + L[k + 1:], 'directed', j)
            L = leda(n, E)
            bad(L[:len(L) - 1 - j], 'truncated LEDA', j)
            k = len(L) - 2 * len(E) + 2 * min(j, len(E) - 1)
            bad(L[:k] + [' '.join(L[k].split()[:2]) + ' 0 |{}|'] + L[k + 1:], 'directed', j)
        g = graph6(n, E)
        for t in (g + '?', g[:-1], g[:1] + g[2:]):
            bad(['>>graph6<<' + t], 'graph6 length')
        ctx.outcome(n, len(E))


def known_samples(ctx):
    """Examples printed in the format document."""
    m = lib('read_undirected_graph')
    ctx.case('documented samples')
    ctx.t += 2
    same(ctx, 'graph6 sample', m.readUndirectedGraph('DQc'), 5, [(0, 2), (0, 4), (1, 3), (3, 4)], lambda v: v)
    same(ctx, 'sparse6 sample', m.readUndirectedGraph(':Fa@x^'), 7, [(0, 1), (0, 2), (1, 2), (5, 6)], lambda v: v)


def refusals(ctx, spec):
    m = lib('read_undirected_graph')
    bad = lambda lines, *why: (ctx.case(why, lines), ctx.raises(m.GraphFormatError, m.readUndirectedGraph, list(lines)),
                               ctx.raises(m.GraphFormatError, m.readUndirectedGraph, io.StringIO('\n'.join(lines))))
    for n, E in usource(spec):
        E = [tuple(e) for e in E]
        if n:
            for v in range(n):
                L = E + [(v, v)]
                for what, lines in (('LEDA', leda(n, L)), ('GraphML', graphml(n, L)), ('GraphML1', graphml(n, L, 1)), ('nodes', nel(n, L)), ('names', nel(n, L, True)), ('MALF', malf(n, L)),
                                    ('edges', edgelist(n, L, False)), ('dashes', edgelist(n, L, True))):
                    bad(lines, 'self-loop', what)
                U = E + [(v, n)]
                W = [(n, v)] + E
                for X in (U, W):
                    for what, lines in (('LEDA', leda(n, X)), ('GraphML', graphml(n, X)), ('nodes', nel(n, X)), ('names', nel(n, X, True)), ('MALF', malf(n, X))):
                        bad(lines, 'unknown vertex', what)
                # duplicate vertices
                g = graphml(n, E)
                bad(g[:3 + v] + [g[3 + v]] + g[3 + v:], 'duplicate vertex')
                l = nel(n, E)
                bad(l[:n + 1] + [l[1 + v]] + l[n + 1:], 'duplicate vertex')
                l = malf(n, E)
                bad(l[:v] + [l[v]] + l[v:], 'duplicate vertex')
                if v:
                    bad(l[:v - 1] + l[v:], 'missing vertex') if v < n else None
        for i, (u, v) in enumerate(E):
            # directed edges
            l = leda(n, E)
            k = len(l) - 2 * len(E) + 2 * i
            bad(l[:k] + ['%d %d 0 |{}|' % (u + 1, v + 1)] + l[k + 1:], 'directed')
            bad(l[:k] + ['%d %d' % (u + 1, v + 1)] + l[k + 1:], 'too few fields')
            bad(l[:k] + ['%d x 1 |{}|' % (u + 1)] + l[k + 1:], 'not a number')
            l = graphml(n, E)
            k = 3 + n + i
            bad(l[:k] + [l[k].replace('<edge', '<edge directed="true"')] + l[k + 1:], 'directed')
            bad(l[:k] + [l[k].replace('source', 'sauce')] + l[k + 1:], 'no source')
            bad(l[:k] + [l[k].replace('target', 'tergat')] + l[k + 1:], 'no target')
            bad(l[:2] + [l[2].replace('undirected', 'directed')] + l[3:], 'directed by default')
            l = malf(n, E)
            k = n + 1 + i
            bad(l[:k] + ['%d 1 %d %d' % (i + 1, u + 1, v + 1)] + l[k + 1:], 'edge type')
            bad(l[:k] + ['%d 0 %d' % (i + 1, u + 1)] + l[k + 1:], 'three numbers')
            bad(l[:k] + ['%d 0 %d %d 0' % (i + 1, u + 1, v + 1)] + l[k + 1:], 'five numbers')
            bad(l[:k] + ['%d 0 %d %d' % (i + 2, u + 1, v + 1)] + l[k + 1:], 'nonconsecutive edges')
            bad(l[:k] + ['%d 0 %d v' % (i + 1, u + 1)] + l[k + 1:], 'not a number')
            l = edgelist(n, E, True)
            bad(l[:i] + [l[i].replace(' - ', ' -> ')] + l[i + 1:], 'directed')
            bad(l[:i] + ['a - b - c'] + l[i + 1:], 'five words')
            bad(l[:i] + ['a b c'] + l[i + 1:], 'three words')
            bad(l[:i] + ['a+'] + l[i + 1:], 'one word')
        # truncation
        l = leda(n, E)
        for k in range(1, len(l)):
            bad(l[:k], 'truncated LEDA')
        for st in (0, 1):
            l = graphml(n, E, st)
            for k in range(1, len(l)):
                bad(l[:k], 'truncated GraphML')
        l = graphml(n, E, 2)[0]
        bad([l[:-1]], 'truncated GraphML')
        bad([l[:-10]], 'truncated GraphML')
        for named in (False, True):
            l = nel(n, E, named)
            per = 3 if named else 2
            for k in range(n + 2, len(l)):
                if (k - n - 2) % per:
                    bad(l[:k], 'truncated node edge list')
                    bad(l[:k] + ['// nodes'], 'missing endpoint')
            if named and E:
                bad(l + l[n + 2:n + 5], 'edge name used twice')
            bad(l + ['// something'], 'unknown section')
            bad(['// '] + l, 'unknown section')
        # graph6 of the wrong length
        g = graph6(n, E)
        for t in [g + '?', g + '~'] + ([g[:-1]] if len(g) > 1 else []):
            bad([t], 'graph6 length')
            bad(['>>graph6<<' + t], 'graph6 length')
        bad(['>>graph6<<' + g + '!'], 'graph6 character')
        bad(['>>sparse6<<' + g], 'no colon')
        ctx.outcome(n, len(E))
    for t in ('>>graph6<<', '>>sparse6<<', '>>sparse6<<:', '~', '~?', '~??', '>>graph6<<~??', ':~??', '>>sparse6<<:~'):
        bad([t], 'truncated')
        ctx.raises(m.GraphFormatError, m.readUndirectedGraph, t)
    for t in ('<notgraphml/>', '<graphml><graph/></graphml>', '<graphml><graph edgedefault="undirected"><node/></graph></graphml>', '<graphml><graph edgedefault="undirected"></graphml>'):
        bad([t], 'bad GraphML')
    for v in range(4):
        # sparse6 with a loop at v of a five-vertex graph
        b = ('1' if v == 1 else '0') + format(v, '03b')
        if v > 1:
            b = '1' + format(v, '03b') + '0' + format(v, '03b')
        bad([':' + size6(5) + bits6(b, '1')], 'sparse6 self-loop')


def units(tier):
    q = tier == 'quick'
    U = [('lab4', graphs, dict(spec='lab<=4', files=True)), ('samples', known_samples, {})]
    for i in range(8):
        U.append(('lab5-%d' % i, graphs, dict(spec='lab5:%d:8' % i)))
        U.append(('lab6-%d' % i, graphs, dict(spec='lab6:%d:8' % i, only=('graph6', 'sparse6'))))
        U.append(('cls7-%d' % i, graphs, dict(spec='cls7:%d:8' % i)))
        U.append(('cls8-%d' % i, graphs, dict(spec='cls8:%d:8' % i, only=('graph6', 'sparse6'))))
    U += [('large%d' % lo, large, dict(lo=lo, hi=lo + 10)) for lo in range(0, 140, 10)] + [('large%d' % lo, large, dict(lo=lo, hi=lo + 4)) for lo in (254, 258, 296)]
    if not q:
        U += [('large%d' % lo, large, dict(lo=lo, hi=lo + 10)) for lo in range(140, 250, 10)] + [('large510', large, dict(lo=510, hi=516))]
    for ns in ((1023, 1024, 1025), (4094, 4095, 4096, 4097), (5000, 8191, 8192, 8193), (32768, 65537), (131072, 258047)):
        U.append(('sparse%d' % ns[0], sparse_big, dict(ns=ns)))
    U += [('crowd%d' % n, crowd, dict(n=n)) for n in (64, 100, 101, 128, 257, 400)]
    U.append(('refuse3', refusals, dict(spec='lab<=3')))
    U.append(('refuse4', refusals, dict(spec='lab4')))
    U.append(('refuse5', refusals, dict(spec='cls5')))
    return U
