"""Generate /verif/data: graphs up to isomorphism (one per line: n-vertex adjacency as edge list).

Counts are checked against the published sequences (A000088, A002851).
"""
import os
import sys

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')


def canon(n, adj):
    """Canonical edge bitmask; adj = list of neighbour bitmasks."""
    best = None

    def refine(cells):
        while True:
            new = []
            changed = False
            masks = []
            for c in cells:
                m = 0
                for v in c:
                    m |= 1 << v
                masks.append(m)
            for c in cells:
                if len(c) == 1:
                    new.append(c)
                    continue
                d = {}
                for v in c:
                    k = tuple(bin(adj[v] & m).count('1') for m in masks)
                    d.setdefault(k, []).append(v)
                if len(d) > 1:
                    changed = True
                for k in sorted(d):
                    new.append(d[k])
            cells = new
            if not changed:
                return cells

    def rec(cells):
        nonlocal best
        cells = refine(cells)
        i = next((i for i, c in enumerate(cells) if len(c) > 1), None)
        if i is None:
            pos = {c[0]: k for k, c in enumerate(cells)}
            m = 0
            for v in range(n):
                for w in range(v):
                    if adj[v] >> w & 1:
                        a, b = pos[v], pos[w]
                        if a < b:
                            a, b = b, a
                        m |= 1 << (a * (a - 1) // 2 + b)
            if best is None or m < best:
                best = m
            return
        reps = []
        for v in cells[i]:
            for w in reps:
                if adj[v] & ~(1 << w) == adj[w] & ~(1 << v):
                    break
            else:
                reps.append(v)
        for v in reps:
            rec(cells[:i] + [[v], [x for x in cells[i] if x != v]] + cells[i + 1:])
    rec([list(range(n))])
    return best or 0


def toadj(n, m):
    adj = [0] * n
    for a in range(n):
        for b in range(a):
            if m >> (a * (a - 1) // 2 + b) & 1:
                adj[a] |= 1 << b
                adj[b] |= 1 << a
    return adj


def extend(n, graphs, ok):
    """All n-vertex classes obtained by adding a vertex."""
    out = set()
    for g in graphs:
        adj = toadj(n - 1, g)
        for S in range(1 << (n - 1)):
            a = adj + [S]
            for v in range(n - 1):
                if S >> v & 1:
                    a[v] |= 1 << (n - 1)
            if ok(a):
                out.add(canon(n, a))
    return sorted(out)


def write(name, n, graphs):
    with open(os.path.join(OUT, name), 'w') as f:
        for g in graphs:
            f.write('%d %x\n' % (n, g))


def main():
    os.makedirs(OUT, exist_ok=True)
    known = [1, 1, 2, 4, 11, 34, 156, 1044, 12346]
    gs = [0]
    allg = {0: [0], 1: [0]}
    for n in range(2, 9):
        gs = extend(n, gs, lambda a: True)
        assert len(gs) == known[n], (n, len(gs))
        allg[n] = gs
        print(n, len(gs))
        sys.stdout.flush()
    for n in range(0, 9):
        write('g%d.txt' % n, n, allg[n])
    sub = [g for g in allg[8] if all(bin(x).count('1') <= 3 for x in toadj(8, g))]
    for n in (9, 10):
        sub = extend(n, sub, lambda a: all(bin(x).count('1') <= 3 for x in a))
        write('subcubic%d.txt' % n, n, sub)
        print('subcubic', n, len(sub))
    # cubic graphs on n vertices: add two adjacent vertices to the subcubic graphs on n-2 vertices
    # whose degrees fall short by four in total
    small = {8: [g for g in allg[8] if all(bin(x).count('1') <= 3 for x in toadj(8, g))], 10: sub}
    ck = {4: 1, 6: 2, 8: 5, 10: 19, 12: 85}
    for n in (4, 6, 8, 10, 12):
        out = set()
        for g in small.get(n - 2) or allg[n - 2]:
            adj = toadj(n - 2, g)
            need = [3 - bin(x).count('1') for x in adj]
            if min(need) < 0 or sum(need) != 4 or max(need) > 2:
                continue
            for S in range(1 << (n - 2)):
                a = [S >> v & 1 for v in range(n - 2)]
                b = [need[v] - a[v] for v in range(n - 2)]
                if sum(a) != 2 or min(b) < 0 or max(b) > 1:
                    continue
                A = [adj[v] | a[v] << (n - 2) | b[v] << (n - 1) for v in range(n - 2)]
                A.append(sum(a[v] << v for v in range(n - 2)) | 1 << (n - 1))
                A.append(sum(b[v] << v for v in range(n - 2)) | 1 << (n - 2))
                out.add(canon(n, A))

        def connected(g):
            adj, seen, todo = toadj(n, g), 1, [0]
            while todo:
                new = adj[todo.pop()] & ~seen
                seen |= new
                todo += [i for i in range(n) if new >> i & 1]
            return seen == (1 << n) - 1
        conn = sum(map(connected, out))
        assert conn == ck[n], (n, conn)
        print('cubic', n, len(out), conn)
        write('cubic%d.txt' % n, n, sorted(out))


if __name__ == '__main__':
    main()
