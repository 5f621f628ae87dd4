"""C36 sieves."""
from itertools import islice, permutations, combinations
from importlib import reload
from mc.core import lib

RULE = ('every term below 150000 (quick) or 1500000 of primes, factorizations and Moebius values, practical numbers below 6000/20000 by their definition as sums of '
        'distinct divisors; factorizations of numbers beyond 64 bits near every threshold of the divisor-sum criterion; every order of up to five Moebius queries on a fresh table; retained factorizations')


def spf(N):
    """Smallest prime factor by trial marking."""
    S = list(range(N))
    i = 2
    while i * i < N:
        if S[i] == i:
            for j in range(i * i, N, i):
                if S[j] == j:
                    S[j] = i
        i += 1
    return S


def factors(n, S):
    F = {}
    while n > 1:
        F[S[n]] = F.get(S[n], 0) + 1
        n //= S[n]
    return F


def primes(ctx, N):
    m = lib('eratosthenes')
    S = spf(N)
    it = m.primes()
    for n in range(2, N):
        if S[n] == n:
            ctx.case('prime', n)
            ctx.t += 1
            g = next(it, None)
            if g != n:
                ctx.check(False, 'next prime listed is', g, 'expected', n)


def factored(ctx, N, keep):
    m = lib('eratosthenes')
    S = spf(N)
    it = m.factored_integers()
    held = []
    for n in range(1, N):
        ctx.case('factored', n)
        ctx.t += 1
        g = next(it, None)
        F = factors(n, S)
        if g is None or g[0] != n or g[1] != F:
            ctx.check(False, 'next pair is', g, 'expected', (n, F))
        if keep:
            held.append(g)
            # everything handed out recently and far back is still right
            for back in (1, 2, 3, 7, n // 2):
                if back < len(held):
                    a, B = held[-1 - back]
                    if B != factors(a, S):
                        ctx.check(False, 'factorization of', a, 'became', B, 'after advancing to', n)
    for a, B in held:
        if B != factors(a, S):
            ctx.check(False, 'factorization of', a, 'became', B)


def moebius(ctx, N):
    m = lib('eratosthenes')
    S = spf(N)
    it = m.moebius_sequence()
    for n in range(1, N):
        ctx.case('moebius', n)
        F = factors(n, S)
        want = 0 if any(x > 1 for x in F.values()) else (-1) ** len(F)
        ctx.t += 2
        g = next(it, None)
        if g != want or m.moebius_function(n) != want:
            ctx.check(False, 'Moebius value of', n, 'is', g, m.moebius_function(n), 'expected', want)
        ctx.outcome(want)


def orders(ctx, pool, size):
    m = lib('eratosthenes')
    S = spf(max(pool) + 1)
    mu = {n: 0 if any(x > 1 for x in factors(n, S).values()) else (-1) ** len(factors(n, S)) for n in pool}
    for c in combinations(pool, size):
        for p in permutations(c):
            ctx.case(p)
            m = reload(m)
            for n in p + p[:1]:
                ctx.t += 1
                if m.moebius_function(n) != mu[n]:
                    ctx.check(False, 'Moebius value of', n, 'is', m.moebius_function(n), 'expected', mu[n])
            # other generators started from the same module do not disturb the table
            list(islice(m.moebius_sequence(), 7))
            ctx.equal(m.moebius_function(max(p)), mu[max(p)], 'after starting another sequence')


def practical(ctx, N):
    m = lib('eratosthenes')
    it = m.practical_numbers()
    for n in range(1, N):
        ctx.case('practical', n)
        sums = 1
        for d in range(1, n + 1):
            if n % d == 0:
                sums |= sums << d
        full = (1 << (n + 1)) - 1
        if sums & full == full:
            ctx.t += 1
            g = next(it, None)
            if g != n:
                ctx.check(False, 'next practical number listed is', g, 'expected', n)
            ctx.outcome(True)


def practical_test(ctx, N):
    m = lib('eratosthenes')
    S = spf(N)
    for n in range(1, N):
        F = factors(n, S)
        ds = [d for d in range(1, n + 1) if n % d == 0]
        sums = 1
        for d in ds:
            sums |= sums << d
        want = sums & ((1 << (n + 1)) - 1) == (1 << (n + 1)) - 1
        ctx.case('practical test', n)
        for src in (F, dict(reversed(list(F.items())))):
            ctx.t += 1
            if bool(m.is_practical_factorization(src)) != want:
                ctx.check(False, 'practical test of', src, 'gives', not want)


def practical_large(ctx):
    """Factorizations of large numbers: by the divisor sums of Stewart and Sierpinski, with every divisor added up."""
    m = lib('eratosthenes')
    bases = [{2: a} for a in (1, 2, 5, 8, 9, 10, 11, 15, 31, 52, 53, 54, 64, 100)] + [{2: a, 3: b} for a in (1, 2, 9, 12, 40) for b in (1, 2, 10, 34)] + \
            [{2: 3, 3: 2, 5: 1}, {2: 1, 3: 1, 5: 1, 7: 1, 11: 1, 13: 1, 17: 1, 19: 1}, {2: 20, 7: 12, 31: 9}, {3: 5}, {}]
    for F in bases:
        sigma, ok = 1, True
        for p, x in sorted(F.items()):
            ok = ok and p <= sigma + 1
            sigma *= sum(p ** i for i in range(x + 1))
        near = {q for d in range(-400, 401) for q in (sigma + d,) if q > max(F, default=1) and prime(q)} | {q for q in (101, 199, 211, 257, 65537, 2147483647) if q not in F}
        for q in sorted(near):
            for x in ((1, 2, 12) if abs(q - sigma) < 60 else (1,)):
                H = dict(F)
                H[q] = x
                G = sorted(H.items())
                s, want = 1, True
                for p, y in G:
                    want = want and p <= s + 1
                    s *= sum(p ** i for i in range(y + 1))
                ctx.case('large', G)
                ctx.t += 1
                for src in (H, dict(reversed(G))):
                    ctx.equal(bool(m.is_practical_factorization(src)), want, 'practical test of', src)
                ctx.outcome(want)


def prime(n):
    """Deterministic Miller-Rabin for the first thirteen bases; only used to pick test values."""
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        if n % p == 0:
            return n == p
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def units(tier):
    q = tier == 'quick'
    N = 150000 if q else 1500000
    return [('primes', primes, dict(N=N * 3)), ('factored', factored, dict(N=N, keep=False)), ('kept', factored, dict(N=N // 4, keep=True)), ('moebius', moebius, dict(N=max(N, 512000))),
            ('practical', practical, dict(N=6000 if q else 20000)), ('practical-test', practical_test, dict(N=3000 if q else 8000)),
            ('practical-large', practical_large, {}), ('orders5', orders, dict(pool=(1, 2, 4, 6, 30), size=5)), ('orders3', orders, dict(pool=(1, 2, 3, 4, 12, 30, 210, 49), size=3)),
            ('orders4', orders, dict(pool=(1, 2, 9, 10, 11, 105, 120), size=4))]
