"""ntrugen.py against exact definitions"""
import random

import pyhunt
import ntrugen
from common import sqnorm
from polyntt.poly import Poly

Q = 12289


def mul(a, b):
    n = len(a)
    r = [0] * n
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if i + j < n:
                    r[i + j] += x * y
                else:
                    r[i + j - n] -= x * y
    return r


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def small(r, n, s):
    return [int(r.gauss(0, s)) for _ in range(n)]


def cases(seed):
    r = random.Random(seed)
    i = 0
    while True:
        i += 1
        n = r.choice([1, 2, 4, 8, 16, 32, 64])
        bits = r.choice([3, 20, 100, 400])
        a, b = ([r.getrandbits(bits) - (1 << (bits - 1)) for _ in range(n)] for _ in 'ab')
        yield dict(f='arith', a=a, b=b)
        if i % 7 == 0:
            yield dict(f='arith', a=small(r, 256, 40), b=small(r, 256, 40))
        yield dict(f='gcd', a=r.choice([0, 1, -1, r.randrange(-10 ** 9, 10 ** 9), r.getrandbits(300)]), b=r.choice([0, 1, -1, r.randrange(-10 ** 9, 10 ** 9), r.getrandbits(300)]))
        yield dict(f='bits', a=r.choice([-1, 1]) * r.choice([0, 1, 127, 128, 255, 256, 65535, 65536, r.getrandbits(r.randrange(1, 200))]))
        n = r.choice([1, 2, 2, 4, 4, 8, 16, 32])
        f, g = small(r, n, 20), small(r, n, 20)
        yield dict(f='solve', a=f, b=g)
        n = r.choice([2, 4, 8, 16, 32])
        f, g = small(r, n, 30), small(r, n, 30)
        if not any(f) or not any(g):
            continue
        k = [r.getrandbits(r.choice([6, 60, 200])) - (1 << 5) for _ in range(n)]
        F, G = small(r, n, 100), small(r, n, 100)
        yield dict(f='reduce', a=f, b=g, F=[x + y for x, y in zip(F, mul(f, k))], G=[x + y for x, y in zip(G, mul(g, k))])
        n = r.choice([2, 8, 64, 256, 1024])
        if i % 10 == 3:
            yield dict(f='poly', n=n)
        if i % 3 == 1:
            n = r.choice([4, 8, 8, 16])
            yield dict(f='gen', n=n, mk=r.random() < .5, seed=r.randrange(1 << 30), kind=r.choice(['noinv', 'norm', 'gcd', 'fine']))


def test(c):
    f = c['f']
    N = ntrugen
    if f == 'arith':
        a, b = c['a'], c['b']
        n = len(a)
        ka, kb = list(a), list(b)
        if list(N.karamul(a, b)) != mul(a, b):
            return 'karamul is not the product modulo x^n + 1'
        full = [0] * (2 * n)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                full[i + j] += x * y
        if list(N.karatsuba(a, b, n)) != full:
            return 'karatsuba is not the product'
        if n > 1:
            conj = [x if i % 2 == 0 else -x for i, x in enumerate(a)]
            if list(N.galois_conjugate(a)) != conj:
                return 'galois_conjugate is not a(-x)'
            p = mul(a, conj)
            if any(p[1::2]) or list(N.field_norm(a)) != p[::2]:
                return 'field_norm is not a(x) a(-x)'
        if list(N.lift(a)) != [y for x in a for y in (x, 0)]:
            return 'lift is not a(x^2)'
        if (a, b) != (ka, kb):
            return 'the operands are changed'
        return None
    if f == 'gcd':
        from math import gcd
        d, u, v = N.xgcd(c['a'], c['b'])
        return None if d == u * c['a'] + v * c['b'] and abs(d) == gcd(c['a'], c['b']) else 'xgcd gives %r' % ((d, u, v),)
    if f == 'bits':
        want = (abs(c['a']).bit_length() + 7) // 8 * 8
        r = N.bitsize(c['a'])
        return None if r == want else 'bitsize gives %r, expected %r' % (r, want)
    if f == 'solve':
        a, b = list(c['a']), list(c['b'])

        def norm(p):
            while len(p) > 1:
                p = mul(p, [x if i % 2 == 0 else -x for i, x in enumerate(p)])[::2]
            return p[0]
        from math import gcd
        co = gcd(norm(a), norm(b)) == 1
        try:
            F, G = N.ntru_solve(a, b)
        except ValueError:
            # the gcd may come out as -1: a key that is dropped without need
            return None
        except ZeroDivisionError:
            return None if not any(a) or not any(b) else 'division by zero'
        if sub(mul(c['a'], [int(x) for x in G]), mul(c['b'], [int(x) for x in F])) != [Q] + [0] * (len(a) - 1):
            return 'f G - g F is not q'
        if not co:
            return 'a solution for norms that are not coprime'
        return None
    if f == 'reduce':
        F, G = list(c['F']), list(c['G'])
        det = sub(mul(c['a'], G), mul(c['b'], F))
        F1, G1 = N.reduce(c['a'], c['b'], F, G)
        if sub(mul(c['a'], F1 and G1), mul(c['b'], F1)) != det:
            return 'f G - g F is changed'
        if any(type(x) is not int for x in F1 + G1):
            return 'coefficients that are not integers'
        # what is left is reduced: the exact quotient rounds to values of at most 1
        n = len(F)
        import numpy as np
        w = np.exp(1j * np.pi * (2 * np.arange(n) + 1) / n)
        ev = lambda p: sum(complex(x) * w ** i for i, x in enumerate(p))
        big = max(abs(x) for x in F1 + G1)
        if big < 1 << 60:
            fa, ga = ev(c['a']), ev(c['b'])
            den = abs(fa) ** 2 + abs(ga) ** 2
            if min(den) > 1e-6 * max(den):
                k = (ev(F1) * fa.conj() + ev(G1) * ga.conj()) / den
                co = np.array([(k * w ** -i).sum().real / n for i in range(n)])
                if abs(co).max() > 1.01:
                    return 'f, g still go %.1f times into F, G' % abs(co).max()
        else:
            return 'the coefficients are not reduced'
        return None
    if f == 'poly':
        n, seen = c['n'], []

        def sz(mu, sigma, sigmin, randombytes=None):
            if mu != 0 or abs(sigma - 1.43300980528773) > 1e-12 or not 1 < sigmin < sigma:
                seen.append('samplerz(%r, %r, %r)' % (mu, sigma, sigmin))
            cnt[0] += 1
            return cnt[0] ** 2
        cnt = [0]
        old = N.samplerz
        N.samplerz = sz
        try:
            p = N.gen_poly(n)
        finally:
            N.samplerz = old
        if seen:
            return seen[0]
        k = 4096 // n
        # each sample in one sum of k samples, in any order
        if cnt[0] != 4096 or len(p.coeffs) != n or sum(p.coeffs) != sum(i * i for i in range(1, 4097)):
            return 'the coefficients are not sums of distinct samples'
        want = [sum((i * k + j + 1) ** 2 for j in range(k)) for i in range(n)]
        if sorted(p.coeffs) != want and sorted(p.coeffs) != sorted(sum((i + j * n + 1) ** 2 for j in range(k)) for i in range(n)):
            return 'the coefficients are not sums of 4096 / n samples each'
        return None
    n, r = c['n'], random.Random(c['seed'])
    tried = []

    def draw(kind, which):
        s = 1.17 * (Q / (2 * n)) ** .5
        v = [round(r.gauss(0, s)) for _ in range(n)]
        if kind == 'norm':
            v[0] += 400
        if kind == 'gcd':
            v = [2 * (x // 2) for x in v]
        if kind == 'noinv' and which == 0:
            # a zero of the polynomial
            w = Poly([0, 1] + [0] * (n - 2), Q).ntt()[r.randrange(n)]
            for _ in range(20000):
                v = [round(r.gauss(0, s * .8)) for _ in range(n)]
                y = (-sum(x * pow(w, j, Q) for j, x in enumerate(v) if j) + Q // 2) % Q - Q // 2
                if abs(y) < 2 * s:
                    v[0] = y
                    break
        return v

    def nxt():
        i = len(tried)
        v = draw(c['kind'] if i < 6 else 'fine', i % 2)
        tried.append(v)
        if i > 400:
            raise EOFError('no key after 200 attempts')
        return list(v)

    class P:
        pass

    def gp(*a, **k):
        p = P()
        p.coeffs = nxt()
        return p
    old = N.gen_poly, N.poly_small_mkgauss
    N.gen_poly, N.poly_small_mkgauss = gp, lambda *a: nxt()
    try:
        f_, g_, F, G = N.ntru_gen(n, **(dict(logn=n.bit_length() - 1) if c['mk'] else {}))
    finally:
        N.gen_poly, N.poly_small_mkgauss = old
    return check(f_, g_, F, G, tried)


def check(f, g, F, G, tried):
    n = len(f)
    if tried and (f, g) not in list(zip(tried[::2], tried[1::2])):
        return 'f, g are not the generated pair'
    if any(type(x) is not int for x in F + G):
        return 'F, G are not integers'
    if sub(mul(f, G), mul(g, F)) != [Q] + [0] * (n - 1):
        return 'f G - g F is not q'
    if any(x % Q == 0 for x in Poly([x % Q for x in f], Q).ntt()):
        return 'f is not invertible'
    import numpy as np
    w = np.exp(1j * np.pi * (2 * np.arange(n) + 1) / n)
    ev = lambda p: sum(x * w ** i for i, x in enumerate(p))
    den = abs(ev(f)) ** 2 + abs(ev(g)) ** 2
    gs = max(float(sqnorm([f, g])), float((Q * Q / den).sum() / n))
    if gs > 1.17 ** 2 * Q * (1 + 1e-6):
        return 'Gram-Schmidt norm %r above the bound' % gs
    return None


pyhunt.worker(cases, test)
