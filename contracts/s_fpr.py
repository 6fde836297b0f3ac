"""Concrete search for floating-point violations on the real C code (run only when an obligation failed)."""
import ctypes
import os
import random

import csrc
import fpr as F
import native

WRAP = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'oracle', 'fpr_wrap.c')
U64 = ctypes.c_uint64
M63 = (1 << 63) - 1


def lib():
    L = ctypes.CDLL(csrc.shared([WRAP, 'fpr.c'], name='fpr'))
    for n in ('add', 'sub', 'mul', 'sqr', 'div', 'inv', 'sqrt', 'neg', 'half', 'double', 'of', 'scaled', 'expm', 'gm', 'p2', 'inv_sigma', 'sigma_min', 'const'):
        getattr(L, 'w_' + n).restype = U64
    for n in ('rint', 'floor', 'trunc'):
        getattr(L, 'w_' + n).restype = ctypes.c_int64
    L.w_lt.restype = ctypes.c_int
    return L


def mants(rng):
    k = rng.randrange(7)
    if k == 0:
        return 0
    if k == 1:
        return (1 << 52) - 1 - rng.randrange(3)
    if k == 2:
        return 1 << rng.randrange(52)
    if k == 3:
        return ((1 << 52) - (1 << rng.randrange(52)))
    if k == 4:
        return rng.randrange(8)
    return rng.getrandbits(52)


def num(rng, lo=1, hi=2046, zero=True):
    if zero and rng.randrange(12) == 0:
        return rng.getrandbits(1) << 63
    return rng.getrandbits(1) << 63 | rng.randrange(lo, hi + 1) << 52 | mants(rng)


def cases(seed):
    rng = random.Random(seed)
    for i in range(18):
        yield dict(f='const', i=i)
    for l in range(1, 11):
        yield dict(f='inv_sigma', i=l)
        yield dict(f='sigma_min', i=l)
    for i in range(2, 2048):
        yield dict(f='gm', i=i)
    for i in range(11):
        yield dict(f='p2', i=i)
    while True:
        f = rng.choice(['add', 'add', 'add', 'sub', 'mul', 'mul', 'div', 'sqrt', 'sqr', 'inv', 'neg', 'half', 'double', 'of', 'scaled', 'rint', 'floor', 'trunc', 'lt', 'expm'])
        if f in ('add', 'sub', 'lt'):
            x = num(rng, 1, 2044)
            if rng.randrange(8) and x << 1 & ((1 << 64) - 1):
                e = (x >> 52) & 0x7FF
                d = rng.choice([0, 0, 1, 1, 2, rng.randrange(0, 62), rng.randrange(50, 58)])
                ey = min(2044, max(1, e + rng.choice([-d, d])))
                y = rng.getrandbits(1) << 63 | ey << 52 | (mants(rng) if rng.randrange(4) else x & ((1 << 52) - 1))
                if rng.randrange(6) == 0:
                    y = x ^ (1 << 63) ^ rng.choice([0, 1, 2, 3])
                if not F.isnum(y):
                    continue
            else:
                y = num(rng, 1, 2044)
            yield dict(f=f, x=x, y=y)
        elif f == 'mul' and rng.randrange(3) == 0:
            # a product close to a rounding boundary: its low k bits are a number of few bits
            k = rng.randrange(48, 54)
            b = rng.getrandbits(53) | 1 << 52 | 1
            c = rng.getrandbits(rng.randrange(1, 30)) | 1
            a = c * rng.choice([1, -1]) * pow(b, -1, 1 << k) % (1 << k)
            a |= rng.getrandbits(53) >> k << k | 1 << 52
            yield dict(f='mul', x=rng.getrandbits(1) << 63 | 1023 << 52 | a & ((1 << 52) - 1), y=1100 << 52 | b & ((1 << 52) - 1))
        elif f in ('mul', 'div'):
            x = num(rng)
            if rng.randrange(3):
                # near the ends of the exponent range
                e = (x >> 52) & 0x7FF
                ey = (1023 + rng.choice([0, -1, 1]) - (e - 1023) - rng.choice([0, 1022, 1022])) if f == 'mul' else e - 1023 + 1023 + rng.choice([0, 1022, 1021, -1020])
                ey = min(2046, max(1, ey + rng.randrange(-2, 3)))
                y = rng.getrandbits(1) << 63 | ey << 52 | mants(rng)
            else:
                y = num(rng, zero=f == 'mul')
            if f == 'div' and not y << 1 & ((1 << 64) - 1):
                continue
            yield dict(f=f, x=x, y=y)
        elif f in ('sqrt',):
            yield dict(f=f, x=num(rng) & M63)
        elif f in ('inv',):
            yield dict(f=f, x=num(rng, 1, 2044, zero=False))
        elif f == 'sqr':
            yield dict(f=f, x=num(rng, 1, 1530))
        elif f in ('neg', 'half', 'double'):
            yield dict(f=f, x=num(rng, 2, 2045))
        elif f in ('of', 'scaled'):
            k = rng.randrange(64)
            i = rng.getrandbits(k) if k else 0
            if rng.randrange(3) == 0 and k > 2:
                i = (1 << k) - 1 - rng.randrange(4)
            if rng.randrange(4) == 0 and k > 55:
                i = (rng.getrandbits(53) << (k - 53)) + rng.choice([0, 1, -1, 1 << (k - 54), (1 << (k - 54)) + 1, (1 << (k - 54)) - 1])
            i &= M63
            i = rng.choice([i, -i])
            yield dict(f=f, i=i, sc=0 if f == 'of' else rng.choice([0, 1, -1, -30, -1022, -1074, -1050, rng.randrange(-1200, 900)]))
        elif f in ('rint', 'floor', 'trunc'):
            x = num(rng, rng.choice([950, 1018, 1022, 1070]), 1085)
            if f == 'floor' and x == 1 << 63:
                continue
            if rng.randrange(3) == 0:
                k = rng.randrange(0, 1 << rng.randrange(1, 50))
                x = F.rnd(F.Fr(2 * k + 1, 2) * rng.choice([1, -1]))
            yield dict(f=f, x=x)
        else:
            yield dict(f='expm', x=num(rng, 960, 1022) & M63, y=num(rng, 990, 1022) & M63)


def test(L):
    c0, smin, isig, mp = F.constants()

    def go(c):
        f = c['f']
        if f in ('const', 'inv_sigma', 'sigma_min', 'gm', 'p2'):
            i = c['i']
            v = getattr(L, 'w_' + f)(ctypes.c_size_t(i))
            if f == 'p2':
                return None if F.val(v) == F.Fr(2) ** (1 - i) else 'fpr_p2_tab[%d] is not 2^%d' % (i, 1 - i)
            if f == 'gm':
                if i < 4:
                    w = [None, None, mp.mpf(0), mp.mpf(1)][i]
                else:
                    a = mp.pi * int(format(i >> 1, '010b')[::-1], 2) / 1024
                    w = mp.sin(a) if i & 1 else mp.cos(a)
                return None if w is None or F.near(v, w, mp) <= 0.5 else 'fpr_gm_tab[%d] is not the nearest word to its root of unity' % i
            w = {'const': lambda: c0[i], 'inv_sigma': lambda: isig(i), 'sigma_min': lambda: smin(i)}[f]()
            tol = 0.5 if f == 'const' else 2
            return None if F.near(v, w, mp) <= tol else 'constant %s %d is %s, expected %s' % (f, i, float(F.val(v)), mp.nstr(w, 17))
        if f in ('of', 'scaled'):
            want = F.scaled(c['i'], c['sc'])
            if want is F.INF:
                return None
            got = L.w_of(ctypes.c_int64(c['i'])) if f == 'of' else L.w_scaled(ctypes.c_int64(c['i']), ctypes.c_int(c['sc']))
            return None if got == want else '%s gives %016x, expected %016x' % (f, got, want)
        x = c['x']
        y = c.get('y')
        g = getattr(L, 'w_' + f)
        got = g(U64(x), U64(y)) if y is not None else g(U64(x))
        if f in ('rint', 'floor', 'trunc'):
            want = getattr(F, f)(x)
            return None if got == want or abs(want) >= 1 << 63 else 'fpr_%s(%016x) gives %d, expected %d' % (f, x, got, want)
        if f == 'lt':
            if not (x | y) << 1 & ((1 << 64) - 1):
                return None
            want = 1 if F.val(x) < F.val(y) else 0
        elif f == 'add':
            want = F.add(x, y)
        elif f == 'sub':
            want = F.add(x, y ^ 1 << 63)
        elif f in ('mul', 'div'):
            want = getattr(F, f)(x, y)
            if f == 'div' and not F.val(x):
                got, want = got & M63, 0
        elif f == 'sqr':
            want = F.mul(x, x)
        elif f == 'inv':
            want = F.div(1023 << 52, x)
        elif f == 'sqrt':
            want = F.sqrt(x)
            got &= M63 if not x else got
        elif f == 'neg':
            want = x ^ 1 << 63
        elif f == 'half':
            want = F.rnd(F.val(x) / 2, F.sgn(x))
            if not F.val(x):
                got, want = got & M63, 0
        elif f == 'double':
            want = F.rnd(F.val(x) * 2, F.sgn(x))
        else:
            want = F.expm(x, y)
        if want is F.INF:
            return None
        return None if got == want else 'fpr_%s(%016x%s) gives %016x, expected %016x' % (f, x, '' if y is None else ', %016x' % y, got, want)
    return go


def search(failed, seed, budget):
    return native.run_cases(cases(seed), test(lib()), budget)
