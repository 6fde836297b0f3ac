"""Exact reference for the emulated floating point: rational arithmetic, one rounding to nearest even, no subnormals."""
from fractions import Fraction as Fr
import math

INF = object()


def isnum(x):
    e = (x >> 52) & 0x7FF
    return e != 2047 and (e != 0 or x & ((1 << 52) - 1) == 0)


def val(x):
    e, m = (x >> 52) & 0x7FF, x & ((1 << 52) - 1)
    if e == 0:
        return Fr(0)
    v = Fr(m | 1 << 52) * (Fr(2) ** (e - 1075))
    return -v if x >> 63 else v


def top(v):
    """floor(log2 v) of a positive rational"""
    k = v.numerator.bit_length() - v.denominator.bit_length()
    while Fr(2) ** k > v:
        k -= 1
    while Fr(2) ** (k + 1) <= v:
        k += 1
    return k


def rnd(v, sgn=None):
    """word of the nearest value; zero below 2^-1022 (before rounding); INF on overflow"""
    s = (1 if v < 0 else 0) if sgn is None else sgn
    a = abs(v)
    if a == 0:
        return s << 63
    k = top(a)
    if k < -1022:
        return s << 63
    q = a / Fr(2) ** (k - 52)
    n = q.numerator // q.denominator
    f = q - n
    if f > Fr(1, 2) or (f == Fr(1, 2) and n & 1):
        n += 1
    if n == 1 << 53:
        n >>= 1
        k += 1
    if k > 1023:
        return INF
    return s << 63 | (k + 1023) << 52 | (n - (1 << 52))


def sgn(x):
    return x >> 63


def add(x, y):
    v = val(x) + val(y)
    if v == 0:
        if val(x) == 0 and val(y) == 0:
            return (sgn(x) & sgn(y)) << 63
        return 0
    return rnd(v)


def mul(x, y):
    return rnd(val(x) * val(y), sgn(x) ^ sgn(y))


def div(x, y):
    return rnd(val(x) / val(y), sgn(x) ^ sgn(y))


def sqrt(x):
    v = val(x)
    if v == 0:
        return 0
    # 60 extra bits and a sticky one
    k = top(v)
    sh = 2 * (70 - k // 2)
    w = v * Fr(2) ** sh
    n = w.numerator // w.denominator
    r = math.isqrt(n)
    s = Fr(2 * r + (1 if r * r != w else 0), 2)
    return rnd(s / Fr(2) ** (sh // 2), 0)


def rint(x):
    v = val(x)
    n = v.numerator // v.denominator
    f = v - n
    return n + (1 if f > Fr(1, 2) or (f == Fr(1, 2) and n & 1) else 0)


def floor(x):
    v = val(x)
    return v.numerator // v.denominator


def trunc(x):
    v = abs(val(x))
    n = v.numerator // v.denominator
    return -n if sgn(x) else n


def scaled(i, sc):
    return rnd(Fr(i) * Fr(2) ** sc, None if i else 0)


FACCT = [0x4741183A3, 0x36548CFC06, 0x24FDCBF140A, 0x171D939DE045, 0xD00CF58F6F84, 0x680681CF796E3, 0x2D82D8305B0FEA,
         0x11111110E066FD0, 0x555555555070F00, 0x155555555581FF00, 0x400000000002B400, 0x7FFFFFFFFFFF4800, 0x8000000000000000]


def fix(x):
    v = val(x) * 2 ** 63
    return 2 * (v.numerator // v.denominator)


def expm(x, ccs):
    z, y = fix(x), FACCT[0]
    for c in FACCT[1:]:
        y = (c - ((z * y) >> 64)) & ((1 << 64) - 1)
    return (fix(ccs) * y) >> 64


def constants(dps=60):
    """name -> exact value, for the named constants (sigma parameters of the Falcon specification)"""
    import mpmath as mp
    mp.mp.dps = dps
    q = mp.mpf(12289)

    def smin(l):
        n = 1 << l
        inveps = mp.sqrt(mp.mpf(2) ** 64 * max(2, n // 4))
        return mp.sqrt(mp.log(4 * n * (1 + inveps)) / 2) / mp.pi
    s0 = mp.mpf('1.8205')
    c = [q, 1 / q, 1 / (2 * s0 * s0), mp.log(2), 1 / mp.log(2), None, mp.mpf(0), mp.mpf(1), mp.mpf(2), mp.mpf('0.5'), 1 / mp.sqrt(2),
         1 / mp.sqrt(8), mp.mpf(2) ** 31, mp.mpf(2) ** 31 - 1, -(mp.mpf(2) ** 31 - 1), mp.mpf(2) ** 63, -mp.mpf(2) ** 63, mp.mpf(2) ** 63]
    c[5] = (mp.mpf('1.17') ** 2) * q
    return c, smin, lambda l: 1 / (mp.mpf('1.17') * mp.sqrt(q) * smin(l)), mp


def near(u, v, mp):
    """distance of a word to a real, in units of its last place (0 for an exact zero)"""
    x = val(u)
    if x == 0:
        return mp.mpf(0) if v == 0 else mp.mpf(10) ** 9
    k = top(abs(x))
    return abs(mp.mpf(x.numerator) / x.denominator - v) / mp.mpf(2) ** (k - 52)
