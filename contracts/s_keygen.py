"""Concrete search for violations in the key generation of the real C code (run only when an obligation failed)."""
import ctypes
import hashlib
import math
import random

import csrc
import native
from c_keygen import FG_BITS, GAUSS

Q = 12289
VP, SZ = ctypes.c_void_p, ctypes.c_size_t
TEMP = [0, 136, 272, 224, 448, 896, 1792, 3584, 7168, 14336, 28672]
TAIL = """
int w_mkgauss(void *rng, unsigned logn) { return mkgauss(rng, logn); }
void w_poly_mkgauss(void *rng, int8_t *f, unsigned logn) { poly_small_mkgauss(rng, f, logn); }
uint32_t w_sqnorm(const int8_t *f, unsigned logn) { return poly_small_sqnorm(f, logn); }
int w_to_small(int8_t *d, const uint32_t *s, int lim, unsigned logn) { return poly_big_to_small(d, s, lim, logn); }
int w_solve(unsigned logn, int8_t *F, int8_t *G, const int8_t *f, const int8_t *g, int lim, uint32_t *tmp) { return solve_NTRU(logn, F, G, f, g, lim, tmp); }
uint32_t w_montymul(uint32_t a, uint32_t b, uint32_t p) { return modp_montymul(a, b, p, modp_ninv31(p)); }
"""
# the final test of solve_NTRU alone: the solver is replaced by what the test harness put into the buffer
CUT = """
#define solve_NTRU_deepest real_deepest
#define solve_NTRU_intermediate real_intermediate
#define solve_NTRU_binary_depth1 real_depth1
#define solve_NTRU_binary_depth0 real_depth0
"""


def lib():
    L = ctypes.CDLL(csrc.shared(['keygen.c', 'sign.c', 'rng.c', 'shake.c', 'keccak256.c', 'keccak_prng.c', 'fpr.c', 'fft.c', 'common.c', 'codec.c', 'vrfy.c'], name='keygen', wrap={'keygen.c': TAIL}))
    L.w_sqnorm.restype = ctypes.c_uint32
    L.w_montymul.restype = ctypes.c_uint32
    return L


# an extendable-output function whose output the harness chooses
STREAM = """
#include "inner.h"
static const uint8_t *data; static size_t left; static uint64_t lcg;
void w_stream(const uint8_t *d, size_t n, uint64_t s) { data = d; left = n; lcg = s; }
void Zf(i_shake256_init)(inner_shake256_context *c) { (void)c; }
void Zf(i_shake256_inject)(inner_shake256_context *c, const uint8_t *in, size_t n) { (void)c; (void)in; (void)n; }
void Zf(i_shake256_flip)(inner_shake256_context *c) { (void)c; }
void Zf(i_shake256_extract)(inner_shake256_context *c, uint8_t *out, size_t n) {
	(void)c;
	while (n -- > 0) {
		if (left) { *out ++ = *data ++; left --; }
		else { lcg = lcg * 6364136223846793005u + 1442695040888963407u; *out ++ = (uint8_t)(lcg >> 56); }
	}
}
"""


def stream_lib():
    import os
    out = os.path.join(csrc.tmpdir(), 'keygen_stream.c')
    with open(out, 'w') as fh:
        fh.write(STREAM)
    return ctypes.CDLL(csrc.shared(['keygen.c', 'sign.c', 'rng.c', out, 'keccak256.c', 'keccak_prng.c', 'fpr.c', 'fft.c', 'common.c', 'codec.c', 'vrfy.c'], name='keygenstream', wrap={'keygen.c': TAIL}))


class Given:
    def __init__(self, words):
        self.w = list(words)

    def u64(self):
        return self.w.pop(0)


def words_of(v, logn):
    """draws that add up to v"""
    o = []
    for _ in range(1 << (10 - logn)):
        k = max(-26, min(26, v))
        v -= k
        o += [0, 0] if k == 0 else [(1 << 63) - 1 | (1 << 63 if k < 0 else 0), GAUSS[abs(k)]]
    return o if v == 0 else None


def candidate(rng, logn, kind):
    """f, g that fail the drawing conditions narrowly, or None"""
    n = 1 << logn
    sigma = math.sqrt(15000 / (2 * n)) * rng.choice([0.9, 1, 1.05])
    f, g = [[round(rng.gauss(0, sigma)) for _ in range(n)] for _ in 'fg']
    lim = 1 << (FG_BITS[logn] - 1)
    keep = None
    if kind == 'lim':
        keep = rng.choice([0, n - 1, rng.randrange(n)])
        rng.choice([f, g])[keep] = rng.choice([-lim, lim])
    if kind == 'norm':
        for _ in range(4000):
            t = sum(x * x for x in f + g)
            if t in (16824, 16826, 16830):
                break
            x = rng.choice([f, g])
            i = rng.randrange(n)
            d = rng.choice([-1, 1]) if abs(t - 16824) < 40 else (1 if x[i] >= 0 else -1) * (1 if t < 16824 else -1)
            x[i] += d
    for x in (f, g):
        if sum(x) % 2 == 0:
            if kind == 'norm':
                return None
            i = rng.choice([j for j in range(n) if j != keep])
            x[i] += rng.choice([-1, 1])
    if kind == 'just':
        best = abs(orth(f, g) / 16822.4121 - 1.00004)
        for _ in range(600):
            x, i, j = rng.choice([f, g]), rng.randrange(n), rng.randrange(n)
            d, e = rng.choice([-1, 1]), rng.choice([-1, 1])
            x[i] += d
            x[j] += e
            v = abs(orth(f, g) / 16822.4121 - 1.00004)
            if v < best:
                best = v
            else:
                x[i] -= d
                x[j] -= e
            if best < 3e-5:
                break
    if any(abs(x) > min(127, lim if kind == 'lim' else lim - 1) for x in f + g):
        return None
    t, o = sum(x * x for x in f + g), orth(f, g) / 16822.4121
    if (t >= 16823) != (kind == 'norm') or kind == 'norm' and t > 16900 or not (1.00001 < o < (1.2 if kind == 'orth' else 1.00008) if kind in ('orth', 'just') else o < 0.99999):
        return None
    return f, g


def context(L, seed):
    c = ctypes.create_string_buffer(208)
    L.falcon_inner_i_shake256_init(c)
    L.falcon_inner_i_shake256_inject(c, seed, SZ(len(seed)))
    L.falcon_inner_i_shake256_flip(c)
    return c


def i8(b):
    return [x - 256 if x > 127 else x for x in b]


def b8(v):
    return bytes(x & 255 for x in v)


def nega(a, b, m=None):
    n = len(a)
    r = [0] * n
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if i + j < n:
                    r[i + j] += x * y
                else:
                    r[i + j - n] -= x * y
    return [x % m for x in r] if m else r


class Xof:
    def __init__(self, seed):
        self.d = hashlib.shake_256(seed).digest(400000)
        self.p = 0

    def u64(self):
        self.p += 8
        return int.from_bytes(self.d[self.p - 8:self.p], 'little')


def gauss(X, logn):
    v = 0
    for _ in range(1 << (10 - logn)):
        a, b = X.u64(), X.u64()
        s, a, b = a >> 63, a & (1 << 63) - 1, b & (1 << 63) - 1
        k = 0 if a < GAUSS[0] else next(i for i in range(1, 27) if b >= GAUSS[i])
        v += -k if s else k
    return v


def orth(f, g):
    """squared norm of (q adj f / (f adj f + g adj g), q adj g / ...), by evaluation"""
    import cmath
    n = len(f)
    t = 0.0
    for k in range(n):
        w = cmath.exp(1j * math.pi * (2 * k + 1) / n)
        F = G = 0
        for x, y in zip(reversed(f), reversed(g)):
            F, G = F * w + x, G * w + y
        t += Q * Q / (abs(F) ** 2 + abs(G) ** 2)
    return t / n


def keyok(f, g, F, G, h, n, B, c):
    if any(abs(x) >= B for x in f + g):
        return 'a coefficient of f or g does not fit the key format'
    if sum(f) % 2 == 0 or sum(g) % 2 == 0:
        return 'f or g has an even sum of coefficients'
    if sum(x * x for x in f + g) >= 16823:
        return '(f, g) is too long'
    if orth(f, g) >= 16822.4121 * (1 + 1e-9):
        return 'the orthogonalised vector is too long'
    if any(not -127 <= x <= 127 for x in F + (G or [])):
        return 'a coefficient of F or G is out of range'
    if G is not None:
        e = [x - y for x, y in zip(nega(f, G), nega(g, F))]
        if e != [Q] + [0] * (n - 1):
            return 'f G - g F is not q'
    w = pow(11, 12288 // (2 * n), Q)
    if any(sum(x * pow(w, (2 * k + 1) * i, Q) for i, x in enumerate(f)) % Q == 0 for k in range(n)):
        return 'f is not invertible modulo q'
    if h is not None and (nega(f, h, Q) != [x % Q for x in g] or any(x >= Q for x in h)):
        return 'h is not g / f'
    return None


def cases(seed):
    rng = random.Random(seed)
    while True:
        k = rng.choice(['mkgauss', 'poly', 'norm', 'small', 'solve', 'solve', 'tail', 'tail', 'key', 'key', 'key', 'mul', 'edge', 'force', 'force'])
        s = rng.randbytes(rng.randrange(1, 20))
        if k in ('mkgauss', 'poly'):
            yield dict(k=k, seed=s, logn=rng.randrange(1, 11))
        elif k == 'edge':
            l = rng.randrange(6, 11)
            e = lambda i: (GAUSS[i] + rng.choice([-1, 0, 0, 1])) % (1 << 63) | rng.choice([0, 1 << 63])
            yield dict(k=k, logn=l, w=[e(rng.choice([0, rng.randrange(27)]) if j % 2 == 0 else rng.randrange(1, 27)) if rng.randrange(3) else rng.getrandbits(64) for j in range(2 << (10 - l))])
        elif k == 'force':
            l, kind = rng.choice([(6, 'lim'), (7, 'lim'), (4, 'norm'), (5, 'norm'), (6, 'norm'), (3, 'norm'), (5, 'orth'), (4, 'orth'), (6, 'orth'), (3, 'just'), (3, 'just'), (4, 'just')])
            x = candidate(rng, l, kind)
            if x:
                yield dict(k=k, logn=l, f=x[0], g=x[1], more=rng.getrandbits(32))
        elif k == 'norm':
            l = rng.randrange(1, 11)
            m = rng.choice([1, 20, 127])
            yield dict(k=k, logn=l, f=[rng.choice([-m, m, rng.randrange(-m, m + 1)]) for _ in range(1 << l)])
        elif k == 'small':
            l = rng.randrange(1, 8)
            lim = rng.choice([127, 127, 31, 0, 1])
            v = [rng.choice([rng.randrange(-lim, lim + 1), lim, -lim]) for _ in range(1 << l)]
            if rng.randrange(3):
                v[rng.randrange(len(v))] = rng.choice([lim + 1, -lim - 1, 1 << 29, -(1 << 29), 256, -256, 128])
            yield dict(k=k, logn=l, lim=lim, v=v)
        elif k == 'solve':
            l = rng.choice([1, 1, 2, 2, 3, 4, 5])
            n = 1 << l
            m = rng.choice([3, 20, 60])
            f, g = [[rng.randrange(-m, m + 1) for _ in range(n)] for _ in 'fg']
            for p in (f, g):
                if sum(p) % 2 == 0:
                    p[0] += 1 if p[0] < 0 else -1
            yield dict(k=k, logn=l, f=f, g=g, G=rng.randrange(2))
        elif k == 'tail':
            yield dict(k=k, seed=s, logn=rng.randrange(1, 6), i=rng.getrandbits(16), d=rng.choice([0, 1, -1, 128, -128]), which=rng.randrange(2), G=rng.randrange(2))
        elif k == 'mul':
            e = lambda: rng.choice([rng.randrange(2147473409), 2147473408, 2147473407, 0, 1])
            yield dict(k=k, a=e(), b=e())
        else:
            yield dict(k=k, seed=s, logn=rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8]), h=rng.randrange(4), G=rng.randrange(4))


def tail_lib():
    """keygen.c with the intermediate levels of the solver renamed away; the stand-ins leave the buffer as the caller filled it"""
    import os
    src = open(os.path.join(csrc.SRC, 'keygen.c')).read()
    import re
    names = ['solve_NTRU_deepest', 'solve_NTRU_intermediate', 'solve_NTRU_binary_depth1', 'solve_NTRU_binary_depth0']
    i = src.index('\nsolve_NTRU(')
    j = src.rindex('static', 0, i)
    head, rest = src[:j], src[j:]
    stubs = 'static const uint32_t *planted; static size_t planted_n;\nstatic int stub(uint32_t *t) { memcpy(t, planted, 4 * planted_n); return 1; }\n'
    for nme in names:
        args = '(l, f, g, d, t)' if 'intermediate' in nme else '(l, f, g, t)'
        stubs += '#define %s%s stub(t)\n' % (nme, args)
    end = '\nint w_tail(unsigned logn, int8_t *F, int8_t *G, const int8_t *f, const int8_t *g, int lim, uint32_t *tmp, const uint32_t *pl, size_t n) { planted = pl; planted_n = n; return solve_NTRU(logn, F, G, f, g, lim, tmp); }\n'
    out = os.path.join(csrc.tmpdir(), 'keygen_tail.c')
    with open(out, 'w') as fh:
        fh.write(head + stubs + rest + end)
    return ctypes.CDLL(csrc.shared([out, 'sign.c', 'rng.c', 'shake.c', 'keccak256.c', 'keccak_prng.c', 'fpr.c', 'fft.c', 'common.c', 'codec.c', 'vrfy.c'], name='keygentail'))


def test(L, LT, LS):
    def key(logn, seed, h=True, G=True):
        n = 1 << logn
        o = [ctypes.create_string_buffer(n) for _ in 'fgFG']
        hb = ctypes.create_string_buffer(2 * n)
        tmp = ctypes.create_string_buffer(TEMP[logn] + 16)
        L.falcon_inner_keygen(context(L, seed), o[0], o[1], o[2], o[3] if G else None, hb if h else None, ctypes.c_uint(logn), tmp)
        f, g, F, Gv = [i8(x.raw) for x in o]
        hv = [int.from_bytes(hb.raw[2 * i:2 * i + 2], 'little') for i in range(n)] if h else None
        return f, g, F, Gv if G else None, hv

    def go(c):
        k = c['k']
        if k == 'mul':
            P = 2147473409
            return None if L.w_montymul(c['a'], c['b'], P) == c['a'] * c['b'] * pow(1 << 31, -1, P) % P else 'modp_montymul gives a wrong residue'
        logn = c['logn']
        n = 1 << logn
        u = ctypes.c_uint(logn)
        if k == 'mkgauss':
            x, X = context(L, c['seed']), Xof(c['seed'])
            for i in range(20):
                if L.w_mkgauss(x, u) != gauss(X, logn):
                    return 'draw %d of mkgauss is not the specified one' % i
        elif k == 'poly':
            x, X = context(L, c['seed']), Xof(c['seed'])
            o = ctypes.create_string_buffer(n)
            L.w_poly_mkgauss(x, o, u)
            w = []
            while len(w) < n:
                v = gauss(X, logn)
                if -127 <= v <= 127 and (len(w) < n - 1 or (sum(w) + v) % 2):
                    w.append(v)
            if i8(o.raw) != w:
                return 'poly_small_mkgauss is not the specified drawing'
        elif k == 'edge':
            if LS is None:
                return None
            d = b''.join(x.to_bytes(8, 'little') for x in c['w'])
            LS.w_stream(d, SZ(len(d)), ctypes.c_uint64(1))
            if LS.w_mkgauss(ctypes.create_string_buffer(208), u) != gauss(Given(c['w']), logn):
                return 'mkgauss is not the specified draw'
        elif k == 'force':
            if LS is None:
                return None
            w = []
            for p in (c['f'], c['g']):
                for x in p:
                    w += words_of(x, logn)
            d = b''.join(x.to_bytes(8, 'little') for x in w)
            LS.w_stream(d, SZ(len(d)), ctypes.c_uint64(c['more']))
            o = [ctypes.create_string_buffer(n) for _ in 'fgFG']
            hb = ctypes.create_string_buffer(2 * n)
            LS.falcon_inner_keygen(ctypes.create_string_buffer(208), o[0], o[1], o[2], o[3], hb, u, ctypes.create_string_buffer(TEMP[logn] + 16))
            f, g, F, G = [i8(x.raw) for x in o]
            return keyok(f, g, F, G, [int.from_bytes(hb.raw[2 * i:2 * i + 2], 'little') for i in range(n)], n, 1 << (FG_BITS[logn] - 1), c)
        elif k == 'norm':
            if L.w_sqnorm(b8(c['f']), u) != sum(x * x for x in c['f']):
                return 'poly_small_sqnorm is not the sum of squares'
        elif k == 'small':
            o = ctypes.create_string_buffer(n)
            s = b''.join((x & (1 << 31) - 1).to_bytes(4, 'little') for x in c['v'])
            r = L.w_to_small(o, s, c['lim'], u)
            ok = all(abs(x) <= c['lim'] for x in c['v'])
            if (r != 0) != ok or ok and i8(o.raw) != c['v']:
                return 'poly_big_to_small returns %d' % r
        elif k == 'solve':
            f, g = c['f'], c['g']
            F, G = ctypes.create_string_buffer(n), ctypes.create_string_buffer(n)
            tmp = ctypes.create_string_buffer(TEMP[logn] + 16)
            if L.w_solve(u, F, G if c['G'] else None, b8(f), b8(g), 127, tmp) and c['G']:
                e = [x - y for x, y in zip(nega(f, i8(G.raw)), nega(g, i8(F.raw)))]
                if e != [Q] + [0] * (n - 1):
                    return 'solve_NTRU succeeds with f G - g F other than q'
        elif k == 'tail':
            if LT is None:
                return None
            f, g, F, G, _ = key(logn, c['seed'])
            V = F + G
            V[(n if c['which'] else 0) + c['i'] % n] += c['d']
            pl = b''.join((x & (1 << 31) - 1).to_bytes(4, 'little') for x in V)
            Fb, Gb = ctypes.create_string_buffer(n), ctypes.create_string_buffer(n)
            tmp = ctypes.create_string_buffer(TEMP[logn] + 4096)
            r = LT.w_tail(u, Fb, Gb if c['G'] else None, b8(f), b8(g), 127, tmp, pl, SZ(2 * n))
            ok = all(abs(x) <= 127 for x in V) and c['d'] == 0
            if bool(r) != ok:
                return 'the final test of solve_NTRU %s' % ('accepts a wrong solution' if r else 'refuses a solution')
            if r and (i8(Fb.raw) != F or c['G'] and i8(Gb.raw) != G):
                return 'solve_NTRU returns another F or G than it tested'
        else:
            f, g, F, G, h = key(logn, c['seed'], c['h'] != 0, c['G'] != 0)
            if logn > 8:
                return None
            return keyok(f, g, F, G, h, n, 1 << (FG_BITS[logn] - 1), c)
        return None
    return go


def search(failed, seed, budget):
    L = lib()
    try:
        LT = tail_lib()
    except Exception:
        LT = None
    try:
        LS = stream_lib()
    except Exception:
        LS = None
    return native.run_cases(cases(seed), test(L, LT, LS), budget)
