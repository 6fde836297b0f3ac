"""Concrete search for violations in the generator and the samplers of the real C code (run only when an obligation failed)."""
import ctypes
import hashlib
import os
import random
import struct

import chacha
import csrc
import fpr as F
import native
from c_prng import RCDT, SIGMA_MIN

U64, VP, SZ = ctypes.c_uint64, ctypes.c_void_p, ctypes.c_size_t
CTX, PSIZE = 208, 784
INV2S0, LOG2, INVLOG2 = 4594603506513722306, 4604418534313441775, 4609176140021203710
M64 = (1 << 64) - 1
SIGN_TAIL = """
int w_berexp(prng *p, fpr x, fpr ccs) { return BerExp(p, x, ccs); }
uint64_t w_u64(prng *p) { return prng_get_u64(p); }
unsigned w_u8(prng *p) { return prng_get_u8(p); }
"""


def lib():
    L = ctypes.CDLL(csrc.shared(['sign.c', 'rng.c', 'shake.c', 'keccak256.c', 'keccak_prng.c', 'fpr.c', 'fft.c', 'common.c'], name='prng', wrap={'sign.c': SIGN_TAIL}))
    L.w_u64.restype = U64
    return L


def seeded(L, seed):
    c, p = ctypes.create_string_buffer(CTX), ctypes.create_string_buffer(PSIZE + 16)
    L.falcon_inner_i_shake256_init(c)
    L.falcon_inner_i_shake256_inject(c, seed, SZ(len(seed)))
    L.falcon_inner_i_shake256_flip(c)
    L.falcon_inner_prng_init(p, c)
    return p


class Stream:
    """the specified stream, read with the rules of get_u64 / get_u8 / get_bytes"""

    def __init__(self, seed=None, buf=None, state=None):
        if buf is None:
            self.c = chacha.chunks(hashlib.shake_256(seed).digest(56))
            self.b = next(self.c)
            self.at = 0
        else:
            self.b, self.at = buf, 0
            self.c = chacha.chunks(state)

    def refill(self):
        self.b, self.at = next(self.c), 0

    def u8(self):
        v = self.b[self.at]
        self.at += 1
        if self.at == 512:
            self.refill()
        return v

    def u64(self):
        if self.at >= 512 - 9:
            self.refill()
        v = int.from_bytes(self.b[self.at:self.at + 8], 'little')
        self.at += 8
        return v

    def bytes(self, n):
        return bytes(self.u8() for _ in range(n))


def gauss0(S):
    v = S.u64()
    v |= S.u8() << 64
    return sum(v < t for t in RCDT)


def sub(x, y):
    return F.add(x, y ^ 1 << 63)


def berexp(S, x, ccs):
    s = F.trunc(F.mul(x, INVLOG2))
    r = sub(x, F.mul(F.scaled(s, 0), LOG2))
    if F.sgn(r) or not F.val(ccs):
        return None
    z = ((F.expm(r, ccs) << 1) - 1 & M64) >> min(s, 63)
    for i in range(56, -8, -8):
        w = S.u8() - (z >> i & 255)
        if w:
            break
    return 1 if w < 0 else 0


def half(x):
    return F.rnd(F.val(x) / 2, F.sgn(x))


def sampler(S, smin, mu, isg):
    s = F.floor(mu)
    r = sub(mu, F.scaled(s, 0))
    dss, ccs = half(F.mul(isg, isg)), F.mul(isg, smin)
    while True:
        z0 = gauss0(S)
        b = S.u8() & 1
        z = b + (2 * b - 1) * z0
        d = sub(F.scaled(z, 0), r)
        x = sub(F.mul(F.mul(d, d), dss), F.mul(F.scaled(z0 * z0, 0), INV2S0))
        a = berexp(S, x, ccs)
        if a is None:
            return None
        if a:
            return s + z


def dbl(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def cases(seed):
    rng = random.Random(seed)
    while True:
        k = rng.randrange(7)
        if k < 2:
            yield dict(k='stream', seed=rng.randbytes(rng.randrange(0, 60)), ops=[(rng.choice(['u64', 'u64', 'u8', 'bytes']), rng.choice([1, 3, 200, 511, 512, 513, 1100, rng.randrange(1, 600)]))
                                                                               for _ in range(rng.randrange(1, 160))])
        elif k == 2:
            yield dict(k='refill', state=rng.randbytes(48) + rng.choice([b'\xff' * 8, b'\xf8' + b'\xff' * 7, b'\xfc\xff\xff\xff\x05\0\0\0', b'\xf8' + b'\xff' * 3 + rng.randbytes(4), rng.randbytes(8)]))
        elif k == 3:
            v = rng.choice(RCDT + [rng.getrandbits(72)]) + rng.choice([-1, 0, 0, 1])
            yield dict(k='gauss0', v=max(0, min(v, (1 << 72) - 1)))
        elif k == 4:
            x = rng.choice([rng.random() * 50, rng.random(), 0.0, 0.6931471805599453 * rng.randrange(0, 70), 44.5 + rng.random() * 900, rng.random() * 1.4e9])
            yield dict(k='berexp', x=dbl(x), ccs=dbl(rng.choice([rng.random() * 0.5 + 0.5, 1 - 2 ** -52, 0.7])), near=rng.randrange(0, 9), d=rng.choice([-1, 0, 1]), tail=rng.randbytes(8))
        else:
            i = rng.randrange(1, 11)
            mu = rng.choice([rng.uniform(-5, 5), rng.uniform(-300, 300), float(rng.randrange(-9, 9)), rng.randrange(-9, 9) + 0.5, rng.randrange(-9, 9) - 2.0 ** -40, rng.uniform(-1e6, 1e6)])
            yield dict(k='sampler', seed=rng.randbytes(20), mu=dbl(mu), isg=dbl(1 / rng.uniform(1.31, 1.82)), smin=SIGMA_MIN[i], n=rng.randrange(1, 30))


def test(L):
    def buf_prng(b, state):
        p = ctypes.create_string_buffer(PSIZE + 16)
        ctypes.memmove(p, b, len(b))
        ctypes.memmove(ctypes.addressof(p) + 520, state, len(state))
        return p

    def go(c):
        k = c['k']
        if k == 'stream':
            p, S = seeded(L, c['seed']), Stream(c['seed'])
            for i, (f, n) in enumerate(c['ops']):
                if f == 'bytes':
                    o = ctypes.create_string_buffer(n)
                    L.falcon_inner_prng_get_bytes(p, o, SZ(n))
                    got, want = o.raw[:n], S.bytes(n)
                else:
                    got, want = (L.w_u64(p), S.u64()) if f == 'u64' else (L.w_u8(p), S.u8())
                if got != want:
                    return 'request %d (%s) does not deliver the next bytes of the stream' % (i, f)
            return None
        if k == 'refill':
            p = buf_prng(bytes(512), c['state'])
            g = chacha.chunks(c['state'])
            for i in range(2):
                L.falcon_inner_prng_refill(p)
                if p.raw[:512] != next(g) or p.raw[512:520] != bytes(8):
                    return 'refill %d: the buffer is not the next eight ChaCha20 blocks' % (i + 1)
            return None
        if k == 'gauss0':
            b = c['v'].to_bytes(9, 'little') + bytes(503)
            got = L.falcon_inner_gaussian0_sampler(buf_prng(b, bytes(56)))
            want = sum(c['v'] < t for t in RCDT)
            return None if got == want else 'gaussian0_sampler on %d gives %d, expected %d' % (c['v'], got, want)
        if k == 'berexp':
            s = F.trunc(F.mul(c['x'], INVLOG2))
            r = sub(c['x'], F.mul(F.scaled(s, 0), LOG2))
            if F.sgn(r):
                return None
            z = ((F.expm(r, c['ccs']) << 1) - 1 & M64) >> min(s, 63)
            b = z.to_bytes(8, 'big')
            m = c['near']
            b = (b[:m] + c['tail'])[:8] if m < 8 else max(0, min(M64, z + c['d'])).to_bytes(8, 'big')
            b += bytes(504)
            want = berexp(Stream(buf=b, state=bytes(56)), c['x'], c['ccs'])
            got = L.w_berexp(buf_prng(b, bytes(56)), U64(c['x']), U64(c['ccs']))
            return None if want is None or got == want else 'BerExp gives %d, expected %d' % (got, want)
        p, S = seeded(L, c['seed']), Stream(c['seed'])
        ctypes.memmove(ctypes.addressof(p) + PSIZE, c['smin'].to_bytes(8, 'little'), 8)
        for i in range(c['n']):
            want = sampler(S, c['smin'], c['mu'], c['isg'])
            if want is None:
                return None
            got = L.falcon_inner_sampler(p, U64(c['mu']), U64(c['isg']))
            if got != want:
                return 'draw %d of the sampler gives %d, expected %d' % (i, got, want)
        if L.w_u64(p) != S.u64():
            return 'the sampler does not consume the specified bytes'
        return None
    return go


def search(failed, seed, budget):
    return native.run_cases(cases(seed), test(lib()), budget)
