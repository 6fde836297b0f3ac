"""Contracts of pythonref/falcon_codec.py (modq_*, trim_i8_*), encoding.decode16, common.falcon_compact and
falcon.PublicKey.from_bytes: exact bit layout for every input, one degree at a time (loops fully unrolled)."""
import z3

import bv
import pysym as P
from pysym import VBytes, ieq, term, mkint

Q = 12289
NULL = P.ns(Poly=None, NTTIterative=None, q=Q)


def codec():
    return P.load('falcon_codec', stubs={'common': P.load('common'), 'polyntt': NULL, 'polyntt.poly': NULL,
                                         'polyntt.ntt_iterative': NULL})


def bits_be(x, w):
    """w bits of an int / SInt, most significant first"""
    return bv.tobits(term(x, w), w)[::-1]


def as_bytes(r):
    return isinstance(r, (bytes, VBytes)) and not isinstance(r, P.VByteArray)


def check_stream(E, name, r, nbytes, bits):
    """r is the byte string of these bits (most significant first) and zero padding"""
    if not as_bytes(r) or len(r) != nbytes:
        E.prove(name + ': a byte string of %d bytes is returned' % nbytes, False)
        return
    bits = bits + [0] * (8 * nbytes - len(bits))
    for i, x in enumerate(r):
        E.prove(name + ': byte %d' % i, ieq(x, mkint(bv.frombits(bits[8 * i:8 * i + 8][::-1]), 8)))


def encode_unit(fn, n, bits, lo, hi):
    def unit():
        E = P.Engine('falcon_codec.%s n=%d%s' % (fn, n, '' if bits == 14 else ' bits=%d' % bits), fork=True)
        E.res.functions.add('pythonref/falcon_codec.py:' + fn)
        m = codec()
        g = P.ns()

        def run():
            g.x = [P.RInt(bv.var('x%d' % i, 20), 20, True) for i in range(n)]
            g.x0 = [P.SInt(v.t, v.w, v.s) for v in g.x]
            g.bad = E.warm([bv.bnot(bv.band(P.zb(v >= lo), P.zb(v <= hi))) for v in g.x0])
            return m.__dict__[fn](list(g.x), n) if bits == 14 else m.__dict__[fn](list(g.x), n, bits)

        def post(r):
            for i, v in enumerate(g.x0):
                E.prove('%s: accepted coefficient %d is in range' % (fn, i), bv.band(P.zb(v >= lo), P.zb(v <= hi)))
            check_stream(E, fn, r, (n * bits + 7) // 8, [b for v in g.x0 for b in bits_be(mkint(bv.trunc(v.t, v.w, bits), bits), bits)])

        def raised(e):
            if not isinstance(e, ValueError):
                E.prove('%s: raises only ValueError (%s)' % (fn, type(e).__name__), False, note=str(e))
                return
            E.prove_any('%s: raises only when a coefficient is out of range' % fn,
                        g.bad)
        return E.run(run, post, raised)
    return unit


def decode_unit(fn, n, bits, extra):
    def unit():
        nb = (n * bits + 7) // 8
        E = P.Engine('falcon_codec.%s n=%d%s length=%d' % (fn, n, '' if bits == 14 else ' bits=%d' % bits, nb + extra), fork=True)
        E.res.functions.add('pythonref/falcon_codec.py:' + fn)
        m = codec()
        g = P.ns()

        def run():
            g.d = VBytes([P.var('d%d' % i, 8) for i in range(nb + extra)])
            if extra >= 0:
                ws, ok, pad = g.spec = spec()
                g.bad = E.warm([bv.bnot(c) for c in ok + [pad]])
            return m.__dict__[fn](g.d, n) if bits == 14 else m.__dict__[fn](g.d, n, bits)

        def spec():
            bs = [b for x in g.d for b in bits_be(x, 8)]
            ws = [mkint(bv.frombits(bs[bits * i:bits * i + bits][::-1]), bits) for i in range(n)]
            if bits == 14:
                ok = [P.zb(w < Q) for w in ws]
            else:
                ok = [P.zb(w != 1 << (bits - 1)) for w in ws]
                ws = [mkint(bv.frombits(bs[bits * i:bits * i + bits][::-1]), bits, True) for i in range(n)]
            pad = mkint(bv.frombits(bs[bits * n:8 * nb][::-1]), 8 * nb - bits * n) if 8 * nb > bits * n else 0
            return ws, ok, P.zb(pad == 0)

        def post(r):
            if extra < 0:
                E.prove(fn + ': short input is rejected', False)
                return
            ws, ok, pad = g.spec
            if not isinstance(r, list) or len(r) != n:
                E.prove(fn + ': a list of n values is returned', False)
                return
            for i in range(n):
                E.prove('%s: value %d' % (fn, i), ieq(r[i], ws[i]))
                E.prove('%s: accepted value %d is in range' % (fn, i), ok[i])
            E.prove(fn + ': accepted padding bits are zero', pad)

        def raised(e):
            if not isinstance(e, ValueError):
                E.prove('%s: raises only ValueError (%s)' % (fn, type(e).__name__), False, note=str(e))
                return
            if extra < 0:
                E.prove(fn + ': short input raises ValueError', z3.BoolVal(True))
                E.res.add('%s: short input raises ValueError' % E.name, 'proved', 0, 'path enumeration')
                return
            E.prove_any(fn + ': raises only for a value out of range or non-zero padding', g.bad)
        return E.run(run, post, raised)
    return unit


def decode16_unit(n):
    def unit():
        E = P.Engine('encoding.decode16 length=%d' % n)
        E.res.functions.add('pythonref/encoding.py:decode16')
        m = P.load('encoding')
        g = P.ns()

        def run():
            g.d = VBytes([P.var('d%d' % i, 8) for i in range(n)])
            return m.decode16(g.d, n // 2)

        def post(r):
            if n % 2 or not isinstance(r, list) or len(r) != n // 2:
                E.prove('decode16: one value per two bytes, odd lengths rejected', False)
                return
            E.res.add(E.name + ': one value per two bytes', 'proved', 0, 'path enumeration')
            for i in range(n // 2):
                E.prove('decode16: value %d is big-endian' % i, ieq(r[i], g.d[2 * i] * 256 + g.d[2 * i + 1]))

        def raised(e):
            E.res.check(E.name + ': ValueError exactly for odd lengths', isinstance(e, ValueError) and n % 2 == 1, str(e))
        return E.run(run, post, raised)
    return unit


def compact_unit(n):
    def unit():
        E = P.Engine('common.falcon_compact length=%d' % n, fork=True)
        E.res.functions.add('pythonref/common.py:falcon_compact')
        m = P.load('common')
        g = P.ns()

        def run():
            g.x = [P.var('x%d' % i, 20) for i in range(n)]
            g.bad = E.warm([P.zb(v >= 65536) for v in g.x])
            return m.falcon_compact(list(g.x))

        def post(r):
            for i, v in enumerate(g.x):
                E.prove('falcon_compact: accepted element %d is below 2^16' % i, v < 65536)
            if n % 16 or not isinstance(r, list) or len(r) != n // 16:
                E.prove('falcon_compact: one word per 16 elements', False)
                return
            E.res.add(E.name + ': one word per 16 elements', 'proved', 0, 'path enumeration')
            for j, w in enumerate(r):
                bits = [b for i in range(16) for b in bv.tobits(term(g.x[16 * j + i], 20), 20)[:16]]
                E.prove('falcon_compact: word %d' % j, ieq(w, mkint(bv.frombits(bits), 256)))

        def raised(e):
            if n % 16:
                E.res.check(E.name + ': lengths not divisible by 16 are rejected', isinstance(e, AssertionError), str(e))
                return
            E.prove_any('falcon_compact: rejects only elements of more than 16 bits',
                        g.bad if isinstance(e, AssertionError) else [], note=str(e))
        return E.run(run, post, raised)
    return unit


def falcon_stubs():
    import math
    X = lambda *a, **k: None
    any_ = P.ns(**{k: X for k in ('fft', 'ifft', 'sub', 'neg', 'add_fft', 'mul_fft', 'gram', 'ffldl_fft', 'ffsampling_fft', 'ntru_gen',
                                  'compress', 'decompress', 'KeccakPRNG', 'SHAKE', 'Blake2sPRNG', 'Poly', 'NTTIterative', 'ChaCha20',
                                  'blake2s', 'set_printoptions')})
    st = {k: any_ for k in ('numpy', 'fft', 'ffsampling', 'ntrugen', 'encoding', 'keccak_prng', 'shake', 'blake2s_prng', 'hashlib',
                            'polyntt', 'polyntt.poly', 'polyntt.ntt_iterative', 'rng')}
    st['common'] = P.load('common')
    return st


def from_bytes_unit(length, head):
    """head: value of the first byte, or 'other'"""
    n = {(897, 9): 512, (1793, 10): 1024}.get((length, head))

    def unit():
        E = P.Engine('PublicKey.from_bytes length=%d header=%s' % (length, head), fork=True)
        E.res.functions.add('pythonref/falcon.py:PublicKey.from_bytes')
        m = P.load('falcon', stubs=falcon_stubs())
        g = P.ns()

        def run():
            d = [P.var('d%d' % i, 8) for i in range(length)]
            if length:
                if head == 'other':
                    P.CTX.assume(bv.band(P.zb(d[0] != 9), P.zb(d[0] != 10)))
                else:
                    d[0] = head
            g.d = VBytes(d)
            if n:
                g.spec = spec()
                g.bad = E.warm([P.zb(w >= Q) for w in g.spec])
            return m.PublicKey.from_bytes(g.d)

        def spec():
            bs = [b for x in list(g.d)[1:] for b in bits_be(x, 8)]
            return [mkint(bv.frombits(bs[14 * i:14 * i + 14][::-1]), 14) for i in range(n)]

        def post(r):
            if n is None:
                E.prove('from_bytes: a key of another length or header is rejected', False)
                return
            if r.n != n or not isinstance(r.pk, list) or len(r.pk) != n:
                E.prove('from_bytes: degree and number of coefficients', False)
                return
            for i, w in enumerate(g.spec):
                E.prove('from_bytes: coefficient %d' % i, ieq(r.pk[i], w))
                E.prove('from_bytes: accepted coefficient %d is below q' % i, w < Q)

        def raised(e):
            if not isinstance(e, ValueError):
                E.prove('from_bytes: raises only ValueError (%s)' % type(e).__name__, False, note=str(e))
            elif n is None:
                E.res.add(E.name + ': rejected', 'proved', 0, 'path enumeration')
            else:
                E.prove_any('from_bytes: rejects only a coefficient that is not below q', g.bad)
        return E.run(run, post, raised)
    return unit


def units(thorough=False):
    u = []
    top = 10 if thorough else 9
    for lg in range(top, 0, -1):
        n = 1 << lg
        u.append(('modq_encode logn=%d' % lg, encode_unit('modq_encode', n, 14, 0, Q - 1)))
        u.append(('modq_decode logn=%d' % lg, decode_unit('modq_decode', n, 14, 0)))
        ws = sorted({[0, 8, 8, 8, 8, 8, 7, 7, 6, 6, 5][lg], 8} | (set(range(2, 9)) if lg == 3 or thorough and lg < 9 else set()))
        for w in ws:
            M = (1 << (w - 1)) - 1
            u.append(('trim_i8_encode logn=%d bits=%d' % (lg, w), encode_unit('trim_i8_encode', n, w, -M, M)))
            u.append(('trim_i8_decode logn=%d bits=%d' % (lg, w), decode_unit('trim_i8_decode', n, w, 0)))
    for lg in (1, 3, 5):
        n = 1 << lg
        for d in (-1, 1, 3):
            u.append(('modq_decode logn=%d length%+d' % (lg, d), decode_unit('modq_decode', n, 14, d)))
            u.append(('trim_i8_decode logn=%d length%+d' % (lg, d), decode_unit('trim_i8_decode', n, 6, d)))
    for k in (0, 1, 2, 3, 1024, 1025):
        u.append(('decode16 length=%d' % k, decode16_unit(k)))
    for k in (16, 17, 512):
        u.append(('falcon_compact length=%d' % k, compact_unit(k)))
    for ln, h in ((897, 9), (1793, 10), (897, 10), (1793, 9), (897, 'other'), (1793, 'other'), (896, 9), (898, 9), (1792, 10), (1794, 10),
                  (0, 'other'), (1, 9)):
        u.append(('from_bytes length=%d header=%s' % (ln, h), from_bytes_unit(ln, h)))
    return u
