"""falcon_codec, decode16, falcon_compact, PublicKey.from_bytes against bit-level definitions"""
import random

import pyhunt
import falcon_codec
from common import falcon_compact
from encoding import decode16
from falcon import PublicKey

Q = 12289
FG = {1: 8, 2: 8, 3: 8, 4: 8, 5: 8, 6: 7, 7: 7, 8: 6, 9: 6, 10: 5}


def pack(vals, w):
    t = ''.join(format(v & ((1 << w) - 1), '0%db' % w) for v in vals)
    t += '0' * (-len(t) % 8)
    return int('1' + t, 2).to_bytes(len(t) // 8 + 1, 'big')[1:]


def unpack(d, n, w):
    t = ''.join(format(b, '08b') for b in d[:(n * w + 7) // 8])
    return [int(t[w * i:w * i + w], 2) for i in range(n)], '1' in t[n * w:]


def cases(seed):
    r = random.Random(seed)
    while True:
        lg = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9, 10])
        n = 1 << lg
        w = r.choice([14, 14, FG[lg], FG[lg], 8, 2, 3, 4, 5, 6, 7, 8])
        M = Q - 1 if w == 14 else (1 << (w - 1)) - 1
        lo = 0 if w == 14 else -M
        f = r.choice([0, 0, .3, 1])
        x = [r.choice([lo, M, 0, lo, M, 0, max(lo, -1), 1]) if r.random() < f else r.randint(lo, M) for _ in range(n)]
        bad = list(x)
        bad[r.choice([0, n - 1, r.randrange(n)])] = r.choice([lo - 1, M + 1, lo - 1, M + 1, 2 * M + 2, -40000, 1 << 14, 1 << 16, 127, -128])
        yield dict(k='e', w=w, n=n, x=x)
        yield dict(k='e', w=w, n=n, x=bad)
        d = bytearray(pack(x, w))
        yield dict(k='d', w=w, n=n, d=bytes(d).hex())
        yield dict(k='d', w=w, n=n, d=(bytes(d) + r.randbytes(r.choice([1, 2, 7]))).hex())
        yield dict(k='d', w=w, n=n, d=bytes(d[:-1]).hex())
        b = pack([v & ((1 << w) - 1) if w != 14 else v & 16383 for v in bad], w)
        yield dict(k='d', w=w, n=n, d=b.hex())
        y = bytearray(d)
        y[-1] ^= 1 << r.randrange(8)
        yield dict(k='d', w=w, n=n, d=bytes(y).hex())
        yield dict(k='d', w=w, n=n, d=r.randbytes(len(d)).hex())
        v = [0] * n
        v[r.choice([0, n - 1, r.randrange(n)])] = 1 << (w - 1) if w != 14 else r.choice([Q, 16383])
        yield dict(k='d', w=w, n=n, d=pack(v, w).hex())
        yield dict(k='16', d=r.randbytes(r.choice([0, 1, 2, 3, 5, 64, 1024, 1025])).hex())
        m = r.choice([0, 16, 32, 512, 512, 1024, 17, 8])
        a = [r.choice([0, 65535, r.randrange(65536), r.randrange(Q)]) for _ in range(m)]
        if m and r.random() < .4:
            a[r.choice([0, m - 1, r.randrange(m)])] = r.choice([65536, 65537, 1 << 20])
        yield dict(k='c', a=a)
        for ln, hd, nn in ((897, 9, 512), (1793, 10, 1024)):
            h = [r.randrange(Q) for _ in range(nn)]
            p = bytearray([hd]) + pack(h, 14)
            m = r.randrange(8)
            if m == 1:
                p[0] = r.choice([0, 9, 10, 8, 11, 0x29, 255])
            elif m == 2:
                p = p[:r.choice([0, 1, len(p) - 1, 896, 897, 1792])]
            elif m == 3:
                p += bytes(r.choice([1, 895, 896]))
            elif m == 4:
                h[r.choice([0, nn - 1, r.randrange(nn)])] = r.choice([Q, Q + 1, 16383])
                p[1:] = pack(h, 14)
            elif m == 5:
                h[r.randrange(nn)] = Q - 1
                p[1:] = pack(h, 14)
            yield dict(k='pk', d=bytes(p).hex())


def attempt(f, *a):
    try:
        return f(*a)
    except ValueError:
        return ValueError


def test(c):
    if c['k'] == 'e':
        w, n, x = c['w'], c['n'], c['x']
        M = Q - 1 if w == 14 else (1 << (w - 1)) - 1
        want = pack(x, w) if all((0 if w == 14 else -M) <= v <= M for v in x) else ValueError
        got = attempt(falcon_codec.modq_encode, x, n) if w == 14 else attempt(falcon_codec.trim_i8_encode, x, n, w)
        return None if got == want else 'encode (%d bits): %r instead of %r' % (w, got, want)
    if c['k'] == 'd':
        w, n, d = c['w'], c['n'], bytes.fromhex(c['d'])
        if len(d) < (n * w + 7) // 8:
            want = ValueError
        else:
            v, pad = unpack(d, n, w)
            if w != 14:
                bad = pad or 1 << (w - 1) in v
                v = [a - (1 << w) if a >> (w - 1) else a for a in v]
            else:
                bad = pad or max(v) >= Q
            want = ValueError if bad else v
        got = attempt(falcon_codec.modq_decode, d, n) if w == 14 else attempt(falcon_codec.trim_i8_decode, d, n, w)
        return None if got == want else 'decode (%d bits): %r instead of %r' % (w, got, want)
    if c['k'] == '16':
        d = bytes.fromhex(c['d'])
        want = ValueError if len(d) % 2 else [d[i] << 8 | d[i + 1] for i in range(0, len(d), 2)]
        got = attempt(decode16, d, len(d) // 2)
        return None if got == want else 'decode16: %r' % (got,)
    if c['k'] == 'c':
        a = c['a']
        want = None if len(a) % 16 or any(v > 65535 for v in a) else [sum(v << (16 * i) for i, v in enumerate(a[j:j + 16])) for j in range(0, len(a), 16)]
        try:
            got = falcon_compact(list(a))
        except AssertionError:
            got = None
        return None if got == want else 'falcon_compact: %r instead of %r' % (got, want)
    d = bytes.fromhex(c['d'])
    n = 512 if len(d) == 897 and d[0] == 9 else 1024 if len(d) == 1793 and d[0] == 10 else None
    want = ValueError
    if n:
        v, _ = unpack(d[1:], n, 14)
        if max(v) < Q:
            want = (n, v)
    got = attempt(PublicKey.from_bytes, d)
    if got is not ValueError:
        got = (got.n, got.pk)
    return None if got == want else 'from_bytes (length %d, header %r): %r instead of %r' % (len(d), d[:1], got, want)


pyhunt.worker(cases, test)
