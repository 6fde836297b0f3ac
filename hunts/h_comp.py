"""encoding.compress / decompress against bit-level definitions"""
import random

import pyhunt
from encoding import compress, decompress


def code(c):
    a = abs(c)
    return [int(c < 0)] + [(a >> (6 - i)) & 1 for i in range(7)] + [0] * (a // 128) + [1]


def pack(bits):
    bits = bits + [0] * (-len(bits) % 8)
    return bytes(sum(b << (7 - j) for j, b in enumerate(bits[i:i + 8])) for i in range(0, len(bits), 8))


def parse(x, n):
    bits = [(b >> (7 - i)) & 1 for b in x for i in range(8)]
    p, out = 0, []
    for _ in range(n):
        if p + 9 > len(bits):
            return None
        low = int(''.join(map(str, bits[p + 1:p + 8])), 2)
        h = 0
        while p + 8 + h < len(bits) and not bits[p + 8 + h]:
            h += 1
        if p + 8 + h >= len(bits):
            return None
        v = low + 128 * h
        if bits[p] and v == 0:
            return None
        out.append(-v if bits[p] else v)
        p += 9 + h
    return None if any(bits[p:]) else out


def coef(r):
    k = r.randrange(8)
    if k < 4:
        return int(r.gauss(0, 165))
    return r.choice([-1, 1]) * r.choice([0, 1, 63, 64, 126, 127, 128, 129, 255, 256, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 6144, r.randrange(20000)])


def cases(seed):
    r = random.Random(seed)
    while True:
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 16, 33, 64, 128, 256, 512, 1024])
        v = [coef(r) if r.random() < .7 else int(r.gauss(0, 165)) for _ in range(n)]
        nb = sum(9 + (abs(c) >> 7) for c in v)
        for d in (0, -1, 1, r.randrange(-4, 40)):
            yield dict(f='c', v=v, slen=max(0, (nb + 7) // 8 + d))
        if n:
            # exact fit in bits
            while sum(9 + (abs(c) >> 7) for c in v) % 8:
                v[0] = abs(v[0]) + 128
            yield dict(f='c', v=v, slen=sum(9 + (abs(c) >> 7) for c in v) // 8)
        bits = [b for c in v for b in code(c)]
        x = pack(bits)
        for _ in range(4):
            m = r.randrange(11)
            y = bytearray(x)
            if m == 0:
                y = x + bytes(r.choice([1, 2, 9]))
            elif m == 1:
                y = y[:len(y) - r.choice([1, 1, 2, 5])]
            elif m == 2 and y:
                y[r.randrange(len(y))] ^= 1 << r.randrange(8)
            elif m == 3 and y:
                y[-1] ^= 1 << r.randrange(3)
            elif m == 4:
                y = x + bytes(r.choice([0, 3])) + bytes([1 << r.randrange(8)])
            elif m == 5 and n:
                w = [list(code(c)) for c in v]
                k = r.randrange(n)
                w[k] = [1] + [0] * 7 + [1]
                y = pack([b for c in w for b in c])
            elif m == 6:
                y = bytes(r.choice([0, 1, len(x)]))
            elif m == 7:
                y = r.randbytes(r.randrange(12))
            elif m == 8:
                y = pack(bits + [0] * r.randrange(9) + [1])
            elif m == 9:
                y = pack(bits[:max(0, len(bits) - r.randrange(20))])
            yield dict(f='d', x=bytes(y).hex(), slen=len(y) + r.choice([0, 0, 0, -1, 1, 30]), n=r.choice([n, n, n, n, n + 1, max(0, n - 1)]))


def test(c):
    if c['f'] == 'c':
        v, slen = list(c['v']), c['slen']
        bits = [b for x in v for b in code(x)]
        want = False if len(bits) > 8 * slen else pack(bits + [0] * (8 * slen - len(bits)))
        got = compress(v, slen)
        if got is not want and (want is False or got != want or not isinstance(got, bytes)):
            return 'compress returns %r instead of %r' % (got if got is False else bytes(got).hex(), want if want is False else want.hex())
        return None
    x = bytes.fromhex(c['x'])
    want = parse(x, c['n']) if len(x) <= c['slen'] else None
    got = decompress(x, c['slen'], c['n'])
    if want is None:
        return None if got is False else 'decompress accepts a string that is not an encoding: %r' % (got,)
    return None if got is not False and list(got) == want else 'decompress returns %r instead of %r' % (got, want)


pyhunt.worker(cases, test)
