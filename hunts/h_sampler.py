"""samplerz.py and mkgauss.py against their definitions, with chosen random bytes at every threshold"""
import random
from fractions import Fraction
from math import floor

import pyhunt
import samplerz
import mkgauss

T = [3024686241123004913666, 1564742784480091954050, 636254429462080897535, 199560484645026482916, 47667343854657281903,
     8595902006365044063, 1163297957344668388, 117656387352093658, 8867391802663976, 496969357462633, 20680885154299,
     638331848991, 14602316184, 247426747, 3104126, 28824, 198, 1]
C = [0x00000004741183A3, 0x00000036548CFC06, 0x0000024FDCBF140A, 0x0000171D939DE045, 0x0000D00CF58F6F84, 0x000680681CF796E3,
     0x002D82D8305B0FEA, 0x011111110E066FD0, 0x0555555555070F00, 0x155555555581FF00, 0x400000000002B400, 0x7FFFFFFFFFFF4800,
     0x8000000000000000]
G = [1283868770400643928, 6416574995475331444, 4078260278032692663, 2353523259288686585, 1227179971273316331, 575931623374121527,
     242543240509105209, 91437049221049666, 30799446349977173, 9255276791179340, 2478152334826140, 590642893610164,
     125206034929641, 23590435911403, 3948334035941, 586753615614, 77391054539, 9056793210, 940121950, 86539696, 7062824, 510971,
     32764, 1862, 94, 4, 0]


class Src:
    def __init__(self, data):
        self.d, self.p, self.log = data, 0, []

    def __call__(self, k):
        self.log.append(k)
        if self.p + k > len(self.d):
            raise EOFError('%d bytes are not enough' % len(self.d))
        r = self.d[self.p:self.p + k]
        self.p += k
        return r


def base(u):
    return sum(u < t for t in T)


def cases(seed):
    r = random.Random(seed)
    while True:
        t = r.choice(T)
        yield dict(f='base', u=max(0, min((1 << 72) - 1, r.choice([t, t - 1, t + 1, r.getrandbits(72), 0, (1 << 72) - 1]))))
        yield dict(f='exp', x=r.random() * 0.6931, ccs=r.uniform(.5, 1))
        y = r.choice([1 << 64, 1, 2, r.randrange(1, 1 << 64), r.getrandbits(63) + (1 << 62)])
        x = r.choice([0.0, r.uniform(0, 2), r.uniform(0, 30), 43.0, 44.4, 60.5, 100.3])
        s = min(int(x * 1.44269504089), 63)
        z = (y - 1) >> s
        b = bytearray(z.to_bytes(8, 'big'))
        if r.random() < .8:
            i = r.randrange(8)
            b[i] = (b[i] + r.choice([0, 1, -1, r.randrange(256)])) % 256
        yield dict(f='ber', x=x, ccs=r.uniform(.5, 1), y=y, b=bytes(b).hex())
        acc = [0] * r.randrange(4) + [1]
        yield dict(f='z', mu=r.choice([0, 0.0, r.uniform(-60, 60), float(r.randrange(-5, 5)), -0.25, -1e-9]), sigma=r.uniform(1.28, 1.82), sigmin=1.2779,
                   us=[r.choice([r.getrandbits(72), r.randrange(1 << 60)]) for _ in acc], bs=[r.randrange(256) for _ in acc], acc=acc)
        logn = r.choice([10, 10, 9, 8, 7, 5, 1])
        k = 1 << (10 - logn)
        l = []
        for _ in range(k):
            l.append(max(0, min((1 << 63) - 1, r.choice([G[0], G[0] - 1, G[0] + 1, r.getrandbits(63), (1 << 63) - 1, 0]))) | r.getrandbits(1) << 63)
            l.append(max(0, r.choice([r.choice(G) + r.choice([-1, 0, 1]), r.getrandbits(63), 0, (1 << 63) - 1])) | r.getrandbits(1) << 63)
        yield dict(f='mk', logn=logn, w=l)
        n = r.choice([1, 2, 4, 8, 16])
        s = []
        for _ in range(n):
            while r.random() < .3:
                s.append(r.choice([128, -128, 127, -127, 300, -200, 129]))
            s.append(r.choice([r.randrange(-127, 128), 127, -127, 0, 1, -1]))
        yield dict(f='poly', n=n, s=s + [2, 3, -4, 5])


def gauss(w1, w2):
    m = (1 << 63) - 1
    if w1 & m < G[0]:
        return 0
    k = next(i for i in range(1, len(G)) if w2 & m >= G[i])
    return -k if w1 >> 63 else k


def patch(mod, name, f):
    old = getattr(mod, name)
    setattr(mod, name, f)
    return lambda: setattr(mod, name, old)


def test(c):
    f = c['f']
    if f == 'base':
        s = Src(c['u'].to_bytes(9, 'little') + b'\0' * 9)
        r = samplerz.basesampler(randombytes=s)
        return None if (r, s.p) == (base(c['u']), 9) else 'basesampler gives %r after %d bytes, expected %d' % (r, s.p, base(c['u']))
    if f == 'exp':
        z, y = int(c['x'] * (1 << 63)), C[0]
        for e in C[1:]:
            y = e - ((z * y) >> 63)
        y = ((int(c['ccs'] * (1 << 63)) << 1) * y) >> 63
        r = samplerz.approxexp(c['x'], c['ccs'])
        return None if r == y else 'approxexp gives %r, expected %r' % (r, y)
    if f == 'ber':
        got = []

        def approx(x, ccs):
            got.append((x, ccs))
            return c['y']
        undo = patch(samplerz, 'approxexp', approx)
        s = Src(bytes.fromhex(c['b']) + b'\x80' * 4)
        try:
            r = samplerz.berexp(c['x'], c['ccs'], randombytes=s)
        finally:
            undo()
        k = int(c['x'] * 1.44269504089)
        if len(got) != 1 or abs(got[0][0] - (c['x'] - k * 0.69314718056)) > 1e-12 or got[0][1] != c['ccs']:
            return 'approxexp is called with %r' % got
        want = int(c['b'], 16) < (c['y'] - 1) >> min(k, 63)
        return None if bool(r) == want else 'berexp gives %r, expected %r' % (r, want)
    if f == 'z':
        data = b''.join(u.to_bytes(9, 'little') + bytes([b]) for u, b in zip(c['us'], c['bs']))
        s, i = Src(data), [0]
        mu = Fraction(c['mu'])
        fl = floor(mu)
        bad = []

        def ber(x, ccs, randombytes=None):
            k = i[0]
            i[0] += 1
            z0, b = base(c['us'][k]), c['bs'][k] & 1
            z = b + (2 * b - 1) * z0
            want = (Fraction(z) - (mu - fl)) ** 2 / (2 * Fraction(c['sigma']) ** 2) - Fraction(z0 * z0) / (2 * Fraction('1.8205') ** 2)
            if abs(Fraction(x) - want) > Fraction(1, 10 ** 9) or abs(ccs - c['sigmin'] / c['sigma']) > 1e-12:
                bad.append('berexp(%r, %r), expected %r' % (x, ccs, float(want)))
            return bool(c['acc'][k])
        undo = patch(samplerz, 'berexp', ber)
        try:
            r = samplerz.samplerz(c['mu'], c['sigma'], c['sigmin'], randombytes=s)
        finally:
            undo()
        if bad:
            return bad[0]
        z0, b = base(c['us'][-1]), c['bs'][-1] & 1
        want = fl + b + (2 * b - 1) * z0
        return None if r == want and i[0] == len(c['acc']) else 'samplerz gives %r, expected %r' % (r, want)
    if f == 'mk':
        w = c['w']
        want = sum(gauss(w[i], w[i + 1]) for i in range(0, len(w), 2))
        s = Src(b''.join(x.to_bytes(8, 'little') for x in w))
        r = mkgauss.mkgauss(s, c['logn'])
        return None if r == want and s.p == 8 * len(w) else 'mkgauss gives %r, expected %r' % (r, want)
    s = list(c['s'])
    want, par, p = [], 0, 0
    while len(want) < c['n']:
        x = s[p]
        p += 1
        if abs(x) > 127 or (len(want) == c['n'] - 1 and (par + x) % 2 == 0):
            continue
        par += x
        want.append(x)
    it = iter(s)
    undo = patch(mkgauss, 'mkgauss', lambda rng, logn: next(it))
    try:
        r = mkgauss.poly_small_mkgauss(None, c['n'], 10)
    finally:
        undo()
    return None if r == want else 'poly_small_mkgauss gives %r, expected %r' % (r, want)


pyhunt.worker(cases, test)
