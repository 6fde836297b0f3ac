"""Concrete search for codec violations on the real C code (run only when an obligation failed)."""
import ctypes
import random
import csrc
import native
import codec as spec
from native import Guard, i8, i16, u16, un16

Q = 12289
P = 'falcon_inner_'


def lib():
    L = ctypes.CDLL(csrc.shared(['codec.c'], name='codec'))
    for n in ('modq_encode', 'modq_encode16', 'comp_encode', 'comp_encode16', 'modq_decode', 'modq_decode16',
              'comp_decode', 'comp_decode16', 'trim_i8_encode', 'trim_i16_encode', 'trim_i8_decode', 'trim_i16_decode'):
        getattr(L, P + n).restype = ctypes.c_size_t
    return L


def cs(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


FIX = {
    # name: (bits, elem width, signed elements, ok(x), code(x), ok(w), value(w))
    'modq14': ('modq_encode', 'modq_decode', 14, 16, False, lambda v: v < Q, lambda v: v, lambda w: w < Q, lambda w: w),
    'modq16': ('modq_encode16', 'modq_decode16', 16, 16, False, lambda v: v < Q, lambda v: v, lambda w: w < Q, lambda w: w),
    'comp16': ('comp_encode16', 'comp_decode16', 16, 16, True, lambda v: -6144 <= v <= 6144, lambda v: v % Q, lambda w: w < Q,
               lambda w: w - Q if w > 6144 else w),
}


def trim(which, B):
    w = 8 if which == 'i8' else 16
    M = (1 << (B - 1)) - 1
    return ('trim_%s_encode' % which, 'trim_%s_decode' % which, B, w, True, lambda v: -M <= v <= M, lambda v: v & ((1 << B) - 1),
            lambda x: x != 1 << (B - 1), lambda x: cs(x, B))


def pack(xs, w, signed):
    if w == 8:
        return i8(xs) if signed else bytes(xs)
    return i16(xs) if signed else u16(xs)


def unpackv(b, w, signed):
    if w == 8:
        return [cs(x, 8) if signed else x for x in b]
    return un16(b, signed)


def fixed_cases(seed, kinds, trims):
    rng = random.Random(seed)
    allk = [(k, None) for k in kinds] + [('trim', t) for t in trims]
    while True:
        for k, t in allk:
            c = FIX[k] if k in FIX else trim(*t)
            logn = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9, 10])
            n = 1 << logn
            enc, dec, B, w, sg, ok, code, okw, val = c
            lo = -(1 << (w - 1)) if sg else 0
            hi = (1 << (w - 1)) - 1 if sg else (1 << w) - 1
            edge = [v for v in range(lo, hi + 1) if ok(v)] if w == 8 else None
            valid = edge or [v for v in range(lo, hi + 1) if ok(v)]
            bnd = [valid[0], valid[-1], valid[0] - 1, valid[-1] + 1, lo, hi, 0, -1 if sg else 1, 2047, 2048, 6144, 6145, 12288, 12289]
            bnd = [v for v in bnd if lo <= v <= hi]
            mode = rng.randrange(4)
            x = [rng.choice(valid) for _ in range(n)]
            if mode == 1:
                x = [rng.choice([valid[0], valid[-1], 0]) for _ in range(n)]
            elif mode == 2:
                x[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice(bnd)
            elif mode == 3:
                x[rng.randrange(n)] = rng.choice(bnd)
                x[rng.randrange(n)] = rng.choice(valid)
            ln = (n * B + 7) // 8
            cap = rng.choice([ln, ln, ln, ln + 1, ln + 17, ln - 1, 0, ln // 2])
            yield dict(f='enc', kind=k, trim=t, logn=logn, x=x, cap=max(cap, 0), null=rng.random() < .1)
            words = [code(rng.choice(valid)) for _ in range(n)]
            m2 = rng.randrange(4)
            if m2 >= 1:
                for _ in range(rng.choice([1, 1, 2])):
                    words[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice([0, (1 << B) - 1, 1 << (B - 1), rng.randrange(1 << B), Q % (1 << B), (Q - 1) % (1 << B), 2047 % (1 << B), 2048 % (1 << B), 6144 % (1 << B), 6145 % (1 << B), 0x8000 % (1 << B)])
            bits = [b for v in words for b in spec.bits_of(v, B)]
            padn = -len(bits) % 8
            pad = [0] * padn
            if padn and m2 == 3:
                pad[rng.randrange(padn)] = 1
            data = spec.pack(bits + pad)
            extra = rng.choice([0, 0, 0, 1, 5])
            cut = rng.choice([0, 0, 0, 0, 1, 3])
            data = data + bytes(rng.randrange(256) for _ in range(extra))
            if cut:
                data = data[:max(0, len(data) - cut)]
            yield dict(f='dec', kind=k, trim=t, logn=logn, data=data)


def fixed_test(L):
    def test(c):
        enc, dec, B, w, sg, ok, code, okw, val = FIX[c['kind']] if c['kind'] in FIX else trim(*c['trim'])
        n = 1 << c['logn']
        hb = [ctypes.c_uint(B)] if c['trim'] else []
        if c['f'] == 'enc':
            gx = Guard(n * w // 8, pack(c['x'], w, sg), align=2)
            go = Guard(c['cap'])
            r = getattr(L, P + enc)(None if c['null'] else go.ptr(), ctypes.c_size_t(c['cap']), gx.ptr(), ctypes.c_uint(c['logn']), *hb)
            want = spec.fixed_encode(c['x'], B, ok, code)
            ln = (n * B + 7) // 8
            got = go.bytes()
            good = go.ok() and gx.ok() and gx.bytes() == pack(c['x'], w, sg)
            go.free(), gx.free()
            if not good:
                return '%s wrote outside its output' % enc
            if want is None or (not c['null'] and c['cap'] < ln):
                return None if r == 0 else '%s returned %d, expected 0' % (enc, r)
            if r != ln:
                return '%s returned %d, expected %d' % (enc, r, ln)
            if not c['null']:
                if got[:ln] != want:
                    i = next(i for i in range(ln) if got[i] != want[i])
                    return '%s: output byte %d is %02x, expected %02x' % (enc, i, got[i], want[i])
                if got[ln:] != b'\xa5' * (c['cap'] - ln):
                    return '%s wrote past the encoding' % enc
            return None
        gi = Guard(len(c['data']), c['data'])
        gx = Guard(n * w // 8, align=2)
        r = getattr(L, P + dec)(gx.ptr(), ctypes.c_uint(c['logn']), *(hb + [gi.ptr(), ctypes.c_size_t(len(c['data']))]))
        want = spec.fixed_decode(c['data'], n, B, okw, val)
        got = unpackv(gx.bytes(), w, sg)
        good = gx.ok() and gi.ok() and gi.bytes() == c['data']
        gi.free(), gx.free()
        if not good:
            return '%s wrote outside its output' % dec
        ln = (n * B + 7) // 8
        if want is None:
            return None if r == 0 else '%s accepted (returned %d) an input that is not a canonical encoding' % (dec, r)
        if r != ln:
            return '%s returned %d on a canonical encoding, expected %d' % (dec, r, ln)
        if got != want:
            i = next(i for i in range(n) if got[i] != want[i])
            return '%s: element %d is %d, expected %d' % (dec, i, got[i], want[i])
        return None
    return test


def search_fixed(kinds, trims):
    def search(failed, seed, budget):
        L = lib()
        return native.run_cases(fixed_cases(seed, kinds, trims), fixed_test(L), budget)
    return search


def comp_cases(seed):
    rng = random.Random(seed)

    def coef(mode):
        k = rng.randrange(10)
        if mode == 0 or k < 5:
            return rng.randrange(-300, 301)
        if mode == 3:
            return rng.choice([-2047, 2047, -1920, 1920, 1919, -128, 127, 0])
        return rng.choice([-2047, 2047, 0, 127, 128, -127, -128, 1920, -1920, 1919, rng.randrange(-2047, 2048)])

    def bits1(v, z=None):
        a = abs(v)
        return [1 if v < 0 else 0] + [(a >> i) & 1 for i in range(6, -1, -1)] + [0] * (a >> 7 if z is None else z) + [1]
    while True:
        logn = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10])
        n = 1 << logn
        mode = rng.randrange(4)
        x = [coef(mode) for _ in range(n)]
        ln = (sum(9 + (abs(v) >> 7) for v in x) + 7) // 8
        if rng.random() < .2:
            x[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice([2048, -2048, 4095, -4096, 32767, -32768])
        cap = rng.choice([ln, ln, ln + 1, ln + 9, ln - 1, ln - 2, 0, ln // 2, ln // 3, rng.randrange(ln + 1)])
        yield dict(f='enc', logn=logn, x=x, cap=max(cap, 0), null=rng.random() < .15)
        x = [coef(mode) for _ in range(n)]
        codes = [bits1(v) for v in x]
        k = rng.randrange(8)
        i = rng.choice([0, n - 1, rng.randrange(n)])
        if k == 0:
            codes[i] = [1] + [0] * 7 + [1]                     # -0
        elif k == 1:
            codes[i] = bits1(x[i], 16)                         # too large
        elif k == 2:
            codes[i] = bits1(rng.choice([0, 127, -1, -127]), rng.choice([15, 16, 17, 15, 16, 31, 40]))
        bits = [b for c in codes for b in c]
        padn = -len(bits) % 8
        pad = [0] * padn
        if padn and k == 3:
            pad[rng.randrange(padn)] = 1
        data = spec.pack(bits + pad)
        if k == 4:
            data = data[:max(0, len(data) - rng.choice([1, 1, 2, 5]))]
        elif k == 5:
            data += bytes(rng.choice([0, 0, 255, 1, rng.randrange(256)]) for _ in range(rng.choice([1, 1, 3])))
        elif k == 6:
            data = bytes(rng.choice([0, 0, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 2 * n])))
        yield dict(f='dec', logn=logn, data=data)


def comp_test(L):
    def test(c):
        n = 1 << c['logn']
        if c['f'] == 'enc':
            gx = Guard(2 * n, i16(c['x']), align=2)
            go = Guard(c['cap'])
            r = getattr(L, P + 'comp_encode')(None if c['null'] else go.ptr(), ctypes.c_size_t(c['cap']), gx.ptr(), ctypes.c_uint(c['logn']))
            want = spec.comp_encode(c['x'])
            got = go.bytes()
            good = go.ok() and gx.ok() and gx.bytes() == i16(c['x'])
            go.free(), gx.free()
            if not good:
                return 'comp_encode wrote outside its output'
            if want is None or (not c['null'] and c['cap'] < len(want)):
                return None if r == 0 else 'comp_encode returned %d, expected 0' % r
            if r != len(want):
                return 'comp_encode returned %d, expected %d' % (r, len(want))
            if not c['null'] and got[:len(want)] != want:
                return 'comp_encode wrote a wrong encoding'
            if not c['null'] and got[len(want):] != b'\xa5' * (c['cap'] - len(want)):
                return 'comp_encode wrote past the encoding'
            return None
        gi = Guard(len(c['data']), c['data'])
        gx = Guard(2 * n, align=2)
        r = getattr(L, P + 'comp_decode')(gx.ptr(), ctypes.c_uint(c['logn']), gi.ptr(), ctypes.c_size_t(len(c['data'])))
        want = spec.comp_decode(c['data'], n)
        got = un16(gx.bytes(), True)
        good = gx.ok() and gi.ok()
        gi.free(), gx.free()
        if not good:
            return 'comp_decode wrote outside its output'
        if want is None:
            return None if r == 0 else 'comp_decode accepted (returned %d) a string that is not a canonical encoding' % r
        if r != want[1]:
            return 'comp_decode returned %d on a canonical encoding of %d bytes' % (r, want[1])
        if got != want[0]:
            return 'comp_decode decoded a wrong vector'
        return None
    return test


def search_comp(failed, seed, budget):
    return native.run_cases(comp_cases(seed), comp_test(lib()), budget)
