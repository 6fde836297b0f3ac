"""Solidity codecs against the independent codecs of /verif/oracle"""
import random
from solhunt import *
C = oracle('codec')
Q = 12289


def sig_coefs(r):
    k = r.randrange(5)
    f = [lambda: max(-2047, min(2047, int(r.gauss(0, 165)))), lambda: max(-2047, min(2047, int(r.gauss(0, 165)))), lambda: 0, lambda: r.randrange(-127, 128),
         lambda: r.choice([0, 1, -1, 127, 128, -127, -128, 255, 256])][k]
    x = [f() for _ in range(512)]
    for _ in range(r.randrange(4)):
        x[r.randrange(512)] = r.choice([2047, -2047, 1920, -1920, 2046, 1919, 0, 128])
    return x


FNS = ['sig', 'sig', 'sigbad', 'sigbad', 'key', 'keybad', 'range', 'pack', 'misc', 'kat']


def cases(seed):
    r = random.Random(seed)
    while True:
        f = r.choice(FNS)
        c = dict(f=f, off=r.choice([0, 1, 43, 63, 64, r.randrange(200)]))
        if f in ('sig', 'sigbad', 'kat'):
            b = C.comp_encode(sig_coefs(r))
            tail = r.choice([0, 0, 1, 31, 625 - len(b), 626 - len(b), 700 - len(b)])
            if f == 'sig':
                c['data'] = b + r.choice([bytes, r.randbytes])(max(0, tail))
            elif f == 'kat':
                c['mlen'] = r.choice([0, 1, 33, r.randrange(120)])
                c['pk'] = C.fixed_encode([r.randrange(Q) for _ in range(512)], 14, lambda v: True, lambda v: v)
                c['hp'], c['hs'] = r.choice([9, 9, 9, r.randrange(256)]), r.choice([0x29, 0x29, 0x29, r.randrange(256)])
                c['salt'], c['msg'], c['slen'], c['data'] = r.randbytes(40), r.randbytes(c['mlen']), r.randrange(65536), b
            else:
                k = r.randrange(6)
                if k == 0:
                    b = b[:r.choice([len(b) - 1, len(b) - 1, r.randrange(len(b))])]
                elif k == 1:        # padding
                    b = b[:-1] + bytes([b[-1] ^ (1 << r.randrange(8))])
                elif k == 2:        # one bit
                    i = r.randrange(8 * len(b))
                    b = bytes(x ^ (128 >> (i & 7) if i // 8 == j else 0) for j, x in enumerate(b))
                elif k == 3:        # minus zero
                    bits = []
                    x = sig_coefs(r)
                    m = r.choice([0, 511, r.randrange(512)])
                    for i, v in enumerate(x):
                        a = 0 if i == m else abs(v)
                        bits += [1 if v < 0 or i == m else 0] + C.bits_of(a & 127, 7) + [0] * (a >> 7) + [1]
                    b = C.pack(bits)
                elif k == 4:        # too large
                    bits = []
                    x = sig_coefs(r)
                    m = r.choice([0, 511, r.randrange(512)])
                    for i, v in enumerate(x):
                        a = r.choice([2048, 2049, 2175, 4000]) if i == m else abs(v)
                        bits += [1 if v < 0 else 0] + C.bits_of(a & 127, 7) + [0] * (a >> 7) + [1]
                    b = C.pack(bits)
                else:
                    b = r.randbytes(r.randrange(700))
                c['data'] = b
        elif f in ('key', 'keybad'):
            x = [r.choice([0, Q - 1, r.randrange(Q)]) for _ in range(512)]
            if f == 'keybad':
                x[r.choice([0, 511, r.randrange(512)])] = r.choice([Q, 16383, r.randrange(Q, 16384)])
            c['data'] = C.fixed_encode(x, 14, lambda v: True, lambda v: v) + r.randbytes(r.choice([0, 0, 1, 40]))
            c['cut'] = r.random() < .1
        elif f == 'range':
            n = r.choice([0, 1, 31, 32, 512, r.randrange(600)])
            x = [r.choice([0, Q - 1, r.randrange(Q)]) for _ in range(n)]
            c['compact'] = r.random() < .6
            if not c['compact']:
                x = (x + [0] * 512)[:512]
            if x and r.random() < .7:
                x[r.choice([0, len(x) - 1, r.randrange(len(x))])] = r.choice([Q, Q + 1, 65535, r.randrange(Q, 65536)] + ([2**256 - 1, 2**255, 2**128] if c['compact'] else []))
            c['x'] = x
        else:
            c['x'] = [r.choice([0, 65535, r.randrange(65536), r.randrange(65536)]) for _ in range(512)]
            c['w'] = [r.choice([0, 2**256 - 1, r.getrandbits(256)]) for _ in range(512)]
            c['salt'] = r.randbytes(40)
        yield c


def be(ws):
    return b''.join(w.to_bytes(32, 'big') for w in ws)


def test(c):
    f = c['f']
    if f in ('sig', 'sigbad'):
        buf = b'\xa5' * c['off'] + c['data']
        want = C.comp_decode(c['data'], 512)
        if want is not None and want[1] >= 666:
            want = None
        s = Sol('ZKNOX_falcon_encodings')
        try:
            got = s.arr(s.call('_decompress_sig', buf, c['off']))
        except Reverted:
            return 'a valid code is turned away' if want is not None else None
        if want is None:
            return 'accepts what is no code of a vector'
        if got != [v % Q for v in want[0]]:
            return 'decodes to another vector'
    elif f == 'kat':
        pk = bytes([c['hp']]) + c['pk']
        sm = c['slen'].to_bytes(2, 'big') + c['salt'] + c['msg'] + bytes([c['hs']]) + c['data']
        want = C.comp_decode(c['data'], 512)
        s = Sol('ZKNOX_falcon_encodings')
        ok = c['hp'] == 9 and c['hs'] == 0x29
        try:
            h, s2, salt, msg = s.call('decompress_KAT', pk, sm, c['mlen'])
        except Reverted:
            return 'a well-formed vector is turned away' if ok else None
        if not ok:
            return 'a wrong header is accepted'
        if s.arr(h) != C.fixed_decode(c['pk'], 512, 14, lambda w: w < Q, lambda w: w) or s.arr(s2) != [v % Q for v in want[0]] or s.bytes(salt) != c['salt'] or s.bytes(msg) != c['msg']:
            return 'decodes to something else'
    elif f in ('key', 'keybad'):
        d = c['data'][:895] if c['cut'] else c['data']
        buf = b'\x09' + d
        want = None if c['cut'] else C.fixed_decode(d, 512, 14, lambda w: w < Q, lambda w: w)
        s = Sol('ZKNOX_falcon_utils')
        try:
            got = s.arr(s.call('_ZKNOX_NTT_Decompress', buf, 1))
        except Reverted:
            return 'a valid key is turned away' if want is not None else None
        if got != want:
            return 'decodes to another vector' if want is not None else 'accepts an invalid key'
    elif f == 'range':
        x = c['x']
        s = Sol('ZKNOX_falcon_core')
        got = s.call('falcon_checkPolynomialRange', x if c['compact'] else words(x), c['compact'])
        if bool(got) != all(v < Q for v in x):
            return 'falcon_checkPolynomialRange answers %s' % got
    elif f == 'pack':
        x = c['x']
        for fl, cn, pre in (('ZKNOX_falcon_utils', None, '_'), ('ZKNOX_NTT', 'ZKNOX_NTT', '')):
            s = Sol(fl, cn, [1, 2, Q, 12265] if cn else ())
            if s.arr(s.call(pre + 'ZKNOX_NTT_Compact', x)) != words(x):
                return pre + 'ZKNOX_NTT_Compact is wrong'
            if s.arr(s.call(pre + 'ZKNOX_NTT_Expand', words(x))) != x:
                return pre + 'ZKNOX_NTT_Expand is wrong'
        s = Sol('ZKNOX_falcon_deploy')
        if be(s.arr(s.call('_Compact', x))) != b''.join(v.to_bytes(2, 'big') for v in x):
            return '_Compact is wrong'
    else:
        w = c['w']
        s = Sol('ZKNOX_falcon_utils')
        if s.arr(s.call('Swap', w)) != w[::-1]:
            return 'Swap is wrong'
        s = Sol('ZKNOX_common')

        def fixed():
            p = s.ex.alloc('src', 1024)
            for i in range(32):
                p.cells[32 * i] = w[i]
            return Ptr(p, 0)
        if s.arr(s.call('ZKNOX_memcpy32', fixed())) != w[:32]:
            return 'ZKNOX_memcpy32 is wrong'
        if s.bytes(s.call('_packUint256Array', fixed())) != be(w[:32]):
            return '_packUint256Array is wrong'
        if s.bytes(s.call('_packSignature', c['salt'], fixed())) != c['salt'] + be(w[:32]):
            return '_packSignature is wrong'


worker(cases, test)
