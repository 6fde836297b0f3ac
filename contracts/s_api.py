"""Concrete search for violations of the signed-message layer: self-made keys for chosen short vectors, mutated frames."""
import ctypes
import itertools
import math
import random
import codec
import csrc
import keccak
import native
import ring
from native import Guard, i16, u16, un16

P = 'falcon_inner_'
Q = 12289
BOUND = ring.BOUNDS[9]
RAND = r'''
static unsigned char vx_tape[4096]; static unsigned vx_pos, vx_len; unsigned vx_asked;
void vx_set(const unsigned char *b, unsigned n) { __builtin_memcpy(vx_tape, b, n); vx_pos = 0; vx_len = n; vx_asked = 0; }
unsigned vx_get(void) { return vx_asked; }
int randombytes(unsigned char *x, unsigned long long n) { vx_asked += n; while (n--) { *x++ = vx_pos < vx_len ? vx_tape[vx_pos++] : 0; } return 0; }
'''
KINDS = {'falcon': 'crypto_sign_open', 'falcon_eth': 'crypto_sign_open', 'zknox': 'zknox_crypto_sign_open',
         'zknox_eth': 'zknox_crypto_sign_open', 'epervier': 'zknox_crypto_sign_open_epervier'}


def libs():
    files = csrc.CORE + ['nist.c', 'nist16.c', 'epervier16.c']
    return {0: ctypes.CDLL(csrc.shared(files, name='api0', wrap={'nist.c': RAND}, extra=('-O2',))),
            1: ctypes.CDLL(csrc.shared(files, name='api1', defines=('ETHFALCON=1',), wrap={'nist.c': RAND}, extra=('-O2',)))}


def hash_point(kind, data):
    s = keccak.keccak_stream(data) if kind.endswith('_eth') else keccak.shake_stream(data)
    return keccak.hash_to_point(s, 512)


def four_squares(rng, d):
    """d as a sum of four squares"""
    while True:
        a = rng.randrange(math.isqrt(d) + 1) if rng.random() < .5 else math.isqrt(d)
        r = d - a * a
        b = rng.randrange(math.isqrt(r) + 1)
        r -= b * b
        for c in range(math.isqrt(r), -1, -1):
            e = math.isqrt(r - c * c)
            if e * e == r - c * c:
                return [a, b, c, e]


def short_pair(rng, target=None, cap2=2047):
    while True:
        sg = 150 if target else rng.choice([20, 100, 165, 165, 178, 182])
        s1 = [round(rng.gauss(0, sg)) for _ in range(512)]
        s2 = [max(-cap2, min(cap2, round(rng.gauss(0, sg)))) for _ in range(512)]
        k = rng.randrange(4)
        if k == 0:
            s2[rng.randrange(512)] = rng.choice([-2047, 2047, -1024, 1920])
        if target:
            idx = rng.sample(range(512), 4)
            for i in idx:
                s1[i] = 0
            d = target - sum(x * x for x in s1 + s2)
            if d < 0:
                continue
            for i, v in zip(idx, four_squares(rng, d)):
                s1[i] = rng.choice([-v, v])
            if max(map(abs, s1)) > 6144:
                continue
        return s1, s2


def pk_bytes(L, kind, h):
    if kind.startswith('falcon'):
        return bytes([9]) + codec.pack([b for v in h for b in codec.bits_of(v, 14)])
    g = Guard(1024, u16(h), align=2)
    getattr(L, P + 'to_ntt')(g.ptr(), 9)
    w = un16(g.bytes())
    g.free()
    return bytes([9]) + b''.join(x.to_bytes(2, 'big') for x in w)


def sig_body(kind, s1, s2, hint=0):
    w = lambda s: b''.join((x % Q).to_bytes(2, 'big') for x in s)
    if kind.startswith('falcon'):
        return b'\x29' + codec.comp_encode(s2)
    if kind.startswith('zknox'):
        return b'\x29' + w(s2)
    return b'\x29' + w(s1) + b'\x29' + w(s2) + hint.to_bytes(2, 'big')


def frame(body, nonce, msg, siglen=None):
    return (len(body) if siglen is None else siglen).to_bytes(2, 'big') + nonce + msg + body


def words16(b, lim=Q):
    if len(b) < 1024:
        return None
    w = [int.from_bytes(b[2 * i:2 * i + 2], 'big') for i in range(512)]
    return None if max(w) >= Q else [ring.center(x) for x in w]


def expected(kind, sm, h):
    """the message when sm must be accepted under the valid key h, else None"""
    if len(sm) < 42:
        return None
    sl = sm[0] << 8 | sm[1]
    if sl < 1 or sl > len(sm) - 42:
        return None
    cut = len(sm) - sl
    body, data = sm[cut:], sm[2:cut]
    if body[0] != 0x29 or (kind.endswith('_eth') and len(data) > 4096):
        return None
    if kind == 'epervier':
        if sl != 2052 or body[1025] != 0x29:
            return None
        s1, s2 = words16(body[1:1025]), words16(body[1026:2050])
        if s1 is None or s2 is None or 0 in ring.evals(s2, 9):
            return None
        if sum(x * x for x in s1 + s2) > BOUND:
            return None
        c0 = hash_point(kind, data)
        t = ring.mul(s2, h)
        return data[40:] if all((a + b - c) % Q == 0 for a, b, c in zip(s1, t, c0)) else None
    if kind.startswith('zknox'):
        s2 = words16(body[1:]) if sl == 1025 else None
    else:
        r = codec.comp_decode(body[1:], 512)
        s2 = r[0] if r is not None and r[1] == sl - 1 else None
    if s2 is None:
        return None
    c0 = hash_point(kind, data)
    s1 = [ring.center(a - b) for a, b in zip(c0, ring.mul(s2, h))]
    return data[40:] if sum(x * x for x in s1 + s2) <= BOUND else None


MUTS = ['none', 'flip', 'flipsig', 'fliphead', 'trunc', 'extend', 'pad', 'siglen', 'empty', 'eshead', 'pkhead', 'pkrange', 'pkword', 'tiny', 'minuszero', 'shift', 'hint', 'noncanon']


def open_cases(seed, want=None):
    rng = random.Random(seed)
    for i in itertools.count():
        kind = rng.choice(want or list(KINDS))
        mut = MUTS[i % len(MUTS)] if rng.random() < .8 else 'none'
        ml = rng.choice([0, 1, 33, 94, 95, 96, 97, rng.randrange(300), rng.choice([4055, 4056, 4057, 4096])])
        if not kind.endswith('_eth') and rng.random() < .04:
            ml = rng.choice([65493, 65494, 65535, 65536, 65578, 66000, 131072])
        target = rng.choice([None, BOUND, BOUND + 1, BOUND + 4]) if mut == 'none' else None
        yield dict(kind=kind, mut=mut, seed=rng.randrange(1 << 40), mlen=ml, target=target)


def build(L, c):
    """-> (h, list of (pk, sm) to open one after another)"""
    rng = random.Random(c['seed'])
    kind = c['kind']
    nonce, msg = rng.randbytes(40), rng.randbytes(c['mlen'])
    hm = hash_point(kind, nonce + msg)
    while True:
        s1, s2 = short_pair(rng, c['target'])
        inv = ring.inverse(s2, 9)
        if inv is not None:
            break
    h = ring.mul([(a - b) % Q for a, b in zip(hm, s1)], inv)
    pk = pk_bytes(L, kind, h)
    body = sig_body(kind, s1, s2, rng.randrange(Q))
    sm = bytearray(frame(body, nonce, msg))
    good = (pk, bytes(sm))
    m = c['mut']
    seq = [good]
    if m == 'none':
        return h, seq
    bad = None
    if m == 'flip':
        bad = sm
        bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
    elif m == 'flipsig':
        bad = sm
        bad[len(bad) - 1 - rng.randrange(len(body))] ^= 1 << rng.randrange(8)
    elif m == 'fliphead':
        bad = sm
        bad[rng.randrange(min(43, len(bad)))] ^= 1 << rng.randrange(8)
    elif m == 'trunc':
        bad = sm[:len(sm) - rng.choice([1, 2, 3, len(body)])]
    elif m == 'extend':
        bad = sm + bytes(rng.choice([1, 2, 5]))
    elif m == 'pad':
        bad = frame(body + bytes(rng.choice([1, 2, 9])), nonce, msg)
    elif m == 'siglen':
        v = rng.choice([0, 1, 2, len(body) - 1, len(body) + 1, len(body) + len(msg), len(sm), len(sm) - 42, len(sm) - 41, 65535])
        bad = frame(body, nonce, msg, v & 65535)
    elif m == 'empty':
        bad = frame(body[:rng.choice([0, 1, 1, 1, 2])], nonce, msg)
    elif m == 'eshead':
        b = bytearray(body)
        j = 1025 if kind == 'epervier' and rng.random() < .6 else 0
        b[j] = rng.choice([x for x in range(256) if x != 0x29])
        bad = frame(bytes(b), nonce, msg)
    elif m == 'pkhead':
        p = bytearray(pk)
        p[0] = rng.choice([0, 8, 10, 0x19, 0x29, 255])
        return h, [good, (bytes(p), bytes(sm))]
    elif m == 'pkrange':
        if kind.startswith('falcon'):
            ok = [i for i, v in enumerate(h) if v + Q < 16384]
            bits = codec.unpack(pk[1:])
            if ok:
                i = rng.choice(ok)
                bits[14 * i:14 * i + 14] = codec.bits_of(h[i] + Q, 14)
            p = b'\x09' + codec.pack(bits)
        else:
            p = bytearray(pk)
            i = rng.randrange(512)
            w = int.from_bytes(p[1 + 2 * i:3 + 2 * i], 'big')
            p[1 + 2 * i:3 + 2 * i] = (w + Q * rng.randrange(1, 4 + (w < 65536 - 5 * Q + Q))).to_bytes(3, 'big')[-2:]
            p = bytes(p)
        return h, [good, (p, bytes(sm))]
    elif m == 'pkword':         # another well-formed key, different in one coefficient of its encoding
        i = rng.choice([0, 511, rng.randrange(512)])
        if kind.startswith('falcon'):
            bits = codec.unpack(pk[1:])
            bits[14 * i:14 * i + 14] = codec.bits_of((h[i] + rng.randrange(1, Q)) % Q, 14)
            p = b'\x09' + codec.pack(bits)
        else:
            p = bytearray(pk)
            p[1 + 2 * i:3 + 2 * i] = ((int.from_bytes(p[1 + 2 * i:3 + 2 * i], 'big') + rng.randrange(1, Q)) % Q).to_bytes(2, 'big')
        return h, [good, (bytes(p), bytes(sm))]
    elif m == 'tiny':
        bad = sm[:rng.choice([0, 1, 2, 40, 41, 42, 43])]
    elif m == 'minuszero':
        if kind.startswith('falcon'):
            s2b = list(s2)
            j = rng.randrange(512)
            if 0 in s2:
                j = s2.index(0)
            bits = []
            for k, v in enumerate(s2):
                a = abs(v)
                bits += [1 if v < 0 or (k == j and v == 0) else 0] + codec.bits_of(a & 127, 7) + [0] * (a >> 7) + [1]
            bad = frame(b'\x29' + codec.pack(bits), nonce, msg)
        else:
            bad = sm
    elif m == 'shift':          # move the boundary between message and signature
        k = rng.choice([1, 2, 3])
        bad = frame(body, nonce, msg, max(0, len(body) + rng.choice([-k, k])))
    elif m == 'hint':
        bad = sm
        bad[-1] ^= 1
    elif m == 'noncanon':
        if kind.startswith('falcon'):
            b = bytearray(body)
            b[-1] |= 1
            bad = frame(bytes(b), nonce, msg)
        else:
            b = bytearray(body)
            i = rng.randrange(512)
            j = 1 + 2 * i + (1025 if kind == 'epervier' and rng.random() < .5 else 0)
            w = int.from_bytes(b[j:j + 2], 'big')
            b[j:j + 2] = (w + Q).to_bytes(2, 'big')
            bad = frame(bytes(b), nonce, msg)
    return h, [good, (pk, bytes(bad))]


def open_test(libs):
    def test(c):
        kind = c['kind']
        L = libs[kind.endswith('_eth')]
        h, seq = build(L, c)
        f = getattr(L, KINDS[kind])
        pk0 = seq[0][0]
        res = []
        args = []
        for pk, sm in seq:
            want = expected(kind, sm, h) if pk == pk0 else None
            sl = (sm[0] << 8 | sm[1]) if len(sm) >= 2 else 0
            ml = len(sm) - 42 - sl if len(sm) >= 42 and sl <= len(sm) - 42 else 0
            gm, gl, gs, gp = Guard(ml), Guard(8, b'\xEE' * 8, align=8), Guard(len(sm), sm, front=c['mut'] in ('tiny', 'siglen', 'trunc')), Guard(len(pk), pk)
            args.append((pk, sm, want, gm, gl, gs, gp, gm.bytes(), ctypes.c_ulonglong(len(sm))))
        for a in args:              # back to back, so that stale stack contents of one call are seen by the next
            res.append(f(a[3].ptr(), a[4].ptr(), a[5].ptr(), a[8], a[6].ptr()))
        bad = None
        for (pk, sm, want, gm, gl, gs, gp, m0, _), r in zip(args, res):
            which = 'genuine' if sm == seq[0][1] and pk == pk0 else c['mut']
            mlen = int.from_bytes(gl.bytes(), 'little')
            if not all(x.ok() for x in (gm, gl, gs, gp)) or gs.bytes() != sm or gp.bytes() != pk:
                bad = 'write outside the message buffer (%s input)' % which
            elif want is None and r == 0:
                bad = '%s accepts a signed message it must reject (%s; length %d, signature length field %d)' % (KINDS[kind], which, len(sm), sm[0] << 8 | sm[1] if len(sm) > 1 else -1)
            elif want is None and (gl.bytes() != b'\xEE' * 8 or gm.bytes() != m0):
                bad = '%s writes output on rejection (%s)' % (KINDS[kind], which)
            elif want is not None and r != 0:
                bad = '%s rejects a valid signed message (%s; length %d)' % (KINDS[kind], which, len(sm))
            elif want is not None and (mlen != len(want) or gm.bytes() != want):
                bad = '%s returns the wrong message (%s)' % (KINDS[kind], which)
            if bad:
                bad += '; pk=' + pk.hex() + '; sm=' + sm.hex()
                break
        for a in args:
            for x in a[3:7]:
                x.free()
        return bad
    return test


def search_open(failed, seed, budget):
    return native.run_cases(open_cases(seed), open_test(libs()), budget)


# ------------------------------------------------------------------ key pairs and signing
def dec8(b, bits):
    r = codec.fixed_decode(b, 512, bits, lambda w: w != 1 << (bits - 1), lambda w: w - (w >> (bits - 1) << bits))
    return r


def negmul(a, b):
    """product modulo X^512 + 1 over the integers"""
    import numpy as np
    a, b = np.array(a, dtype=np.int64), np.array(b, dtype=np.int64)
    full = np.convolve(a, b)
    full = np.concatenate([full, np.zeros(1024 - len(full), dtype=np.int64)])
    return (full[:512] - full[512:]).tolist()


def key_problem(L, pk, sk, wide):
    """what is wrong with a key pair (None: nothing)"""
    if sk[0] != 0x59 or pk[0] != 9:
        return 'header bytes %02x %02x' % (sk[0], pk[0])
    f, g, F = dec8(sk[1:385], 6), dec8(sk[385:769], 6), dec8(sk[769:], 8)
    if None in (f, g, F):
        return 'private key does not decode'
    if wide:
        w = words16(pk[1:])
        if w is None:
            return 'public key does not decode'
        w = [x % Q for x in w]
    else:
        w = codec.fixed_decode(pk[1:], 512, 14, lambda v: v < Q, lambda v: v)
        if w is None:
            return 'public key does not decode'
    fi = ring.inverse(f, 9)
    if fi is None:
        return 'f is not invertible'
    h = ring.mul(g, fi)
    if wide:
        x = Guard(1024, u16(h), align=2)
        getattr(L, P + 'to_ntt')(x.ptr(), 9)
        ww = un16(x.bytes())
        x.free()
    else:
        ww = h
    if ww != w:
        return 'public key is not g/f'
    G = [ring.center(x) for x in ring.mul(ring.mul(g, F), fi)]
    e = [a - b for a, b in zip(negmul(f, G), negmul(g, F))]
    if e != [Q] + [0] * 511:
        return 'f G - g F is not q'


def keypair(L, wide, tape=None, seed=None):
    pk, sk = Guard(1025 if wide else 897), Guard(1281)
    name = ('zknox_' if wide else '') + 'crypto_sign_keypair'
    if seed is None:
        L.vx_set(tape, len(tape))
        r = getattr(L, name)(pk.ptr(), sk.ptr())
    else:
        s = Guard(len(seed), seed)
        r = getattr(L, name + '_from_seed')(pk.ptr(), sk.ptr(), s.ptr(), ctypes.c_size_t(len(seed)))
        s.free()
    ok = pk.ok() and sk.ok()
    out = pk.bytes(), sk.bytes()
    pk.free()
    sk.free()
    return r, ok, out


def key_cases(seed):
    rng = random.Random(seed)
    while True:
        yield dict(f='pair', wide=rng.random() < .5, tape=rng.randbytes(48))
        yield dict(f='seed', wide=rng.random() < .5, seed=rng.randbytes(rng.choice([0, 31, 32, 33, 48, 64, 136, 200])))
        yield dict(f='pk_ep', tape=rng.randbytes(48), mut=rng.randrange(4), i=rng.randrange(512), w=rng.choice([Q, Q - 1, Q + 1, 65535, 0]))


def key_test(libs):
    def test(c):
        L = libs[0]
        if c['f'] == 'pk_ep':
            r, ok, (pk, sk) = keypair(L, True, tape=c['tape'])
            p = bytearray(pk)
            want = 0
            if c['mut'] == 1:
                p[0] ^= 0x10
                want = -1
            if c['mut'] >= 2:
                p[1 + 2 * c['i']:3 + 2 * c['i']] = c['w'].to_bytes(2, 'big')
                want = 0 if c['w'] < Q else -1
            g = Guard(1025, bytes(p))
            r = L.zknox_pk_epervier(g.ptr())
            out, ok = g.bytes(), g.ok()
            g.free()
            if not ok:
                return 'zknox_pk_epervier writes outside the key'
            if r != want:
                return 'zknox_pk_epervier returns %d, expected %d' % (r, want)
            return None if out == bytes(p) else 'zknox_pk_epervier changes the key'
        if c['f'] == 'pair':
            r, ok, (pk, sk) = keypair(L, c['wide'], tape=c['tape'])
            if r == 0 and L.vx_get() != 48:
                return 'key generation draws %d random bytes' % L.vx_get()
            r2, ok2, k2 = keypair(L, c['wide'], seed=c['tape'])
            if r == 0 and (pk, sk) != k2:
                return 'key pair from random bytes differs from the one from the same seed'
        else:
            r, ok, (pk, sk) = keypair(L, c['wide'], seed=c['seed'])
            if len(c['seed']) < 32:
                return None if r != 0 else 'seed of %d bytes accepted' % len(c['seed'])
            s2 = bytearray(c['seed'])
            s2[-1] ^= 1
            if keypair(L, c['wide'], seed=bytes(s2))[2] == (pk, sk):
                return 'last seed byte has no influence'
        if not ok:
            return 'write outside the key buffers'
        if r != 0:
            return 'key generation fails (%d)' % r
        return key_problem(L, pk, sk, c['wide'])
    return test


def search_key(failed, seed, budget):
    return native.run_cases(key_cases(seed), key_test(libs()), budget)


SIGNERS = {'falcon': 'crypto_sign', 'falcon_eth': 'crypto_sign', 'zknox': 'zknox_crypto_sign', 'zknox_eth': 'zknox_crypto_sign', 'epervier': 'zknox_crypto_sign_epervier'}
SIZE = {'falcon': 690, 'falcon_eth': 690, 'zknox': 1067, 'zknox_eth': 1067, 'epervier': 2094}


def sign_cases(seed):
    rng = random.Random(seed)
    keys = [rng.randbytes(48) for _ in range(6)]
    while True:
        mut = rng.choice(['none'] * 5 + ['head', 'part', 'noinv'])
        kind = rng.choice(list(KINDS))
        ml = rng.choice([0, 1, 33, 94, 95, 96, 97, 300, 4055, 4056, 4057, 4200])
        if not kind.endswith('_eth') and rng.random() < .06:
            ml = rng.choice([65493, 65494, 65535, 65536, 65578, 66000, 131072])
        yield dict(kind=kind, key=rng.choice(keys), tape=rng.randbytes(88), mut=mut, where=rng.randrange(3), i=rng.randrange(512),
                   msg=rng.randbytes(ml))


def sign_test(libs):
    memo = {}

    def test(c):
        kind = c['kind']
        L = libs[kind.endswith('_eth')]
        wide = not kind.startswith('falcon')
        kk = (c['key'], wide)
        if kk not in memo:
            memo[kk] = keypair(libs[0], wide, tape=c['key'])[2]
        pk, sk = memo[kk]
        s = bytearray(sk)
        bad = False
        if c['mut'] == 'head':
            s[0] ^= 1 << c['i'] % 8
            bad = True
        elif c['mut'] == 'part':        # the forbidden most negative value in f, g or F
            off, bits = [(1, 6), (385, 6), (769, 8)][c['where']]
            ln = 64 * bits
            b = codec.unpack(bytes(s[off:off + ln]))
            b[bits * c['i']:bits * c['i'] + bits] = [1] + [0] * (bits - 1)
            s[off:off + ln] = codec.pack(b)
            bad = True
        elif c['mut'] == 'noinv':       # f = 0
            s[1:385] = bytes(384)
            bad = True
        msg = c['msg']
        if kind.endswith('_eth') and len(msg) > 4056:
            bad = True
        sm, sl, gm, gs = Guard(len(msg) + SIZE[kind]), Guard(8, b'\xEE' * 8, align=8), Guard(len(msg), msg), Guard(1281, bytes(s))
        L.vx_set(c['tape'], len(c['tape']))
        s0 = sm.bytes()
        r = getattr(L, SIGNERS[kind])(sm.ptr(), sl.ptr(), gm.ptr(), ctypes.c_ulonglong(len(msg)), gs.ptr())
        out, n, ok, slb = sm.bytes(), int.from_bytes(sl.bytes(), 'little'), all(x.ok() for x in (sm, sl, gm, gs)), sl.bytes()
        for x in (sm, sl, gm, gs):
            x.free()
        if not ok:
            return 'write outside the buffers'
        f = SIGNERS[kind]
        if bad:
            if r == 0:
                return '%s signs although the key is invalid or the message too long' % f
            return None if out == s0 and slb == b'\xEE' * 8 else '%s writes output on failure' % f
        if r != 0:
            return '%s fails for a valid key' % f
        if L.vx_get() != 88:
            return '%s draws %d random bytes' % (f, L.vx_get())
        if n > len(out) or out[n:] != s0[n:]:
            return '%s: wrong total length' % f
        z = out[:n]
        if z[2:42] != c['tape'][:40]:
            return '%s: nonce is not the first 40 random bytes' % f
        if z[42:42 + len(msg)] != msg or n != 42 + len(msg) + (z[0] << 8 | z[1]):
            return '%s: frame is not length, nonce, message, signature' % f
        if wide:
            h = None
            w = [int.from_bytes(pk[1 + 2 * i:3 + 2 * i], 'big') for i in range(512)]
            x = Guard(1024, u16([0, 1] + [0] * 510), align=2)       # the roots in the order of the transform
            getattr(libs[0], P + 'to_ntt')(x.ptr(), 9)
            rts = un16(x.bytes())
            x.free()
            order = {rt: v for rt, v in zip(rts, w)}
            r0, _ = ring.roots(9)
            h = ring.interp([order[t] for t in r0], 9)
        else:
            h = codec.fixed_decode(pk[1:], 512, 14, lambda v: v < Q, lambda v: v)
        if expected(kind, z, h) != msg:
            return '%s: the signature does not verify' % f
        if c['i'] % 4 == 0:             # every byte of the random seed matters
            t2 = bytearray(c['tape'])
            t2[40 + c['i'] // 4 % 48] ^= 1
            sm, sl, gm, gs = Guard(len(msg) + SIZE[kind]), Guard(8, align=8), Guard(len(msg), msg), Guard(1281, bytes(s))
            L.vx_set(bytes(t2), 88)
            getattr(L, f)(sm.ptr(), sl.ptr(), gm.ptr(), ctypes.c_ulonglong(len(msg)), gs.ptr())
            z2 = sm.bytes()
            for x in (sm, sl, gm, gs):
                x.free()
            if z2[:n] == z:
                return '%s: byte %d of the random seed has no influence on the signature' % (f, c['i'] // 4 % 48)
        if kind == 'epervier':
            s2 = words16(z[-1026:-2])
            p = 1
            for v in ring.evals(s2, 9):
                p = p * v % Q
            if pow(p, -1, Q) != int.from_bytes(z[-2:], 'big'):
                return '%s: wrong hint' % f
    return test


def search_sign(failed, seed, budget):
    return native.run_cases(sign_cases(seed), sign_test(libs()), budget)
