"""SecretKey.sign and the constructors against their definition.  The sampler is replaced by one that returns chosen vectors:
with f = 1, F = 0, G = q every short pair (s0, s1) is reachable, g being (hash - s0) / s1."""
import hashlib
import os
import random

import pyhunt
import falcon
import falcon_recovery
import falcon_epervier
from falcon import SecretKey, PublicKey
from falcon_recovery import RecoveryModePublicKey, RecoveryModeSecretKey
from falcon_epervier import EpervierPublicKey, EpervierSecretKey
from keccak_prng import KeccakPRNG
from blake2s_prng import Blake2sPRNG
from shake import SHAKE
from fft import fft
from polyntt.poly import Poly

Q = 12289
spec = pyhunt.oracle('keccak')
chacha = pyhunt.oracle('chacha')
BOUND = dict(zip([2 << i for i in range(10)], [101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242]))
SIZE = dict(zip([2 << i for i in range(10)], [44, 47, 52, 63, 82, 122, 200, 356, 666, 1280]))
XOF = dict(keccak=KeccakPRNG, blake2s=Blake2sPRNG, shake=SHAKE)
SK = dict(falcon=SecretKey, recovery=RecoveryModeSecretKey, epervier=EpervierSecretKey)
real_sampler = falcon.ffsampling_fft


class Rejected(Exception):
    pass


def stream(kind, salt, msg):
    if kind == 'shake':
        return spec.shake_stream(salt + msg)
    h = spec.keccak256 if kind == 'keccak' else lambda b: hashlib.blake2s(b).digest()
    data = (h(salt) if kind == 'blake2s' else salt) + msg

    def go():
        s, i = h(data), 0
        while True:
            yield from h(s + i.to_bytes(8, 'big'))
            i += 1
    return go()


def mul(a, b):
    n = len(a)
    r = [0] * n
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            if i + j < n:
                r[i + j] += x * y
            else:
                r[i + j - n] -= x * y
    return r


def code(c):
    a = abs(c)
    return [int(c < 0)] + [(a >> (6 - i)) & 1 for i in range(7)] + [0] * (a // 128) + [1]


def enc(v, size):
    bits = [b for c in v for b in code(c)]
    if len(bits) > 8 * size:
        return None
    bits += [0] * (8 * size - len(bits))
    return bytes(int(''.join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8))


def vectors(r, n, bound, size, both):
    m = r.randrange(6)
    s = (bound / (2 * n)) ** .5
    v = [max(-6000, min(6000, int(r.gauss(0, s * r.choice([.3, .5, .8, .97]))))) for _ in range(2 * n)]
    if m < 4:
        t = bound + r.choice([0, 0, 1, 1, -1, 2])
        while sum(x * x for x in v) > t:
            i = r.randrange(2 * n)
            v[i] = v[i] // 2 if v[i] > 0 else -(-v[i] // 2)
        for _ in range(60):
            d = t - sum(x * x for x in v)
            if d <= 0:
                break
            i = r.randrange(2 * n)
            v[i] = int((v[i] ** 2 + d) ** .5) * r.choice([1, -1])
    if m == 4:
        v[:n] = [x // 2 for x in v[:n]]
    return v[:n], v[n:]


def cases(seed):
    r = random.Random(seed)
    i = 0
    while True:
        i += 1
        mode = r.choice(['falcon', 'falcon', 'recovery', 'epervier'])
        n = r.choice([2, 4, 8, 8, 16, 16, 32, 64])
        kind = r.choice(['keccak', 'keccak', 'blake2s', 'shake'])
        c = dict(mode=mode, n=n, xof=kind, msg=r.randbytes(r.choice([0, 1, 20, 100])).hex(), seed=r.randrange(1 << 30))
        k = i % 12
        if k == 5:
            yield dict(c, what='real', n=r.choice([8, 16, 32]), system=r.random() < .5)
            continue
        s0, s1 = vectors(r, n, BOUND[n], SIZE[n], mode != 'falcon')
        if k == 7:
            # a vector with a zero value
            w = Poly([0, 1] + [0] * (n - 2), Q).ntt()[r.randrange(n)]
            lim = int((BOUND[n] / (2 * n)) ** .5)
            for _ in range(3000):
                x = [r.randrange(-lim // 2, lim // 2) for _ in range(n - 1)]
                y = (-sum(v * pow(w, j + 1, Q) for j, v in enumerate(x)) + Q // 2) % Q - Q // 2
                if abs(y) <= lim:
                    s1 = [y] + x
                    break
            s0 = [v // 3 for v in s0]
        yield dict(c, what='chosen', s0=s0, s1=s1, system=r.random() < .25, miss=r.choice([0, 0, 1, 2]))


def source(seed, log):
    r = random.Random(seed)

    def randombytes(k):
        b = r.randbytes(k)
        log.append((k, b))
        return b
    return randombytes


def address(words):
    return int.from_bytes(spec.keccak256(b''.join(x.to_bytes(32, 'big') for x in words))[12:], 'big')


def check_key(sk, mode, f, g):
    h = (Poly(g, Q) / Poly(f, Q)).coeffs
    h = [x % Q for x in h]
    if [x % Q for x in mul(f, h)] != [x % Q for x in g]:
        return h, 'oracle'
    if [x % Q for x in sk.h] != h:
        return h, 'public key is not g / f'
    if mode == 'recovery' and sk.pk != address(h):
        return h, 'address is not that of h'
    if mode == 'epervier' and sk.pk != address(Poly(h, Q).ntt()):
        return h, 'address is not that of h in NTT form'
    return h, None


def check_sig(c, sig, h, salt, hashed, s=None):
    """the signature is well formed, and valid for h"""
    n, mode = c['n'], c['mode']
    two = mode != 'falcon'
    size = (2 if two else 1) * SIZE[n] - 41
    if len(sig) != 41 + size + (3 * n if two else 0):
        return 'length of the signature'
    lg = n.bit_length() - 1
    if sig[0] != (0x30 if two else 0x20) + lg:
        return 'header %#x' % sig[0]
    if salt is not None and sig[1:41] != salt:
        return 'salt is not the first 40 bytes of the source'
    if s is not None:
        if sig[41:41 + size] != enc(s[0] + s[1] if two else s[1], size):
            return 'code is not that of the sampled vector'
    if two:
        w = [int.from_bytes(sig[41 + size + 3 * i:44 + size + 3 * i], 'big') for i in range(n)]
        if s is not None and w != Poly(s[1], Q).inverse().ntt():
            return 'hint is not the inverse of s1'
        pk = address(h if mode == 'recovery' else Poly(h, Q).ntt())
        cls = RecoveryModePublicKey if mode == 'recovery' else EpervierPublicKey
        if cls(n, pk).verify(bytes.fromhex(c['msg']), sig, xof=XOF[c['xof']]) is not True:
            return 'the signature is not accepted'
    elif PublicKey(n, h).verify(bytes.fromhex(c['msg']), sig, xof=XOF[c['xof']]) is not True:
        return 'the signature is not accepted'
    return None


def test(c):
    n, mode, kind, msg = c['n'], c['mode'], c['xof'], bytes.fromhex(c['msg'])
    two = mode != 'falcon'
    if c['what'] == 'real':
        falcon.ffsampling_fft = real_sampler
        sk = SK[mode](n)
        f, g, F, G = sk.f, sk.g, sk.F, sk.G
        if [a - b for a, b in zip(mul(f, G), mul(g, F))] != [Q] + [0] * (n - 1):
            return 'f G - g F is not q'
        h, e = check_key(sk, mode, f, g)
        if e:
            return e
        log = []
        sig = sk.sign(msg, xof=XOF[kind]) if c['system'] else sk.sign(msg, randombytes=source(c['seed'], log), xof=XOF[kind])
        return check_sig(c, sig, h, None if c['system'] else log[0][1], None)
    log = []
    rb = source(c['seed'], log)
    salt = random.Random(c['seed']).randbytes(40)
    if c['system']:
        salt = None
    s0, s1 = c['s0'], c['s1']
    size = (2 if two else 1) * SIZE[n] - 41
    inv = all(Poly(s1, Q).ntt())
    r = random.Random(c['seed'] + 1)
    if inv and salt is not None:
        hashed = spec.hash_to_point(stream(kind, salt, msg), n)
        g = (Poly([(a - b) % Q for a, b in zip(hashed, s0)], Q) * Poly(s1, Q).inverse()).coeffs
        forced = False
    else:
        g = [r.randrange(Q) for _ in range(n)]
        hashed = [(a + b) % Q for a, b in zip(s0, mul(s1, g))]
        forced = True
    g = [x % Q for x in g]
    f, F, G = [1] + [0] * (n - 1), [0] * n, [Q] + [0] * (n - 1)
    z1 = [(a - b - d) // Q for a, b, d in zip(hashed, s0, mul(s1, g))]
    seen = []
    fail = []

    def sampler(t, T, sigmin, randombytes):
        k = len(seen)
        seen.append(randombytes)
        if sigmin != falcon.Params[n]['sigmin']:
            fail.append('sigmin')
        t0, t1 = t
        gf = fft(g)
        for i in range(n):
            # t B = (hash, 0), B = ((g, -1), (q, 0))
            if abs(t0[i]) > 1e-6 * (1 + abs(t1[i])) + 1e-6 and abs(t0[i] * -1) > 1e-3:
                fail.append('target')
                break
        hf = fft(hashed)
        if any(abs(t0[i] * gf[i] + t1[i] * Q - hf[i]) > 1e-3 * (1 + abs(hf[i])) for i in range(n)):
            fail.append('target')
        if not c['system']:
            if mode == 'falcon':
                seed = log[1][1] if len(log) > 1 else b''
                want = chacha.Gen(hashlib.shake_256(seed).digest(56 * (k + 1))[56 * k:])
                exp = want.read(9) + want.read(1) + want.read(40)
            else:
                seed = log[1 + k][1] if len(log) > 1 + k else b''
                exp = hashlib.shake_256(seed).digest(50)
            if randombytes(9) + randombytes(1) + randombytes(40) != exp:
                fail.append('randomness of attempt %d' % (k + 1))
        elif randombytes is not os.urandom:
            fail.append('randomness is not that of the system')
        if k == c['miss']:
            return [fft(s1), fft(z1)]
        if k > c['miss']:
            raise Rejected()
        # a far vector
        return [fft([9 * Q] * n), fft([1] * n)]
    mods = (falcon, falcon_recovery, falcon_epervier)
    real_hash = falcon.hash_to_point
    falcon.ffsampling_fft = sampler
    try:
        if forced:
            for m in mods:
                m.hash_to_point = lambda *a, **k: list(hashed)
        sk = SK[mode](n, [f, g, F, G])
        h, e = check_key(sk, mode, f, g)
        if e:
            return e
        try:
            sig = sk.sign(msg, xof=XOF[kind]) if c['system'] else sk.sign(msg, randombytes=rb, xof=XOF[kind])
        except Rejected:
            sig = None
    finally:
        for m in mods:
            m.hash_to_point = real_hash
        falcon.ffsampling_fft = real_sampler
    if fail:
        return 'the sampler is called wrongly: ' + fail[0]
    if not c['system'] and [k for k, _ in log] != [40] + [48] * (len(seen) if two else 1):
        return 'requests to the source: %r' % [k for k, _ in log]
    norm = sum(x * x for x in s0 + s1)
    e = enc(s0 + s1 if two else s1, size)
    ok = norm <= BOUND[n] and e is not None and (inv or not two)
    if sig is None:
        return 'a valid vector is rejected' if ok else None
    if not ok:
        return 'a vector of squared norm %d (bound %d), code %s, is accepted' % (norm, BOUND[n], 'fitting' if e else 'too long')
    if forced:
        # the hash was chosen: only the frame is checked
        return None if sig[41:41 + size] == e and (salt is None or sig[1:41] == salt) else 'code is not that of the sampled vector'
    return check_sig(c, sig, h, salt, hashed, (s0, s1))


pyhunt.worker(cases, test)
