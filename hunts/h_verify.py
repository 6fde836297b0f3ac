"""PublicKey.verify and the two recovery modes against their definitions: valid signatures are made without a private key by
choosing the short vector first and computing the public key from it"""
import hashlib
import random

import pyhunt
import falcon
from falcon import PublicKey
from falcon_recovery import RecoveryModePublicKey
from falcon_epervier import EpervierPublicKey
from keccak_prng import KeccakPRNG
from blake2s_prng import Blake2sPRNG
from shake import SHAKE
from polyntt.poly import Poly

Q = 12289
spec = pyhunt.oracle('keccak')
BOUND = dict(zip([2 << i for i in range(10)], [101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242]))
SIZE = dict(zip([2 << i for i in range(10)], [44, 47, 52, 63, 82, 122, 200, 356, 666, 1280]))
XOF = dict(keccak=KeccakPRNG, blake2s=Blake2sPRNG, shake=SHAKE)


def stream(kind, salt, msg):
    if kind == 'shake':
        return spec.shake_stream(salt + msg)
    h = spec.keccak256 if kind == 'keccak' else lambda b: hashlib.blake2s(b).digest()
    data = (h(salt) if kind == 'blake2s' else salt) + msg

    def go():
        s, i = h(data), 0
        while True:
            yield from h(s + i.to_bytes(8, 'big'))
            i += 1
    return go()


def point(kind, n, salt, msg):
    return spec.hash_to_point(stream(kind, salt, msg), n)


def mul(a, b):
    n = len(a)
    r = [0] * n
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if i + j < n:
                    r[i + j] += x * y
                else:
                    r[i + j - n] -= x * y
    return [x % Q for x in r]


def center(x):
    x %= Q
    return x - Q if x > Q // 2 else x


def code(c):
    a = abs(c)
    return [int(c < 0)] + [(a >> (6 - i)) & 1 for i in range(7)] + [0] * (a // 128) + [1]


def enc(v):
    bits = [b for c in v for b in code(c)]
    bits += [0] * (-len(bits) % 8)
    return bytes(int(''.join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8))


def parse(x, n):
    bits = [(b >> (7 - i)) & 1 for b in x for i in range(8)]
    p, out = 0, []
    for _ in range(n):
        if p + 9 > len(bits):
            return None
        low = int(''.join(map(str, bits[p + 1:p + 8])), 2)
        h = 0
        while p + 8 + h < len(bits) and not bits[p + 8 + h]:
            h += 1
        if p + 8 + h >= len(bits) or (bits[p] and not low + 128 * h):
            return None
        out.append((low + 128 * h) * (-1 if bits[p] else 1))
        p += 9 + h
    return None if any(bits[p:]) else out


def vectors(r, n, bound):
    """(s0, s1) with squared norm just below, at or above the bound, or typical"""
    m = r.randrange(5)
    s = (bound / (2 * n)) ** .5
    v = [max(-Q // 2 + 2, min(Q // 2 - 2, int(r.gauss(0, s * r.choice([.5, .8, .9, .97]))))) for _ in range(2 * n)]
    if m < 3:
        # walk to the bound: four squares fill the gap
        t = bound + r.choice([0, 0, 1, 1, -1, 2, -2])
        while sum(x * x for x in v) > t:
            i = r.randrange(2 * n)
            v[i] = v[i] // 2 if v[i] > 0 else -(-v[i] // 2)
        for _ in range(60):
            d = t - sum(x * x for x in v)
            if d <= 0:
                break
            i = r.randrange(2 * n)
            a = int((v[i] ** 2 + d) ** .5)
            v[i] = r.choice([a, -a])
    elif m == 3:
        v[r.randrange(2 * n)] = r.choice([-1, 1]) * r.choice([6144, 6143, int(bound ** .5), int(bound ** .5) + 1])
    return v[:n], v[n:]


def cases(seed):
    r = random.Random(seed)
    while True:
        mode = r.choice(['verify', 'verify', 'recovery', 'epervier'])
        n = r.choice([2, 4, 8, 8, 16, 16, 32, 64, 64, 128])
        kind = r.choice(['keccak', 'keccak', 'blake2s', 'shake'])
        salt, msg = r.randbytes(40), r.randbytes(r.choice([0, 1, 20, 100]))
        s0, s1 = vectors(r, n, BOUND[n])
        T = Poly(s1, Q).ntt()
        if not all(T):
            continue
        c = point(kind, n, salt, msg)
        inv = Poly(s1, Q).inverse()
        h = (Poly([(a - b) % Q for a, b in zip(c, s0)], Q) * inv).coeffs
        room = SIZE[n] - 41 if mode == 'verify' else 2 * SIZE[n] - 41
        body = enc(s1 if mode == 'verify' else s0 + s1)
        if r.random() < .6:
            body += bytes(max(0, room - len(body)))
        hint = [x for x in inv.ntt()]
        m = r.randrange(8)
        if m == 0:
            body = bytearray(body)
            body[r.randrange(len(body))] ^= 1 << r.randrange(8)
        elif m == 1:
            body = bytes(body)[:-1]
        elif m == 2:
            hint[r.choice([0, -1, r.randrange(n)])] += r.choice([1, -1, Q])
        elif m == 3:
            h[r.choice([0, -1])] = (h[0] + 1) % Q
        hint = b''.join((max(0, x)).to_bytes(3, 'big') for x in hint)
        sig = bytes([r.choice([0x20, 0x30, 0x39, 0])]) + salt + bytes(body) + (hint if mode != 'verify' else b'')
        if r.random() < .05:
            sig = sig[:r.choice([0, 1, 5, 41, 42, 3 * n, 3 * n + 41, len(sig) - 1])]
        if r.random() < .05:
            msg += b'x'
        yield dict(mode=mode, n=n, xof=kind, msg=msg.hex(), sig=sig.hex(), h=h, zero=r.random() < .1)


def address(words):
    return int.from_bytes(spec.keccak256(b''.join(x.to_bytes(32, 'big') for x in words))[12:], 'big')


def expected(c):
    n, sig, msg = c['n'], bytes.fromhex(c['sig']), bytes.fromhex(c['msg'])
    salt = sig[1:41]
    if c['mode'] == 'verify':
        body = sig[41:]
        s1 = parse(body, n) if len(body) <= SIZE[n] - 41 else None
        if s1 is None:
            return False
        s0 = [center(a - b) for a, b in zip(point(c['xof'], n, salt, msg), mul(s1, c['h']))]
        return sum(x * x for x in s0 + s1) <= BOUND[n]
    end = max(0, len(sig) - 3 * n)
    body, words = sig[41:end], sig[end:]
    s = parse(body, 2 * n) if len(body) <= 2 * SIZE[n] - 41 else None
    if s is None:
        return False
    w = [int.from_bytes(words[3 * i:3 * i + 3], 'big') for i in range(n)]
    s0, s1 = s[:n], s[n:]
    if any(a * b % Q != 1 for a, b in zip(w, Poly(s1, Q).ntt())) or sum(x * x for x in s) > BOUND[n]:
        return False
    hn = [a * b % Q for a, b in zip(Poly([(a - b) % Q for a, b in zip(point(c['xof'], n, salt, msg), s0)], Q).ntt(), w)]
    return address(Poly(s0, Q).NTT.intt(hn) if c['mode'] == 'recovery' else hn)


def test(c):
    n, sig, msg = c['n'], bytes.fromhex(c['sig']), bytes.fromhex(c['msg'])
    want = expected(c)
    if c['mode'] == 'verify':
        got = PublicKey(n, list(c['h'])).verify(msg, sig, xof=XOF[c['xof']])
        return None if got is want else 'verify returns %r instead of %r' % (got, want)
    cls = RecoveryModePublicKey if c['mode'] == 'recovery' else EpervierPublicKey
    pk = 0 if c['zero'] else address(c['h'] if c['mode'] == 'recovery' else Poly(c['h'], Q).ntt())
    got = cls(n, pk).recover(msg, sig, xof=XOF[c['xof']])
    if got is not want and (want is False or got is False or got != want):
        return 'recover returns %r instead of %r' % (got, want)
    got = cls(n, pk).verify(msg, sig, xof=XOF[c['xof']])
    want = want is not False and want == pk
    if bool(got) != want:
        return 'verify returns %r instead of %r' % (got, want)


pyhunt.worker(cases, test)
