"""falcon.hash_to_point against its definition"""
import hashlib
import random

import pyhunt
import falcon
from keccak_prng import KeccakPRNG
from blake2s_prng import Blake2sPRNG
from shake import SHAKE

spec = pyhunt.oracle('keccak')


class Fixed:
    """an extendable-output function that returns given words"""
    words = []

    @classmethod
    def new(cls):
        f = cls()
        f.got, f.i, f.flipped = [], 0, False
        Fixed.last = f
        return f

    def update(self, x):
        self.got.append(bytes(x))

    def flip(self):
        self.flipped = True

    def read(self, n):
        assert n == 2 and self.flipped
        w = self.words[self.i] if self.i < len(self.words) else 7
        self.i += 1
        return w.to_bytes(2, 'big')


def points(n, stream):
    out, p = [], 0
    while len(out) < n:
        w = int.from_bytes(stream[p:p + 2], 'big')
        p += 2
        if w < 5 * 12289:
            out.append(w % 12289)
    return out


def counter(h, data, n):
    s, out, i = h(data), b'', 0
    while len(out) < n:
        out += h(s + i.to_bytes(8, 'big'))
        i += 1
    return out


def cases(seed):
    r = random.Random(seed)
    while True:
        n = r.choice([1, 2, 4, 8, 16, 64, 256, 512, 1024])
        yield dict(n=n, xof='fixed', salt=r.randbytes(40).hex(), msg=r.randbytes(r.randrange(50)).hex(),
                   words=[r.choice([0, 1, 12288, 12289, 24578, 36867, 49155, 49156, 61443, 61444, 61445, 61446, 65535, r.randrange(65536)]) for _ in range(n + n // 3 + 8)])
        if n <= 64:
            yield dict(n=n, xof=r.choice(['keccak', 'blake2s', 'shake', 'default']), salt=r.randbytes(40).hex(), msg=r.randbytes(r.choice([0, 1, 31, 32, 33, 100, 500])).hex())


def test(c):
    n, salt, msg = c['n'], bytes.fromhex(c['salt']), bytes.fromhex(c['msg'])
    if c['xof'] == 'fixed':
        Fixed.words = c['words']
        got = falcon.hash_to_point(n, msg, salt, xof=Fixed)
        want = points(n, b''.join(w.to_bytes(2, 'big') for w in c['words']) + b'\0\7' * n)
        f = Fixed.last
        if b''.join(f.got) != salt + msg:
            return 'absorbs something else than salt and message'
    elif c['xof'] == 'blake2s':
        h = lambda b: hashlib.blake2s(b).digest()
        want = points(n, counter(h, h(salt) + msg, 4 * n + 64))
        got = falcon.hash_to_point(n, msg, salt, xof=Blake2sPRNG)
    elif c['xof'] == 'shake':
        want = points(n, hashlib.shake_256(salt + msg).digest(4 * n + 64))
        got = falcon.hash_to_point(n, msg, salt, xof=SHAKE)
    else:
        want = points(n, counter(spec.keccak256, salt + msg, 4 * n + 64))
        got = falcon.hash_to_point(n, msg, salt, xof=KeccakPRNG) if c['xof'] == 'keccak' else falcon.hash_to_point(n, msg, salt)
    if list(got) != want:
        return 'coefficient %d is wrong' % next((i for i in range(min(len(got), n)) if got[i] != want[i]), -1)


pyhunt.worker(cases, test)
