"""KeccakPRNG and Blake2sPRNG against a model, over random histories that include misuse"""
import hashlib
import random

import pyhunt
from keccak_prng import KeccakPRNG
from blake2s_prng import Blake2sPRNG

spec = pyhunt.oracle('keccak')
H = dict(keccak=(KeccakPRNG, spec.keccak256, 4096), blake2s=(Blake2sPRNG, lambda b: hashlib.blake2s(b).digest(), 1024))


class Model:
    def __init__(self, h, cap):
        self.h, self.cap, self.buf, self.out, self.pos = h, cap, b'', None, 0

    def inject(self, d):
        if self.out is not None or len(self.buf) + len(d) > self.cap:
            raise ValueError
        self.buf += d

    def flip(self):
        if self.out is not None:
            raise ValueError
        self.s, self.out, self.n = self.h(self.buf), b'', 0

    def extract(self, n):
        if self.out is None:
            raise ValueError
        while len(self.out) < self.pos + n:
            self.out += self.h(self.s + self.n.to_bytes(8, 'big'))
            self.n += 1
        self.pos += n
        return self.out[self.pos - n:self.pos]


def cases(seed):
    r = random.Random(seed)
    while True:
        which = r.choice(['keccak', 'blake2s'])
        cap = H[which][2]
        ops, t = [], 0
        for _ in range(r.randrange(4)):
            n = r.choice([0, 1, 40, r.randrange(300), cap - t, cap - t + 1, cap + 1, max(0, cap - t - 1), r.randrange(cap + 200)])
            ops.append(['inject', r.randbytes(n).hex()])
            t += n if t + n <= cap else 0
        if r.random() < .1:
            ops.insert(r.randrange(len(ops) + 1), ['extract', 5])
        ops.append(['flip'])
        for _ in range(r.randrange(1, 8)):
            k = r.random()
            if k < .05:
                ops.append(['flip'])
            elif k < .1:
                ops.append(['inject', 'aa'])
            else:
                ops.append(['extract', r.choice([0, 1, 2, 2, 31, 32, 33, 63, 64, 65, 5, r.randrange(200), r.choice([8192 + r.randrange(40), 3])])])
        yield dict(prng=which, ops=ops, alias=r.random() < .5, start=r.choice([0, 0, 255, 256, 65535, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63, r.getrandbits(48)]))


def test(c):
    cls, h, cap = H[c['prng']]
    p, m = cls.new(), Model(h, cap)
    nm = dict(inject='update', extract='read', flip='flip') if c['alias'] else dict(inject='inject', extract='extract', flip='flip')
    for i, op in enumerate(c['ops']):
        a = [bytes.fromhex(x) if isinstance(x, str) else x for x in op[1:]]
        try:
            want = getattr(m, op[0])(*a)
        except ValueError:
            want = ValueError
        try:
            got = getattr(p, nm[op[0]])(*a)
        except ValueError:
            got = ValueError
        if (got is ValueError) != (want is ValueError):
            return 'operation %d (%s): %s' % (i, op[0], 'refused' if got is ValueError else 'not refused')
        if op[0] == 'flip' and want is None and c['start'] and type(getattr(p, 'counter', None)) is int and p.counter == 0:
            # as after that many blocks
            p.counter = m.n = c['start']
        if op[0] == 'extract' and got is not ValueError and bytes(got) != want:
            return 'operation %d: wrong output' % i


pyhunt.worker(cases, test)
