"""rng.ChaCha20 against an independent implementation, over histories of requests"""
import random

import pyhunt
from rng import ChaCha20

chacha = pyhunt.oracle('chacha')


def cases(seed):
    r = random.Random(seed)
    while True:
        s = bytearray(r.randbytes(56))
        k = r.randrange(6)
        if k == 0:
            s[48:52] = b'\xff' * 3 + bytes([r.choice([0xff, 0xfe])])
        if k == 1:
            s[48:56] = r.choice([b'\xf8' + b'\xff' * 3, b'\xff' * 4, b'\xfe\xff\xff\xff']) + r.randbytes(4)
        if k == 2:
            s[52:56] = b'\xff\xff\xff\x7f'
        m = r.randrange(4)
        reqs = [r.choice([0, 1, 1, 8, 8, 9, 40, 56, 64, 100, 255, 256, 511, 512, r.randrange(513)] if m else [1, 8, 9]) for _ in range(r.choice([3, 10, 60]))]
        yield dict(seed=bytes(s).hex(), requests=reqs)


def test(c):
    s = bytes.fromhex(c['seed'])
    a, b = ChaCha20(s), chacha.Gen(s)
    for i, k in enumerate(c['requests']):
        x, y = a.randombytes(k), b.read(k)
        if x != y:
            return 'request %d (%d bytes): %s, expected %s' % (i, k, x.hex()[:64], y.hex()[:64])
    return None


pyhunt.worker(cases, test)
