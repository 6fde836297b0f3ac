"""shake.SHAKE and keccak.KeccakHash against hashlib and a byte-wise sponge, over random histories"""
import hashlib
import random

import pyhunt
from keccak import KeccakHash
from shake import SHAKE

spec = pyhunt.oracle('keccak')


def size(r, rate):
    return r.choice([0, 1, 2, rate - 2, rate - 1, rate, rate, rate + 1, 2 * rate - 1, 2 * rate, 2 * rate + 1, r.randrange(3 * rate), r.randrange(40)])


def cases(seed):
    r = random.Random(seed)
    while True:
        rate = r.choice([136, 136, 168, 144, 104, 72, 199, 8, 3, r.randrange(1, 200)])
        h = [r.randbytes(max(0, size(r, rate))).hex() for _ in range(r.randrange(5))]
        if r.random() < .5:
            # pieces that end exactly at a block boundary
            t = sum(len(x) // 2 for x in h)
            h.append(r.randbytes((-t - r.choice([0, 0, 1, 2])) % rate).hex())
        o = [max(0, size(r, rate)) for _ in range(r.randrange(1, 5))]
        yield dict(rate=rate, ds=r.choice([0x1f, 0x06, 0x01, 0x80, r.randrange(256)]), first=r.random() < .4, inputs=h, reads=o)


def test(c):
    rate, ds, h, o = c['rate'], c['ds'], [bytes.fromhex(x) for x in c['inputs']], c['reads']
    data = b''.join(h)
    want = spec.Sponge(rate, ds).absorb(data).finish().squeeze(sum(o))
    k = KeccakHash(h[0], rate=rate, dsbyte=ds) if h and c['first'] else KeccakHash(b'', rate=rate, dsbyte=ds)
    for x in h[1 if h and c['first'] else 0:]:
        k.absorb(x)
    k.pad()
    got = b''.join(bytes(k.squeeze(n)) for n in o)
    if got != want:
        return 'KeccakHash output differs at byte %d' % next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
    want = hashlib.shake_256(data).digest(sum(o))
    k = SHAKE.new(h[0]) if h and c['first'] else SHAKE.new()
    for x in h[1 if h and c['first'] else 0:]:
        k.update(x)
    k.flip()
    got = b''.join(bytes(k.read(n)) for n in o)
    if got != want:
        return 'SHAKE output differs at byte %d' % next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))


pyhunt.worker(cases, test)
