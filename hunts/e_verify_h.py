"""Solidity verifiers and recovery against exact arithmetic.  argv[3]: verify or recover"""
import hashlib
import math
import random
import numpy as np
from solhunt import *
R = oracle('ring')
K = oracle('keccak')
Q, N, BOUND = 12289, 512, 34034726
WHICH = sys.argv[3] if len(sys.argv) > 3 else 'verify'


def brv(i, k):
    return int(format(i, '0%db' % k)[::-1], 2)


X = [pow(49, 2 * brv(j, 9) + 1, Q) for j in range(N)]
M = np.ones((N, N), dtype=np.int64)
for _i in range(1, N):
    M[:, _i] = M[:, _i - 1] * np.array(X) % Q


def fw(a):
    return [int(x) for x in (M @ (np.array(a, dtype=np.int64) % Q)) % Q]


MI = (pow(N, -1, Q) * np.array([[pow(x, -k % (Q - 1), Q) for x in X] for k in range(N)], dtype=np.int64)) % Q


def inv(A):
    return [int(x) for x in (MI @ (np.array(A, dtype=np.int64) % Q)) % Q]


def vectors(r, target):
    """(s1, s2) with |coefficients| <= 6144 and squared norm exactly target (None: any)"""
    while True:
        kind = r.randrange(4)
        v = [max(-6144, min(6144, int(r.gauss(0, (165, 100, 40, 3)[kind])))) for _ in range(2 * N)]
        if target is None:
            for _ in range(r.randrange(4)):
                v[r.choice([0, 511, 512, 1023, r.randrange(1024)])] = r.choice([6144, -6144, 5000, 2047, r.randrange(-6144, 6145)])
            return v[:N], v[N:]
        pos = [511, 1023, 0, 512] + r.sample(range(1, 511), 16)
        if r.random() < .5:
            r.shuffle(pos)
        for p in pos:
            v[p] = 0
        rest = target - sum(x * x for x in v)
        if rest < 0:
            continue
        for p in pos:
            x = min(6144, math.isqrt(rest))
            v[p] = r.choice([-x, x])
            rest -= x * x
        if rest == 0:
            return v[:N], v[N:]


def cases(seed):
    r = random.Random(seed)
    fns = ['core', 'core', 'core', 'core', 'len', 'v4', 'v3'] if WHICH == 'verify' else ['rec']
    while True:
        f = r.choice(fns)
        t = r.choice([BOUND, BOUND + 1, BOUND - 1, BOUND, BOUND + 1, None, None])
        s1, s2 = vectors(r, t)
        # how canonical the words are: s1 / s2 plus q at some places
        unr = [r.random() < .15, r.random() < .15]
        c = dict(f=f, s1=s1, s2=s2, up=[[i for i in range(N) if u and r.random() < r.choice([.02, .5])] for u in unr], k=r.randrange(1 << 30), eth=r.random() < .5,
                 salt=r.randbytes(40).hex(), msg=r.randbytes(32 if f == 'v3' else r.choice([32, 32, 0, 1, 100])).hex(), bad=r.choice([None] * 5 + ['salt', 's2', 'key', 'hint', 'hint0']))
        yield c


def lift(s, up):
    return [v % Q + (Q if i in up else 0) for i, v in enumerate(s)]


def point(eth, salt, msg):
    if eth:
        h = K.keccak256(salt + msg)
        st = b''.join(K.keccak256(h + i.to_bytes(8, 'big')) for i in range(60))
    else:
        st = hashlib.shake_256(salt + msg).digest(8192)
    out = []
    for i in range(0, len(st), 2):
        v = st[i] << 8 | st[i + 1]
        if v < 61445:
            out.append(v % Q)
    return out[:N]


def norm(s1, s2):
    return sum(x * x for x in s1) + sum(x * x for x in s2)


def judge(got, ok, canonical):
    if got and not ok:
        return 'accepts a vector that is too long'
    if not got and ok and canonical:
        return 'turns away a short vector'


def test(c):
    f, s1, s2, eth = c['f'], c['s1'], c['s2'], c['eth']
    r = random.Random(c['k'])
    ok = norm(s1, s2) <= BOUND
    w2 = lift(s2, c['up'][1])
    canonical = not c['up'][1]
    if f == 'core':
        h = [r.randrange(Q) for _ in range(N)]
        # c = s1 + s2 h
        hs = [(x + y) % Q for x, y in zip(s1, R.mul(s2, h))]
        s = Sol('ZKNOX_falcon_core')
        return judge(s.call('falcon_core', words(w2), words(fw(h)), hs), ok, canonical)
    if f == 'len':
        s = Sol('ZKNOX_falcon_core')
        n1, n2 = r.choice([(511, 32), (513, 32), (0, 32), (512, 31), (512, 33), (512, 0)])
        try:
            got = s.call('falcon_core', (words([0] * N) + [0])[:n2], words([0] * N), ([0] * 513)[:n1])
        except Reverted:
            return
        return 'accepts operands of other lengths' if got else None
    salt, msg = bytes.fromhex(c['salt']), bytes.fromhex(c['msg'])
    if c['bad'] == 'salt' and f in ('v4', 'rec'):
        salt = r.choice([salt[:-1], salt + b'\0', salt + salt, b''])
    P = point(eth, salt, msg)
    S = fw(s2)
    if 0 in S:
        return
    H = fw([a - b for a, b in zip(P, s1)])
    ntth = [a * pow(b, -1, Q) % Q for a, b in zip(H, S)]
    bad = c['bad']
    if f == 'v4':
        s = Sol('ZKNOX_ethfalcon' if eth else 'ZKNOX_falcon', 'ZKNOX_ethfalcon' if eth else 'ZKNOX_falcon')
        fn = [x for x in s.c.funs['verify'] if len(x.params) == 4][0]
        a = [msg, salt, words(w2), words(ntth)]
        if bad in ('s2', 'key'):
            i = 2 if bad == 's2' else 3
            a[i] = a[i][:-1] if r.random() < .5 else a[i] + a[i][:1]
        try:
            got = s.call('verify', *a, fun=fn)
        except Reverted:
            got = False
        if bad in ('salt', 's2', 'key'):
            return 'accepts a wrong length of %s' % bad if got else None
        return judge(got, ok, canonical)
    if f == 'v3':
        nm = 'ZKNOX_ethfalcon' if eth else 'ZKNOX_falcon'
        key = (32).to_bytes(32, 'big') + (32).to_bytes(32, 'big') + b''.join(w.to_bytes(32, 'big') for w in words(ntth))
        addr = r.getrandbits(160)
        s = Sol(nm, nm, stubs={'SSTORE2.read': lambda ex, v: (ex.new_bytes(key if v[0][0] == addr else key[:64] + bytes(1024)), solex.BYTES)})
        fn = [x for x in s.c.funs['verify'] if len(x.params) == 3][0]
        sig = salt + b''.join(w.to_bytes(32, 'big') for w in words(w2))
        short = bad in ('salt', 's2')
        if short:
            sig = sig[:-r.choice([1, 32, 31])] if r.random() < .6 else sig + bytes(32)
        try:
            got = s.call('verify', solex.Cd(addr.to_bytes(20, 'big')), int.from_bytes(msg, 'big'), solex.Cd(sig), fun=fn)
        except Reverted:
            got = 0xffffffff
        if got not in (solex.SELECTOR, 0xffffffff, 0xffffffff << 224):
            return 'answers %x' % got
        got = got == solex.SELECTOR
        if short:
            return 'accepts a signature of %d bytes' % len(sig) if got else None
        return judge(got, ok, canonical)
    # recovery
    nm = 'ZKNOX_ethepervier' if eth else 'ZKNOX_epervier'
    w1 = lift(s1, c['up'][0])
    hint = 1
    for x in S:
        hint = hint * x % Q
    hint = pow(hint, -1, Q)
    a = [msg, salt, words(w1), words(w2), hint]
    if bad == 'hint':
        a[4] = (hint + r.randrange(1, Q)) % Q
    elif bad == 'hint0':
        a[4] = 0
    elif bad in ('s2', 'key'):
        i = 3 if bad == 's2' else 2
        a[i] = a[i][:-1] if r.random() < .5 else a[i] + [0]
    s = Sol(nm, nm)
    try:
        got = s.call('recover', *a)
    except Reverted:
        got = None
    if bad is not None:
        return 'returns an address for a wrong %s' % bad if got is not None else None
    if got is None:
        return 'turns away a short vector' if ok and canonical and not c['up'][0] else None
    if not ok:
        return 'accepts a vector that is too long'
    want = int.from_bytes(K.keccak256(b''.join(x.to_bytes(32, 'big') for x in ntth)), 'big') & ((1 << 160) - 1)
    return None if got == want else 'returns another address'


worker(cases, test)
