"""Solidity hash layer against hashlib and /verif/oracle"""
import hashlib
import random
from solhunt import *
K = oracle('keccak')
Q = 12289
SIZES = [0, 1, 7, 8, 9, 31, 32, 33, 40, 72, 100, 134, 135, 136, 137, 271, 272, 273]


def cases(seed):
    r = random.Random(seed)
    while True:
        f = r.choice(['sponge', 'sponge', 'f1600', 'nist', 'evm', 'evm', 'evm', 'tet', 'split', 'short'])
        c = dict(f=f, k=r.randrange(1 << 30))
        if f in ('sponge',):
            c['parts'] = [r.randbytes(r.choice(SIZES + [r.randrange(300)])).hex() for _ in range(r.randrange(4))]
            c['reads'] = [r.choice(SIZES + [r.randrange(300)]) for _ in range(r.randrange(1, 4))]
            c['digest'] = r.random() < .5
        elif f == 'f1600':
            c['st'] = [r.choice([0, 2**64 - 1, r.getrandbits(64), r.getrandbits(64)]) for _ in range(25)]
        else:
            c['salt'], c['msg'] = r.randbytes(r.choice([40, 40, 40, 0, 12])).hex(), r.randbytes(r.choice([32, 32, 0, 1, 64, 96, r.randrange(300)])).hex()
            c['stream'] = r.randrange(3)
        yield c


def words_of(r, n, kind):
    """a stream of 16-bit candidates that dwells on the boundaries"""
    ch = [61445, 61444, 61446, 0, 12288, 12289, 24577, 24578, 49155, 49156, 36867, 36866, 65535]
    out = b''
    for _ in range(n):
        v = r.choice(ch) if r.random() < (.2, .6, .95)[kind] else r.randrange(65536)
        out += v.to_bytes(2, 'big')
    return out


def ref_point(stream):
    out = []
    for i in range(0, len(stream) - 1, 2):
        v = stream[i] << 8 | stream[i + 1]
        if v < 61445:
            out.append(v % Q)
            if len(out) == 512:
                return out
    return None


def test(c):
    f = c['f']
    r = random.Random(c['k'])
    if f == 'sponge':
        s = Sol('ZKNOX_shake')
        ctx = s.call('shakeInit')
        data = b''
        for p in c['parts']:
            p = bytes.fromhex(p)
            data += p
            ctx = s.call('shakeUpdate', ctx, p)
        n = sum(c['reads'])
        want = hashlib.shake_256(data).digest(n)
        if c['digest']:
            if s.bytes(s.call('shakeDigest', ctx, n)) != want:
                return 'shakeDigest is not SHAKE256'
            return
        ctx = s.call('shakePad', ctx)
        got = b''
        for i, k in enumerate(c['reads']):
            if i and r.random() < .3:
                got += s.bytes(s.call('shakeDigest', ctx, sum(c['reads'][i:])))
                break
            ctx, b = s.call('shakeSqueeze', ctx, k)
            got += s.bytes(b)
        if got != want:
            return 'shakeSqueeze is not SHAKE256'
    elif f == 'f1600':
        s = Sol('ZKNOX_shake')
        p = s.ex.alloc('st', 800)
        for i, v in enumerate(c['st']):
            p.cells[32 * i] = v
        o = s.call('f1600', Ptr(p, 0))
        A = [[c['st'][x + 5 * y] for y in range(5)] for x in range(5)]
        want = K.f1600(list(c['st']))
        if [o.r.load(s.ex, o.o + 32 * i) for i in range(25)] != list(want):
            return 'f1600 is not Keccak-f[1600]'
        for t in (1, 8, 63, r.randrange(1, 64)):
            x = r.getrandbits(64)
            if s.call('rol64', x, t) != ((x << t | x >> (64 - t)) & (2**64 - 1)):
                return 'rol64 is wrong'
    elif f == 'split':
        s = Sol('ZKNOX_HashToPoint')
        x = r.getrandbits(256)
        o = s.call('splitToHex', x)
        if [o.r.load(s.ex, o.o + 32 * i) for i in range(16)] != [x >> (240 - 16 * i) & 0xffff for i in range(16)]:
            return 'splitToHex is wrong'
    elif f == 'short':
        # the permutation or the hash replaced by a stream chosen here: the sampler alone
        n = 512 * 3
        st = words_of(r, n, c['stream'])
        want = ref_point(st)
        if want is None:
            return
        pos, used = [0], set()
        CT = ('struct', 'CtxShake')

        def squeeze(ex, fn, args):
            used.add('s')
            k = args[1]
            b = st[pos[0]:pos[0] + k]
            pos[0] += k
            return (args[0], ex.new_bytes(b)), (CT, solex.BYTES)

        def same(x):
            def stub(ex, fn, args):
                used.add(x)
                return args[0], CT
            return stub
        salt, msg = bytes.fromhex(c['salt']), bytes.fromhex(c['msg'])
        s = Sol('ZKNOX_HashToPoint', stubs={'shakeSqueeze': squeeze, 'shakePad': same('p'), 'shakeUpdate': same('u')})
        got = s.arr(s.call('hashToPointNIST', salt, msg))
        if used == {'s', 'p', 'u'} and pos[0] <= len(st) and got != want:
            return 'hashToPointNIST is not the rejection sampler of its stream'
        real = solex.keccak256
        h0 = real(salt + msg)
        for tet in (0, 1):
            def kec(ex, v, t, tet=tet):
                if t[0] == 'mem':
                    d = b''.join(ex.mload(ex.op('add', [v, i])).to_bytes(32, 'big') for i in range(0, t[1], 32))[:t[1]]
                else:
                    d = v if isinstance(v, bytes) else ex.get_bytes(v)
                if tet:
                    blk = 0 if d == msg + salt else next((i + 1 for i in range(90) if d == st[32 * i:32 * i + 32]), None)
                else:
                    blk = int.from_bytes(d[32:], 'big') if len(d) == 40 and d[:32] == h0 else None
                x = st[32 * blk:32 * blk + 32] if blk is not None and blk < 96 else b''
                return int.from_bytes(x if len(x) == 32 else real(d), 'big')
            s = Sol('ZKNOX_HashToPoint')
            s.ex.keccak_hook = kec
            if s.arr(s.call('hashToPointTETRATION' if tet else 'hashToPointEVM', salt, msg)) != want:
                return 'hashToPoint%s is not the rejection sampler of its stream' % ('TETRATION' if tet else 'EVM')
    else:
        salt, msg = bytes.fromhex(c['salt']), bytes.fromhex(c['msg'])
        if f == 'nist':
            nm, st = 'hashToPointNIST', hashlib.shake_256(salt + msg).digest(8192)
        elif f == 'evm':
            h = K.keccak256(salt + msg)
            nm, st = 'hashToPointEVM', b''.join(K.keccak256(h + i.to_bytes(8, 'big')) for i in range(60))
        else:
            nm, st, h = 'hashToPointTETRATION', b'', K.keccak256(msg + salt)
            for i in range(60):
                st += h
                h = K.keccak256(h)
        s = Sol('ZKNOX_HashToPoint')
        if s.arr(s.call(nm, salt, msg)) != ref_point(st):
            return nm + ' is another point'


worker(cases, test)
