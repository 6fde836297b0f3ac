"""Concrete search for violations of the hash-layer contracts on the real C code."""
import ctypes
import hashlib
import itertools
import random
import csrc
import keccak
import native
from native import Guard

P = 'falcon_inner_'
SIZES = [0, 1, 2, 7, 8, 9, 31, 32, 33, 40, 64, 100, 127, 128, 134, 135, 136, 137, 138, 200, 263, 264, 271, 272, 273, 274, 280, 400, 407, 408, 409, 1000]


SIZEOF = r"""
unsigned vx_sizes(int k) { return k == 0 ? sizeof(inner_shake256_context) : k == 1 ? sizeof(inner_keccak256_prng_ctx) : sizeof(SHA3_CTX); }
"""
POKE = r"""
void vx_ctr(inner_keccak256_prng_ctx *k, unsigned long long c) { k->counter = c; }
void vx_out(inner_keccak256_prng_ctx *k, const unsigned char *b) { memcpy(k->out_buffer, b, 32); k->out_buffer_pos = 0; k->out_buffer_len = 32; }
void vx_state(inner_shake256_context *s, const unsigned char *b) { memset(s, 0, sizeof *s); memcpy(s->st.A, b, 136); s->dptr = 0; }
"""


def lib():
    """the real library plus accessors for the context sizes and, when the fields still have their names, for chosen states"""
    try:
        L = ctypes.CDLL(csrc.shared(csrc.CORE, name='hash', wrap={'common.c': SIZEOF + POKE}))
        L.poke = True
    except csrc.BuildError:
        L = ctypes.CDLL(csrc.shared(csrc.CORE, name='hash', wrap={'common.c': SIZEOF}))
        L.poke = False
    L.size = [L.vx_sizes(k) for k in range(3)]
    return L


def chunks(rng, total):
    out, left = [], total
    while left:
        k = min(left, rng.choice(SIZES + [total]))
        if k == 0 and rng.random() < .7:
            continue
        out.append(k)
        left -= k
    if rng.random() < .3:
        out.insert(rng.randrange(len(out) + 1), 0)
    return out


def total(rng, limit=None):
    k = rng.choice([0, 1, 17, 32, 40, 134, 135, 136, 137, 271, 272, 273, 408, rng.randrange(1200), rng.randrange(300)])
    return k if limit is None else min(k, limit)


def cp(x):
    return ctypes.c_void_p(x)


# ------------------------------------------------------------------ SHAKE256
def shake_cases(seed):
    rng = random.Random(seed)
    while True:
        t, o = total(rng), total(rng)
        yield dict(data=rng.randbytes(t), inj=chunks(rng, t), ext=chunks(rng, o))


def search_shake(failed, seed, budget):
    L = lib()

    def test(c):
        sc = Guard(L.size[0], align=8)
        L[P + 'i_shake256_init'](sc.ptr())
        pos = 0
        for k in c['inj']:
            b = Guard(k, c['data'][pos:pos + k])
            L[P + 'i_shake256_inject'](sc.ptr(), b.ptr(), ctypes.c_size_t(k))
            if not b.ok() or b.bytes() != c['data'][pos:pos + k]:
                return 'inject writes to its input'
            b.free()
            pos += k
        L[P + 'i_shake256_flip'](sc.ptr())
        want = hashlib.shake_256(c['data']).digest(sum(c['ext']))
        pos = 0
        for k in c['ext']:
            b = Guard(k)
            L[P + 'i_shake256_extract'](sc.ptr(), b.ptr(), ctypes.c_size_t(k))
            if not b.ok():
                return 'extract writes outside the output'
            if b.bytes() != want[pos:pos + k]:
                return 'output bytes %d..%d differ from SHAKE256' % (pos, pos + k)
            b.free()
            pos += k
        if not sc.ok():
            return 'write outside the context'
        sc.free()
    return native.run_cases(shake_cases(seed), test, budget)


# ------------------------------------------------------------------ Keccak-256 and its PRNG
def keccak_cases(seed):
    rng = random.Random(seed)
    while True:
        t = total(rng)
        yield dict(f='hash', data=rng.randbytes(t), upd=chunks(rng, t), mis=rng.randrange(8))
        t = rng.choice([total(rng), 4096, 4095, 4000])
        o = total(rng)
        yield dict(f='prng', data=rng.randbytes(t), inj=chunks(rng, t), ext=chunks(rng, o), over=rng.choice([0, 1, 97, 5000]),
                   early=rng.random() < .5, late=rng.random() < .5, ctr=rng.choice([None, 254, 255, 2**16 - 1, 2**32 - 1]))


def search_keccak(failed, seed, budget):
    L = lib()
    s32 = lambda x: ctypes.c_int32(x).value

    def test(c):
        if c['f'] == 'hash':
            ctx, out = Guard(L.size[2], align=8), Guard(32)
            L.keccak_init(ctx.ptr())
            pos = 0
            for k in c['upd']:
                b = Guard(k + c['mis'], c['data'][pos:pos + k] + b'\xA5' * c['mis'])
                L.keccak_update(ctx.ptr(), b.ptr(), ctypes.c_uint16(k))
                b.free()
                pos += k
            L.keccak_final(ctx.ptr(), out.ptr())
            if not (ctx.ok() and out.ok()):
                return 'write outside the buffers'
            if out.bytes() != keccak.keccak256(c['data']):
                return 'digest differs from Keccak-256'
            ctx.free()
            out.free()
            return
        sc = Guard(L.size[1], align=8)
        g = lambda f: L[P + 'i_keccak256_' + f]
        if s32(g('init')(sc.ptr())) != 0:
            return 'init fails'
        if c['early']:
            b = Guard(8)
            if s32(g('extract')(sc.ptr(), b.ptr(), ctypes.c_size_t(8))) == 0:
                return 'extraction allowed before finalisation'
            b.free()
        pos = 0
        for k in c['inj']:
            b = Guard(k, c['data'][pos:pos + k])
            if s32(g('inject')(sc.ptr(), b.ptr(), ctypes.c_size_t(k))) != 0:
                return 'inject of %d bytes after %d fails' % (k, pos)
            b.free()
            pos += k
        if c['over'] and pos + c['over'] > 4096:
            b = Guard(c['over'])
            if s32(g('inject')(sc.ptr(), b.ptr(), ctypes.c_size_t(c['over']))) == 0:
                return 'inject beyond the capacity succeeds'
            b.free()
        if s32(g('flip')(sc.ptr())) != 0:
            return 'flip fails'
        if c['late']:
            b = Guard(4)
            if s32(g('inject')(sc.ptr(), b.ptr(), ctypes.c_size_t(4))) == 0:
                return 'inject after finalisation succeeds'
            b.free()
            if s32(g('flip')(sc.ptr())) == 0:
                return 'second flip succeeds'
        if c['ctr'] is not None and L.poke:
            L.vx_ctr(sc.ptr(), ctypes.c_ulonglong(c['ctr']))
        s = keccak.keccak256(c['data'])
        n = sum(c['ext'])
        want = b''
        i = (L.poke and c['ctr']) or 0
        while len(want) < n:
            want += keccak.keccak256(s + i.to_bytes(8, 'big'))
            i += 1
        pos = 0
        for k in c['ext']:
            b = Guard(k)
            if s32(g('extract')(sc.ptr(), b.ptr(), ctypes.c_size_t(k))) != 0:
                return 'extract fails'
            if not b.ok():
                return 'extract writes outside the output'
            if b.bytes() != want[pos:pos + k]:
                return 'output bytes %d..%d differ from the Keccak PRNG stream' % (pos, pos + k)
            b.free()
            pos += k
        if not sc.ok():
            return 'write outside the context'
        sc.free()
    return native.run_cases(keccak_cases(seed), test, budget)


# ------------------------------------------------------------------ hash-to-point
EDGE = [0, 1, 12288, 12289, 24577, 24578, 36866, 36867, 49155, 49156, 61444, 61445, 61446, 65535]


def h2p_cases(seed):
    rng = random.Random(seed)
    while True:
        logn = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10])
        w = [rng.choice(EDGE) if rng.random() < .7 else rng.randrange(65536) for _ in range(68)]
        yield dict(prng='shake', logn=logn, first=b''.join(x.to_bytes(2, 'big') for x in w)[:136])
        yield dict(prng='keccak', logn=logn, first=b''.join(x.to_bytes(2, 'big') for x in w[:16]))
        yield dict(prng=rng.choice(['shake', 'keccak']), logn=logn, data=rng.randbytes(rng.randrange(200)))


def search_h2p(failed, seed, budget):
    L = lib()

    def test(c):
        n = 1 << c['logn']
        if 'first' in c and not L.poke:
            return
        x = Guard(2 * n, align=2)
        if c['prng'] == 'shake':
            sc = Guard(L.size[0], align=8)
            L[P + 'i_shake256_init'](sc.ptr())
            if 'data' in c:
                b = Guard(len(c['data']), c['data'])
                L[P + 'i_shake256_inject'](sc.ptr(), b.ptr(), ctypes.c_size_t(len(c['data'])))
                b.free()
                L[P + 'i_shake256_flip'](sc.ptr())
                stream = keccak.shake_stream(c['data'])
            else:
                L.vx_state(sc.ptr(), c['first'])      # a context whose pending output is given
                S = keccak.Sponge(136, 0x1F)
                S.A = [int.from_bytes(c['first'][8 * i:8 * i + 8], 'little') for i in range(17)] + [0] * 8
                stream = (b for _ in itertools.count() for b in S.squeeze(8))
            L[P + 'hash_to_point_vartime'](sc.ptr(), x.ptr(), c['logn'])
        else:
            sc = Guard(L.size[1], align=8)
            L[P + 'i_keccak256_init'](sc.ptr())
            data = c.get('data', b'seed')
            b = Guard(len(data), data)
            L[P + 'i_keccak256_inject'](sc.ptr(), b.ptr(), ctypes.c_size_t(len(data)))
            b.free()
            L[P + 'i_keccak256_flip'](sc.ptr())
            stream = keccak.keccak_stream(data)
            if 'first' in c:
                L.vx_out(sc.ptr(), c['first'])
                stream = itertools.chain(c['first'], stream)
            L[P + 'keccak_hash_to_point_vartime'](sc.ptr(), x.ptr(), c['logn'])
        want = keccak.hash_to_point(stream, n)
        got = native.un16(x.bytes())
        if not x.ok() or not sc.ok():
            return 'write outside the buffers'
        if list(got) != want:
            j = [a != b for a, b in zip(got, want)].index(True)
            return 'element %d is %d instead of %d' % (j, got[j], want[j])
        x.free()
        sc.free()
    return native.run_cases(h2p_cases(seed), test, budget)
