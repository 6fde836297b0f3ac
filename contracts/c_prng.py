"""Contracts of the generator of rng.c and of the samplers of sign.c and keygen.c.

The generator is Falcon's ChaCha20: refill writes eight blocks, words interleaved, and advances the 64-bit counter by
eight.  A sampler's generator argument enters as a stream of fresh bytes; the floating-point operations enter by contract
(C14) as functions of their operands.
"""
import z3
import bv
import csrc
from auto import Auto, scalars
from bv import BV
from symex import Engine, State, Ptr, NULL, LoopSpec, Unsupported, select
from runner import UnitResult

PFX = 'falcon_inner_'
BV64, B8 = z3.BitVecSort(64), z3.BitVecSort(8)
BUF, PTR, STATE, PSIZE = 512, 512, 520, 784
ROUNDS = 10


def K(v, w):
    return z3.BitVecVal(v, w)


# ------------------------------------------------------------------ ChaCha20
def rotl(x, n):
    b = bv.tobits(x, 32)
    return bv.frombits(tuple(b[32 - n:]) + tuple(b[:32 - n]))


def block(words, lo, hi):
    """one block of Falcon's ChaCha20 on symbolic words: 12 words of state, counter words lo and hi"""
    init = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(words[:10]) + [bv.xor(words[10], lo, 32), bv.xor(words[11], hi, 32)]
    x = list(init)

    def q(a, b, c, d):
        for p, r, s, n in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
            x[p] = bv.add(x[p], x[r], 32)
            x[s] = rotl(bv.xor(x[s], x[p], 32), n)
    for _ in range(ROUNDS):
        for i in range(4):
            q(i, i + 4, i + 8, i + 12)
        for i in range(4):
            q(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
    return [bv.add(a, b, 32) for a, b in zip(x, init)]


def same(E, st, name, a, b, w):
    """equality, by the terms themselves when they coincide (chains of twenty rounds are beyond a solver)"""
    za, zb = bv.z(a, w), bv.z(b, w)
    if za.eq(zb) or z3.simplify(za).eq(z3.simplify(zb)):
        E.prove(name, st, True)
    else:
        E.prove(name, st, za == zb, timeout=3000)


def refill_unit(u0):
    """one of the eight blocks per unit"""
    def f():
        E = Engine([csrc.module('rng.c')], timeout=5000)
        st = State()
        p = E.new_obj(st, 'prng', PSIZE)
        for i in range(12):
            p.cells[STATE + 4 * i] = (4, bv.var('w%d' % i, 32))
        cc = bv.var('cc', 64)
        p.cells[STATE + 48] = (8, cc)
        for i in range(56, 256, 8):
            p.cells[STATE + i] = (8, bv.var('rest%d' % i, 64))
        p.cells[PTR] = (8, bv.var('ptr', 64))
        for i in range(0, BUF, 8):
            p.cells[i] = (8, bv.var('old%d' % i, 64))
        ws = [bv.var('w%d' % i, 32) for i in range(12)]
        for s, r in E.call(PFX + 'prng_refill', [Ptr(p.id)], st):
            o = s.mem[p.id]
            for u in u0:
                ctr = bv.add(cc, u, 64)
                out = block(ws, bv.trunc(ctr, 64, 32), bv.trunc(bv.lshr(ctr, 32, 64), 64, 32))
                for v in range(16):
                    same(E, s, 'prng_refill: word %d of block %d, interleaved' % (v, u), E._cells_load(o, 4 * u + 32 * v, 4), out[v], 32)
            if 0 in u0:
                same(E, s, 'prng_refill: the counter advances by eight', E._cells_load(o, STATE + 48, 8), bv.add(cc, 8, 64), 64)
                same(E, s, 'prng_refill: the whole buffer is unread', E._cells_load(o, PTR, 8), 0, 64)
                for i in range(12):
                    same(E, s, 'prng_refill: key and nonce stay (word %d)' % i, E._cells_load(o, STATE + 4 * i, 4), ws[i], 32)
        return UnitResult().from_engine(E)
    return f


def prng_init_unit():
    E = Engine([csrc.module('rng.c')], timeout=20000)
    st = State()
    p = E.new_obj(st, 'prng', PSIZE)
    src = E.new_obj(st, 'src', 208)
    S = [bv.var('seed%d' % i, 8) for i in range(56)]

    def extract(E, s, a, fr):
        E.prove('prng_init: seeds itself from the given context', s, isinstance(a[0], Ptr) and a[0].obj == src.id and a[0].k == 0)
        E.prove('prng_init: 56 bytes of seed', s, bv.icmp('eq', a[2], 56, 64))
        E.prove('prng_init: one seed', s, s.ghost.get('seeded', 0) == 0)
        s.ghost['seeded'] = 1
        for i in range(56):
            E.store(s, a[1].plus_const(i), 1, S[i], 'extract')

    def refill(E, s, a, fr):
        ok = isinstance(a[0], Ptr) and a[0].obj == p.id and a[0].k == 0
        E.prove('prng_init: refills its own buffer', s, ok)
        o = s.mem[p.id]
        for i in range(56):
            E.prove('prng_init: byte %d of the state is byte %d of the seed' % (i, i), s, bv.icmp('eq', E._cells_load(o, STATE + i, 1), S[i], 8))
        s.ghost['refilled'] = s.ghost.get('refilled', 0) + 1
    E.contracts = {PFX + 'i_shake256_extract': extract, PFX + 'prng_refill': refill}
    for s, r in E.call(PFX + 'prng_init', [Ptr(p.id), Ptr(src.id)], st):
        E.prove('prng_init: ends with one refill', s, s.ghost.get('refilled', 0) == 1)
    return UnitResult().from_engine(E)


# ------------------------------------------------------------------ reading the stream
FIELDS = {PTR: 8}


def stream_state(E, st):
    p = E.new_obj(st, 'prng', PSIZE)
    p.scal = dict(FIELDS)
    ptr = z3.BitVec('ptr0', 64)
    p.cells[PTR] = (8, bv.mk(64, ptr))
    A = z3.Array('P0', BV64, B8)
    E.make_arr(p, 1, A)
    return p, ptr, A


def refill_contract(p):
    """a refill: new bytes in the buffer, nothing read yet (refill_unit)"""
    def f(E, s, a, fr):
        E.prove('refill of the generator in use', s, isinstance(a[0], Ptr) and a[0].obj == p.id and not a[0].t and a[0].k == 0)
        n = s.ghost.get('refills', 0)
        s.ghost['refills'] = n + 1
        o = s.wobj(p.id)
        N = z3.FreshConst(z3.ArraySort(BV64, B8), 'refilled')
        s.ghost['fresh'] = N
        i = z3.FreshConst(BV64, 'i')
        o.arr = z3.Lambda([i], z3.If(z3.ULT(i, BUF), z3.Select(N, i), z3.Select(o.arr, i)))
        o.cells[PTR] = (8, 0)
    return f


def get_unit():
    """prng_get_u64 and prng_get_u8, from any state with a non-empty buffer"""
    R = UnitResult()
    for fn, n in (('prng_get_u64', 8), ('prng_get_u8', 1)):
        E = Engine([csrc.module('sign.c')], timeout=30000)
        E.merge_ret = False
        st = State()
        p, ptr, A = stream_state(E, st)
        st.assume(z3.ULT(ptr, BUF))
        E.contracts[PFX + 'prng_refill'] = refill_contract(p)
        for s, r in E.call(fn, [Ptr(p.id)], st):
            k = s.ghost.get('refills', 0)
            now = bv.z(s.mem[p.id].cells[PTR][1], 64)
            E.prove('%s: at most one refill' % fn, s, k <= 1)
            if n == 8:
                dropped = z3.UGE(ptr, BUF - 9)
                E.prove('prng_get_u64: refills exactly when fewer than ten bytes are left', s, dropped if k else z3.Not(dropped))
                B = s.ghost['fresh'] if k else A
                at = K(0, 64) if k else ptr
                want = z3.Concat(*[z3.Select(B, at + 7 - i) for i in range(8)])
                E.prove('prng_get_u64: the next eight bytes, little-endian', s, bv.z(r, 64) == want)
                E.prove('prng_get_u64: eight bytes consumed', s, now == at + 8)
            else:
                last = ptr == BUF - 1
                E.prove('prng_get_u8: refills exactly when the buffer is used up', s, last if k else z3.Not(last))
                E.prove('prng_get_u8: the next byte', s, bv.z(r, 32) == z3.ZeroExt(24, z3.Select(A, ptr)))
                E.prove('prng_get_u8: one byte consumed', s, now == (K(0, 64) if k else ptr + 1))
            E.prove('%s: the buffer is never left empty' % fn, s, z3.ULT(now, BUF))
        R.from_engine(E)
    return R


class BytesLoop(Auto):
    """get_bytes: what is delivered so far is the stream so far (ghost: number of bytes, and the byte at any index J)"""
    ghost = ('k', 'gb')

    def __init__(self, U):
        Auto.__init__(self, PFX + 'prng_get_bytes', 0, 'chunks')
        self.U = U

    def candidates(self, E, L):
        U = self.U
        s = L.st
        ptr = bv.z(s.mem[U.p.id].cells[PTR][1], 64)
        k = bv.z(s.ghost['k'], 64)
        c = [('not more bytes than requested', z3.ULE(k, U.n)), ('the buffer is never empty', z3.ULT(ptr, BUF)),
             ('delivered bytes are the stream', z3.Implies(z3.ULT(U.J, k), select(s.mem[U.out.id].arr, U.J) == bv.z(s.ghost['gb'], 8)))]
        for x, zx, sx, w in scalars(L, (64,)):
            c += [('%s is left to deliver' % x, zx == U.n - k), ('%s is delivered' % x, zx == k), ('%s is the length' % x, zx == U.n)]
        for x, ids in L.fr.locals.items():
            o = s.mem.get(ids[-1])
            v = o.cells.get(0) if o is not None and o.arr is None else None
            if v is not None and isinstance(v[1], Ptr) and v[1].obj == U.out.id:
                c.append(('%s advances' % x, bv.z(v[1].off(), 64) == k))
        return c

    def ghosts(self, E, L):
        """bytes delivered by this iteration: the unread part of the buffer if it is refilled, else what the position advances"""
        U = self.U
        s, h = L.st, L.head
        o, oh = s.mem[U.p.id], h.mem[U.p.id]
        k = bv.z(h.ghost['k'], 64)
        ptr = bv.z(oh.cells[PTR][1], 64)
        c = BUF - ptr if s.ghost['refilled'] else bv.z(o.cells[PTR][1], 64) - ptr
        s.ghost['gb'] = bv.mk(8, z3.If(z3.And(z3.UGE(U.J, k), z3.ULT(U.J, k + c)), select(oh.arr, ptr + (U.J - k)), bv.z(h.ghost['gb'], 8)))
        s.ghost['k'] = bv.mk(64, k + c)
        n, s.ghost['refilled'] = len(s.ghost['refilled']), ()
        return n, c, ptr, o, oh

    def step(self, E, L):
        s = L.st
        n, c, ptr, o, oh = self.ghosts(E, L)
        E.prove('prng_get_bytes: a chunk lies in the unread part of the buffer', s, z3.And(z3.UGE(c, 1), z3.ULE(c, BUF - ptr)))
        I = z3.BitVec('any_position', 64)
        if n:
            E.prove('prng_get_bytes: at the end of the buffer it is refilled, once', s, z3.And(bv.z(o.cells[PTR][1], 64) == 0, z3.BoolVal(n == 1)))
        else:
            E.prove('prng_get_bytes: no refill before the buffer is used up', s, z3.And(ptr + c != BUF, z3.Implies(z3.ULT(I, BUF), select(o.arr, I) == select(oh.arr, I))))

    def decreases(self, E, L):
        return z3.ULT(self.U.n - bv.z(L.st.ghost['k'], 64), self.U.n - bv.z(L.head.ghost['k'], 64))


def get_bytes_unit():
    E = Engine([csrc.module('rng.c')], timeout=30000)
    E.merge_ret = False
    st = State()
    p, ptr, A = stream_state(E, st)
    n = z3.BitVec('len', 64)
    st.assume(z3.ULT(ptr, BUF))
    st.assume(z3.ULT(n, 1 << 62))
    U = type('U', (), {})()
    U.p, U.n = p, n
    U.J = z3.BitVec('any_index', 64)
    U.out = E.new_obj(st, 'out', bv.mk(64, n))
    E.make_arr(U.out, 1, z3.Array('OUT', BV64, B8))
    st.ghost.update(k=0, gb=bv.var('gb0', 8), refilled=())
    inner = refill_contract(p)

    def refill(E, s, a, fr):
        E.prove('prng_get_bytes: refills a used-up buffer only', s, bv.icmp('eq', s.mem[p.id].cells[PTR][1], BUF, 64))
        g = dict(s.ghost)
        inner(E, s, a, fr)
        s.ghost = dict(g, refilled=g['refilled'] + ('refill',))
    E.contracts[PFX + 'prng_refill'] = refill
    E.loop_specs = [BytesLoop(U)]
    for s, r in E.call(PFX + 'prng_get_bytes', [Ptr(p.id), Ptr(U.out.id), bv.mk(64, n)], st):
        E.prove('prng_get_bytes: as many bytes as requested', s, bv.z(s.ghost['k'], 64) == n)
        E.prove('prng_get_bytes: byte J is the J-th byte of the stream', s, z3.Implies(z3.ULT(U.J, n), select(s.mem[U.out.id].arr, U.J) == bv.z(s.ghost['gb'], 8)))
    return UnitResult().from_engine(E)


# ------------------------------------------------------------------ samplers
RCDT = [3024686241123004913666, 1564742784480091954050, 636254429462080897535, 199560484645026482916, 47667343854657281903,
        8595902006365044063, 1163297957344668388, 117656387352093658, 8867391802663976, 496969357462633, 20680885154299, 638331848991,
        14602316184, 247426747, 3104126, 28824, 198, 1]


def bytes_contract(tag='read'):
    """get_u64 / get_u8 of a generator: fresh bytes, in order (get_unit)"""
    def rd(n):
        def f(E, s, a, fr):
            E.prove('%s: reads its own generator' % fr.func.name, s, isinstance(a[0], Ptr) and not a[0].t and (a[0].obj, a[0].k) == s.ghost['rng'])
            k = s.ghost.get('read', 0)
            s.ghost['read'] = k + n
            b = [z3.BitVec('byte%d' % (k + i), 8) for i in range(n)]
            if n == 1:
                return bv.zext(bv.mk(8, b[0]), 8, 32)
            return bv.frombits(sum([bv.mk(8, x).bits for x in b], ()))
        return f
    return {'prng_get_u64': rd(8), 'prng_get_u8': rd(1)}


def gaussian0_unit():
    E = Engine([csrc.module('sign.c')], timeout=60000)
    st = State()
    p = E.new_obj(st, 'prng', PSIZE)
    st.ghost['rng'] = (p.id, 0)
    E.contracts = bytes_contract()
    for s, r in E.call(PFX + 'gaussian0_sampler', [Ptr(p.id)], st):
        E.prove('gaussian0_sampler: nine bytes are read', s, s.ghost.get('read', 0) == 9)
        V = z3.Concat(*[z3.BitVec('byte%d' % i, 8) for i in range(8, -1, -1)])
        # the table is decreasing, so the count is settled by comparing with each threshold
        rr = bv.z(r, 32)
        E.prove('gaussian0_sampler: at most 18', s, z3.ULE(rr, 18))
        for i, t in enumerate(RCDT):
            E.prove('gaussian0_sampler: above %d exactly when the 72-bit integer is below table value %d' % (i, i), s, z3.UGT(rr, i) == z3.ULT(V, K(t, 72)))
    return UnitResult().from_engine(E)


def fun(name, *ws):
    def f(*a):
        F = z3.Function('contract_' + name, *[z3.BitVecSort(w) for w in ws])
        return F(*[x if z3.is_expr(x) else bv.z(x, w) for x, w in zip(a, ws)])
    f.ws = ws
    return f


FADD, FMUL = fun('fpr_add', 64, 64, 64), fun('fpr_mul', 64, 64, 64)
FOF, FTRUNC, FFLOOR, FHALF, FEXP = fun('fpr_of', 64, 64), fun('fpr_trunc', 64, 64), fun('fpr_floor', 64, 64), fun('fpr_half', 64, 64), fun('fpr_expm', 64, 64, 64)
SIGN = 1 << 63
INV2S0, LOG2, INVLOG2 = 4594603506513722306, 4604418534313441775, 4609176140021203710


def fpr_contracts():
    def mk(f):
        return lambda E, s, a, fr: bv.mk(64, f(*a))
    c = {PFX + 'fpr_add': mk(FADD), PFX + 'fpr_mul': mk(FMUL), 'fpr_of': mk(FOF), 'fpr_trunc': mk(FTRUNC), 'fpr_floor': mk(FFLOOR), 'fpr_half': mk(FHALF),
         PFX + 'fpr_expm_p63': mk(FEXP), 'fpr_sqr': lambda E, s, a, fr: bv.mk(64, FMUL(a[0], a[0])),
         'fpr_sub': lambda E, s, a, fr: bv.mk(64, FSUB(a[0], a[1])), 'fpr_neg': lambda E, s, a, fr: bv.xor(a[0], SIGN, 64)}

    def scaled(E, s, a, fr):
        if a[1] == 0:
            return bv.mk(64, FOF(a[0]))
        raise Unsupported('fpr_scaled')
    c[PFX + 'fpr_scaled'] = scaled
    return c


def FSUB(x, y):
    """x - y: the sum with the opposite (C14)"""
    y = y if z3.is_expr(y) else bv.z(y, 64)
    return FADD(x, y ^ K(SIGN, 64))


def berexp_unit():
    E = Engine([csrc.module('sign.c')], timeout=60000)
    E.merge_ret = None      # one state per number of bytes read
    st = State()
    p = E.new_obj(st, 'prng', PSIZE)
    st.ghost['rng'] = (p.id, 0)
    E.contracts = dict(bytes_contract(), **fpr_contracts())
    x, ccs = z3.BitVec('x', 64), z3.BitVec('ccs', 64)
    q = FTRUNC(FMUL(x, K(INVLOG2, 64)))
    # x >= 0 and the product fits a 32-bit integer (contract of the caller)
    st.assume(z3.And(q >= 0, q < 1 << 31))
    s0 = z3.Extract(31, 0, q)
    r0 = FSUB(x, FMUL(FOF(z3.SignExt(32, s0)), K(LOG2, 64)))
    sat = z3.If(z3.UGT(q, 63), K(63, 64), q)
    Z = z3.LShR((FEXP(r0, ccs) << 1) - 1, sat)
    # whichever order the factors are written in
    for s, r in E.call('BerExp', [Ptr(p.id), bv.mk(64, x), bv.mk(64, ccs)], st):
        n = s.ghost.get('read', 0)
        E.prove('BerExp: one to eight bytes are read', s, 1 <= n <= 8)
        B = z3.Concat(*[z3.BitVec('byte%d' % i, 8) for i in range(8)])
        E.prove('BerExp: accepts exactly when the random 64-bit integer is below the probability (%d bytes read)' % n, s,
                bv.z(r, 32) == z3.If(z3.ULT(B, Z), K(1, 32), K(0, 32)))
        for i in range(1, n):
            hi = 63 - 8 * (i - 1)
            E.prove('BerExp: byte %d is read only if the bytes before it are equal' % i, s, z3.Extract(hi, hi - 7, Z) == z3.BitVec('byte%d' % (i - 1), 8))
    return UnitResult().from_engine(E)


class Attempts(LoopSpec):
    name = 'attempts'
    ghost = ()

    def __init__(self, fn):
        LoopSpec.__init__(self, fn, 0)

    def invariants(self, E, L):
        return []


def sampler_unit():
    E = Engine([csrc.module('sign.c')], timeout=30000)
    E.merge_ret = False
    st = State()
    ctx = E.new_obj(st, 'ctx', PSIZE + 8)
    smin = bv.var('sigma_min', 64)
    ctx.cells[PSIZE] = (8, smin)
    mu, isig = z3.BitVec('mu', 64), z3.BitVec('isigma', 64)
    st.ghost['rng'] = (ctx.id, 0)
    st.assume(z3.And(FFLOOR(mu) >= -(1 << 30), FFLOOR(mu) < 1 << 30))
    z0, byte = z3.BitVec('z0', 32), z3.BitVec('bit', 8)
    st.assume(z3.ULE(z0, 18))
    sf = FFLOOR(mu)
    r = FSUB(mu, FOF(sf))
    dss = FHALF(FMUL(isig, isig))
    ccs = [FMUL(isig, smin.e), FMUL(smin.e, isig)]
    b = z3.ZeroExt(31, z3.Extract(0, 0, byte))
    z = b + ((b << 1) - 1) * z0

    def order(s, what, n):
        at = s.ghost.get('at', 0)
        at = at if isinstance(at, int) else 0              # unknown at the head of the loop: an attempt begins
        E.prove('sampler: %s at its place in the attempt' % what, s, at == n)
        s.ghost['at'] = n + 1

    def own(s, a, what):
        E.prove('sampler: %s uses the generator of the context' % what, s, isinstance(a[0], Ptr) and not a[0].t and (a[0].obj, a[0].k) == s.ghost['rng'])

    def g0(E, s, a, fr):
        own(s, a, 'the half-Gaussian')
        order(s, 'the half-Gaussian', 0)
        return bv.mk(32, z0)

    def u8(E, s, a, fr):
        own(s, a, 'the sign')
        order(s, 'the sign', 1)
        return bv.mk(32, z3.ZeroExt(24, byte))

    def ber(E, s, a, fr):
        own(s, a, 'the rejection')
        order(s, 'the rejection', 2)
        d = FSUB(FOF(z3.SignExt(32, z)), r)
        want = FSUB(FMUL(FMUL(d, d), dss), FMUL(FOF(z3.SignExt(32, z0 * z0)), K(INV2S0, 64)))
        E.prove('sampler: exponent of the acceptance probability', s, bv.z(a[1], 64) == want)
        E.prove('sampler: scale of the acceptance probability', s, z3.Or(*[bv.z(a[2], 64) == c for c in ccs]))
        return bv.zext(bv.fresh('accept', 1), 1, 32)
    E.contracts = dict(fpr_contracts(), **{PFX + 'gaussian0_sampler': g0, 'prng_get_u8': u8, 'BerExp': ber})

    class A(Attempts):
        ghost = ()

        def step(self, E, L):
            E.prove('sampler: an attempt draws a half-Gaussian, a sign and a decision', L.st, L.st.ghost.get('at', 0) == 3)
            L.st.ghost['at'] = 0
    E.loop_specs = [A(PFX + 'sampler')]
    st.ghost['at'] = 0
    for s, v in E.call(PFX + 'sampler', [Ptr(ctx.id), bv.mk(64, mu), bv.mk(64, isig)], st):
        E.prove('sampler: ends after a decision', s, s.ghost.get('at', 0) == 3)
        acc = [c for c in s.pc if 'accept' in str(c)]
        E.prove('sampler: only an accepted candidate is returned', s, len(acc) == 1 and E.holds(s, acc_true(s)))
        E.prove('sampler: the candidate plus the integer part of the centre', s, bv.z(v, 32) == z3.Extract(31, 0, sf) + z)
    return UnitResult().from_engine(E)


SIGMA_MIN = [0, 4607707126469777035, 4607777455861499430, 4607846828256951418, 4607949175006100261, 4608049571757433526,
             4608148125896792003, 4608244935301382692, 4608340089478362016, 4608433670533905013, 4608525754002622308]


def sign_unit(fn, nkey):
    """sign_dyn / sign_tree: every attempt runs with a generator seeded afresh, the sampler and sigma_min of the degree"""
    def f():
        R = UnitResult()
        for logn in range(1, 11):
            E = Engine([csrc.module('sign.c')], timeout=20000)
            E.merge_ret = False
            st = State()
            n = 1 << logn
            sig, tmp = E.new_obj(st, 'sig', 2 * n), E.new_obj(st, 'tmp', 78 * n)
            rng, hm = E.new_obj(st, 'rng', 208), E.new_obj(st, 'hm', 2 * n, writable=False)
            keys = [E.new_obj(st, 'key%d' % i, 8 * 2 * n * 11 if nkey == 1 else n, writable=False) for i in range(nkey)]
            nm = '%s(logn=%d): ' % (fn, logn)

            def is_ptr(p, o):
                return isinstance(p, Ptr) and p.obj == o.id and not p.t and p.k == 0

            def init(E, s, a, fr):
                E.prove(nm + 'the generator is seeded from the given context', s, is_ptr(a[1], rng))
                E.prove(nm + 'one generator', s, isinstance(a[0], Ptr) and not a[0].t and a[0].k == 0)
                s.ghost['ctx'] = a[0].obj

            def attempt(E, s, a, fr):
                c = s.ghost.get('ctx')
                ok = isinstance(a[1], Ptr) and not a[1].t and a[1].k == 0 and a[1].obj == c
                E.prove(nm + 'an attempt draws from a generator seeded for it', s, ok)
                s.ghost['ctx'] = -1
                if ok:
                    E.prove(nm + 'sigma_min of the degree', s, bv.icmp('eq', E._cells_load(s.mem[c], PSIZE, 8), SIGMA_MIN[logn], 64))
                E.prove(nm + 'the attempt uses the sampler', s, getattr(a[0], 'why', None) == 'function pointer ' + PFX + 'sampler')
                E.prove(nm + 'signature, key, hashed point, degree and scratch space are passed on', s, is_ptr(a[2], sig) and all(is_ptr(x, k) for x, k in zip(a[3:], keys)) and
                        is_ptr(a[3 + nkey], hm) and a[4 + nkey] == logn and is_ptr(a[5 + nkey], tmp))
                r = bv.fresh('short', 1)
                s.ghost['last'] = r
                return bv.zext(r, 1, 32)
            E.contracts = {PFX + 'prng_init': init, 'do_' + fn: attempt}

            class T(LoopSpec):
                name = 'attempts'
                ghost = ('last',)

                def invariants(self, E, L):
                    return []
            E.loop_specs = [T(PFX + fn, 0)]
            st.ghost['ctx'] = -1
            st.ghost['last'] = bv.var('none', 1)
            for s, r in E.call(PFX + fn, [Ptr(sig.id), Ptr(rng.id)] + [Ptr(k.id) for k in keys] + [Ptr(hm.id), logn, Ptr(tmp.id)], st):
                E.prove(nm + 'ends with a successful attempt', s, bv.icmp('eq', s.ghost['last'], 1, 1))
            R.from_engine(E)
        return R
    return f


def acc_true(s):
    """the decision of this attempt was 1"""
    for c in s.pc:
        for d in vars_of(c):
            if str(d).startswith('accept'):
                return d == 1
    return z3.BoolVal(False)


def vars_of(e, seen=None):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def units():
    u = [('prng_refill block %d' % i, refill_unit([i])) for i in range(8)]
    u += [('prng_init', prng_init_unit), ('prng_get_u64, prng_get_u8', get_unit), ('prng_get_bytes', get_bytes_unit),
          ('gaussian0_sampler', gaussian0_unit), ('BerExp', berexp_unit), ('sampler', sampler_unit),
          ('sign_dyn', sign_unit('sign_dyn', 4)), ('sign_tree', sign_unit('sign_tree', 1))]
    return u
