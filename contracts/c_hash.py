"""Contracts of the hash layer: Keccak-f[1600], the SHAKE256 sponge, Keccak-256, the Keccak PRNG, hash-to-point."""
import z3
import bv
import csrc
import keccak
import anf
from symex import Engine, State, Ptr, NULL, LoopSpec, Unsupported, BV64
from auto import Auto
from runner import UnitResult

PFX = 'falcon_inner_'


# ------------------------------------------------------------------ the permutation
def permutation_unit(cfile, fn):
    def run():
        E = Engine([csrc.module(cfile)])
        E.merge_ret = False
        st = State()
        o = E.new_obj(st, 'A', 200)
        ins = []
        N = anf.ANF()
        for i in range(25):
            v = z3.BitVec('A%d' % i, 64)
            o.cells[8 * i] = (8, bv.mk(64, v))
            a = N.new()
            N.atoms['A%d' % i] = a
            ins.append(a)
        res = E.call(fn, [Ptr(o.id)], st, csrc.module(cfile))
        if len(res) != 1:
            raise Unsupported('%s: several exits' % fn)
        s, _ = res[0]
        A = ins
        for r in range(24):
            A = anf.keccak_round(N, A, keccak.RC[r], keccak.RHO)
        R = UnitResult().from_engine(E)
        for i in range(25):
            v = E._cells_load(s.mem[o.id], 8 * i, 8)
            try:
                got = N.word(bv.z(v, 64))
                R.check('%s: lane %d is lane %d of Keccak-f[1600]' % (fn, i, i), got == A[i], backend='GF(2) polynomial normal form')
            except Unsupported as e:
                R.add('%s: lane %d is lane %d of Keccak-f[1600]' % (fn, i, i), 'unknown', 0, 'GF(2) polynomial normal form', str(e))
        return R
    return run


# ------------------------------------------------------------------ SHAKE256 sponge, one byte at a time
A25 = z3.ArraySort(BV64, z3.BitVecSort(64))
RATE = 136


def lanes_eq(a, b):
    return z3.And(*[z3.Select(a, i) == z3.Select(b, i) for i in range(25)])


def same_lanes(E, st, a, b, what):
    """25 obligations: the two states have the same lanes"""
    for i in range(25):
        x, y = z3.Select(a, z3.BitVecVal(i, 64)), z3.Select(b, z3.BitVecVal(i, 64))
        if a.eq(b):
            E.trivial += 1
        else:
            E.prove('%s: lane %d' % (what, i), st, x == y)


def permute_contract(sc):
    """process_block on the state: the reference automaton must be at a full block with the same lanes"""
    def c(E, st, a, fr):
        p = a[0]
        if p.obj != sc.id or not p.concrete() or p.k:
            raise Unsupported('permutation of something else than the state')
        o = st.wobj(sc.id)
        if o.arr is None:
            E.make_arr(o, 8)
        E.prove('permutation exactly when the block is full', st, bv.z(st.ghost['gd'], 64) == RATE)
        same_lanes(E, st, o.arr, st.ghost['GA'], 'permutation input is the state of the reference sponge')
        R = z3.FreshConst(A25, 'F')
        o.arr = z3.Store(R, z3.BitVecVal(25, 64), z3.Select(o.arr, z3.BitVecVal(25, 64)))
        st.ghost['GA'] = R
        st.ghost['gd'] = 0
        return None
    return c


def sponge_state(E, name='sc'):
    st = State()
    sc = E.new_obj(st, name, 208)
    S0 = z3.Const('S0', A25)
    E.make_arr(sc, 8, S0)
    return st, sc, S0


class ByteLoop(Auto):
    """a loop over the bytes of a request, whatever its variables are called: the ghosts are the reference sponge (lanes GA, position gd)
    and the number k of bytes done; the relations of the variables to them are inferred, then proved"""
    ghost = ('GA', 'gd', 'k')
    inner = False

    def __init__(self, fn, ordinal, U):
        Auto.__init__(self, PFX + fn, ordinal, 'loop%d' % ordinal)
        self.U = U

    def begin(self, E, L):
        self.alive = None

    def base(self, E, L, k, gd):
        return []

    def candidates(self, E, L):
        from symex import View
        U = self.U
        k, gd = [bv.z(L.st.ghost[x], 64) for x in ('k', 'gd')]
        c = [('bytes done', z3.ULE(k, U.n)), ('lanes of the reference sponge', lanes_eq(L.st.mem[U.sc.id].arr, L.st.ghost['GA']))]
        c += self.base(E, L, k, gd)
        entry = {}
        if self.inner:
            k0, g0 = [bv.z(L.entry.ghost[x], 64) for x in ('k', 'gd')]
            r = k - k0
            entry = {x: e for x, e, w in View(E, L.fr, L.entry, L.entry).words() if w == 64}
            c.append(('position moves with the bytes', z3.And(gd == g0 + r, z3.ULE(r, RATE))))
        for x, e, w in L.words():
            if w == 64:
                v = bv.z(e, 64)
                c += [(x + ' is the number of bytes left', v == U.n - k), (x + ' is the number of bytes done', v == k),
                      (x + ' is the position', v == gd), (x + ' is the room in the block', v == RATE - gd)]
                if x in entry:
                    x0 = bv.z(entry[x], 64)
                    c += [(x + ' counts up', v == x0 + r), (x + ' counts down', v == x0 - r), (x + ' is not exceeded', z3.ULE(r, x0))]
            elif w == 0 and e.obj == U.io:
                off = bv.z(e.off(), 64)
                c += [(x + ' moves', off == k), (x + ' stays', off == 0)]
                if self.inner:
                    c.append((x + ' stays where the piece began', off == k0))
        return c

    def decreases(self, E, L):
        k, kh = bv.z(L.st.ghost['k'], 64), bv.z(L.head.ghost['k'], 64)
        return z3.And(z3.ULT(kh, k), z3.ULE(k, self.U.n))


def absorb(GA, gd, byte):
    i = z3.LShR(gd, 3)
    return z3.Store(GA, i, z3.Select(GA, i) ^ (z3.ZeroExt(56, byte) << ((gd & 7) << 3)))


class InjectOuter(ByteLoop):
    def base(self, E, L, k, gd):
        return [('position below the rate', z3.ULT(gd, RATE))]


class InjectInner(ByteLoop):
    inner = True

    def base(self, E, L, k, gd):
        return [('position within the block', z3.ULE(gd, RATE))]

    def ghosts(self, E, L):
        h = L.head.ghost
        gd, k = bv.z(h['gd'], 64), bv.z(h['k'], 64)
        E.prove('inject: reference sponge absorbs below the rate', L.st, z3.ULT(gd, RATE))
        L.st.ghost['GA'] = absorb(h['GA'], gd, z3.Select(self.U.IN, k))
        L.st.ghost['gd'] = bv.mk(64, gd + 1)
        L.st.ghost['k'] = bv.mk(64, k + 1)


class U_:
    pass


def engine_shake():
    E = Engine([csrc.module('shake.c')], timeout=60000)
    E.merge_ret = False
    return E


def shake_inject_unit():
    E = engine_shake()
    st, sc, S0 = sponge_state(E)
    U = U_()
    U.sc = sc
    U.n = z3.BitVec('len', 64)
    st.assume(z3.ULT(U.n, 1 << 62))
    U.IN = z3.Array('IN', BV64, z3.BitVecSort(8))
    i = E.new_obj(st, 'in', bv.mk(64, U.n), writable=False)
    E.make_arr(i, 1, U.IN)
    U.io = i.id
    d0 = z3.Select(S0, z3.BitVecVal(25, 64))
    st.assume(z3.ULT(d0, RATE))
    st.ghost.update(GA=S0, gd=bv.mk(64, d0), k=0)
    E.contracts['process_block'] = permute_contract(sc)
    E.loop_specs = [InjectOuter('i_shake256_inject', 0, U), InjectInner('i_shake256_inject', 1, U)]
    for s, r in E.call(PFX + 'i_shake256_inject', [Ptr(sc.id), Ptr(i.id), bv.mk(64, U.n)], st):
        g = s.ghost
        E.prove('inject: every byte absorbed once, in order', s, bv.z(g['k'], 64) == U.n)
        o = s.mem[sc.id]
        E.prove('inject: position stored, below the rate', s, z3.And(z3.Select(o.arr, z3.BitVecVal(25, 64)) == bv.z(g['gd'], 64), z3.ULT(bv.z(g['gd'], 64), RATE)))
        same_lanes(E, s, o.arr, g['GA'], 'inject: final state is that of the reference sponge')
    return UnitResult().from_engine(E)


def shake_flip_init_unit():
    E = engine_shake()
    st, sc, S0 = sponge_state(E)
    d0 = z3.Select(S0, z3.BitVecVal(25, 64))
    st.assume(z3.ULT(d0, RATE))
    for s, r in E.call(PFX + 'i_shake256_flip', [Ptr(sc.id)], st):
        o = s.mem[sc.id]
        G = absorb(S0, d0, z3.BitVecVal(0x1F, 8))
        G = absorb(G, z3.BitVecVal(RATE - 1, 64), z3.BitVecVal(0x80, 8))
        same_lanes(E, s, o.arr, G, 'flip: 0x1F padding and final bit')
        E.prove('flip: next extraction permutes first', s, z3.Select(o.arr, z3.BitVecVal(25, 64)) == RATE)
    st = State()
    sc = E.new_obj(st, 'sc', 208)
    for s, r in E.call(PFX + 'i_shake256_init', [Ptr(sc.id)], st):
        for i in range(26):
            v = E._cells_load(s.mem[sc.id], 8 * i, 8)
            E.prove('init: word %d is zero' % i, s, bv.icmp('eq', v, 0, 64))
    return UnitResult().from_engine(E)


class ExtractOuter(ByteLoop):
    def base(self, E, L, k, gd):
        return [('position within the block', z3.ULE(gd, RATE)), ('byte J of the output', self.U.byte(L))]


class ExtractInner(ExtractOuter):
    inner = True

    def ghosts(self, E, L):
        h = L.head.ghost
        gd, k = bv.z(h['gd'], 64), bv.z(h['k'], 64)
        E.prove('extract: reference sponge squeezes below the rate', L.st, z3.ULT(gd, RATE))
        b = z3.Extract(7, 0, z3.LShR(z3.Select(h['GA'], z3.LShR(gd, 3)), (gd & 7) << 3))
        L.st.ghost['gb'] = bv.mk(8, z3.If(k == self.U.J, b, bv.z(h['gb'], 8)))
        L.st.ghost['gd'] = bv.mk(64, gd + 1)
        L.st.ghost['k'] = bv.mk(64, k + 1)


def shake_extract_unit():
    E = engine_shake()
    st, sc, S0 = sponge_state(E)
    U = U_()
    U.sc = sc
    U.n = z3.BitVec('len', 64)
    st.assume(z3.ULT(U.n, 1 << 62))
    U.J = z3.BitVec('any_index', 64)
    out = E.new_obj(st, 'out', bv.mk(64, U.n))
    E.make_arr(out, 1, z3.Array('OUT', BV64, z3.BitVecSort(8)))
    U.io = out.id
    d0 = z3.Select(S0, z3.BitVecVal(25, 64))
    st.assume(z3.ULE(d0, RATE))
    st.ghost.update(GA=S0, gd=bv.mk(64, d0), k=0, gb=bv.var('gb0', 8))
    ByteLoop.ghost = ('GA', 'gd', 'k', 'gb')
    U.byte = lambda L: z3.Implies(z3.ULT(U.J, bv.z(L.st.ghost['k'], 64)), z3.Select(L.st.mem[out.id].arr, U.J) == bv.z(L.st.ghost['gb'], 8))
    E.contracts['process_block'] = permute_contract(sc)
    E.loop_specs = [ExtractOuter('i_shake256_extract', 0, U), ExtractInner('i_shake256_extract', 1, U)]
    for s, r in E.call(PFX + 'i_shake256_extract', [Ptr(sc.id), Ptr(out.id), bv.mk(64, U.n)], st):
        g = s.ghost
        E.prove('extract: as many bytes as requested', s, bv.z(g['k'], 64) == U.n)
        o = s.mem[sc.id]
        E.prove('extract: position stored', s, z3.And(z3.Select(o.arr, z3.BitVecVal(25, 64)) == bv.z(g['gd'], 64), z3.ULE(bv.z(g['gd'], 64), RATE)))
        same_lanes(E, s, o.arr, g['GA'], 'extract: final state is that of the reference sponge')
        E.prove('extract: byte J is the J-th byte squeezed', s, z3.Implies(z3.ULT(U.J, U.n), z3.Select(s.mem[out.id].arr, U.J) == bv.z(g['gb'], 8)))
    return UnitResult().from_engine(E)


# ------------------------------------------------------------------ Keccak-256
B8 = z3.BitVecSort(8)


def k256_engine():
    E = Engine([csrc.module('keccak256.c')], timeout=60000)
    E.merge_ret = False
    return E


def k256_block_unit():
    """sha3_process_block: the rate lanes are xored with the block, then the permutation runs once"""
    E = k256_engine()
    st = State()
    h, b = E.new_obj(st, 'hash', 200), E.new_obj(st, 'block', 136, writable=False)
    H = [bv.var('H%d' % i, 64) for i in range(25)]
    B = [bv.var('B%d' % i, 64) for i in range(17)]
    for i in range(25):
        h.cells[8 * i] = (8, H[i])
    for i in range(17):
        b.cells[8 * i] = (8, B[i])
    calls = []

    def perm(E, s, a, fr):
        if a[0].obj != h.id or not a[0].concrete() or a[0].k:
            raise Unsupported('permutation of something else')
        for i in range(25):
            want = H[i].e ^ B[i].e if i < 17 else H[i].e
            E.prove('process_block: permutation input lane %d' % i, s, bv.z(E._cells_load(s.mem[h.id], 8 * i, 8), 64) == want)
        o = s.wobj(h.id)
        for i in range(25):
            o.cells[8 * i] = (8, bv.var('F%d' % i, 64))
        calls.append(1)
    E.contracts['sha3_permutation'] = perm
    for s, r in E.call('sha3_process_block', [Ptr(h.id), Ptr(b.id)], st, csrc.module('keccak256.c')):
        E.prove('process_block: one permutation', s, len(calls) == 1)
        for i in range(25):
            E.prove('process_block: output lane %d' % i, s, bv.z(E._cells_load(s.mem[h.id], 8 * i, 8), 64) == z3.BitVec('F%d' % i, 64))
    st = State()
    c = E.new_obj(st, 'ctx', 400)
    for s, r in E.call('keccak_init', [Ptr(c.id)], st):
        for i in list(range(0, 392, 8)) + [392]:
            n = 2 if i == 392 else 8
            E.prove('keccak_init: field at %d is zero' % i, s, bv.icmp('eq', E._cells_load(s.mem[c.id], i, n), 0, 8 * n))
    return UnitResult().from_engine(E)


def k256_ctx(E, st):
    c = E.new_obj(st, 'ctx', 400)
    C0 = z3.Array('CTX', BV64, B8)
    E.make_arr(c, 1, C0)
    rest = z3.Concat(z3.Select(C0, z3.BitVecVal(393, 64)), z3.Select(C0, z3.BitVecVal(392, 64)))
    st.assume(z3.ULT(rest, RATE))
    st.ghost.update(GH=C0, gb=0)
    return c, C0, rest


def sel(E, st, p, k):
    """byte k (64-bit term) at pointer p"""
    o = st.mem[p.obj]
    from symex import select
    if o.arr is None:
        E.make_arr(st.wobj(p.obj), 1)
        o = st.mem[p.obj]
    return select(o.arr, bv.z(p.off(), 64) + k)


def block_contract(c, J, stream, what):
    def f(E, st, a, fr):
        ph, pb = a
        if ph.obj != c.id or not ph.concrete() or ph.k:
            raise Unsupported('block processed into something else than the context')
        E.sym_bounds(st, pb, RATE, what + ': block')
        gb = bv.z(st.ghost['gb'], 64)
        jr = z3.URem(J, RATE)
        E.prove(what + ': byte J of the block is that byte of the stream', st, sel(E, st, pb, jr) == stream(gb, jr))
        o = st.wobj(c.id)
        j2 = z3.URem(J, 200)
        from symex import select
        E.prove(what + ': chaining value is that of the previous block', st, select(o.arr, j2) == select(st.ghost['GH'], j2))
        F = z3.FreshConst(z3.ArraySort(BV64, B8), 'F')
        i = z3.FreshConst(BV64, 'i')
        old = o.arr
        o.arr = z3.Lambda([i], z3.If(z3.ULT(i, 200), z3.Select(F, i), z3.Select(old, i)))
        st.ghost['GH'] = F
        st.ghost['gb'] = bv.mk(64, gb + 1)
    return f


class UpdateLoop(LoopSpec):
    ghost = ('GH', 'gb')

    def __init__(self, U):
        LoopSpec.__init__(self, 'keccak_update', 0, name='blocks')
        self.U = U

    def invariants(self, E, L):
        from symex import select
        U = self.U
        size = z3.ZeroExt(48, bv.z(L.v('size'), 16))
        gb = bv.z(L.st.ghost['gb'], 64)
        o = L.st.mem[U.c.id]
        j2 = z3.URem(U.J, 200)
        return [('bytes consumed are whole blocks', z3.And(z3.ULE(gb * RATE, U.rest + U.n), z3.UGE(gb * RATE, U.rest), z3.ULE(gb, 500), size == U.rest + U.n - gb * RATE)),
                ('message pointer', bv.z(L.v('msg').off(), 64) == gb * RATE - U.rest),
                ('chaining value', select(o.arr, j2) == select(L.st.ghost['GH'], j2)),
                ('field rest', z3.Concat(select(o.arr, z3.BitVecVal(393, 64)), select(o.arr, z3.BitVecVal(392, 64))) == z3.Extract(15, 0, U.newrest))]

    def decreases(self, E, L):
        return z3.ULT(bv.z(L.v('size'), 16), bv.z(L.vh('size'), 16))


def k256_update_unit():
    from symex import select
    E = k256_engine()
    st = State()
    c, C0, rest16 = k256_ctx(E, st)
    U = U_()
    U.c, U.J = c, z3.BitVec('any_index', 64)
    size = bv.var('size', 16)
    U.n = z3.ZeroExt(48, size.e)
    U.rest = z3.ZeroExt(48, rest16)
    IN = z3.Array('IN', BV64, B8)
    m = E.new_obj(st, 'msg', bv.mk(64, U.n), writable=False)
    E.make_arr(m, 1, IN)
    total = U.rest + U.n
    U.newrest = z3.URem(total, RATE)

    def stream(gb, j):
        p = gb * RATE + j
        return z3.If(z3.ULT(p, U.rest), z3.Select(C0, p + 200), z3.Select(IN, p - U.rest))
    U.stream = stream
    E.contracts['sha3_process_block'] = block_contract(c, U.J, stream, 'keccak_update')
    E.loop_specs = [UpdateLoop(U)]
    for s, r in E.call('keccak_update', [Ptr(c.id), Ptr(m.id), size], st):
        o = s.mem[c.id]
        gb = bv.z(s.ghost['gb'], 64)
        E.prove('keccak_update: every whole block processed', s, z3.And(z3.ULE(gb, 500), z3.ULE(gb * RATE, total), z3.ULT(total - gb * RATE, RATE)))
        E.prove('keccak_update: number of pending bytes', s,
                z3.ZeroExt(48, z3.Concat(select(o.arr, z3.BitVecVal(393, 64)), select(o.arr, z3.BitVecVal(392, 64)))) == total - gb * RATE)
        E.prove('keccak_update: pending byte J', s, z3.Implies(z3.ULT(U.J, total - gb * RATE), select(o.arr, U.J + 200) == stream(gb, U.J)))
        j2 = z3.URem(U.J, 200)
        E.prove('keccak_update: chaining value', s, select(o.arr, j2) == select(s.ghost['GH'], j2))
    return UnitResult().from_engine(E)


def k256_final_unit():
    from symex import select
    E = k256_engine()
    st = State()
    c, C0, rest16 = k256_ctx(E, st)
    J = z3.BitVec('any_index', 64)
    rest = z3.ZeroExt(48, rest16)

    def stream(gb, j):
        b = z3.If(z3.ULT(j, rest), z3.Select(C0, j + 200), z3.If(j == rest, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        return b | z3.If(j == RATE - 1, z3.BitVecVal(0x80, 8), z3.BitVecVal(0, 8))
    E.contracts['sha3_process_block'] = block_contract(c, J, stream, 'keccak_final')
    res = E.new_obj(st, 'result', 32)
    E.make_arr(res, 1, z3.Array('RES', BV64, B8))
    for s, r in E.call('keccak_final', [Ptr(c.id), Ptr(res.id)], st):
        E.prove('keccak_final: one final block', s, bv.z(s.ghost['gb'], 64) == 1)
        E.prove('keccak_final: byte J of the digest', s, z3.Implies(z3.ULT(J, 32), select(s.mem[res.id].arr, J) == select(s.ghost['GH'], J)))
    return UnitResult().from_engine(E)


# ------------------------------------------------------------------ Keccak PRNG
BUF, BLEN, STATE, CTR, FIN, OBUF, OPOS, OLEN, KSIZE = 0, 4096, 4104, 4136, 4144, 4148, 4184, 4192, 4200


def fld(a, off, n):
    from symex import select
    return z3.Concat(*[select(a, z3.BitVecVal(off + i, 64)) for i in range(n - 1, -1, -1)])


def prng_engine():
    E = Engine([csrc.module('keccak_prng.c')], timeout=60000)
    E.merge_ret = False
    return E


def digest_contracts(E, what, expect, result):
    """init, one update, final: the contract of the three functions for a one-piece message.
    expect(E, st, p, n): obligations on the message; result(E, st) -> digest array"""
    def init(E, st, a, fr):
        st.ghost['ctx'] = (pk(a[0]), 0)

    def pk(p):
        return (p.obj, p.k)

    def update(E, st, a, fr):
        if st.ghost.get('ctx') != (pk(a[0]), 0):
            E.prove(what + ': one initialised update', st, False)
            return
        st.ghost['ctx'] = (pk(a[0]), 1)
        n = bv.zext(a[2], 16, 64)
        E.sym_bounds(st, a[1], n, what + ': hashed bytes')
        expect(E, st, a[1], bv.z(n, 64))

    def final(E, st, a, fr):
        if st.ghost.get('ctx') != (pk(a[0]), 1):
            E.prove(what + ': final follows one update', st, False)
            return
        st.ghost['ctx'] = None
        D = result(E, st)
        p = a[1]
        E.sym_bounds(st, p, 32, what + ': digest')
        o = st.wobj(p.obj)
        if o.arr is None:
            E.make_arr(o, 1)
        i = z3.FreshConst(BV64, 'i')
        d = i - bv.z(p.off(), 64)
        o.arr = z3.Lambda([i], z3.If(z3.ULT(d, 32), z3.Select(D, d), z3.Select(o.arr, i)))
    E.contracts.update(keccak_init=init, keccak_update=update, keccak_final=final)


FIELDS = {BLEN: 8, CTR: 8, FIN: 4, OPOS: 8, OLEN: 8}


class K_:
    """entry state of a context: byte array and scalar fields"""


def pf(o, off):
    n = FIELDS[off]
    return bv.z(o.cells[off][1], 8 * n)


def prng_state(E, st):
    """every field unconstrained; returns the object, its byte array and the entry values of the fields"""
    sc = E.new_obj(st, 'sc', KSIZE)
    sc.scal = dict(FIELDS)
    k = K_()
    for off, n in FIELDS.items():
        sc.cells[off] = (n, bv.var('sc_%d' % off, 8 * n))
    k.f = {off: pf(sc, off) for off in FIELDS}
    K0 = z3.Array('SC', BV64, B8)
    E.make_arr(sc, 1, K0)
    k.a = K0
    return sc, k


def bytepart(J):
    """J is the index of a byte of the buffer, the state or the output buffer"""
    return z3.Or(z3.ULT(J, BLEN), z3.And(z3.UGE(J, STATE), z3.ULT(J, STATE + 32)), z3.And(z3.UGE(J, OBUF), z3.ULT(J, OBUF + 32)))


def prng_init_unit():
    E = prng_engine()
    st = State()
    sc = E.new_obj(st, 'sc', KSIZE)
    for s, r in E.call(PFX + 'i_keccak256_init', [Ptr(sc.id)], st):
        E.prove('init: returns 0', s, bv.icmp('eq', r, 0, 32))
        for off, n in ((BLEN, 8), (CTR, 8), (FIN, 4), (OPOS, 8), (OLEN, 8)):
            E.prove('init: field at %d is zero' % off, s, bv.icmp('eq', E._cells_load(s.mem[sc.id], off, n), 0, 8 * n))
    for s, r in E.call(PFX + 'i_keccak256_init', [NULL], State()):
        E.prove('init: null context refused', s, bv.icmp('eq', r, 0xFFFFFFFF, 32))
    return UnitResult().from_engine(E)


def prng_inject_unit():
    from symex import select
    E = prng_engine()
    st = State()
    sc, K = prng_state(E, st)
    J = z3.BitVec('any_index', 64)
    n = z3.BitVec('len', 64)
    blen = K.f[BLEN]
    st.assume(z3.ULE(blen, 4096))
    st.assume(z3.ULT(n, 1 << 62))
    IN = z3.Array('IN', BV64, B8)
    m = E.new_obj(st, 'in', bv.mk(64, n), writable=False)
    E.make_arr(m, 1, IN)
    for s, r in E.call(PFX + 'i_keccak256_inject', [Ptr(sc.id), Ptr(m.id), bv.mk(64, n)], st):
        o = s.mem[sc.id]
        A = o.arr
        rr = bv.z(r, 32)
        fits = z3.And(K.f[FIN] == 0, z3.ULE(n + blen, 4096))
        E.prove('inject: succeeds exactly before finalisation and when the buffer can hold the data', s, (rr == 0) == fits)
        E.prove('inject: byte J of the buffer', s, z3.Implies(z3.And(rr == 0, z3.ULT(J, blen + n)), select(A, J) == z3.If(z3.ULT(J, blen), z3.Select(K.a, J), z3.Select(IN, J - blen))))
        E.prove('inject: buffered length', s, pf(o, BLEN) == z3.If(rr == 0, blen + n, blen))
        E.prove('inject: no other byte changes', s, z3.Implies(z3.And(bytepart(J), z3.Or(rr != 0, z3.UGE(J, blen + n))), select(A, J) == z3.Select(K.a, J)))
        E.prove('inject: no other field changes', s, z3.And(*[pf(o, f) == K.f[f] for f in FIELDS if f != BLEN]))
    return UnitResult().from_engine(E)


def prng_flip_unit():
    from symex import select
    E = prng_engine()
    st = State()
    sc, K = prng_state(E, st)
    J = z3.BitVec('any_index', 64)
    blen = K.f[BLEN]
    st.assume(z3.ULE(blen, 4096))
    D = z3.Array('DIGEST', BV64, B8)

    def expect(E, st, p, n):
        E.prove('flip: hashes the whole injected data', st, n == blen)
        E.prove('flip: byte J of the hashed data', st, z3.Implies(z3.ULT(J, blen), sel(E, st, p, J) == z3.Select(K.a, J)))
        st.ghost['hashed'] = True
    digest_contracts(E, 'flip', expect, lambda E, st: D)
    for s, r in E.call(PFX + 'i_keccak256_flip', [Ptr(sc.id)], st):
        o = s.mem[sc.id]
        A = o.arr
        if isinstance(r, int) and r != 0:
            E.prove('flip: refused only once finalised', s, K.f[FIN] != 0)
            E.prove('flip: refusal changes nothing', s, z3.And(z3.Implies(bytepart(J), select(A, J) == z3.Select(K.a, J)), *[pf(o, f) == K.f[f] for f in FIELDS]))
            continue
        E.prove('flip: returns 0', s, bv.icmp('eq', r, 0, 32))
        E.prove('flip: only before finalisation', s, K.f[FIN] == 0)
        E.prove('flip: state is the digest', s, z3.And(s.ghost.get('hashed') is True, z3.Implies(z3.ULT(J, 32), select(A, J + STATE) == z3.Select(D, J))))
        E.prove('flip: finalised, output buffer empty, counter kept', s, z3.And(pf(o, FIN) != 0, pf(o, OPOS) == 0, pf(o, OLEN) == 0, pf(o, CTR) == K.f[CTR]))
    return UnitResult().from_engine(E)


class PrngLoop(LoopSpec):
    name = 'blocks'

    def __init__(self, U):
        LoopSpec.__init__(self, PFX + 'i_keccak256_extract', 0, name='blocks')
        self.U = U

    def invariants(self, E, L):
        from symex import select
        U = self.U
        off = bv.z(L.v('offset'), 64)
        A = L.st.mem[U.sc.id]
        c = pf(A, CTR)
        return [('offset within the request', z3.ULE(off, U.n)),
                ('stream position', z3.Or(off == U.n, off == U.av + (c - U.c0) * 32)),
                ('counter moved at most once per 32 bytes', z3.And(z3.ULE(c - U.c0, U.n), z3.ULT((c - U.c0) * 32, U.n + 64))),
                ('state kept', select(A.arr, U.J2 + STATE) == z3.Select(U.K0, U.J2 + STATE)),
                ('finalised', pf(A, FIN) == U.fin),
                ('output buffer', U.obuf(A)),
                ('remaining bytes account for the position', U.pos(A, off)),
                ('output byte J', z3.Implies(z3.ULT(U.J, off), select(L.st.mem[U.out.id].arr, U.J) == U.want))]

    def step(self, E, L):
        # lemmas for the byte-J invariant: a byte written in this round lies in the block of the counter at the loop head
        from symex import select
        U, st = self.U, L.st
        o0, o1 = bv.z(L.vh('offset'), 64), bv.z(L.v('offset'), 64)
        c = pf(L.head.mem[U.sc.id], CTR)
        new = z3.And(z3.ULE(o0, U.J), z3.ULT(U.J, o1))
        A = select(st.mem[U.out.id].arr, U.J)

        def lemma(what, g):
            if E.prove('extract: ' + what, st, g):
                st.assume(g)
        lemma('bytes written in a round number at most 32', z3.And(z3.ULE(o0, o1), z3.ULE(o1 - o0, 32)))
        lemma('round starts at the block boundary', z3.Implies(new, o0 == U.av + (c - U.c0) * 32))
        lemma('no wrap-around', z3.Implies(new, z3.And(z3.ULT(U.J - U.av, 1 << 50), z3.ULT(c - U.c0, 1 << 50), z3.UGE(U.J, U.av))))
        x, d = z3.BitVecs('x d', 64)

        def div32(x, d):
            return z3.Implies(z3.And(z3.ULT(x, 1 << 50), z3.ULT(d, 1 << 50), z3.ULT(x - (d << 5), 32)), z3.And(z3.LShR(x, 5) == d, x & 31 == x - (d << 5)))
        if E.prove('extract: quotient and remainder by 32', State(), div32(x, d)):
            st.assume(div32(U.J - U.av, c - U.c0))
        lemma('distance from the block boundary', z3.Implies(new, (U.J - U.av) - ((c - U.c0) << 5) == U.J - o0))
        lemma('block number', z3.Implies(new, z3.And(z3.LShR(U.J - U.av, 5) == c - U.c0, (U.J - U.av) & 31 == U.J - o0)))
        lemma('byte J written', z3.Implies(new, A == z3.Function('keccak_block', BV64, BV64, B8)(c, U.J - o0)))
        lemma('expected byte', z3.Implies(new, U.want == z3.Function('keccak_block', BV64, BV64, B8)(c, U.J - o0)))
        lemma('earlier bytes kept', z3.Implies(z3.ULT(U.J, o0), A == select(L.head.mem[U.out.id].arr, U.J)))

    def decreases(self, E, L):
        return z3.UGT(bv.z(L.v('offset'), 64), bv.z(L.vh('offset'), 64))


def prng_extract_unit():
    from symex import select
    E = prng_engine()
    st = State()
    sc, K = prng_state(E, st)
    K0 = K.a
    U = U_()
    U.sc, U.K0, U.fin = sc, K0, K.f[FIN]
    U.n = z3.BitVec('len', 64)
    st.assume(z3.ULT(U.n, 1 << 48))
    U.J = z3.BitVec('any_index', 64)
    U.J2 = z3.URem(U.J, 32)
    st.assume(z3.ULT(U.J, 1 << 50))
    U.out = out = E.new_obj(st, 'out', bv.mk(64, U.n))
    E.make_arr(out, 1, z3.Array('OUT', BV64, B8))
    U.c0 = K.f[CTR]
    op0, ol0 = K.f[OPOS], K.f[OLEN]
    BLK = z3.Function('keccak_block', BV64, BV64, B8)      # byte i of H(state || counter)
    # invariant of a context: the output buffer is empty, or holds the block of the previous counter value
    U.any = z3.BitVec('any_buf_index', 64)
    st.assume(z3.ULT(U.any, 32))
    st.assume(z3.Or(ol0 == 0, ol0 == 32))
    st.assume(z3.ULE(op0, ol0))
    Ja = U.J + op0                                # byte J comes from the old buffer when below ol0
    for ix in (U.any, Ja):                        # instances of: for all i < out_len, buffer[i] = block(counter - 1)[i]
        st.assume(z3.Implies(z3.And(ol0 == 32, z3.ULT(ix, 32)), z3.Select(K0, ix + OBUF) == BLK(U.c0 - 1, ix)))
    U.av = ol0 - op0
    U.want = z3.If(z3.ULT(U.J, U.av), BLK(U.c0 - 1, Ja), BLK(U.c0 + z3.LShR(U.J - U.av, 5), (U.J - U.av) & 31))
    U.obuf = lambda A: z3.And(z3.Or(pf(A, OLEN) == 0, pf(A, OLEN) == 32), z3.ULE(pf(A, OPOS), pf(A, OLEN)),
                              z3.Implies(pf(A, OLEN) == 32, select(A.arr, U.any + OBUF) == BLK(pf(A, CTR) - 1, U.any)))
    U.pos = lambda A, off: off + (pf(A, OLEN) - pf(A, OPOS)) == U.av + (pf(A, CTR) - U.c0) * 32

    def expect(E, st, p, n):
        E.prove('extract: 40 bytes hashed', st, n == 40)
        c = pf(st.mem[sc.id], CTR)
        E.prove('extract: state then counter: state byte J', st, sel(E, st, p, U.J2) == z3.Select(K0, U.J2 + STATE))
        for i in range(8):
            E.prove('extract: counter byte %d, big-endian' % i, st, sel(E, st, p, z3.BitVecVal(32 + i, 64)) == z3.Extract(63 - 8 * i, 56 - 8 * i, c))
        st.ghost['hc'] = bv.mk(64, c)

    def result(E, st):
        i = z3.FreshConst(BV64, 'i')
        c = bv.z(st.ghost['hc'], 64)
        return z3.Lambda([i], BLK(c, i))
    digest_contracts(E, 'extract', expect, result)
    E.loop_specs = [PrngLoop(U)]
    for s, r in E.call(PFX + 'i_keccak256_extract', [Ptr(sc.id), Ptr(out.id), bv.mk(64, U.n)], st):
        A = s.mem[sc.id]
        if isinstance(r, int) and r != 0:
            E.prove('extract: refused only before finalisation', s, K.f[FIN] == 0)
            continue
        E.prove('extract: returns 0', s, bv.icmp('eq', r, 0, 32))
        E.prove('extract: only once finalised', s, K.f[FIN] != 0)
        E.prove('extract: byte J of the output is the next byte of the stream', s, z3.Implies(z3.ULT(U.J, U.n), select(s.mem[out.id].arr, U.J) == U.want))
        E.prove('extract: buffer keeps the unread bytes of the last block', s, U.obuf(A))
        E.prove('extract: position advanced by the requested length', s, U.pos(A, U.n))
        E.prove('extract: state and finalisation kept', s, z3.And(select(A.arr, U.J2 + STATE) == z3.Select(K0, U.J2 + STATE), pf(A, FIN) == K.f[FIN]))
    return UnitResult().from_engine(E)


# ------------------------------------------------------------------ hash-to-point
class H2PLoop(Auto):
    ghost = ('pos', 'c', 'gv')

    def __init__(self, fn, U):
        Auto.__init__(self, PFX + fn, 0, 'samples')
        self.U = U

    def begin(self, E, L):
        self.alive = None

    def candidates(self, E, L):
        U, g = self.U, L.st.ghost
        k = bv.z(g['c'], 64)
        c = [('at most n elements', z3.ULE(k, U.N)),
             ('element J', z3.Implies(z3.ULT(U.J, k), z3.Select(L.st.mem[U.x.id].arr, U.J) == bv.z(g['gv'], 16)))]
        for x, e, w in L.words():
            if w in (32, 64):
                v = z3.ZeroExt(64 - w, bv.z(e, w)) if w < 64 else bv.z(e, w)
                c += [(x + ' elements still to produce', v == U.N - k), (x + ' elements produced', v == k)]
            elif w == 0 and e.obj == U.x.id:
                i = E._index(e, 2)
                if i is not None:
                    c += [(x + ' moves', bv.z(i, 64) == k), (x + ' stays', bv.z(i, 64) == 0)]
        return c

    def ghosts(self, E, L):
        """one round of the reference: read the next two stream bytes, big-endian; keep w mod q when w < 5q"""
        U, h, g = self.U, L.head.ghost, L.st.ghost
        pos, c = bv.z(h['pos'], 64), bv.z(h['c'], 64)
        E.prove('hash-to-point: two stream bytes per sample', L.st, bv.z(g['pos'], 64) == pos + 2)
        w = z3.Concat(U.S(pos), U.S(pos + 1))
        keep = z3.ULT(w, 61445)
        g['gv'] = bv.mk(16, z3.If(z3.And(keep, c == U.J), z3.URem(w, z3.BitVecVal(12289, 16)), bv.z(h['gv'], 16)))
        g['c'] = bv.mk(64, z3.If(keep, c + 1, c))


def h2p_unit(fn, extract, cfile='common.c', logns=range(1, 11)):
    def run():
        R = UnitResult()
        for logn in logns:
            E = Engine([csrc.module(cfile)], timeout=60000)
            E.merge_ret = False
            st = State()
            U = U_()
            U.N = 1 << logn
            U.J = z3.BitVec('any_index', 64)
            U.S = z3.Function('stream', BV64, B8)
            sc = E.new_obj(st, 'sc', 208)
            sc.forbid = 'hash context is abstract'
            x = U.x = E.new_obj(st, 'x', 2 * U.N)
            E.make_arr(x, 2, z3.Array('X', BV64, z3.BitVecSort(16)))
            st.ghost.update(pos=bv.var('pos0', 64), c=0, gv=bv.var('gv0', 16))

            def ex(E, s, a, fr, sc=sc, U=U):
                if a[0].obj != sc.id or not a[0].concrete() or a[0].k:
                    raise Unsupported('extraction from something else')
                if not isinstance(a[2], int) or a[2] > 64:
                    raise Unsupported('extraction length')
                E.sym_bounds(s, a[1], a[2], fn + ': extracted bytes')
                pos = bv.z(s.ghost['pos'], 64)
                for i in range(a[2]):
                    E.store(s, a[1].plus_const(i), 1, bv.mk(8, U.S(pos + i)), fn)
                s.ghost['pos'] = bv.mk(64, pos + a[2])
                return 0
            E.contracts[PFX + extract] = ex
            E.loop_specs = [H2PLoop(fn, U)]
            for s, r in E.call(PFX + fn, [Ptr(sc.id), Ptr(x.id), logn], st):
                g = s.ghost
                E.prove('%s: exactly n elements accepted (logn=%d)' % (fn, logn), s, bv.z(g['c'], 64) == U.N)
                E.prove('%s: element J is the J-th accepted sample mod q (logn=%d)' % (fn, logn), s,
                        z3.Implies(z3.ULT(U.J, U.N), z3.Select(s.mem[x.id].arr, U.J) == bv.z(g['gv'], 16)))
            R.from_engine(E)
        return R
    return run


def h2p_shake_unit():
    return h2p_unit('hash_to_point_vartime', 'i_shake256_extract')()


def h2p_keccak_unit():
    return h2p_unit('keccak_hash_to_point_vartime', 'i_keccak256_extract')()
