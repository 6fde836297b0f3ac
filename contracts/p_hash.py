"""Contracts of pythonref/keccak.py, shake.py (permutation, sponge with any rate, streaming), keccak_prng.py, blake2s_prng.py
and falcon.hash_to_point."""
import z3

import anf
import bv
import keccak as spec
import pysym as P
from pysym import MSeq, Seq, ZInt, zt, zint, ns

I = z3.IntVal


# ------------------------------------------------------------------------------------------------ F1600
class Half:
    """x << s or x >> s of a 64-bit word, before the other half is added"""

    def __init__(self, p, s, left):
        self.p, self.s, self.left = p, s, left

    def _join(self, o):
        if isinstance(o, Half) and self.left != o.left and self.p == o.p and self.s + o.s == 64:
            return W64(anf.rot(self.p, self.s if self.left else o.s))
        raise P.Unsupported('shift that is not part of a rotation')

    __xor__ = __or__ = __add__ = _join


class W64:
    """64-bit word as a polynomial over GF(2) (engine/anf.py)"""
    __slots__ = ('p',)
    N = None

    def __init__(self, p):
        c = W64.N.cuts.get(p[0]) if p[0] else None
        self.p = (c[0][0], c[0][1] ^ c[1] ^ p[1]) if c is not None else p

    def _b(f):
        def op(a, b):
            if isinstance(b, int):
                b = W64((frozenset(), b & anf.M))
            return W64(f(a.p, b.p)) if isinstance(b, W64) else NotImplemented
        return op

    __xor__ = __rxor__ = _b(anf.xor)
    __and__ = __rand__ = _b(anf.and_)
    __or__ = __ror__ = _b(anf.or_)

    def __invert__(self):
        return W64(anf.inv(self.p))

    def __lshift__(self, s):
        return Half(self.p, int(s), True) if s else self

    def __rshift__(self, s):
        return Half(self.p, int(s), False) if s else self


def np_words():
    return ns(zeros=lambda n, dtype=None: [0] * n, array=lambda l, dtype=None: list(l), uint64=lambda x: x, uint8=None,
              ndarray=list)


def f1600_unit():
    E = P.Engine('Keccak.F1600')
    E.res.functions |= {'pythonref/keccak.py:Keccak.F1600', 'pythonref/keccak.py:rol'}
    m = P.load('keccak', stubs={'numpy': np_words()})

    def run():
        N = W64.N = anf.ANF()
        A = [N.new() for _ in range(25)]
        k = m.Keccak()
        if not isinstance(k.state, list) or k.state != [0] * 25:
            raise P.Unsupported('initial state')
        k.state = [W64(a) for a in A]
        for r in range(24):
            A = anf.keccak_round(N, A, spec.RC[r], spec.RHO)
        k.F1600()
        for i in range(25):
            x = k.state[i]
            E.res.check('%s: lane %d after 24 rounds' % (E.name, i), isinstance(x, W64) and x.p == A[i], backend='anf')
        return None
    return E.run(run, lambda r: None)


# ------------------------------------------------------------------------------------------------ sponge
def np_bytes(E):
    def frombuffer(b, dtype=None):
        b = P.to_seq(b, 'bytes')
        E.prove('numpy.frombuffer: the buffer is not empty', b.nt() > 0)
        return b
    return ns(zeros=lambda n, dtype=None: P.zeros(n, 'bytes', fixed=True), array=lambda l, dtype=None: list(l), frombuffer=frombuffer,
              uint64='uint64', uint8='uint8')


class Lanes:
    """the 200 bytes of the permutation state, as an array"""

    def __init__(self, seq):
        self.seq = seq

    def __ixor__(self, o):
        g, h = self.seq.get, o.get
        E = P.CTX.E
        E.prove('sponge: 200 bytes are added to the state', o.nt() == 200)
        self.seq = MSeq(200, lambda k: g(k) ^ h(k), 'bytes', True)
        return self

    def view(self, dtype=None):
        return self.seq


def keccak_module(E, cuts=None, loops=None):
    m = P.load('keccak', stubs={'numpy': np_bytes(E)}, cuts=cuts, loops=loops)
    return m


def fresh_sponge(m, g, block, state=None):
    """an object satisfying the class invariant: block(j) is byte j < i of the block being absorbed, the rest is zero"""
    rate = P.zvar('rate', 1, 199)
    i = P.zvar('i', 0)
    P.CTX.assume(i.t < rate.t)
    h = m.KeccakHash.__new__(m.KeccakHash)
    h.rate, h.i = rate, i
    h.dsbyte = P.var('dsbyte', 8)
    h.direction = m._SPONGE_ABSORBING
    h.k = ns(state=state)
    h.buf = MSeq(200, lambda j: z3.If(j < i.t, block(j), z3.BitVecVal(0, 8)), 'bytes', True)
    g.h, g.rate, g.i0 = h, rate.t, i.t
    return h


def permute_unit():
    E = P.Engine('KeccakHash.permute')
    E.res.functions.add('pythonref/keccak.py:KeccakHash.permute')
    m = keccak_module(E)
    g = ns()

    def run():
        S = z3.Function('S', z3.IntSort(), P.BV8)
        B = z3.Function('B', z3.IntSort(), P.BV8)
        F = z3.Function('F', z3.IntSort(), P.BV8)
        h = m.KeccakHash.__new__(m.KeccakHash)
        st = Lanes(MSeq(200, lambda j: S(j), 'bytes', True))
        g.calls = 0

        def f1600():
            j = z3.Int('pj')
            g.calls += 1
            E.prove('permute: the permutation is applied to state xor block',
                    z3.Implies(z3.And(j >= 0, j < 200), h.k.state.seq.at(j) == S(j) ^ B(j)))
            h.k.state = Lanes(MSeq(200, lambda j: F(j), 'bytes', True))
        h.k = ns(state=st, F1600=f1600)
        h.rate, h.dsbyte, h.i = P.zvar('rate', 1, 199), 0x1f, P.zvar('i', 0, 199)
        h.buf = MSeq(200, lambda j: B(j), 'bytes', True)
        h.permute()
        j = z3.Int('pj')
        inb = z3.And(j >= 0, j < 200)
        E.prove('permute: one application of the permutation', g.calls == 1)
        E.prove('permute: the state is the output of the permutation', z3.Implies(inb, h.k.state.seq.at(j) == F(j)))
        E.prove('permute: the block is cleared', z3.Implies(inb, h.buf.at(j) == 0))
        E.prove('permute: the position returns to 0', P.zb(h.i == 0))
        E.prove('permute: the buffer keeps its 200 bytes', h.buf.nt() == 200)
    return E.run(run, lambda r: None)


class AbsorbLoop:
    def __init__(self, g):
        self.g = g

    def head(self, c, env, visit, names, itx):
        g, E = self.g, c.E
        h, b = env['self'], env['b']
        n = g.data.nt()
        i, todo, hi = zt(env['i']), zt(env['todo']), zt(h.i)
        j = z3.Int('aj')
        start = g.base              # stream position of the first byte of the block
        E.prove('absorb: all of the input is consumed in order', z3.And(todo == n - i, i >= 0, todo >= 0))
        E.prove('absorb: position inside the block', z3.And(hi >= 0, hi < g.rate, start + hi == g.p0 + i))
        E.prove('absorb: the block holds the last bytes of the input, then zeros',
                z3.Implies(z3.And(j >= 0, j < 200), h.buf.at(j) == z3.If(j < hi, g.MSG(start + j), z3.BitVecVal(0, 8))))
        E.prove('absorb: the buffer keeps its 200 bytes', h.buf.nt() == 200)
        if visit == 0:
            i, hi, base = z3.Int('ai'), z3.Int('ahi'), z3.Int('abase')
            c.assume(z3.And(i >= 0, i <= n, hi >= 0, hi < g.rate, base + hi == g.p0 + i))
            g.base = base
            h.i = ZInt(hi)
            h.buf = MSeq(200, lambda j: z3.If(j < hi, g.MSG(base + j), z3.BitVecVal(0, 8)), 'bytes', True)
            g.i0 = i
            return {'i': ZInt(i), 'todo': ZInt(n - i)}
        E.prove('absorb: progress', i > g.i0)
        raise P.Infeasible()


def absorb_unit():
    E = P.Engine('KeccakHash.absorb')
    g = ns()
    m = keccak_module(E, {'KeccakHash.absorb': ['absorb']}, {'absorb': AbsorbLoop(g)})

    def run():
        g.MSG = z3.Function('MSG', z3.IntSort(), P.BV8)
        g.base = I(0)
        fresh_sponge(m, g, lambda j: g.MSG(j))
        h = g.h
        g.p0 = zt(h.i)
        n = P.zvar('len', 0)
        g.data = Seq(n, lambda k: g.MSG(g.p0 + k), 'bytes')

        def permute():
            j = z3.Int('mj')
            E.prove('absorb: the permutation is applied to full blocks only', P.zb(h.i == h.rate))
            E.prove('absorb: the block permuted is the next rate bytes of the input',
                    z3.Implies(z3.And(j >= 0, j < 200), h.buf.at(j) == z3.If(j < g.rate, g.MSG(g.base + j), z3.BitVecVal(0, 8))))
            g.base = g.base + g.rate
            h.i = 0
            h.buf = P.zeros(200, 'bytes', True)
        h.permute = permute
        h.absorb(g.data)
        j = z3.Int('ej')
        hi = zt(h.i)
        E.prove('absorb: the whole input is absorbed', g.base + hi == g.p0 + n.t)
        E.prove('absorb: the class invariant is kept', z3.And(hi >= 0, hi < g.rate, h.buf.nt() == 200))
        E.prove('absorb: the rest waits in the block',
                z3.Implies(z3.And(j >= 0, j < 200), h.buf.at(j) == z3.If(j < hi, g.MSG(g.base + j), z3.BitVecVal(0, 8))))
    return E.run(run, lambda r: None)


def pad_unit():
    E = P.Engine('KeccakHash.pad')
    E.res.functions.add('pythonref/keccak.py:KeccakHash.pad')
    g = ns()
    m = keccak_module(E)

    def run():
        M = z3.Function('MSG', z3.IntSort(), P.BV8)
        h = fresh_sponge(m, g, lambda j: M(j))
        ds = bv.z(h.dsbyte.t, 8)
        i = zt(h.i)
        g.calls = 0

        def permute():
            g.calls += 1
            j = z3.Int('pj')
            want = z3.If(j < i, M(j), z3.BitVecVal(0, 8)) ^ z3.If(j == i, ds, z3.BitVecVal(0, 8)) \
                ^ z3.If(j == g.rate - 1, z3.BitVecVal(0x80, 8), z3.BitVecVal(0, 8))
            E.prove('pad: domain byte after the message and the final bit at the end of the block',
                    z3.Implies(z3.And(j >= 0, j < 200), h.buf.at(j) == want))
        h.permute = permute
        h.pad()
        E.prove('pad: one application of the permutation', g.calls == 1)
    return E.run(run, lambda r: None)


class SqueezeLoop:
    def __init__(self, g):
        self.g = g

    def head(self, c, env, visit, names, itx):
        g, E = self.g, c.E
        h = env['self']
        b = P.to_seq(env['b'], 'bytes')
        hi, left = zt(h.i), zt(env['tosqueeze'])
        j = z3.Int('qj')
        E.prove('squeeze: position inside the block', z3.And(hi >= 0, hi < g.rate))
        E.prove('squeeze: output so far', z3.And(b.nt() == g.n - left, left >= 0, g.base + hi == g.p0 + b.nt()))
        E.prove('squeeze: bytes of the output stream in order', z3.Implies(z3.And(j >= 0, j < b.nt()), b.at(j) == g.OUT(g.p0 + j)))
        if visit == 0:
            L, hi, base = z3.Int('qlen'), z3.Int('qhi'), z3.Int('qbase')
            c.assume(z3.And(L >= 0, L <= g.n, hi >= 0, hi < g.rate, base + hi == g.p0 + L))
            g.base, g.L0 = base, L
            h.i = ZInt(hi)
            g.set_state()
            return {'b': Seq(ZInt(L), lambda k: g.OUT(g.p0 + k), 'bytes'), 'tosqueeze': ZInt(g.n - L)}
        E.prove('squeeze: progress', b.nt() > g.L0)
        raise P.Infeasible()


def squeeze_unit():
    E = P.Engine('KeccakHash.squeeze')
    g = ns()
    m = keccak_module(E, {'KeccakHash.squeeze': ['squeeze']}, {'squeeze': SqueezeLoop(g)})

    def run():
        g.OUT = z3.Function('OUT', z3.IntSort(), P.BV8)
        CAP = z3.Function('CAP', z3.IntSort(), z3.IntSort(), P.BV8)
        h = fresh_sponge(m, g, lambda j: z3.BitVecVal(0, 8))
        g.base = I(0)
        g.p0 = zt(h.i)
        n = P.zvar('n', 0)
        g.n = n.t

        def set_state():
            base = g.base
            h.k.state = Lanes(MSeq(200, lambda j: z3.If(j < g.rate, g.OUT(base + j), CAP(base, j)), 'bytes', True))
        g.set_state = set_state
        set_state()

        def permute():
            j = z3.Int('mj')
            E.prove('squeeze: the permutation is applied when the block is used up', P.zb(h.i == h.rate))
            E.prove('squeeze: nothing is added to the state', z3.Implies(z3.And(j >= 0, j < 200), h.buf.at(j) == 0))
            g.base = g.base + g.rate
            h.i = 0
            set_state()
        h.permute = permute
        r = P.to_seq(h.squeeze(n), 'bytes')
        j = z3.Int('ej')
        E.prove('squeeze: n bytes are returned', r.nt() == n.t)
        E.prove('squeeze: the next n bytes of the output stream', z3.Implies(z3.And(j >= 0, j < n.t), r.at(j) == g.OUT(g.p0 + j)))
        E.prove('squeeze: the position moves by n', g.base + zt(h.i) == g.p0 + n.t)
        E.prove('squeeze: the class invariant is kept', z3.And(zt(h.i) >= 0, zt(h.i) < g.rate))
    return E.run(run, lambda r: None)


def init_unit():
    E = P.Engine('KeccakHash/SHAKE construction')
    E.res.functions |= {'pythonref/keccak.py:KeccakHash.__init__', 'pythonref/shake.py:SHAKE'}
    m = keccak_module(E)
    log = []

    class Rec:
        def __init__(self, b='', rate=None, dsbyte=None):
            log.append(('init', b, rate, dsbyte))

        def absorb(self, b):
            log.append(('absorb', b))

        def squeeze(self, n):
            log.append(('squeeze', n))
            return ('out', n)

        def pad(self):
            log.append(('pad',))

    def run():
        rate = P.zvar('rate', 1, 199)
        h = m.KeccakHash('', rate=rate, dsbyte=6)
        j = z3.Int('ij')
        inb = z3.And(j >= 0, j < 200)
        E.prove('construction: empty block', z3.Implies(inb, h.buf.at(j) == 0))
        E.prove('construction: zero state', z3.Implies(z3.And(j >= 0, j < 25), h.k.state.at(j) == 0))
        E.prove('construction: position, rate, domain byte', z3.And(zt(h.i) == 0, zt(h.rate) == rate.t, zt(h.dsbyte) == 6, h.buf.nt() == 200))
        # a fixed call of every method of the wrapper: arguments are passed through unchanged
        sh = P.load('shake', stubs={'keccak': ns(KeccakHash=Rec)})
        tok, tok2 = object(), object()
        for mk in (sh.SHAKE, sh.SHAKE.new):
            del log[:]
            s = mk(tok)
            s.update(tok2)
            s.flip()
            r = s.read(tok)
            E.res.check(E.name + ': SHAKE256 has rate 136 and domain byte 0x1f and passes data through',
                        log == [('init', tok, 136, 0x1f), ('absorb', tok2), ('pad',), ('squeeze', tok)] and r == ('out', tok), str(log))
            del log[:]
            mk()
            E.res.check(E.name + ': a new SHAKE is empty', log in ([('init', '', 136, 0x1f)], [('init', b'', 136, 0x1f)]), str(log))
    return E.run(run, lambda r: None)


# ------------------------------------------------------------------------------------------------ PRNGs
def be64(c):
    """bytes of the counter, most significant first"""
    return [z3.Int2BV((c / (1 << (8 * (7 - j)))) % 256, 8) for j in range(8)]


class HashStub:
    """the hash function: its message is compared with the one the specification hashes; the digest is the specification's"""

    def __init__(self, g, size):
        self.g = g
        self.ok = size
        self.msg = P.to_seq(b'', 'bytes')

    def update(self, x):
        self.msg = P.cat(self.msg, P.to_seq(x.snap() if isinstance(x, MSeq) else x, 'bytes'))
        return self

    def digest(self):
        g = self.g
        E = P.CTX.E
        E.prove('prng: 32-byte digests', self.ok == 32)
        want, get = g.next_hash()
        j = z3.Int('hj')
        E.prove('prng: the message hashed has the right length', self.msg.nt() == want.nt())
        E.prove('prng: the message hashed is the specified one', z3.Implies(z3.And(j >= 0, j < want.nt()), self.msg.at(j) == want.at(j)))
        return Seq(32, get, 'bytes')


def prng_stubs(g):
    def pack(fmt, c):
        E = P.CTX.E
        E.prove('prng: the counter is packed big-endian on 8 bytes', fmt in ('>Q', '!Q'))
        if bool(c >= 1 << 64) or bool(c < 0):
            raise OverflowError('struct.error')
        return P.seq_of(be64(zt(c)), 'bytes')
    kk = ns(new=lambda digest_bytes=None, digest_bits=None, **k: HashStub(g, digest_bytes or (digest_bits or 0) // 8))
    b2 = lambda *a, digest_size=32, **k: HashStub(g, digest_size) if not a and not k else HashStub(g, digest_size).update(a[0])
    return {'Crypto.Hash': ns(keccak=kk), 'Crypto': ns(Hash=ns(keccak=kk)), 'struct': ns(pack=pack, error=OverflowError),
            'hashlib': ns(blake2s=b2)}


KINDS = {'keccak_prng': ('KeccakPRNG', 4096), 'blake2s_prng': ('Blake2sPRNG', 1024)}


def prng_module(mod, g, cuts=None, loops=None):
    return P.load(mod, stubs=prng_stubs(g), cuts=cuts, loops=loops, extra_builtins={'bytearray': P.seq_bytearray})


def absorbing(m, mod, g):
    cls, cap = KINDS[mod]
    D = g.D = z3.Function('D', z3.IntSort(), P.BV8)
    o = m.__dict__[cls]()
    bl = P.zvar('buffer_len', 0, cap)
    junk = z3.Function('junk', z3.IntSort(), P.BV8)
    o.buffer = MSeq(cap, lambda j: z3.If(j < bl.t, D(j), junk(j)), 'bytes')
    o.buffer_len = bl
    g.o, g.bl, g.cap = o, bl.t, cap
    return o


def prng_init_unit(mod):
    def unit():
        cls, cap = KINDS[mod]
        E = P.Engine(cls + ' construction')
        E.res.functions |= {'pythonref/%s.py:%s.__init__' % (mod, cls), 'pythonref/%s.py:%s.new' % (mod, cls)}
        m = prng_module(mod, ns())

        def run():
            for o in (m.__dict__[cls](), m.__dict__[cls].new()):
                E.prove('a new PRNG has absorbed nothing', z3.And(zt(o.buffer_len) == 0, zt(o.counter) == 0, zt(o.out_buffer_len) == 0,
                                                                  zt(o.out_buffer_pos) == 0, z3.BoolVal(o.finalized is False)))
                E.prove('a new PRNG has room for %d bytes' % cap, o.buffer.nt() == cap)
        return E.run(run, lambda r: None)
    return unit


def prng_inject_unit(mod, name):
    def unit():
        cls, cap = KINDS[mod]
        E = P.Engine('%s.%s' % (cls, name))
        E.res.functions.add('pythonref/%s.py:%s.%s' % (mod, cls, name))
        g = ns()
        m = prng_module(mod, g)

        def run():
            o = absorbing(m, mod, g)
            o.finalized = g.fin = bool(P.sbool(z3.Bool('finalized')))
            n = g.n = P.zvar('len', 0)
            X = g.X = z3.Function('X', z3.IntSort(), P.BV8)
            return getattr(o, name)(Seq(n, lambda k: X(k), 'bytes'))

        def same():
            o, j = g.o, z3.Int('sj')
            E.prove('inject: a rejected call changes nothing', z3.And(zt(o.buffer_len) == g.bl, z3.Implies(z3.And(j >= 0, j < g.bl), o.buffer.at(j) == g.D(j)),
                                                                      z3.BoolVal(o.finalized is g.fin), zt(o.counter) == 0))

        def post(r):
            o, n, j = g.o, g.n.t, z3.Int('sj')
            E.prove('inject: not after flip', not g.fin)
            E.prove('inject: only what fits', g.bl + n <= cap)
            E.prove('inject: the length grows by the data', z3.And(zt(o.buffer_len) == g.bl + n, o.buffer.nt() == cap))
            E.prove('inject: the data is appended', z3.Implies(z3.And(j >= 0, j < g.bl + n), o.buffer.at(j) == z3.If(j < g.bl, g.D(j), g.X(j - g.bl))))
            E.prove('inject: still absorbing', z3.And(z3.BoolVal(o.finalized is False), zt(o.counter) == 0, zt(o.out_buffer_len) == 0))

        def raised(e):
            E.prove('inject: raises only ValueError', isinstance(e, ValueError), note=repr(e))
            if not g.fin:
                E.prove('inject: rejected only when it does not fit', g.bl + g.n.t > cap)
            same()
        return E.run(run, post, raised)
    return unit


def prng_flip_unit(mod):
    def unit():
        cls, cap = KINDS[mod]
        E = P.Engine(cls + '.flip')
        E.res.functions.add('pythonref/%s.py:%s.flip' % (mod, cls))
        g = ns()
        m = prng_module(mod, g)

        def run():
            g.S = z3.Function('S', z3.IntSort(), P.BV8)
            o = absorbing(m, mod, g)
            o.finalized = g.fin = bool(P.sbool(z3.Bool('finalized')))
            g.next_hash = lambda: (Seq(ZInt(g.bl), lambda j: g.D(j), 'bytes'), lambda j: g.S(j))
            o.flip()

        def post(r):
            o, j = g.o, z3.Int('sj')
            E.prove('flip: only once', not g.fin)
            st = P.to_seq(o.state, 'bytes')
            E.prove('flip: the state is the hash of everything injected', z3.And(st.nt() == 32, z3.Implies(z3.And(j >= 0, j < 32), st.at(j) == g.S(j))))
            E.prove('flip: extraction starts with block 0', z3.And(z3.BoolVal(o.finalized is True), zt(o.counter) == 0, zt(o.out_buffer_len) == 0,
                                                                   zt(o.out_buffer_pos) == 0))

        def raised(e):
            E.prove('flip: raises only when already flipped', isinstance(e, ValueError) and g.fin, note=repr(e))
        return E.run(run, post, raised)
    return unit


class ExtractLoop:
    def __init__(self, g):
        self.g = g

    def head(self, c, env, visit, names, itx):
        g, E = self.g, c.E
        o = env['self']
        out = P.to_seq(env['output'].snap() if isinstance(env['output'], MSeq) else env['output'], 'bytes')
        off, n = zt(env['offset']), g.n.t
        j = z3.Int('xj')
        E.prove('extract: output so far', z3.And(out.nt() == off, off >= 0, off <= n))
        E.prove('extract: bytes of the stream in order', z3.Implies(z3.And(j >= 0, j < off), out.at(j) == g.STREAM(g.p0 + j)))
        g.class_inv('extract (loop)', g.p0 + off)
        E.prove('extract: a new block starts where the old one ends', z3.Implies(off < n, g.p0 + off == 32 * zt(o.counter)))
        if visit == 0:
            off, cnt, pos, ln = z3.Int('off'), z3.Int('cnt'), z3.Int('opos'), z3.Int('olen')
            c.assume(z3.And(off >= 0, off <= n, z3.Implies(off < n, g.p0 + off == 32 * cnt)))
            g.havoc(g.p0 + off, cnt, pos, ln)
            g.off0 = off
            return {'offset': ZInt(off), 'output': MSeq(ZInt(off), lambda k: g.STREAM(g.p0 + k), 'bytes')}
        E.prove('extract: progress', off > g.off0)
        raise P.Infeasible()


def prng_extract_unit(mod, name):
    def unit():
        cls, cap = KINDS[mod]
        E = P.Engine('%s.%s' % (cls, name))
        E.res.functions.add('pythonref/%s.py:%s.%s' % (mod, cls, name))
        g = ns()
        m = prng_module(mod, g, {cls + '.extract': ['extract']}, {'extract': ExtractLoop(g)})

        def run():
            o = g.o = m.__dict__[cls]()
            S = z3.Function('S', z3.IntSort(), P.BV8)
            BLK = z3.Function('BLK', z3.IntSort(), z3.IntSort(), P.BV8)
            g.STREAM = z3.Function('STREAM', z3.IntSort(), P.BV8)
            o.state = Seq(32, lambda j: S(j), 'bytes')
            o.finalized = g.fin = bool(P.sbool(z3.Bool('finalized')))

            def inv(p, cnt, pos, ln):
                """stream position p, next block cnt"""
                return z3.And(cnt >= 0, cnt < (1 << 64), z3.Or(z3.And(ln == 0, pos == 0, cnt == 0, p == 0),
                                              z3.And(ln == 32, cnt >= 1, pos >= 0, pos <= 32, p == 32 * (cnt - 1) + pos)))

            def havoc(p, cnt, pos, ln):
                P.CTX.assume(inv(p, cnt, pos, ln))
                o.counter, o.out_buffer_pos, o.out_buffer_len = ZInt(cnt), ZInt(pos), ZInt(ln)
                o.out_buffer = Seq(32, lambda j: g.STREAM(32 * (cnt - 1) + j), 'bytes')
            g.havoc = havoc

            def class_inv(what, p):
                cnt, pos, ln = zt(o.counter), zt(o.out_buffer_pos), zt(o.out_buffer_len)
                ob = P.to_seq(o.out_buffer.snap() if isinstance(o.out_buffer, MSeq) else o.out_buffer, 'bytes')
                j = z3.Int('cj')
                E.prove(what + ': position and block counter', z3.Or(inv(p, cnt, pos, ln), cnt >= (1 << 64)))
                E.prove(what + ': the output buffer is the current block', z3.Implies(ln > 0, z3.And(
                    ob.nt() == 32, z3.Implies(z3.And(j >= 0, j < 32), ob.at(j) == g.STREAM(32 * (cnt - 1) + j)))))
                st = P.to_seq(o.state, 'bytes')
                E.prove(what + ': the state is kept', z3.And(st.nt() == 32, z3.Implies(z3.And(j >= 0, j < 32), st.at(j) == S(j)),
                                                              z3.BoolVal(o.finalized is g.fin)))
            g.class_inv = class_inv

            def next_hash():
                cnt = zt(o.counter)
                # by definition of the stream: its block number cnt is the hash of the state and cnt
                msg = P.cat(Seq(32, lambda j: S(j), 'bytes'), P.seq_of(be64(cnt), 'bytes'))
                return msg, lambda j: g.STREAM(32 * cnt + j)
            g.next_hash = next_hash
            g.p0 = z3.Int('p0')
            havoc(g.p0, z3.Int('cnt0'), z3.Int('pos0'), z3.Int('len0'))
            g.n = P.zvar('length', 0)
            # fewer than 2^64 blocks in total (64-bit block counter)
            P.CTX.assume(g.p0 + g.n.t < 32 * ((1 << 64) - 2))
            return getattr(o, name)(g.n)

        def post(r):
            E.prove('extract: only after flip', g.fin)
            r = P.to_seq(r, 'bytes')
            j = z3.Int('ej')
            E.prove('extract: length bytes are returned', r.nt() == g.n.t)
            E.prove('extract: the next bytes of the stream', z3.Implies(z3.And(j >= 0, j < g.n.t), r.at(j) == g.STREAM(g.p0 + j)))
            g.class_inv('extract', g.p0 + g.n.t)

        def raised(e):
            E.prove('extract: raises only before flip', isinstance(e, ValueError) and not g.fin, note=repr(e))
        return E.run(run, post, raised)
    return unit


# ------------------------------------------------------------------------------------------------ hash_to_point
class PointLoop:
    def __init__(self, g):
        self.g = g

    def head(self, c, env, visit, names, itx):
        g, E = self.g, c.E
        hashed = env['hashed']
        i, n = zt(env['i']), g.n.t
        t = g.words
        j = z3.Int('hj')
        E.prove('hash_to_point: the message is absorbed before the first word', g.log == ['new', 'update', 'update', 'flip'])
        E.prove('hash_to_point: coefficients found so far', z3.And(i >= 0, i <= n, i == g.ACC(t), hashed.nt() == n))
        E.prove('hash_to_point: each is the residue of an accepted word, in order', z3.Implies(z3.And(j >= 0, j < i), hashed.at(j) == g.RES(j)))
        if visit == 0:
            t = z3.Int('t')
            i = z3.Int('hi')
            c.assume(z3.And(t >= 0, i >= 0, i <= n, i == g.ACC(t)))
            g.words = t
            g.t0 = t
            REST = z3.Function('REST', z3.IntSort(), z3.IntSort())
            # the specification: a word below 5 q is accepted and gives one coefficient, any other none
            acc = g.W(t) < 5 * 12289
            c.assume(g.ACC(t + 1) == g.ACC(t) + z3.If(acc, 1, 0))
            c.assume(z3.Implies(acc, g.RES(g.ACC(t)) == g.W(t) % 12289))
            return {'i': ZInt(i), 'hashed': MSeq(g.n, lambda k: z3.If(k < i, g.RES(k), REST(k)), 'ints')}
        E.prove('hash_to_point: one word per round', g.words == g.t0 + 1)
        raise P.Infeasible()


def point_unit(kind):
    def unit():
        import p_codec
        E = P.Engine('hash_to_point (%s)' % kind)
        g = ns()
        st = p_codec.falcon_stubs()

        class Xof:
            @classmethod
            def new(cls):
                g.log.append('new')
                return cls()

            def update(self, x):
                g.log.append('update')
                g.data.append(x)

            def flip(self):
                g.log.append('flip')

            def read(self, k):
                E.prove('hash_to_point: two bytes are read', k == 2)
                t = g.words
                g.words = t + 1
                return [P.ZInt(g.W(t) / 256), P.ZInt(g.W(t) % 256)]

        class Blake(Xof):
            pass

        class Keccak(Xof):
            pass
        st['blake2s_prng'] = ns(Blake2sPRNG=Blake)
        st['keccak_prng'] = ns(KeccakPRNG=Keccak)
        st['shake'] = ns(SHAKE=Xof)
        dig = object()
        salt, message = object(), object()

        def blake2s(x):
            E.res.check(E.name + ': the salt is hashed for BLAKE2s', x is salt)
            return ns(digest=lambda: dig)
        st['hashlib'] = ns(blake2s=blake2s)
        m = P.load('falcon', stubs=st, cuts={'hash_to_point': ['words']}, loops={'words': PointLoop(g)})

        def run():
            g.log, g.data = [], []
            g.n = P.zvar('n', 1, 1024)
            g.W = z3.Function('W', z3.IntSort(), z3.IntSort())
            g.ACC = z3.Function('ACC', z3.IntSort(), z3.IntSort())
            g.RES = z3.Function('RES', z3.IntSort(), z3.IntSort())
            g.words = I(0)
            t = z3.Int('t')
            P.CTX.assume(z3.And(g.ACC(I(0)) == 0, g.W(t) >= 0, g.W(t) < 65536))
            x = {'blake2s': Blake, 'keccak': Keccak, 'other': Xof, 'default': None}[kind]
            return m.hash_to_point(g.n, message, salt, xof=x) if x else m.hash_to_point(g.n, message, salt)

        def post(r):
            j = z3.Int('ej')
            E.res.check(E.name + ': salt, then message are absorbed',
                        [id(x) for x in g.data] == [id(dig if kind == 'blake2s' else salt), id(message)] and g.log == ['new', 'update', 'update', 'flip'])
            E.prove('hash_to_point: n coefficients', z3.And(r.nt() == g.n.t, g.ACC(g.words) == g.n.t))
            E.prove('hash_to_point: the residues of the accepted words in order', z3.Implies(z3.And(j >= 0, j < g.n.t), r.at(j) == g.RES(j)))
        return E.run(run, post)
    return unit


def sponge_units():
    return [('F1600', f1600_unit), ('permute', permute_unit), ('absorb', absorb_unit), ('pad', pad_unit), ('squeeze', squeeze_unit),
            ('construction', init_unit)]


def prng_units():
    u = []
    for mod in KINDS:
        u += [(mod + ' init', prng_init_unit(mod)), (mod + ' flip', prng_flip_unit(mod))]
        u += [(mod + ' ' + n, prng_inject_unit(mod, n)) for n in ('inject', 'update')]
        u += [(mod + ' ' + n, prng_extract_unit(mod, n)) for n in ('extract', 'read')]
    return u


def point_units():
    return [('hash_to_point ' + k, point_unit(k)) for k in ('keccak', 'blake2s', 'other', 'default')]


def units():
    return sponge_units() + prng_units() + point_units()
