"""Contracts of the variable-length signature codec (comp_encode / comp_decode in codec.c), at every degree at once.

code(x) for |x| <= 2047: sign bit, 7 low bits of |x|, |x|>>7 zeros, a one: 9 + (|x|>>7) <= 24 bits.
encode writes the concatenation of the codes, padded with zero bits to a byte boundary; decode parses it.
"""
import z3
import bv
import csrc
from symex import Engine, State, Ptr, NULL, LoopSpec, Unsupported
from runner import UnitResult

PFX = 'falcon_inner_'
BV64 = z3.BitVecSort(64)
MAXLEN = 1 << 40


def inrange(x):
    return z3.And(x >= -2047, x <= 2047)


def code(x):
    """(24-bit left-aligned code, length as BV64) of a 16-bit value"""
    x32 = z3.SignExt(16, x)
    a = z3.If(x32 < 0, -x32, x32)
    s = z3.If(x32 < 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    hi = z3.LShR(a, 7)
    w = z3.Concat(s, z3.Extract(6, 0, a), z3.BitVecVal(0, 16)) | z3.Extract(23, 0, z3.LShR(z3.BitVecVal(1 << 15, 32), hi))
    return w, z3.ZeroExt(32, hi) + 9


def window(IN, P):
    """24 bits of the stream at bit position P"""
    B = z3.LShR(P, 3)
    w = z3.Concat(*[z3.Select(IN, B + i) for i in range(4)])
    w = w << z3.Extract(31, 0, P & 7)
    return z3.Extract(31, 8, w)


def parse(W):
    """(value 16 bits, code length BV64, well-formed) of a 24-bit window"""
    s = z3.Extract(23, 23, W)
    low = z3.Extract(22, 16, W)
    z = z3.BitVecVal(99, 64)
    for i in range(16):          # bit 15-i is the i-th bit of the unary part; first set bit wins
        i = 15 - i
        z = z3.If(z3.Extract(15 - i, 15 - i, W) == 1, z3.BitVecVal(i, 64), z)
    m = z3.ZeroExt(9, low) + (z3.Extract(15, 0, z) << 7)
    v = z3.If(s == 1, -m, m)
    ok = z3.And(z3.ULE(z, 15), z3.Not(z3.And(s == 1, m == 0)))
    return v, z + 9, ok, z


def sel(o, i):
    return z3.Select(o.arr, i)


class EncRange(LoopSpec):
    name = 'range'

    def __init__(self, U):
        LoopSpec.__init__(self, PFX + 'comp_encode', 0)
        self.U = U
        self.k = z3.BitVec('any_index', 64)

    def invariants(self, E, L):
        u = bv.z(L.v('u'), 64)
        return [('u <= n', z3.ULE(u, self.U.n)),
                ('every element before u is in range', z3.Implies(z3.ULT(self.k, u), inrange(self.U.X[self.k])))]

    def decreases(self, E, L):
        return z3.And(z3.ULT(bv.z(L.vh('u'), 64), self.U.n), bv.z(L.v('u'), 64) == bv.z(L.vh('u'), 64) + 1)

    def leave(self, E, L):
        u = bv.z(L.v('u'), 64)
        if E.holds(L.st, z3.UGE(u, self.U.n)):
            E.prove('comp_encode: elements all in range after the range check', L.st,
                    z3.Implies(z3.ULT(self.k, self.U.n), inrange(self.U.X[self.k])))
            L.st.ghost['stage'] = 'ranged'     # holds for every k: any_index is not constrained by the code
        else:
            E.prove('comp_encode: rejects only an element out of range', L.st, z3.Not(inrange(self.U.X[u])))
            L.st.ghost['stage'] = 'bad'


class EncMain(LoopSpec):
    name = 'emit'
    ghost = ()

    def __init__(self, U):
        LoopSpec.__init__(self, PFX + 'comp_encode', 1)
        self.U = U

    def begin(self, E, L):
        L.entry.ghost['P'] = 0
        L.entry.ghost['Eb'] = 0
        L.st.ghost['P'] = 0
        L.st.ghost['Eb'] = 0
        self.ghost = ('P', 'Eb')

    def pieces(self, L):
        return (bv.z(L.v('u'), 64), bv.z(L.v('v'), 64), bv.z(L.v('acc'), 32), bv.z(L.v('acc_len'), 32),
                bv.z(L.st.ghost['P'], 64), z3.Extract(0, 0, bv.z(L.st.ghost['Eb'], 64)))

    def pend(self, acc, al, v, b):
        """bit b of the stream inside the accumulator"""
        idx = z3.ZeroExt(32, al) - 1 - (b - (v << 3))
        return z3.Extract(0, 0, z3.LShR(acc, z3.Extract(31, 0, idx)))

    def bit(self, L, v, acc, al, b):
        if self.U.out is None:
            return None
        o = L.st.mem[self.U.out]
        if o.arr is None:
            L.eng.make_arr(o, 1)
        by = z3.Select(o.arr, z3.LShR(b, 3))
        ob = z3.Extract(0, 0, z3.LShR(by, z3.Extract(7, 0, 7 - (b & 7))))
        return z3.If(z3.ULT(b, v << 3), ob, self.pend(acc, al, v, b))

    def invariants(self, E, L):
        u, v, acc, al, P, Eb = self.pieces(L)
        b = self.U.b
        inv = [('u <= n', z3.ULE(u, self.U.n)),
               ('fewer than 8 pending bits', z3.ULE(al, 7)),
               ('position = 8 v + pending', P == (v << 3) + z3.ZeroExt(32, al)),
               ('at most 24 bits per element', z3.And(z3.ULE(P, 24 * u), z3.ULE(v, 3 * u)))]
        if self.U.out is not None:
            inv.append(('bytes so far fit', z3.ULE(v, self.U.maxl)))
            inv.append(('bit b of the stream is the bit of its code', z3.Implies(z3.ULT(b, P), self.bit(L, v, acc, al, b) == Eb)))
        return inv

    def decreases(self, E, L):
        return z3.And(z3.ULT(bv.z(L.vh('u'), 64), self.U.n), bv.z(L.v('u'), 64) == bv.z(L.vh('u'), 64) + 1)

    def assume_hook(self, E, L):
        u = bv.z(L.v('u'), 64)
        if L.st.ghost.get('stage') == 'ranged':
            L.st.assume(z3.Implies(z3.ULT(u, self.U.n), inrange(self.U.X[u])))

    def advance(self, L):
        uh = bv.z(L.vh('u'), 64)
        P = bv.z(L.head.ghost['P'], 64)
        w, ln = code(self.U.X[uh])
        b = self.U.b
        P2 = P + ln
        d = b - P
        bit = z3.ZeroExt(63, z3.Extract(0, 0, z3.LShR(w, z3.Extract(23, 0, 23 - d))))
        Eh = bv.z(L.head.ghost['Eb'], 64)
        L.st.ghost['P'] = bv.mk(64, P2)
        L.st.ghost['Eb'] = bv.mk(64, z3.If(z3.And(z3.ULE(P, b), z3.ULT(b, P2)), bit, Eh))
        return P2

    def step(self, E, L):
        self.advance(L)

    def leave(self, E, L):
        u = bv.z(L.v('u'), 64)
        if not E.holds(L.st, z3.UGE(u, self.U.n)):
            P2 = self.advance(L)
            if self.U.out is None:
                E.prove('comp_encode: size query does not fail on in-range elements', L.st, False)
            else:
                E.prove('comp_encode: gives up only when the codes exceed the buffer', L.st, z3.UGT(P2, self.U.maxl << 3))
            L.st.ghost['stage'] = 'full'


def encode_unit(null):
    def run():
        E = Engine([csrc.module('codec.c')])
        E.merge_ret = False
        U = UnitSpec()
        st = State()
        logn = bv.var('logn', 32)
        st.assume(z3.And(z3.UGE(logn.e, 1), z3.ULE(logn.e, 10)))
        U.n = z3.BitVecVal(1, 64) << z3.ZeroExt(32, logn.e)
        U.maxl = z3.BitVec('max_out_len', 64)
        st.assume(z3.ULT(U.maxl, MAXLEN))
        x = E.new_obj(st, 'x', bv.mk(64, U.n << 1), writable=False)
        U.X = z3.Array('X', BV64, z3.BitVecSort(16))
        E.make_arr(x, 2, U.X)
        U.b = z3.BitVec('any_bit', 64)
        st.assume(z3.ULT(U.b, MAXLEN))
        if null:
            U.out, po = None, NULL
        else:
            out = E.new_obj(st, 'out', bv.mk(64, U.maxl))
            E.make_arr(out, 1, z3.Array('OUT', BV64, z3.BitVecSort(8)))
            U.out, po = out.id, Ptr(out.id)
        main = EncMain(U)
        E.loop_specs = [EncRange(U), main]
        nok = 0
        for s, r in E.call(PFX + 'comp_encode', [po, bv.mk(64, U.maxl), Ptr(x.id), logn], st):
            stage = s.ghost.get('stage')
            if stage in ('bad', 'full'):
                E.prove('comp_encode: failure returns 0', s, bv.icmp('eq', r, 0, 64))
                continue
            P = bv.z(s.ghost['P'], 64)
            total = z3.LShR(P + 7, 3)
            rr = bv.z(r, 64)
            if isinstance(r, int) and r == 0 or E.holds(s, rr == 0):
                E.prove('comp_encode: final failure only when the codes exceed the buffer', s,
                        z3.UGT(P, U.maxl << 3) if not null else z3.BoolVal(False))
                continue
            nok += 1
            E.prove('comp_encode: every element was coded', s, z3.UGE(bv.z(s.ghost.get('u_end', bv.mk(64, U.n)), 64), U.n))
            E.prove('comp_encode: returns the byte length of the codes', s, rr == total)
            if not null:
                o = s.mem[U.out]
                ob = z3.Extract(0, 0, z3.LShR(z3.Select(o.arr, z3.LShR(U.b, 3)), z3.Extract(7, 0, 7 - (U.b & 7))))
                Eb = z3.Extract(0, 0, bv.z(s.ghost['Eb'], 64))
                E.prove('comp_encode: output bit = bit of the concatenated codes', s, z3.Implies(z3.ULT(U.b, P), ob == Eb))
                E.prove('comp_encode: padding bits are zero', s, z3.Implies(z3.And(z3.UGE(U.b, P), z3.ULT(U.b, total << 3)), ob == 0))
                E.prove('comp_encode: fits', s, z3.ULE(total, U.maxl))
        E.prove('comp_encode: succeeds on some input (vacuity guard)', State(), nok > 0)
        return UnitResult().from_engine(E)
    return run


class UnitSpec:
    pass


class DecMain(LoopSpec):
    name = 'parse'

    def __init__(self, U):
        LoopSpec.__init__(self, PFX + 'comp_decode', 0)
        self.U = U
        self.ghost = ('P', 'Xg')

    def begin(self, E, L):
        for s in (L.entry, L.st):
            s.ghost['P'] = 0
            s.ghost['Xg'] = 0

    def invariants(self, E, L):
        U = self.U
        u, v = bv.z(L.v('u'), 64), bv.z(L.v('v'), 64)
        acc, al = bv.z(L.v('acc'), 32), bv.z(L.v('acc_len'), 32)
        P = bv.z(L.st.ghost['P'], 64)
        mask = (z3.BitVecVal(1, 32) << al) - 1
        o = L.st.mem[U.x]
        Xg = z3.Extract(15, 0, bv.z(L.st.ghost['Xg'], 64))
        return [('u <= n', z3.ULE(u, U.n)), ('v <= length', z3.ULE(v, U.maxl)),
                ('fewer than 8 unread bits', z3.ULE(al, 7)),
                ('position = 8 v - unread', P + z3.ZeroExt(32, al) == (v << 3)),
                ('at most 24 bits per element', z3.ULE(P, 24 * u)),
                ('unread bits are the low bits of the last byte', z3.Implies(al != 0, z3.And(v != 0, (acc & mask) == (z3.ZeroExt(24, z3.Select(U.IN, v - 1)) & mask)))),
                ('elements decoded so far', z3.Implies(z3.ULT(U.g, u), z3.Select(o.arr, U.g) == Xg))]

    def decreases(self, E, L):
        return z3.And(z3.ULT(bv.z(L.vh('u'), 64), self.U.n), bv.z(L.v('u'), 64) == bv.z(L.vh('u'), 64) + 1)

    def spec(self, L):
        P = bv.z(L.head.ghost['P'], 64)
        val, ln, ok, z = parse(window(self.U.IN, P))
        fits = z3.ULE(P + ln, self.U.maxl << 3)
        return P, val, ln, z3.And(ok, fits)

    def step(self, E, L):
        P, val, ln, ok = self.spec(L)
        uh = bv.z(L.vh('u'), 64)
        E.prove('comp_decode: accepts an element only if its code is complete, bounded and not -0', L.st, ok)
        L.st.assume(ok)
        L.st.ghost['P'] = bv.mk(64, P + ln)
        L.st.ghost['Xg'] = bv.mk(64, z3.If(uh == self.U.g, z3.ZeroExt(48, val), bv.z(L.head.ghost['Xg'], 64)))

    def leave(self, E, L):
        u = bv.z(L.v('u'), 64)
        if not E.holds(L.st, z3.UGE(u, self.U.n)):
            P, val, ln, ok = self.spec(L)
            E.prove('comp_decode: rejects only a truncated, too large or -0 code', L.st, z3.Not(ok))
            L.st.ghost['stage'] = 'reject'


def decode_unit():
    E = Engine([csrc.module('codec.c')])
    E.merge_ret = False
    U = UnitSpec()
    st = State()
    logn = bv.var('logn', 32)
    st.assume(z3.And(z3.UGE(logn.e, 1), z3.ULE(logn.e, 10)))
    U.n = z3.BitVecVal(1, 64) << z3.ZeroExt(32, logn.e)
    U.maxl = z3.BitVec('max_in_len', 64)
    st.assume(z3.ULT(U.maxl, MAXLEN))
    x = E.new_obj(st, 'x', bv.mk(64, U.n << 1))
    E.make_arr(x, 2, z3.Array('X', BV64, z3.BitVecSort(16)))
    U.x = x.id
    U.g = z3.BitVec('any_index', 64)
    st.assume(z3.ULT(U.g, U.n))
    inp = E.new_obj(st, 'in', bv.mk(64, U.maxl), writable=False)
    U.IN = z3.Array('IN', BV64, z3.BitVecSort(8))
    E.make_arr(inp, 1, U.IN)
    E.loop_specs = [DecMain(U)]
    nok = 0
    for s, r in E.call(PFX + 'comp_decode', [Ptr(x.id), logn, Ptr(inp.id), bv.mk(64, U.maxl)], st):
        rr = bv.z(r, 64)
        if s.ghost.get('stage') == 'reject':
            E.prove('comp_decode: rejection returns 0', s, rr == 0)
            continue
        P = bv.z(s.ghost['P'], 64)
        total = z3.LShR(P + 7, 3)
        last = z3.Select(U.IN, z3.LShR(P, 3))
        mask = (z3.BitVecVal(1, 8) << z3.Extract(7, 0, 8 - (P & 7))) - 1
        padok = z3.Or((P & 7) == 0, (last & mask) == 0)
        if isinstance(r, int) and r == 0 or E.holds(s, rr == 0):
            E.prove('comp_decode: final rejection only for nonzero padding', s, z3.Not(padok))
            continue
        nok += 1
        E.prove('comp_decode: accepts only zero padding', s, padok)
        E.prove('comp_decode: returns the number of bytes read', s, rr == total)
        E.prove('comp_decode: never claims more bytes than given', s, z3.ULE(rr, U.maxl))
        E.prove('comp_decode: element = decoded code', s, z3.Select(s.mem[U.x].arr, U.g) == z3.Extract(15, 0, bv.z(s.ghost['Xg'], 64)))
    E.prove('comp_decode: accepts some input (vacuity guard)', State(), nok > 0)
    return UnitResult().from_engine(E)


def lemma_unit():
    """parse inverts code, and code inverts parse: the code is prefix-free and unique"""
    E = Engine([csrc.module('codec.c')])
    st = State()
    x = z3.BitVec('x', 16)
    W = z3.BitVec('W', 24)
    w, ln = code(x)
    mask = ~(z3.BitVecVal((1 << 24) - 1, 24)) | z3.BitVecVal(0, 24)
    l24 = z3.Extract(23, 0, ln)
    top = ~(z3.LShR(z3.BitVecVal((1 << 24) - 1, 24), l24))
    val, pl, ok, z = parse((W & ~top) | w)
    E.prove('lemma: parsing a code followed by anything gives the element back', st,
            z3.Implies(inrange(x), z3.And(ok, val == x, pl == ln)))
    val, pl, ok, z = parse(W)
    w2, ln2 = code(val)
    t2 = ~(z3.LShR(z3.BitVecVal((1 << 24) - 1, 24), z3.Extract(23, 0, pl)))
    E.prove('lemma: a well-formed code is the code of its element', st, z3.Implies(ok, z3.And(inrange(val), ln2 == pl, w2 == (W & t2))))
    return UnitResult().from_engine(E)


def units():
    return [('comp_encode', encode_unit(False)), ('comp_encode size query', encode_unit(True)),
            ('comp_decode', decode_unit), ('code lemmas', lemma_unit)]
