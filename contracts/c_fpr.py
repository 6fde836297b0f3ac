"""Contracts of the emulated floating point (fpr.c, fpr.h): every operation returns the exact result correctly rounded.

A word is (sign, exponent field e, mantissa field m); value (-1)^s 2^(e-1075) (2^52+m) for 1 <= e <= 2046, zero for e = m = 0.
rne(S, t, E): the nearest 53-bit value of S 2^E (ties to even) for an integer S whose top bit is t, zero below 2^-1022.
"""
import os
import random
import time

import z3
import bv
import csrc
from bv import BV
from symex import Engine, State, Unsupported
from runner import UnitResult

WRAP = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'oracle', 'fpr_wrap.c')
EW = 16            # width of exponent arithmetic in the specification


def K(v, w):
    return z3.BitVecVal(v, w)


def engine():
    E = Engine([csrc.module(WRAP), csrc.module('fpr.c')], timeout=30000)
    return E


def run(E, fn, args, pc=()):
    st = State()
    for c in pc:
        st.assume(c)
    return [(s, r) for s, r in E.call(fn, args, st)]


def word(s, e, m):
    return z3.simplify(z3.Concat(s, e, m))


def packed(s, e, m):
    """the same, keeping track of which bit comes from which field"""
    return bv.frombits(bv.mk(52, m).bits + bv.tobits(bv.mk(11, z3.simplify(e)), 11) + bv.tobits(bv.mk(1, z3.simplify(s)), 1))


def rne(S, t, E, sgn):
    """(result word, no overflow) for the value (-1)^sgn S 2^E, top bit of S at t (a Python int)"""
    w = S.size()
    if w < 54:
        S = z3.ZeroExt(54 - w, S)
    sh = t - 52
    if sh <= 0:
        q = z3.Extract(52, 0, S) << (-sh)
        up = K(0, 64)
    else:
        q = z3.Extract(t, sh, S)
        half = z3.Extract(sh - 1, sh - 1, S) == 1
        low = z3.Extract(sh - 2, 0, S) != 0 if sh >= 2 else z3.BoolVal(False)
        up = z3.If(z3.And(half, z3.Or(low, z3.Extract(0, 0, q) == 1)), K(1, 64), K(0, 64))
    f = E + (t + 1023)
    val = z3.Concat(K(0, 1), z3.Extract(10, 0, f), z3.Extract(51, 0, q)) + up
    ok = z3.And(f <= 2046, z3.Or(f < 1, z3.ULT(z3.Extract(62, 52, val), 2047)))
    return z3.If(f < 1, z3.Concat(sgn, K(0, 63)), z3.Concat(sgn, z3.Extract(62, 0, val))), ok


def exp(e):
    return z3.ZeroExt(EW - 11, e)


def mant(m, w):
    return z3.Concat(K(1, w - 52), m)


def samples(pc, pins, n=3, seed=1):
    """models of the path with pseudo-random mantissas"""
    rng = random.Random(seed)
    out = []
    s = z3.SolverFor('QF_BV')
    s.set('timeout', 20000)
    s.add(*pc)
    for i in range(n):
        s.push()
        for v, lo in pins:
            w = v.size() - lo
            s.add(z3.Extract(w - 1, 0, v) == K(rng.getrandbits(w), w))
        r = s.check()
        s.pop()
        if r != z3.sat:
            r = s.check()
        if r != z3.sat:
            return None if not out else out
        s.push()
        for v, lo in pins:
            w = v.size() - lo
            s.add(z3.Extract(w - 1, 0, v) == K(rng.getrandbits(w), w))
        if s.check() == z3.sat:
            out.append(s.model())
            s.pop()
        else:
            s.pop()
            s.check()
            out.append(s.model())
    return out


def finish(E, R, name, res, want, ok, pre=()):
    for st, r in res:
        E.prove(name, st, z3.Implies(z3.And(ok, *pre), bv.z(r, 64) == want))


# ------------------------------------------------------------------ addition
def add_case(fn, d, same, first, part=None):
    """operands nonzero, exponents differ by d, equal or opposite signs, the larger one first or second"""
    E = engine()
    R = UnitResult()
    mx, my, e, s = z3.BitVec('mx', 52), z3.BitVec('my', 52), z3.BitVec('e', 11), z3.BitVec('s', 1)
    W = 110
    X = z3.Concat(K(0, W - 53 - 54), K(1, 1), mx, K(0, 54))
    Y = z3.LShR(z3.Concat(K(0, W - 53 - 54), K(1, 1), my, K(0, 54)), d)
    Y = z3.simplify(Y)
    S = X + Y if same else X - Y
    sy = s if same else ~s
    if fn == 'w_sub':
        sy, so = (sy, s)
    big, small = word(s, e, mx), word(sy, z3.simplify(e - d), my)
    if fn == 'w_sub':          # x - y: the second operand enters with its sign inverted
        if first:
            small = word(~sy, z3.simplify(e - d), my)
        else:
            big = word(~s, e, mx)
    args = [big, small] if first else [small, big]
    args = [bv.mk(64, a) for a in args]
    pc = [z3.UGE(e, d + 1), z3.ULE(e, 2046)]
    if not same and d == 0:
        pc.append(z3.UGT(mx, my))
    tops = [107, 106] if same else ([106, 105] if d >= 2 else list(range(106 if d else 105, 52, -1)))
    cover = []
    part = part or (0, 1)
    for ti, t in enumerate(tops):
        ct = z3.And(z3.Extract(W - 1, t + 1, S) == 0, z3.Extract(t, t, S) == 1)
        cover.append(ct)
        if ti % part[1] != part[0]:
            continue
        p = pc + [ct]
        ms = samples(p, [(my, 12)])
        if ms is None:
            E.prove('%s: no result of this size (d=%d t=%d)' % (fn, d, t), _st(pc), z3.Not(ct))
            continue
        E.concretize = ms
        want, ok = rne(S, t, exp(e) - 1075 - 54, s)
        finish(E, R, '%s: correctly rounded, exponent difference %d, %s signs, larger operand %s, top bit %d' % (
            fn, d, 'equal' if same else 'opposite', 'first' if first else 'second', t), run(E, fn, args, p), want, ok)
        E.concretize = None
    E.prove('%s: the sizes of the sum are all covered (d=%d)' % (fn, d), _st(pc), z3.Or(*cover))
    return R.from_engine(E)


def _st(pc):
    st = State()
    for c in pc:
        st.assume(c)
    return st


def fields(p=''):
    s, e, m = z3.BitVec('s' + p, 1), z3.BitVec('e' + p, 11), z3.BitVec('m' + p, 52)
    return s, e, m, packed(s, e, m)


def isnum(e, m):
    return z3.And(e != 2047, z3.Implies(e == 0, m == 0))


def add_far(fn='w_add'):
    E = engine()
    s1, e1, m1, x = fields('1')
    s2, e2, m2, y = fields('2')
    n = K(1, 1) if fn == 'w_sub' else K(0, 1)
    y2 = word(s2 ^ n, e2, m2)
    base = [isnum(e1, m1), isnum(e2, m2)]
    z1, z2 = e1 == 0, e2 == 0
    far = z3.UGE(exp(e1), exp(e2) + 55)
    near = z3.UGE(exp(e2), exp(e1) + 55)
    for nm, pc, want in (
            ('second operand negligible', [z3.Not(z1), z3.Not(z2), far], x.e),
            ('first operand negligible', [z3.Not(z1), z3.Not(z2), near], y2),
            ('second operand zero', [z3.Not(z1), z2], x.e),
            ('first operand zero', [z1, z3.Not(z2)], y2),
            ('both zero', [z1, z2], z3.Concat(s1 & (s2 ^ n), K(0, 63))),
            ('opposite operands', [z3.Not(z1), e1 == e2, m1 == m2, s1 != (s2 ^ n)], K(0, 64))):
        p = base + pc
        E.concretize = samples(p, [(m1, 51)])
        for st, r in run(E, fn, [x, y], p):
            E.prove('%s: %s' % (fn, nm), st, bv.z(r, 64) == want)
    E.concretize = None
    return UnitResult().from_engine(E)


# ------------------------------------------------------------------ multiplication
class Slices:
    """products of bit slices of two known integers, as bounded words; the whole product is their weighted sum"""

    def __init__(self, A, B):
        self.A, self.B = A, B          # bit lists, least significant first
        self.p = {}
        self.tag = ''

    def find(self, x, w, V):
        b = bv.tobits(x, w)
        n = w
        while n and b[n - 1] == 0:
            n -= 1
        if not n:
            return None
        for a in range(len(V) - n + 1):
            if tuple(V[a:a + n]) == tuple(b[:n]):
                return a, a + n
        # a slice whose top bits are unknown zeros is not a slice
        return None

    def __call__(self, E, x, y, w):
        for u, v in ((x, y), (y, x)):
            a, b = self.find(u, w, self.A), self.find(v, w, self.B)
            if a is not None and b is not None:
                return self.product(E, a, b, w)
        return None

    def lo(self, V, a, b):
        return sum(1 << (i - a) for i in range(a, b) if V[i] == 1)

    def product(self, E, a, b, w):
        k = (a, b)
        n = (a[1] - a[0]) + (b[1] - b[0])
        if k not in self.p:
            v = z3.BitVec('prod%s_%d_%d_%d_%d' % ((self.tag,) + a + b), n)
            lo = self.lo(self.A, *a) * self.lo(self.B, *b)
            hi = ((1 << (a[1] - a[0])) - 1) * ((1 << (b[1] - b[0])) - 1)
            E.facts[v.decl().get_id()] = z3.And(z3.UGE(v, lo), z3.ULE(v, hi))
            self.p[k] = v
            E.assumptions.add('products of slices of integers are bounded by the product of the bounds; the product of two integers is the weighted sum of the products of the slices that partition them')
        v = self.p[k]
        if n > w:
            raise Unsupported('product does not fit its word')
        return bv.mk(w, z3.ZeroExt(w - n, v) if n < w else v)

    def total(self, w):
        """the product of the two integers, if the slices used partition the rectangle exactly once"""
        la, lb = len(self.A), len(self.B)
        seen = set()
        S = K(0, w)
        for (a, b), v in self.p.items():
            for i in range(*a):
                for j in range(*b):
                    if (i, j) in seen:
                        return None
                    seen.add((i, j))
            S = S + (z3.ZeroExt(w - v.size(), v) << (a[0] + b[0]))
        if len(seen) != la * lb:
            return None
        return S


def bitsof(m, top=True):
    return list(bv.mk(m.size(), m).bits) + ([1] if top else [])


def mul_unit():
    E = engine()
    s1, e1, m1, x = fields('1')
    s2, e2, m2, y = fields('2')
    M = Slices(bitsof(m1), bitsof(m2))
    E.mul_hook = M
    base = [z3.UGE(e1, 1), z3.ULE(e1, 2046), z3.UGE(e2, 1), z3.ULE(e2, 2046)]
    res = run(E, 'w_mul', [x, y], base)
    S = M.total(106)
    if S is None:
        raise Unsupported('fpr_mul: the partial products do not partition the product of the mantissas')
    Eb = exp(e1) + exp(e2) - 2150
    tops = []
    for t in (104, 105):
        c = z3.And(*([z3.Extract(105, t + 1, S) == 0] if t < 105 else []), z3.Extract(t, t, S) == 1)
        tops.append(c)
        want, ok = rne(S, t, Eb, s1 ^ s2)
        for st, r in res:
            E.prove('fpr_mul: correctly rounded, top bit %d' % t, st, z3.Implies(z3.And(c, ok), bv.z(r, 64) == want))
    E.prove('fpr_mul: the sizes of the product are all covered', _st(base), z3.Or(*tops))
    zero = [isnum(e1, m1), isnum(e2, m2), z3.Or(e1 == 0, e2 == 0)]
    E.mul_hook = Slices(bitsof(m1), bitsof(m2))
    for st, r in run(E, 'w_mul', [x, y], zero):
        E.prove('fpr_mul: zero times anything is zero', st, bv.z(r, 64) == z3.Concat(s1 ^ s2, K(0, 63)))
    return UnitResult().from_engine(E)


# ------------------------------------------------------------------ simple functions
def U(name, *a):
    F = z3.Function(name, *[z3.BitVecSort(64)] * (len(a) + 1))
    return F(*[x if z3.is_expr(x) else bv.z(x, 64) for x in a])


def by_contract(*names):
    """callees enter by their contract: some function of their operands"""
    def mk(n):
        return lambda E, st, a, fr: bv.mk(64, U('contract_' + n, *a))
    return {'falcon_inner_' + n: mk(n) for n in names}


ONE = 4607182418800017408


def simple_unit():
    E = engine()
    s, e, m, x = fields('1')
    s2, e2, m2, y = fields('2')
    num = [isnum(e, m)]
    two = num + [isnum(e2, m2)]
    for st, r in run(E, 'w_neg', [x], num):
        E.prove('fpr_neg: inverts the sign', st, bv.z(r, 64) == word(~s, e, m))
    for st, r in run(E, 'w_half', [x], num):
        E.prove('fpr_half: half, when it is zero or normal', st,
                z3.Implies(e != 1, bv.z(r, 64) & K((1 << 63) - 1, 64) == z3.If(z3.UGE(e, 2), z3.Concat(K(0, 1), e - 1, m), K(0, 64))))
        E.prove('fpr_half: keeps the sign of a nonzero operand', st, z3.Implies(z3.UGE(e, 1), z3.Extract(63, 63, bv.z(r, 64)) == s))
    for st, r in run(E, 'w_double', [x], num):
        E.prove('fpr_double: double', st, z3.Implies(z3.ULE(e, 2045), bv.z(r, 64) == z3.If(e == 0, x.e, word(s, e + 1, m))))
    for st, r in run(E, 'w_lt', [x, y], two):
        ax, ay = z3.Concat(e, m), z3.Concat(e2, m2)
        lt = z3.If(s == 0, z3.If(s2 == 0, z3.ULT(ax, ay), z3.BoolVal(False)), z3.If(s2 == 0, z3.BoolVal(True), z3.ULT(ay, ax)))
        E.prove('fpr_lt: order of the values', st, z3.Implies(z3.Not(z3.And(ax == 0, ay == 0)), (bv.z(r, 32) == 1) == lt))
        E.prove('fpr_lt: zero or one', st, z3.ULE(bv.z(r, 32), 1))
    E.contracts = by_contract('fpr_add', 'fpr_mul', 'fpr_div', 'fpr_scaled')
    for st, r in run(E, 'w_sub', [x, y], two):
        E.prove('fpr_sub: adds the opposite', st, bv.z(r, 64) == U('contract_fpr_add', x, word(~s2, e2, m2)))
    for st, r in run(E, 'w_sqr', [x], num):
        E.prove('fpr_sqr: product with itself', st, bv.z(r, 64) == U('contract_fpr_mul', x, x))
    for st, r in run(E, 'w_inv', [x], num):
        E.prove('fpr_inv: one divided by the operand', st, bv.z(r, 64) == U('contract_fpr_div', K(ONE, 64), x))

    def scaled(E, st, a, fr):
        return bv.mk(64, z3.Function('contract_scaled', z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(64))(bv.z(a[0], 64), bv.z(a[1], 32)))
    E.contracts['falcon_inner_fpr_scaled'] = scaled
    i = bv.var('i', 64)
    for st, r in run(E, 'w_of', [i]):
        E.prove('fpr_of: scaled by 2^0', st, bv.z(r, 64) == bv.z(scaled(E, st, [i, 0], None), 64))
    return UnitResult().from_engine(E)


# ------------------------------------------------------------------ conversions
def scaled_case(tops):
    E = engine()
    neg = z3.BitVec('neg', 1)
    sc = z3.BitVec('sc', 32)
    mag = z3.BitVec('mag', 64)
    i = z3.If(neg == 1, -mag, mag)
    for t in tops:
        pc = [sc >= -4000, sc <= 1000]
        if t is None:
            st = [k for k in run(E, 'w_scaled', [0, bv.mk(32, sc)], pc)]
            for s, r in st:
                E.prove('fpr_scaled: zero', s, bv.z(r, 64) == 0)
            continue
        low = z3.BitVec('low', t) if t else None
        mg = z3.Concat(K(1, 64 - t), low) if t else K(1, 64)
        for n in (0, 1):
            ii = z3.simplify(-mg if n else mg)
            E.concretize = samples(pc, [])
            if t:
                E.concretize = samples(pc, [(low, 0)])
            res = run(E, 'w_scaled', [bv.mk(64, ii), bv.mk(32, sc)], pc)
            want, ok = rne(mg, t, z3.Extract(EW - 1, 0, sc), K(n, 1))
            for s, r in res:
                E.prove('fpr_scaled: correctly rounded, %s, top bit %d' % ('negative' if n else 'positive', t), s, z3.Implies(ok, bv.z(r, 64) == want))
            E.concretize = None
    return UnitResult().from_engine(E)


def conv_unit(fn):
    """rint, floor, trunc of |x| < 2^63"""
    def f():
        E = engine()
        s, e, m, x = fields('1')
        # |x| = M 2^(e-1075); as a fixed-point number with 64 fractional bits, for e >= 1023-64 .. 1085
        pc = [isnum(e, m), z3.ULE(e, 1085)]
        if fn == 'w_floor':
            pc.append(z3.Not(z3.And(s == 1, e == 0)))
        for st, r in run(E, fn, [x], pc):
            r = bv.z(r, 64)
            for lo, hi in ((0, 1010), (1011, 1022), (1023, 1054), (1055, 1085)):
                rng = z3.And(z3.UGE(e, lo), z3.ULE(e, hi))
                if hi <= 1010:
                    # |x| < 2^-12
                    w = K(0, 64) if fn != 'w_floor' else z3.If(s == 1, K(-1, 64), K(0, 64))
                    E.prove('%s: tiny operands' % fn, st, z3.Implies(rng, r == w))
                    continue
                W = 64 + 70
                k = z3.ZeroExt(W - 11, e) - 1005       # shift left by e - 1005: 70 fractional bits
                V = z3.Concat(K(0, W - 53), K(1, 1), m) << k
                I = z3.Extract(W - 1, 70, V)
                fr = z3.Extract(69, 0, V)
                if fn == 'w_trunc':
                    w = I
                elif fn == 'w_floor':
                    w = z3.If(s == 1, z3.If(fr != 0, -I - 1, -I), I)
                else:
                    half = z3.Extract(69, 69, V) == 1
                    low = z3.Extract(68, 0, V) != 0
                    w = I + z3.If(z3.And(half, z3.Or(low, z3.Extract(0, 0, I) == 1)), K(1, 64), K(0, 64))
                if fn != 'w_floor':
                    w = z3.If(s == 1, -w, w)
                E.prove('%s: exponent fields %d..%d' % (fn, lo, hi), st, z3.Implies(rng, r == w))
        return UnitResult().from_engine(E)
    return f


# ------------------------------------------------------------------ loops: division, square root, exponential
class Cut:
    """Loop invariant of an unrolled loop: at every header the live words are the specified functions of the specification's
    own state.  `state` maps names to words, `sample` the same on concrete operands; `cands(state)` lists what a local may hold;
    `advance` steps the specification.  Each local is matched by its concrete value, then proved equal, then replaced by the
    specification's (fresh) state."""

    def __init__(self, name, func, state, sample, cands, need, advance, fresh):
        self.name, self.func = name, func
        self.state, self.sample, self.cands, self.need, self.advance, self.fresh = state, sample, cands, need, advance, fresh
        self.n = -1
        self.env = []          # (variable, value) pairs of the samples
        self.count = 0

    def value(self, t, k):
        if isinstance(t, int):
            return t
        v = z3.simplify(z3.substitute(t.e if isinstance(t, BV) else t, *self.env[k]))
        return v.as_long() if z3.is_bv_value(v) else None

    def __call__(self, E, fr, st, header, n):
        if fr.func.name != self.func:
            return
        if n != self.n + 1:
            raise Unsupported('%s: the loop is not run once from start to end' % self.name)
        self.n = n
        if n:
            self.advance(self, E, st, n)
        want = self.cands(self.state, n)
        ws = [self.cands(k, n) for k in self.sample]
        found = set()
        hold = []
        for ids in fr.locals.values():
            for oid in ids:
                o = st.mem.get(oid)
                if o is None or o.arr is not None or o.size not in (4, 8):
                    continue
                c = o.cells.get(0)
                if c is None or c[0] != o.size or not isinstance(c[1], (BV, int)):
                    continue
                w = 8 * o.size
                vals = [self.value(c[1], k) for k in range(len(self.sample))]
                if isinstance(c[1], int) and not any(nm in self.need and w == 64 for nm in want):
                    continue
                for nm in want:
                    if w == 64 and all(v is not None and v == x[nm] for v, x in zip(vals, ws)):
                        t = want[nm]
                        if isinstance(c[1], int) and isinstance(t, int):
                            found.add(nm)
                            break
                        if isinstance(c[1], int) and nm not in self.need:
                            continue
                        E.prove('%s: iteration %d: a word holds %s' % (self.name, n, nm), st, bv.icmp('eq', c[1], t if isinstance(t, (int, BV)) else bv.mk(64, t), 64))
                        hold.append((oid, nm))
                        found.add(nm)
                        break
        for alts in self.need:
            if alts not in found:
                E.prove('%s: iteration %d: some word holds %s' % (self.name, n, alts), st, False)
        self.fresh(self, E, st, n)
        new = self.cands(self.state, n)
        for oid, nm in hold:
            t = new[nm]
            st.wobj(oid).cells[0] = (8, t if isinstance(t, (int, BV)) else bv.mk(64, z3.simplify(t)))
        self.count = n


def randm(rng):
    return rng.getrandbits(52)


def div_unit():
    E = engine()
    s1, e1, m1, x = fields('1')
    s2, e2, m2, y = fields('2')
    base = [z3.UGE(e1, 1), z3.ULE(e1, 2046), z3.UGE(e2, 1), z3.ULE(e2, 2046)]
    X, Y = mant(m1, 64), mant(m2, 64)
    X, Y = z3.ZeroExt(11, z3.Concat(K(1, 1), m1)), z3.ZeroExt(11, z3.Concat(K(1, 1), m2))
    rng = random.Random(7)
    smp = []
    env = []
    for k in range(3):
        a, b = randm(rng), randm(rng)
        smp.append(dict(Q=0, R2=(1 << 52) + a, Y=(1 << 52) + b))
        env.append([(m1, K(a, 52)), (m2, K(b, 52)), (e1, K(1000 + k, 11)), (e2, K(1010, 11)), (s1, K(0, 1)), (s2, K(0, 1))])

    # state: Q = floor(X 2^(n-1) / Y), R2 = 2 (X 2^(n-1) - Q Y)  (R2 = X before the first step)
    def cands(s, n):
        if isinstance(s['Q'], int) and isinstance(s['R2'], int):
            return {'the quotient so far, doubled': 2 * s['Q'], 'the remainder, doubled': s['R2'], 'the divisor': s['Y']}
        Q = s['Q'] if not isinstance(s['Q'], int) else K(s['Q'], 64)
        return {'the quotient so far, doubled': Q << 1, 'the remainder, doubled': s['R2'], 'the divisor': s['Y']}

    def advance(c, E, st, n):
        s = c.state
        b = z3.UGE(s['R2'], s['Y'])
        Q = s['Q'] if not isinstance(s['Q'], int) else K(s['Q'], 64)
        c.state = dict(Q=(Q << 1) + z3.If(b, K(1, 64), K(0, 64)), R2=(s['R2'] - z3.If(b, s['Y'], K(0, 64))) << 1, Y=s['Y'])
        for k in c.sample:
            bb = k['R2'] >= k['Y']
            k['Q'] = 2 * k['Q'] + bb
            k['R2'] = 2 * (k['R2'] - (k['Y'] if bb else 0))

    def fresh(c, E, st, n):
        if not n:
            return
        s = c.state
        q, r = z3.BitVec('Q_%d' % n, 64), z3.BitVec('R_%d' % n, 64)
        # facts of the exact division (see the lemma): R2 = 2 R with R < Y, Q < 2^n
        E.prove('fpr_div: iteration %d: the remainder is below the divisor and even when doubled' % n, st,
                z3.And(z3.ULT(s['R2'], s['Y'] << 1), z3.Extract(0, 0, s['R2']) == 0, z3.ULT(s['Q'], K(1 << n, 64))))
        st.assume(z3.And(z3.ULT(r, Y << 1), z3.Extract(0, 0, r) == 0, z3.ULT(q, K(1 << n, 64))))
        for k, en in zip(c.sample, c.env):
            en.append((q, K(k['Q'], 64)))
            en.append((r, K(k['R2'], 64)))
        c.state = dict(Q=q, R2=r, Y=s['Y'])

    c = Cut('fpr_div', 'falcon_inner_fpr_div', dict(Q=0, R2=X, Y=Y), smp, cands, ('the quotient so far, doubled', 'the remainder, doubled'), advance, fresh)
    c.env = env
    E.iter_hook = c
    for st, r in run(E, 'w_div', [x, y], base):
        n = c.count
        q, rem = c.state['Q'], c.state['R2']
        E.prove('fpr_div: at least 54 quotient bits are computed', st, n >= 54)
        # Q >= 2^(n-2), from X 2^(n-1) = Q Y + R, R < Y, X >= 2^52, Y < 2^53 (lemma below)
        st.assume(z3.UGE(q, K(1 << (n - 2), 64)))
        S = (z3.ZeroExt(64, q) << 1) | z3.If(rem != 0, K(1, 128), K(0, 128))
        for t in (n - 1, n):
            want, ok = rne(S, t, exp(e1) - exp(e2) - n, s1 ^ s2)
            E.prove('fpr_div: correctly rounded quotient, top bit %d' % t, st, z3.Implies(z3.And(z3.Extract(t, t, S) == 1, z3.Extract(127, t + 1, S) == 0, ok), bv.z(r, 64) == want))
        N = n
    i = z3.Ints('X Y Q R b')
    iX, iY, iQ, iR, ib = i
    ist = _st([iY > 0, iR >= 0, iR < iY, iX == iQ * iY + iR, ib == z3.If(2 * iR >= iY, z3.IntVal(1), z3.IntVal(0))])
    E.prove('lemma: a step of long division keeps quotient and remainder exact', ist,
            z3.And(2 * iX == (2 * iQ + ib) * iY + (2 * iR - ib * iY), 2 * iR - ib * iY >= 0, 2 * iR - ib * iY < iY))
    h = z3.Int('h')
    ist = _st([iY > 0, iY < 1 << 53, iR >= 0, iR < iY, h >= (1 << 52) * (1 << (N - 1)), h == iQ * iY + iR, iQ >= 0,
               z3.Implies(iQ <= (1 << (N - 2)) - 1, iQ * iY <= ((1 << (N - 2)) - 1) * iY)])
    E.prove('lemma: the quotient has at least n - 1 bits', ist, iQ >= 1 << (N - 2))
    E.iter_hook = None
    zero = [e1 == 0, m1 == 0, z3.UGE(e2, 1), z3.ULE(e2, 2046)]
    for st, r in run(E, 'w_div', [x, y], zero):
        E.prove('fpr_div: zero divided by anything is zero', st, bv.z(r, 64) & K((1 << 63) - 1, 64) == 0)
    return UnitResult().from_engine(E)


def sqrt_unit(par):
    def f():
        E = engine()
        k10, m = z3.BitVec('k', 10), z3.BitVec('m', 52)
        e = z3.Concat(k10, K(par, 1))
        x = bv.frombits(bv.mk(52, m).bits + ((par,)) + bv.mk(10, k10).bits + (0,))
        sh = 1 if par else 2           # e odd: unbiased exponent even, mantissa in [1, 2)
        X = z3.simplify(z3.ZeroExt(11, z3.Concat(K(1, 1), m)) << sh)
        base = [z3.UGE(e, 1), z3.ULE(e, 2046)]
        rng = random.Random(11)
        smp, env = [], []
        for j in range(3):
            a = randm(rng)
            smp.append(dict(q=0, x=((1 << 52) + a) << sh))
            env.append([(m, K(a, 52)), (k10, K(500 + j, 10))])

        def cands(s, n):
            q, xx = s['q'], s['x']
            two = 2 * q if isinstance(q, int) else q << 1
            return {'the root so far': q, 'the root so far, doubled': two, 'the scaled remainder': xx}

        def advance(c, E, st, n):
            r = 1 << (54 - n)
            s = c.state
            q = s['q'] if not isinstance(s['q'], int) else K(s['q'], 64)
            t = (q << 1) + r
            b = z3.UGE(s['x'], t)
            c.state = dict(q=q + z3.If(b, K(r, 64), K(0, 64)), x=(s['x'] - z3.If(b, t, K(0, 64))) << 1)
            for k in c.sample:
                tt = 2 * k['q'] + r
                bb = k['x'] >= tt
                k['q'] += r if bb else 0
                k['x'] = 2 * (k['x'] - (tt if bb else 0))

        def inv(q, xx, n):
            # before step n+1 with r = 2^(53-n): X 2^53 - q^2 = x 2^(53-n), so x < 4 q + 4 r
            r4 = (1 << (55 - n))
            return z3.And(z3.ULT(xx, (q << 2) + r4), z3.UGE(q, K(1 << 53, 64)), z3.ULT(q, K(1 << 54, 64)), z3.Extract(53 - n, 0, q) == 0 if n <= 53 else z3.BoolVal(True), z3.ULE(q, K((1 << 54) - (1 << (54 - n)), 64)))

        def fresh(c, E, st, n):
            if not n:
                return
            s = c.state
            E.prove('fpr_sqrt: iteration %d: the remainder stays below twice the root' % n, st, inv(s['q'], s['x'], n))
            q, xx = z3.BitVec('q_%d' % n, 64), z3.BitVec('x_%d' % n, 64)
            st.assume(inv(q, xx, n))
            for k, en in zip(c.sample, c.env):
                en.append((q, K(k['q'], 64)))
                en.append((xx, K(k['x'], 64)))
            c.state = dict(q=q, x=xx)

        c = Cut('fpr_sqrt', 'falcon_inner_fpr_sqrt', dict(q=0, x=X), smp, cands, ('the root so far', 'the scaled remainder'), advance, fresh)
        c.env = env
        E.iter_hook = c
        for st, r in run(E, 'w_sqrt', [x], base):
            n = c.count
            E.prove('fpr_sqrt: the whole root is computed', st, n == 54)
            S = (c.state['q'] << 1) | z3.If(c.state['x'] != 0, K(1, 64), K(0, 64))
            h = (exp(e) - (1023 if par else 1024)) >> 1
            want, ok = rne(S, 54, h - 54, K(0, 1))
            E.prove('fpr_sqrt: correctly rounded root', st, bv.z(r, 64) == want)
        E.iter_hook = None
        iX, iq, ix, ir = z3.Ints('X q x r')
        ist = _st([ir > 0, iq >= 0, iX == iq * iq + ix * (2 * ir)])
        E.prove('lemma: a step of the square root keeps the remainder exact (bit set)', ist,
                iX == (iq + 2 * ir) * (iq + 2 * ir) + (2 * (ix - (2 * iq + 2 * ir))) * ir)
        E.prove('lemma: a step of the square root keeps the remainder exact (bit clear)', ist, iX == iq * iq + (2 * ix) * ir)
        zero = bv.mk(64, K(0, 64))
        if par:
            for s in (0, 1):
                for st, r in run(E, 'w_sqrt', [s << 63]):
                    E.prove('fpr_sqrt: zero', st, bv.z(r, 64) & K((1 << 63) - 1, 64) == 0)
        return UnitResult().from_engine(E)
    return f


FACCT = [0x4741183A3, 0x36548CFC06, 0x24FDCBF140A, 0x171D939DE045, 0xD00CF58F6F84, 0x680681CF796E3, 0x2D82D8305B0FEA,
         0x11111110E066FD0, 0x555555555070F00, 0x155555555581FF00, 0x400000000002B400, 0x7FFFFFFFFFFF4800, 0x8000000000000000]


def expm_unit():
    E = engine()
    s1, e1, m1, x = fields('1')
    s2, e2, m2, ccs = fields('2')
    T = {}

    def trunc(E, st, a, fr):
        k = z3.simplify(bv.z(a[0], 64))
        for key, v in T.values():
            if key.eq(k):
                return bv.mk(64, v)
        v = z3.BitVec('trunc_%d' % len(T), 64)
        T[len(T)] = (k, v)
        E.facts[v.decl().get_id()] = z3.ULT(v, 1 << 63)
        return bv.mk(64, v)

    E.contracts = dict(by_contract('fpr_mul'), fpr_trunc=trunc)
    P63 = 4890909195324358656
    zx = U('contract_fpr_mul', x, K(P63, 64))
    zc = U('contract_fpr_mul', ccs, K(P63, 64))
    hook = {}

    def slices(t, yv):
        A = [0] + list(bv.mk(64, t).bits)[:63]
        M = Slices(A, list(bv.mk(64, yv).bits))
        return M

    rng = random.Random(5)
    smp, env = [], []
    trunc(E, None, [bv.mk(64, zx)], None)
    z0 = T[0][1]
    for k in range(3):
        v = rng.getrandbits(63)
        smp.append(dict(y=FACCT[0], z=2 * v))
        env.append([(z0, K(v, 64))])

    def cands(s, n):
        return {'the polynomial so far': s['y'], 'the fixed-point operand': s['z']}

    def advance(c, E, st, n):
        S = hook['M'].total(128)
        if S is None:
            raise Unsupported('fpr_expm_p63: the partial products do not partition the product')
        s = c.state
        c.state = dict(y=K(FACCT[n], 64) - z3.Extract(127, 64, S), z=s['z'])
        for i, k in enumerate(c.sample):
            for (a, b), v in hook['M'].p.items():
                av = (k['z'] >> a[0]) & ((1 << (a[1] - a[0])) - 1)
                bb = (k['y'] >> b[0]) & ((1 << (b[1] - b[0])) - 1)
                c.env[i].append((v, K(av * bb, v.size())))
            k['y'] = (FACCT[n] - ((k['z'] * k['y']) >> 64)) & ((1 << 64) - 1)

    def fresh(c, E, st, n):
        y = z3.BitVec('y_%d' % n, 64)
        if n == 0:
            st.assume(y == FACCT[0])
        for k, en in zip(c.sample, c.env):
            en.append((y, K(k['y'], 64)))
        c.state = dict(y=y, z=c.state['z'])
        hook['M'] = slices(z0, y)
        hook['M'].tag = n
        E.mul_hook = hook['M']

    Z = bv.shl(bv.mk(64, z0), 1, 64)
    c = Cut('fpr_expm_p63', 'falcon_inner_fpr_expm_p63', dict(y=K(FACCT[0], 64), z=Z), smp, cands, ('the polynomial so far',), advance, fresh)
    c.env = env
    E.iter_hook = c
    base = [s1 == 0, s2 == 0, z3.ULE(e1, 1022), z3.ULE(e2, 1022)]
    trunc(E, None, [bv.mk(64, zc)], None)
    z2 = T[1][1]
    last = {}
    orig = E.contracts['fpr_trunc']

    def trunc2(E, st, a, fr):
        v = orig(E, st, a, fr)
        if v.e.eq(z2):
            E.mul_hook = last['M'] = slices(z2, c.state['y'])
            last['M'].tag = 'end'
        return v
    E.contracts['fpr_trunc'] = trunc2
    for st, r in run(E, 'w_expm', [x, ccs], base):
        E.prove('fpr_expm_p63: twelve steps', st, c.count == 12)
        if len(T) != 2 or 'M' not in last:
            raise Unsupported('fpr_expm_p63: operands are not taken as trunc(x 2^63), trunc(ccs 2^63)')
        S = last['M'].total(128)
        if S is None:
            raise Unsupported('fpr_expm_p63: the last product is not the product of the operands')
        E.prove('fpr_expm_p63: scaled by ccs', st, bv.z(r, 64) == z3.Extract(127, 64, S))
    return UnitResult().from_engine(E)


# ------------------------------------------------------------------ tables, lemmas
def const(E, fn, i, w=64):
    r = run(E, fn, [i])
    if len(r) != 1 or not isinstance(r[0][1], int):
        raise Unsupported('%s(%d) is not a constant' % (fn, i))
    return r[0][1]


def table_unit():
    import sys
    sys.path.insert(0, os.path.dirname(WRAP))
    import fpr as F
    E = engine()
    R = UnitResult()
    c, smin, isig, mp = F.constants()
    for i, v in enumerate(c):
        R.check('named constant %d of fpr.h is the nearest word to its value' % i, F.near(const(E, 'w_const', i), v, mp) <= 0.5)
    for l in range(1, 11):
        R.check('fpr_inv_sigma[%d] is the inverse of the specified standard deviation (2 units of the last place)' % l, F.near(const(E, 'w_inv_sigma', l), isig(l), mp) <= 2)
        R.check('fpr_sigma_min[%d] is the specified smallest deviation (2 units of the last place)' % l, F.near(const(E, 'w_sigma_min', l), smin(l), mp) <= 2)
    for i in range(11):
        R.check('fpr_p2_tab[%d] is 2^%d' % (i, 1 - i), F.val(const(E, 'w_p2', i)) == F.Fr(2) ** (1 - i))
    E.globals.clear()
    for k in range(1, 1024):
        a = mp.pi * int(format(k, '010b')[::-1], 2) / 1024
        for j, v in ((0, mp.cos(a) if k > 1 else mp.mpf(0)), (1, mp.sin(a))):
            R.check('fpr_gm_tab[%d] is the nearest word to its root of unity' % (2 * k + j), F.near(const(E, 'w_gm', 2 * k + j), v, mp) <= 0.5)
    return R.from_engine(E)


def lemma_unit():
    E = engine()
    f, rho = z3.Int('f'), z3.Real('rho')
    for k in (1, 2, 3):
        st = _st([f >= 0, f < 1 << k, rho >= 0, rho < 1])
        s2 = 2 * f + z3.If(rho > 0, z3.IntVal(1), z3.IntVal(0))
        x = z3.ToReal(f) + rho
        h = z3.RealVal(1 << (k - 1))
        E.prove('lemma: a sticky bit decides the rounding of the exact value (%d bits dropped)' % k, st,
                z3.And((x > h) == (s2 > 1 << k), (x == h) == (s2 == 1 << k)))
    R = UnitResult()
    # the fixed-point polynomial is within 2^-51 of exp(-x) on [0, log 2]
    from fractions import Fraction as Fr
    import math
    d = [((Fr(FACCT[12 - k], 1 << 63) if k <= 12 else 0) - Fr(1, math.factorial(k))) * (-1) ** k for k in range(26)]
    top, N = Fr(6932, 10000), 64
    worst = Fr(0)
    for i in range(N):
        a, h = top * (2 * i + 1) / (2 * N), top / (2 * N)
        c = list(d)
        for p in range(len(c)):
            for q in range(len(c) - 2, p - 1, -1):
                c[q] += a * c[q + 1]
        worst = max(worst, sum(abs(c[k]) * h ** k for k in range(len(c))))
    # remainder of the series after 25 terms, and one unit of 2^-63 lost per step, per operand and for the scale
    worst += Fr(7, 10) ** 26 / math.factorial(26) + Fr(16, 1 << 63)
    R.check('lemma: the polynomial of fpr_expm_p63 with its truncations is within 2^-51 of the exponential on [0, log 2]', worst < Fr(1, 1 << 51), 'bound 2^%.2f' % math.log2(worst), 'rational interval arithmetic')
    return R.from_engine(E)


def units():
    u = [('additions of far or zero operands', add_far)]
    for d in (0, 1):
        for first in (True, False):
            for k in range(4):
                u.append(('fpr_add opposite signs d=%d %s part %d' % (d, first, k), lambda d=d, first=first, k=k: add_case('w_add', d, False, first, (k, 4))))
    u += [('fpr_mul', mul_unit), ('fpr_div', div_unit), ('fpr_sqrt odd', sqrt_unit(1)), ('fpr_sqrt even', sqrt_unit(0)), ('fpr_expm_p63', expm_unit)]
    for d in range(0, 55):
        for same in (True, False):
            if d >= 2 or same:
                for first in ((True, False) if d else (True,)):
                    u.append(('fpr_add d=%d %s %s' % (d, 'same' if same else 'opposite', 'xy' if first else 'yx'),
                              lambda d=d, same=same, first=first: add_case('w_add', d, same, first)))
    for g in range(0, 63, 7):
        u.append(('fpr_scaled from bit %d' % g, lambda g=g: scaled_case(([None] if not g else []) + list(range(g, min(63, g + 7))))))
    u += [('fpr_rint', conv_unit('w_rint')), ('fpr_floor', conv_unit('w_floor')), ('fpr_trunc', conv_unit('w_trunc')), ('simple functions', simple_unit),
          ('tables', table_unit), ('lemmas', lemma_unit)]
    return u
