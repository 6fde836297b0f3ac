"""Contracts of samplerz.py and mkgauss.py: every sampler as a function of the random bytes it reads.

Real numbers are exact (rational functions over opaque atoms); floating-point constants are the rational numbers they denote.
"""
import math
from fractions import Fraction

import z3

import bv
import pysym as P
from pysym import ZInt, SInt, zt, zint, ns

# floor(2^72 * P(Z > i)) of the half-Gaussian of parameter 1.8205, i = 0..17 (Falcon specification, table 3.1)
RCDT = [3024686241123004913666, 1564742784480091954050, 636254429462080897535, 199560484645026482916, 47667343854657281903,
        8595902006365044063, 1163297957344668388, 117656387352093658, 8867391802663976, 496969357462633, 20680885154299,
        638331848991, 14602316184, 247426747, 3104126, 28824, 198, 1]
# exp(-x) on [0, ln 2] (FACCT), leading coefficient first, scaled by 2^63
EXPC = [0x00000004741183A3, 0x00000036548CFC06, 0x0000024FDCBF140A, 0x0000171D939DE045, 0x0000D00CF58F6F84, 0x000680681CF796E3,
        0x002D82D8305B0FEA, 0x011111110E066FD0, 0x0555555555070F00, 0x155555555581FF00, 0x400000000002B400, 0x7FFFFFFFFFFF4800,
        0x8000000000000000]
# key generation at degree 1024: 2^63 P(X = 0), then 2^63 P(|X| > k | X != 0) (reference implementation)
GAUSS = [1283868770400643928, 6416574995475331444, 4078260278032692663, 2353523259288686585, 1227179971273316331,
         575931623374121527, 242543240509105209, 91437049221049666, 30799446349977173, 9255276791179340, 2478152334826140,
         590642893610164, 125206034929641, 23590435911403, 3948334035941, 586753615614, 77391054539, 9056793210, 940121950,
         86539696, 7062824, 510971, 32764, 1862, 94, 4, 0]


# ------------------------------------------------------------------------------------- exact reals
class RF:
    """rational function with rational coefficients over named atoms"""
    __hash__ = None

    def __init__(self, num, den=None):
        self.num, self.den = num, den or {(): Fraction(1)}

    def key(self):
        """text that identifies the value"""
        if len(self.den) == 1:
            (m, c), = self.den.items()
            n = {}
            for k, v in self.num.items():
                a, b = list(k), list(m)
                for x in list(b):
                    if x in a:
                        a.remove(x)
                        b.remove(x)
                n[(tuple(a), tuple(b))] = v / c
            return repr(sorted(n.items()))
        return repr((sorted(self.num.items()), sorted(self.den.items())))

    def _int_(self):
        """truncation of a non-negative value (proved where it matters)"""
        return floor_of(self, trunc=True)

    def __neg__(self):
        return RF({k: -v for k, v in self.num.items()}, self.den)

    def __abs__(self):
        raise P.Unsupported('absolute value of a real')

    def __round__(self):
        raise P.Unsupported('rounding of a real')

    def __pow__(self, k):
        if not isinstance(k, int) or k < 0:
            raise P.Unsupported('power of a real')
        r = RF({(): Fraction(1)})
        for _ in range(k):
            r = r * self
        return r

    def _no(self, *a):
        raise P.Unsupported('comparison of reals')
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = __int__ = __index__ = _no

    def same(self, o):
        return padd(pmul(self.num, o.den), pmul(o.num, self.den), -1) == {}


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def pmul(a, b):
    r = {}
    for k, v in a.items():
        for k2, v2 in b.items():
            m = tuple(sorted(k + k2))
            r[m] = r.get(m, 0) + v * v2
    return {k: v for k, v in r.items() if v}


def rf(x):
    if isinstance(x, RF):
        return x
    if isinstance(x, (int, float, Fraction)):
        return RF({(): Fraction(x)} if x else {})
    if isinstance(x, (ZInt, SInt)):
        return RF(linear(zt(x)))
    return None


def linear(t):
    """integer term as a polynomial over its atoms"""
    t = z3.simplify(t)
    k = t.decl().kind() if z3.is_app(t) else None
    if z3.is_int_value(t):
        return {(): Fraction(t.as_long())} if t.as_long() else {}
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in t.children():
            r = padd(r, linear(c))
        return r
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in t.children():
            r = pmul(r, linear(c))
        return r
    if k == z3.Z3_OP_UMINUS:
        return pmul({(): Fraction(-1)}, linear(t.children()[0]))
    return {(t.sexpr(),): Fraction(1)}


def atom(name):
    return RF({(name,): Fraction(1)})


def _op(f):
    def op(a, b):
        b = rf(b)
        return NotImplemented if b is None else f(a, b)

    def rop(a, b):
        b = rf(b)
        return NotImplemented if b is None else f(b, a)
    return op, rop


for _n, _f in (('add', lambda a, b: RF(padd(pmul(a.num, b.den), pmul(b.num, a.den)), pmul(a.den, b.den))),
               ('sub', lambda a, b: RF(padd(pmul(a.num, b.den), pmul(b.num, a.den), -1), pmul(a.den, b.den))),
               ('mul', lambda a, b: RF(pmul(a.num, b.num), pmul(a.den, b.den))),
               ('truediv', lambda a, b: RF(pmul(a.num, b.den), pmul(a.den, b.num)))):
    _o, _r = _op(_f)
    setattr(RF, '__%s__' % _n, _o)
    setattr(RF, '__r%s__' % _n, _r)
    # the same with an integer on the left


def floor_of(x, trunc=False):
    reg = P.CTX.notes.setdefault('floors', {})
    k = ('trunc' if trunc else 'floor', x.key())
    if k not in reg:
        reg[k] = ZInt(z3.Int('%s_%d' % (k[0], len(reg))))
    return reg[k]


class Ints(ZInt):
    """integer that meets real numbers"""
    __slots__ = ()


def _mixed(name):
    old = getattr(ZInt, name, None)

    def op(a, b):
        if isinstance(b, (float, RF, Fraction)):
            return getattr(RF(linear(a.t)), name)(b)
        return old(a, b) if old else NotImplemented
    return op


def _install():
    """integers times floating-point constants (this contract only)"""
    if getattr(ZInt, '_mixed', False):
        return
    for n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__'):
        setattr(ZInt, n, _mixed(n))
    ZInt._mixed = True


class Bytes:
    """random bytes as integers"""

    def __init__(self, l):
        self.l = l

    def _slen(self):
        return len(self.l)

    def __len__(self):
        return len(self.l)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Bytes(self.l[i])
        return ZInt(self.l[i])

    def __iter__(self):
        return iter([ZInt(x) for x in self.l])

    def _from_bytes(self, order):
        l = self.l if order == 'little' else self.l[::-1]
        return Byte(z3.simplify(z3.Sum([x * (1 << (8 * i)) for i, x in enumerate(l)])))


class Byte(ZInt):
    """integer whose low bit is decided when it is used"""
    __slots__ = ()

    def __and__(self, o):
        if isinstance(o, int) and o == 1:
            return self % 2
        return ZInt.__and__(self, o)
    __rand__ = __and__

    def __mod__(self, o):
        if isinstance(o, int) and o == 2:
            return 1 if bool(P.sbool(P._zsimp(self.t % 2 == 1))) else 0
        return ZInt.__mod__(self, o)


def source(E, g, allowed, name='randombytes'):
    """randombytes(k): k fresh bytes, logged"""
    def f(k):
        E.prove('%s bytes are requested' % allowed, isinstance(k, int) and k == allowed)
        l = [z3.Int(P.CTX.name('byte')) for _ in range(k)]
        for x in l:
            P.CTX.assume(z3.And(x >= 0, x < 256))
        g.read.append(l)
        return Bytes(l)
    return f


def value(l):
    return z3.Sum([x * (1 << (8 * i)) for i, x in enumerate(l)])


def module(g, cuts=None, loops=None, **over):
    _install()
    fl = lambda x: floor_of(x) if isinstance(x, RF) else (x if isinstance(x, (int, ZInt)) else math.floor(x))
    bi = {'min': lambda *a: pick(a, False), 'max': lambda *a: pick(a, True)}
    m = P.load('samplerz', stubs={'math': ns(floor=fl), 'os': ns(urandom=None)}, cuts=cuts, loops=loops, extra_builtins=bi)
    for k, v in over.items():
        m._g[k] = v
    return m


def pick(a, mx):
    if not any(isinstance(x, ZInt) for x in a):
        return (P._max if mx else P._min)(*a)
    r = zt(a[0])
    for x in a[1:]:
        r = z3.If(zt(x) > r if mx else zt(x) < r, zt(x), r)
    return zint(r)


# ------------------------------------------------------------------------------------- basesampler
def base_unit():
    """z0 = number of table values above the 72-bit little-endian integer read"""
    E = P.Engine('basesampler')
    E.res.functions.add('pythonref/samplerz.py:basesampler')
    g = ns()
    m = module(g)

    def run():
        g.read = []
        return m._g['basesampler'](randombytes=source(E, g, 9))

    def post(r):
        E.prove('basesampler: nine bytes are read once', len(g.read) == 1)
        u = value(g.read[0])
        E.prove('basesampler: the number of table values above the 72-bit integer read', zt(r) == z3.Sum([z3.If(u < t, 1, 0) for t in RCDT]))
    return E.run(run, post)


# ------------------------------------------------------------------------------------- approxexp, berexp
def exp_unit():
    """Horner evaluation with floors at z = floor(2^63 x), times 2 floor(2^63 ccs)"""
    E = P.Engine('approxexp')
    E.res.functions.add('pythonref/samplerz.py:approxexp')
    g = ns()
    m = module(g)

    def run():
        g.x, g.c = atom('x'), atom('ccs')
        return m._g['approxexp'](g.x, g.c)

    def post(r):
        fl = lambda w: floor_of(w * (1 << 63), trunc=True)
        z, c = fl(atom('x')), fl(atom('ccs'))
        y = ZInt(z3.IntVal(EXPC[0]))
        for e in EXPC[1:]:
            y = e - ((z * y) >> 63)
        y = ((c << 1) * y) >> 63
        E.prove('approxexp: the polynomial of exp(-x) by Horner, scaled by 2 ccs', z3.simplify(zt(r) - zt(y)) == 0)
    return E.run(run, post)


def exp_lemma():
    """|value / (2^64 ccs) - exp(-x)| for x in [0, ln 2]: exact rational arithmetic"""
    E = P.Engine('approxexp, accuracy')
    S = 1 << 63
    pol = [Fraction(EXPC[12 - i], S) * (-1) ** i for i in range(13)]
    tay = [Fraction((-1) ** i, math.factorial(i)) for i in range(30)]
    rem = Fraction(7, 10) ** 30 / math.factorial(30)
    d = [(pol[i] if i < 13 else 0) - tay[i] for i in range(30)]
    top = Fraction(7, 10)
    # |d| on [0, 0.7]: 1400 intervals, value at the midpoint plus the slope bound
    slope = sum(abs(c) * i * top ** (i - 1) for i, c in enumerate(d) if i)
    k = 1400
    worst = max(abs(sum(c * (top * (2 * j + 1) / (2 * k)) ** i for i, c in enumerate(d))) for j in range(k)) + slope * top / (2 * k) + rem
    # twelve floors, each an error below 2^-63 that later steps multiply by x < 0.7; the last adds 2^-64, z another 2^-63
    worst += (sum(top ** i for i in range(13)) + 2) / S
    E.prove('approxexp: within 2^-43 of exp(-x) on [0, ln 2]', worst < Fraction(1, 1 << 43), note=str(float(worst)), pc=[])
    # values: 1 <= y <= 2^64 for ccs in [1/2, 1]
    E.prove('approxexp: positive and at most 2^64 for 1/2 <= ccs <= 1', (Fraction(1, 2) - worst) * S > 1 and EXPC[12] == S, pc=[])
    return E.res


def ber_unit():
    """the result is: (64-bit integer of the random bytes, most significant first) < (approxexp(r, ccs) - 1) >> s"""
    E = P.Engine('berexp')
    E.res.functions.add('pythonref/samplerz.py:berexp')
    g = ns()
    LN2, ILN2 = 0.69314718056, 1.44269504089

    class Y(ZInt):
        """value of approxexp: shifted right by a symbolic count"""
        __slots__ = ()

        def __rshift__(self, s):
            return Word(word_of(self.t, zt(s)))

        def __sub__(self, o):
            return Y(self.t - zt(o))

        def __add__(self, o):
            return Y(self.t + zt(o))

    class Word(ZInt):
        """64-bit integer given by its bytes, least significant first"""
        __slots__ = ('l',)

        def __init__(self, l):
            self.l = l
            self.t = value(l) if l else z3.IntVal(0)

        def __rshift__(self, k):
            if isinstance(k, int) and k >= 0 and k % 8 == 0:
                return Word(self.l[k // 8:])
            return ZInt.__rshift__(self, k)

        def __and__(self, m):
            if m == 255:
                return zint(self.l[0]) if self.l else 0
            return ZInt.__and__(self, m)
        __rand__ = __and__

        def to_bytes(self, length=1, byteorder='big', *, signed=False):
            if length != len(self.l) or signed:
                raise P.Unsupported('to_bytes')
            return Bytes(self.l if byteorder == 'little' else self.l[::-1])

    def word_of(a, s):
        """the bytes of a >> s (below 2^64)"""
        reg = P.CTX.notes.setdefault('words', [])
        for a2, s2, d in reg:
            if E.valid(z3.And(a == a2, s == s2)):
                return d
        d = [z3.Int(P.CTX.name('zbyte')) for i in range(8)]
        for x in d:
            P.CTX.assume(z3.And(x >= 0, x < 256))
        reg.append((a, s, d))
        return d

    def approx(x, ccs):
        want = rf(g.x) - rf(floor_of(g.x * ILN2, True)) * LN2
        E.prove('berexp: approxexp is called with the remainder modulo ln 2', isinstance(x, RF) and x.same(want))
        E.prove('berexp: ccs is passed on', isinstance(ccs, RF) and ccs.same(g.c))
        return Y(z3.Int('exp'))
    m = module(g, approxexp=approx)

    def run():
        g.read = []
        g.x, g.c = atom('x'), atom('ccs')
        P.CTX.assume(z3.Int('exp') >= 1)
        P.CTX.assume(z3.Int('exp') <= 1 << 64)
        P.CTX.assume(zt(floor_of(g.x * ILN2, True)) >= 0)
        return m._g['berexp'](g.x, g.c, randombytes=source(E, g, 1))

    def post(r):
        s = zt(floor_of(g.x * ILN2, True))
        z = value(word_of(z3.Int('exp') - 1, z3.If(s < 63, s, z3.IntVal(63))))
        E.prove('berexp: one to eight bytes are read', 1 <= len(g.read) <= 8)
        b = [l[0] for l in g.read]
        rest = z3.Int('unread_bytes')
        k = 8 - len(b)
        P.CTX.assume(z3.And(rest >= 0, rest < 1 << (8 * k)))
        v = z3.Sum([x * (1 << (8 * (7 - i))) for i, x in enumerate(b)]) + rest
        res = P.zb(r) if isinstance(r, P.SBool) else z3.BoolVal(bool(r))
        E.prove('berexp: true exactly when the bytes read, as a 64-bit integer, are below (approxexp - 1) >> min(s, 63)', res == (v < z))
    return E.run(run, post)


# ------------------------------------------------------------------------------------- samplerz
def samplerz_unit():
    """s + z for the first accepted z = b + (2 b - 1) z0, accepted with exp(-((z - r)^2 / (2 sigma^2) - z0^2 / (2 sigma_max^2))) sigmin / sigma"""
    E = P.Engine('samplerz')
    E.res.functions.add('pythonref/samplerz.py:samplerz')
    g = ns()
    inv = Fraction(1 / (2 * (1.8205 ** 2)))

    class Loop(P.LoopCut):
        def head(self, ctx, env, v, names, itx):
            if v:
                E.prove('samplerz: a rejected candidate is followed by another round', g.tests == [False])
                raise P.Infeasible()
            g.before = {k: x for k, x in env.items() if isinstance(x, (ZInt, RF))}
            return {}

    def base(randombytes=None):
        E.prove('samplerz: the given source is used', randombytes is g.rnd)
        z0 = P.zvar(P.CTX.name('z0'), 0, 18)
        g.z0.append(z0)
        return z0

    def ber(x, ccs, randombytes=None):
        E.prove('samplerz: the given source is used', randombytes is g.rnd)
        E.prove('samplerz: one half-Gaussian sample and one byte per candidate', len(g.z0) == 1 and len(g.read) == 1)
        odd = z3.Int(str(g.read[0][0])) % 2 == 1
        b = 1 if E.valid(odd) else 0 if E.valid(z3.Not(odd)) else None
        E.prove('samplerz: the sign is the low bit of the byte', b is not None)
        z0 = rf(g.z0[0])
        z = b + (2 * b - 1) * z0
        r = g.mu - rf(floor_of(g.mu))
        want = (z - r) * (z - r) / (2 * g.sigma * g.sigma) - z0 * z0 * inv
        E.prove('samplerz: x = (z - r)^2 / (2 sigma^2) - z0^2 / (2 sigma_max^2)', isinstance(x, RF) and x.same(want))
        E.prove('samplerz: ccs = sigmin / sigma', isinstance(ccs, RF) and ccs.same(g.sigmin / g.sigma))
        g.z = z
        t = bool(P.SBool(z3.Bool(P.CTX.name('accept'))))
        g.tests.append(t)
        return t
    m = module(g, cuts={'*while': 'try'}, loops={'try': Loop()}, basesampler=base, berexp=ber)
    rnd = source(E, g, 1)

    def run():
        g.read, g.z0, g.tests, g.rnd = [], [], [], rnd
        g.mu, g.sigma, g.sigmin = atom('mu'), atom('sigma'), atom('sigmin')
        return m._g['samplerz'](g.mu, g.sigma, g.sigmin, randombytes=rnd)

    def post(r):
        E.prove('samplerz: only an accepted candidate is returned', g.tests == [True])
        E.prove('samplerz: the candidate plus floor(mu)', rf(r) is not None and rf(r).same(g.z + rf(floor_of(g.mu))))
    return E.run(run, post)


def samplerz_lemma():
    """preconditions of berexp: x >= 0 and 1/2 <= ccs <= 1 for 0 < sigmin < sigma < sigma_max, sigma < 2 sigmin"""
    E = P.Engine('samplerz, domain')
    r, sg, z0, i2 = z3.Reals('r sigma z0 inv_2_sigma2')

    def run():
        c = P.CTX.assume
        c(z3.And(r >= 0, r < 1, z0 >= 0, sg > 0))
        # 1 / (2 sigma^2) >= 1 / (2 sigma_max^2)
        d = z3.Real('d')
        c(z3.And(d >= i2, i2 > 0))
        for b in (0, 1):
            z = b + (2 * b - 1) * z0
            E.prove('samplerz: x is not negative (b = %d)' % b, (z - r) * (z - r) * d - z0 * z0 * i2 >= 0)
    E.run(run, lambda r_: None)
    return E.res


# ------------------------------------------------------------------------------------- mkgauss
def gauss_module(g, cuts=None, loops=None, **over):
    m = P.load('mkgauss', cuts=cuts, loops=loops)
    for k, v in over.items():
        m._g[k] = v
    return m


def word(l):
    """SInt of eight bytes, little-endian"""
    return bv.concat([(x.t, 8) for x in l])


def gauss_spec(w1, w2):
    """bit-vector 32: signed sample of two 64-bit words"""
    neg = bv.z(bv.frombits([bv.tobits(w1, 64)[63]]), 1) == 1
    lo = lambda w: z3.Extract(62, 0, bv.z(w, 64))
    zero = z3.ULT(lo(w1), z3.BitVecVal(GAUSS[0], 63))
    k = z3.BitVecVal(len(GAUSS) - 1, 32)
    # the least k >= 1 with u >= T_k
    for i in range(len(GAUSS) - 1, 0, -1):
        k = z3.If(z3.UGE(lo(w2), z3.BitVecVal(GAUSS[i], 63)), z3.BitVecVal(i, 32), k)
    return z3.If(zero, z3.BitVecVal(0, 32), z3.If(neg, -k, k))


def mkgauss_unit(logn):
    """sum of 2^(10 - logn) samples of the degree-1024 distribution, 16 bytes each"""
    def unit():
        E = P.Engine('mkgauss at logn %d' % logn)
        E.res.functions |= {'pythonref/mkgauss.py:mkgauss', 'pythonref/mkgauss.py:get_rng_u64'}
        g = ns()
        rounds = 1 << (10 - logn)

        def rng(k):
            E.prove('mkgauss: eight bytes at a time', isinstance(k, int) and k == 8)
            l = [P.var(P.CTX.name('byte'), 8) for _ in range(8)]
            g.read.append(l)
            return P.VBytes(l)

        class Loop(P.LoopCut):
            def head(self, ctx, env, v, names, itx):
                it, ix = itx
                acc = [k for k in names if k in env and k != ix]
                if v == 0:
                    E.prove('mkgauss: one round per copy of the distribution', P.s_len(env[it]) == rounds)
                    E.prove('mkgauss: the sum starts at 0', len(acc) == 1 and env[acc[0]] == 0 and not g.read)
                    g.acc = acc[0]
                    i = P.zvar('round', 0, rounds)
                    g.i = i
                    g.old = P.var('sum', 24, True)
                    return {ix: i, g.acc: g.old}
                E.prove('mkgauss: the next round', zt(env[ix]) == g.i.t + 1)
                E.prove('mkgauss: two words per round', len(g.read) == 2)
                w = gauss_spec(*[word(l) for l in g.read])
                want = z3.SignExt(8, bv.z(g.old.t, 24)) + w
                E.prove('mkgauss: 0, or +- the least k whose table value is reached, is added', bv.z(P.term(env[g.acc], 32), 32) == want)
                raise P.Infeasible()
        m = gauss_module(g, cuts={'mkgauss': ['rounds', ...]}, loops={'rounds': Loop()})

        def run():
            g.read, g.old = [], None
            return m._g['mkgauss'](rng, logn)

        def post(r):
            E.prove('mkgauss: the sum of all rounds', g.old is not None and P.ieq(r, g.old))
            E.prove('mkgauss: all rounds are made', g.i.t == rounds)
        return E.run(run, post)
    return unit


def gauss_lemma():
    """the table is a distribution function: strictly decreasing to 0"""
    E = P.Engine('mkgauss, table')
    E.prove('mkgauss: the table decreases to 0', all(a > b for a, b in zip(GAUSS[1:], GAUSS[2:])) and GAUSS[-1] == 0, pc=[])
    return E.res


def small_unit():
    """poly_small_mkgauss: the first samples within [-127, 127]; the last one such that the sum is odd"""
    E = P.Engine('poly_small_mkgauss')
    E.res.functions.add('pythonref/mkgauss.py:poly_small_mkgauss')
    g = ns()
    PAR = z3.Function('parity', z3.IntSort(), z3.IntSort())
    F = z3.Function('f', z3.IntSort(), z3.IntSort())

    class Par(ZInt):
        """0 or 1"""
        __slots__ = ()

        def __xor__(self, o):
            E.prove('exclusive or of bits', z3.And(zt(o) >= 0, zt(o) <= 1, self.t >= 0, self.t <= 1))
            return Par((self.t + zt(o)) % 2)
        __rxor__ = __xor__

    class Sample(ZInt):
        __slots__ = ()

        def __and__(self, o):
            if o != 1:
                raise P.Unsupported('mask')
            return Par(self.t % 2)
        __rand__ = __and__

    def mk(rng, logn):
        E.prove('poly_small_mkgauss: samples of the given source and degree', rng is g.rng and logn is g.logn)
        s = Sample(z3.Int(P.CTX.name('s')))
        g.last = s
        return s

    class Outer(P.LoopCut):
        def head(self, ctx, env, v, names, itx):
            it, ix = itx
            f = [k for k in env if isinstance(env[k], P.MSeq)]
            if v == 0:
                E.prove('poly_small_mkgauss: one place per coefficient', z3.And(zt(P.s_len(env[it])) == g.n.t))
                E.prove('poly_small_mkgauss: a list of n values', len(f) == 1 and P.zb(env[f[0]]._slen() == g.n))
                par = [k for k in names if k in env and isinstance(env[k], int) and k != ix and not k.startswith('__')]
                E.prove('poly_small_mkgauss: the parity starts at 0', len(par) == 1 and env[par[0]] == 0)
                g.fn, g.pn = f[0], par[0]
                u = P.zvar('u', 0)
                g.u = u
                P.CTX.assume(u.t <= g.n.t)
                i = z3.Int('i')
                P.CTX.assume(PAR(0) == 0)
                P.CTX.assume(z3.And(PAR(u.t) >= 0, PAR(u.t) <= 1))
                P.CTX.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < u.t), z3.And(F(i) >= -127, F(i) <= 127))))
                P.CTX.assume(z3.Implies(u.t == g.n.t, g.total % 2 == 1))
                l = env[g.fn]
                l.get = lambda k: z3.If(k < u.t, F(k), z3.IntVal(0))
                return {ix: u, g.fn: l, g.pn: Par(z3.If(u.t < g.n.t, PAR(u.t), z3.Int('any_parity')))}
            u = g.u.t
            E.prove('poly_small_mkgauss: the next place', zt(env[ix]) == u + 1)
            l = env[g.fn]
            s = l.at(u)
            E.prove('poly_small_mkgauss: coefficients within [-127, 127]', z3.And(s >= -127, s <= 127))
            E.prove('poly_small_mkgauss: the coefficient is the last sample', s == g.last.t)
            k = z3.Int('k')
            P.CTX.assume(z3.And(k >= 0, k < g.n.t, k != u))
            E.prove('poly_small_mkgauss: the others are unchanged', l.at(k) == z3.If(k < u, F(k), 0))
            E.prove('poly_small_mkgauss: parity of the sum so far', z3.Implies(u + 1 < g.n.t, zt(env[g.pn]) == (PAR(u) + s) % 2))
            E.prove('poly_small_mkgauss: the whole sum is odd', z3.Implies(u + 1 == g.n.t, (PAR(u) + s) % 2 == 1))
            raise P.Infeasible()

    class Inner(P.LoopCut):
        def head(self, ctx, env, v, names, itx):
            if v == 0:
                g.in_ = zt(env[g.pn]), env[g.fn].get
                return {g.pn: env[g.pn], g.fn: env[g.fn]}
            E.prove('poly_small_mkgauss: a rejected sample leaves no trace', z3.And(zt(env[g.pn]) == g.in_[0]) if env[g.fn].get is g.in_[1] else False)
            s, u = g.last.t, g.u.t
            E.prove('poly_small_mkgauss: only samples outside [-127, 127], or of the wrong parity at the end, are rejected',
                    z3.Or(s < -127, s > 127, z3.And(u == g.n.t - 1, (PAR(u) + s) % 2 == 0)))
            raise P.Infeasible()
    m = gauss_module(g, cuts={'poly_small_mkgauss': ['places', 'tries', ...]}, loops={'places': Outer(), 'tries': Inner()}, mkgauss=mk)

    def run():
        g.n = P.zvar('n', 1)
        g.total = z3.Int('total')
        g.rng, g.logn = object(), object()
        return m._g['poly_small_mkgauss'](g.rng, g.n, g.logn)

    def post(r):
        E.prove('poly_small_mkgauss: n coefficients', isinstance(r, P.MSeq) and P.zb(r._slen() == g.n))
        E.prove('poly_small_mkgauss: all places are filled', g.u.t == g.n.t)
        k = z3.Int('k')
        P.CTX.assume(z3.And(k >= 0, k < g.n.t))
        E.prove('poly_small_mkgauss: coefficients within [-127, 127]', z3.And(r.at(k) >= -127, r.at(k) <= 127))
    return E.run(run, post)


def units():
    u = [('basesampler', base_unit), ('approxexp', exp_unit), ('approxexp accuracy', exp_lemma), ('berexp', ber_unit),
         ('samplerz', samplerz_unit), ('samplerz domain', samplerz_lemma), ('mkgauss table', gauss_lemma), ('poly_small_mkgauss', small_unit)]
    return u + [('mkgauss %d' % k, mkgauss_unit(k)) for k in range(1, 11)]
