"""Contracts of ntrugen.py: exact polynomial arithmetic over Z[x]/(x^n + 1), and the NTRU equation f G - g F = q for whatever
ntru_gen returns.

Lists of integers of a concrete power-of-two length n (every degree up to 1024) hold symbolic coefficients.  A whole list is an
element of Z[x]/(x^n + 1) over opaque polynomials ('vectors'): the i-th value of vector v is the symbol (v, i).  Callees enter by
contract, so products are monomials of vectors and the recursion is an induction over the degree.
"""
from fractions import Fraction

import z3

import pysym as P
from pysym import ZInt, zt, ns

Q = 12289
DEGREES = [2 << i for i in range(10)]


class NF:
    """integer: polynomial over symbols; symbols are tuples (vector, index) or scalars (name,)"""
    __slots__ = ('d',)
    _is_int = True
    __hash__ = None

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return '<%s>' % ' + '.join('%s*%s' % (c, m) for m, c in list(self.d.items())[:3])

    def __add__(self, o):
        o = nf(o)
        if o is None:
            return NotImplemented
        r = dict(self.d)
        for m, c in o.items():
            r[m] = r.get(m, 0) + c
            if not r[m]:
                del r[m]
        return NF(r)
    __radd__ = __add__

    def __neg__(self):
        return NF({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        o = nf(o)
        return NotImplemented if o is None else self + NF({m: -c for m, c in o.items()})

    def __rsub__(self, o):
        o = nf(o)
        return NotImplemented if o is None else NF(o) + (-self)

    def __mul__(self, o):
        o = nf(o)
        if o is None:
            return NotImplemented
        r = {}
        for m, c in self.d.items():
            for m2, c2 in o.items():
                k = tuple(sorted(m + m2, key=repr))
                r[k] = r.get(k, 0) + c * c2
        return NF({k: c for k, c in r.items() if c})
    __rmul__ = __mul__

    def __pow__(self, k):
        if not isinstance(k, int) or k < 0:
            raise P.Unsupported('power')
        r = NF({(): 1})
        for _ in range(k):
            r = r * self
        return r

    def __lshift__(self, s):
        if isinstance(s, int):
            return self * (1 << s)
        P.CTX.E.prove('shift counts are not negative', zt(s) >= 0)
        return self * power(s)

    def __rshift__(self, s):
        return Approx(self, s)

    def __round__(self):
        return self

    def _no(self, *a):
        raise P.Unsupported('branch on an arbitrary coefficient')
    __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __int__ = __index__ = __float__ = __floordiv__ = __mod__ = __truediv__ = _no

    def __eq__(self, o):
        o = nf(o)
        if o is None:
            return False
        d = self - NF(o)
        if not d.d:
            return True
        return Zero(d)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else Zero(r.x, not r.eq)


class Zero:
    """the test coefficient == 0"""

    def __init__(self, x, eq=True):
        self.x, self.eq = x, eq

    def __bool__(self):
        b = bool(P.SBool(z3.Bool(P.CTX.name('zero'))))
        return b if self.eq else not b


class Approx:
    """coefficient >> s: only used by the floating-point part of the reduction"""

    def __init__(self, x, s):
        P.CTX.E.prove('shift counts are not negative', zt(s) >= 0)
        self.x, self.s = x, s


def nf(x):
    if isinstance(x, NF):
        return x.d
    if isinstance(x, bool):
        return {(): int(x)} if x else {}
    if isinstance(x, int):
        return {(): x} if x else {}
    return None


def power(s):
    """2^s for a symbolic shift count"""
    reg = P.CTX.notes.setdefault('powers', [])
    for t, n in reg:
        if P.CTX.E.valid(t == zt(s)):
            return n
    n = NF({((('pow', len(reg)),),): 1})
    reg.append((zt(s), n))
    return n


# A vector monomial is a sorted tuple of factors (name, stretch): name(x^stretch).  A symbol is (monomial, index): a coefficient
# of that polynomial at its own degree.  A ring element at degree n is a dict (power of x, scalar symbols, monomial) -> integer.
DIMS = {}


def dim(mono):
    return DIMS[mono[0][0]] * mono[0][1]


def vec(name, n):
    """the coefficients of an arbitrary polynomial of degree n"""
    DIMS[name] = n
    return [NF({((((name, 1),), i),): 1}) for i in range(n)]


def atom(name, n):
    DIMS.setdefault(name, n)
    return {(0, (), ((name, n // DIMS[name]),)): 1}


def ring(l, n):
    """list of coefficients -> ring element at degree n"""
    E = P.CTX.E
    E.prove('polynomials have n coefficients', isinstance(l, list) and len(l) == n)
    r = {}
    for i, x in enumerate(l):
        d = nf(x)
        if d is None:
            raise P.Unsupported('coefficient %r' % (x,))
        for m, c in d.items():
            sc, v = [], None
            for s in m:
                if len(s) == 1:
                    sc.append(s)
                elif v is None:
                    v = s
                else:
                    raise P.Unsupported('product of coefficients')
            sc = tuple(sorted(sc, key=repr))
            if v is None:
                r[(i, sc, (), 0)] = {0: c}
                continue
            mono, j = v
            if n % dim(mono):
                raise P.Unsupported('polynomials of different degrees')
            st = n // dim(mono)
            e, sg = (i - st * j) % (2 * n), 1
            if e >= n:
                e, sg = e - n, -1
            r.setdefault((e, sc, mono, st), {})[j] = c * sg
    out = {}
    for (e, sc, mono, st), cs in r.items():
        if mono and (len(cs) != n // st or len(set(cs.values())) != 1):
            raise P.Unsupported('a list that is no expression in polynomials')
        k = (e, sc, tuple(sorted((a, b * st) for a, b in mono)))
        out[k] = out.get(k, 0) + cs[0]
    return {k: c for k, c in out.items() if c}


def emit(r, n):
    """ring element -> list of coefficients"""
    out = [{} for _ in range(n)]
    for (e, sc, mono), c in r.items():
        if not mono:
            out[e][tuple(sorted(sc))] = out[e].get(tuple(sorted(sc)), 0) + c
            continue
        st = 1
        if len(mono) == 1:
            mono, st = ((mono[0][0], 1),), mono[0][1]
        for j in range(n // st):
            i, sg = e + st * j, 1
            if i >= n:
                i, sg = i - n, -1
            k = tuple(sorted(sc + ((mono, j),), key=repr))
            out[i][k] = out[i].get(k, 0) + sg * c
    return [NF({k: c for k, c in d.items() if c}) for d in out]


def radd(a, b, s=1):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + s * c
        if not r[k]:
            del r[k]
    return r


def rmul(a, b, n):
    r = {}
    for (e, sc, m), c in a.items():
        for (e2, sc2, m2), c2 in b.items():
            x, s = e + e2, 1
            if x >= n:
                x, s = x - n, -1
            k = (x, tuple(sorted(sc + sc2, key=repr)), tuple(sorted(m + m2)))
            r[k] = r.get(k, 0) + s * c * c2
    return {k: c for k, c in r.items() if c}


def xpow(e):
    return {(e, (), ()): 1}


def interleave(a, b):
    return [x for p in zip(a, b) for x in p]


# ------------------------------------------------------------------------------------- modules
class Any:
    """floating-point value: never looked at by the exact part"""


def module(g, cuts=None, loops=None, **over):
    import p_verify as V
    st = dict(getattr(g, 'st', None) or {})
    names = 'fft ifft add_fft mul_fft adj_fft div_fft add mul div adj'.split()
    X = lambda *a, **k: Any()
    fm = {x: getattr(g, x, X) for x in names}

    class NTT:
        def __init__(self, q):
            P.CTX.E.prove('the modulus is q', q == Q)

        def ntt(self, l):
            return g.ntt(l)

    class NTTRec(NTT):
        pass

    class Poly:
        def __init__(self, coeffs, q, ntt=NTT):
            self.coeffs, self.q = coeffs, q
    g.NTT, g.NTTRec = NTT, NTTRec
    st.update({'fft': ns(**fm), 'polyntt.ntt_recursive': ns(NTTRecursive=NTTRec), 'polyntt.ntt_iterative': ns(NTTIterative=NTT),
               'polyntt.poly': ns(Poly=Poly), 'polyntt': ns(), 'common': P.load('common'), 'samplerz': ns(samplerz=lambda *a, **k: g.samplerz(*a, **k)),
               'mkgauss': ns(poly_small_mkgauss=lambda *a, **k: g.mkgauss(*a, **k)), 'os': ns(urandom=g.urandom)})
    m = P.load('ntrugen', stubs=st, cuts=cuts, loops=loops, extra_builtins=getattr(g, 'builtins', None))
    for k, v in over.items():
        m._g[k] = v
    return m


def fresh():
    g = ns()
    g.urandom = lambda k: None
    DIMS.clear()
    return g


def engine(name, *fns):
    E = P.Engine(name)
    E.res.functions |= {'pythonref/ntrugen.py:' + f for f in fns}
    return E


# ------------------------------------------------------------------------------------- karatsuba
def karatsuba_unit(n):
    """list of 2n coefficients of the product of two polynomials of n coefficients; recursive calls by this contract"""
    def unit():
        E = engine('karatsuba at %d' % n, 'karatsuba')
        g = fresh()

        def comb(l, k):
            """list -> {vector: coefficient}: the same combination of vectors at every place"""
            E.prove('karatsuba: operands have the announced length', len(l) == k)
            ds = [nf(x) for x in l]
            r = {}
            for i, d in enumerate(ds):
                for m, c in d.items():
                    (name, j), = m
                    E.prove_fast('karatsuba: operands are combinations of polynomials', j == i)
                    r.setdefault(name, {})[i] = c
            for name, cs in r.items():
                E.prove_fast('karatsuba: operands are combinations of polynomials', len(cs) == k and len(set(cs.values())) == 1)
            return {a: b[0] for a, b in r.items()}

        def bil(a, b, k):
            """product list from the contract: symbols (u, v, i), the last value is 0"""
            out = [dict() for _ in range(2 * k)]
            for u, c in a.items():
                for v, d in b.items():
                    for i in range(2 * k - 1):
                        out[i][(((u, v), i),)] = c * d
            return [NF(x) for x in out]
        E.prove_fast = lambda nm, ok: ok or E.prove(nm, False)
        m = module(g)
        real = m._g['karatsuba']

        def stub(a, b, k):
            E.prove('karatsuba: the recursion halves the length', 2 * k == n)
            return bil(comb(a, k), comb(b, k), k)
        if n > 1:
            m._g['karatsuba'] = stub
        h = max(1, n // 2)
        sym = lambda s: [NF({((s + str(i // h), i % h),): 1}) for i in range(n)]

        def run():
            return real(sym('a'), sym('b'), n)

        def post(r):
            E.prove('karatsuba: length of the product', len(r) == 2 * n)
            if n == 1:
                want = [NF({(('a0', 0), ('b0', 0)): 1}), NF({})]
            else:
                want = [NF({}) for _ in range(2 * n)]
                for i in (0, 1):
                    for j in (0, 1):
                        for k, x in enumerate(bil({'a%d' % i: 1}, {'b%d' % j: 1}, h)):
                            want[k + (i + j) * h] = want[k + (i + j) * h] + x
            def expand(x):
                # by the definition of the product
                d = NF({})
                for m_, c in nf(x).items():
                    t = NF({(): c})
                    for sy in m_:
                        if isinstance(sy[0], tuple):
                            (u_, v_), i_ = sy
                            t = t * NF({tuple(sorted(((u_, j), (v_, i_ - j)), key=repr)): 1 for j in range(max(0, i_ - h + 1), min(h, i_ + 1))})
                        else:
                            t = t * NF({(sy,): 1})
                    d = d + t
                return d
            bad = [i for i in range(2 * n) if nf(r[i] - want[i]) != {} and nf(expand(r[i]) - expand(want[i])) != {}]
            E.prove('karatsuba: every coefficient of the product', not bad, note=str(bad[:5]))
        return E.run(run, post)
    return unit


def karamul_unit(n):
    def unit():
        E = engine('karamul at %d' % n, 'karamul')
        g = fresh()

        def kara(a, b, k):
            ok = k == n and ring(a, n) == atom('a', n) and ring(b, n) == atom('b', n)
            E.prove('karamul: the operands are multiplied', ok)
            return [NF({(('P', i),): 1}) for i in range(2 * n - 1)] + [NF({})]
        m = module(g, karatsuba=kara)

        def run():
            g.a, g.b = vec('a', n), vec('b', n)
            return m._g['karamul'](g.a, g.b)

        def post(r):
            E.prove('karamul: n coefficients', len(r) == n)
            for i in range(n):
                want = NF({(('P', i),): 1}) - (NF({(('P', i + n),): 1}) if i < n - 1 else 0)
                if nf(r[i] - want) != {}:
                    E.prove('karamul: reduction modulo x^n + 1', False, note=str(i))
            E.prove('karamul: reduction modulo x^n + 1', True)
        return E.run(run, post)
    return unit


def small_unit(n):
    """galois_conjugate, lift, field_norm at degree n (for polynomials of degree n)"""
    def unit():
        E = engine('conjugate, lift, norm at %d' % n, 'galois_conjugate', 'lift', 'field_norm')
        g = fresh()
        h = n // 2

        def kmul(a, b):
            return emit(rmul(ring(a, h), ring(b, h), h), h)
        m = module(g, karamul=kmul)

        def run():
            e, o = vec('e', h), vec('o', h)
            w = vec('w', n)
            a = interleave(e, o)
            keep = list(a), list(w)
            r = m._g['galois_conjugate'](a), m._g['lift'](w), m._g['field_norm'](a)
            E.prove('the operands are left unchanged', all(x is y for x, y in zip(a, keep[0])) and all(x is y for x, y in zip(w, keep[1])))
            return r

        def post(r):
            c, l, f = r
            e, o = atom('e', n), atom('o', n)
            E.prove('galois_conjugate: a(-x)', ring(c, n) == radd(e, rmul(xpow(1), o, n), -1))
            E.prove('lift: a(x^2)', ring(l, 2 * n) == atom('w', 2 * n))
            e, o = atom('e', h), atom('o', h)
            E.prove('field_norm: a(x) a(-x) as a polynomial in x^2',
                    ring(f, h) == radd(rmul(e, e, h), rmul(xpow(1), rmul(o, o, h), h) if h > 1 else {k: -v for k, v in rmul(o, o, h).items()}, -1))
        return E.run(run, post)
    return unit


# ------------------------------------------------------------------------------------- xgcd
class Xgcd(P.LoopCut):
    """b = x0 B + y0 N and n = x1 B + y1 N"""

    def __init__(self, g):
        self.g = g

    def inv(self, E, env, when):
        g = self.g
        B, N = z3.Ints('B N')
        for nm, l in (('b = x0 B + y0 N', ('b', 'x0', 'y0')), ('n = x1 B + y1 N', ('n', 'x1', 'y1'))):
            E.prove('xgcd: %s %s' % (nm, when), poly(env[l[0]]) == padd(pmul(poly(env[l[1]]), psym('B')), pmul(poly(env[l[2]]), psym('N'))))

    def head(self, ctx, env, v, names, itx):
        self.inv(ctx.E, env, 'on entry' if v == 0 else 'after a round')
        if v:
            raise P.Infeasible()
        r = {k: NF({((k,),): 1}) for k in ('x0', 'x1', 'y0', 'y1')}
        r['b'] = Lin(nf(r['x0'] * psymN('B') + r['y0'] * psymN('N')))
        r['n'] = Lin(nf(r['x1'] * psymN('B') + r['y1'] * psymN('N')))
        return r


def psymN(s):
    return NF({((s,),): 1})


def psym(s):
    return {((s,),): 1}


def poly(x):
    return nf(x)


def padd(a, b):
    return nf(NF(a) + NF(b))


def pmul(a, b):
    return nf(NF(a) * NF(b))


class Lin(NF):
    """integer with division: a // b is a fresh integer k, a % b = a - k b"""
    __slots__ = ()

    def _pair(self, o):
        reg = P.CTX.notes.setdefault('quotients', [])
        o = nf(o)
        for a, b, k in reg:
            if a == self.d and b == o:
                return k
        k = NF({((('quot', len(reg)),),): 1})
        reg.append((self.d, o, k))
        return k

    def __floordiv__(self, o):
        return self._pair(o)

    def __mod__(self, o):
        return Lin(nf(self - self._pair(o) * NF(nf(o))))

    def __divmod__(self, o):
        return self // o, self % o


for _n in ('__add__', '__sub__', '__mul__', '__neg__', '__radd__', '__rmul__', '__rsub__'):
    def _wrap(f):
        def op(self, *a):
            r = f(self, *a)
            return Lin(r.d) if isinstance(r, NF) else r
        return op
    setattr(Lin, _n, _wrap(getattr(NF, _n)))
Lin.__hash__ = None


def xgcd_unit():
    E = engine('xgcd', 'xgcd')
    g = fresh()
    m = module(g, cuts={'xgcd': ['euclid']}, loops={'euclid': Xgcd(g)})

    def run():
        return m._g['xgcd'](Lin(psym('B')), Lin(psym('N')))

    def post(r):
        E.prove('xgcd: three results', isinstance(r, tuple) and len(r) == 3)
        d, u, v = r
        E.prove('xgcd: d = u b + v n', nf(d) == padd(pmul(nf(u), psym('B')), pmul(nf(v), psym('N'))))
    return E.run(run, post)


# ------------------------------------------------------------------------------------- ntru_solve
def solve_unit(n):
    """f G - g F = q, from the same at degree n / 2 and the contracts of field_norm, karamul, reduce, xgcd"""
    def unit():
        E = engine('ntru_solve at %d' % n, 'ntru_solve', 'lift', 'galois_conjugate')
        g = fresh()

        def field_norm(a):
            r = ring(a, n)
            for nm in 'fg':
                if r == radd(atom(nm + 'e', n), rmul(xpow(1), atom(nm + 'o', n), n)):
                    return vec(nm + 'p', h)
            E.prove('ntru_solve: the norms of f and g are formed', False)

        def kmul(a, b):
            return emit(rmul(ring(a, n), ring(b, n), n), n)

        def reduce(f, gg, F, G):
            E.prove('ntru_solve: (F, G) is reduced by (f, g)', ring(f, n) == g.rf and ring(gg, n) == g.rg)
            d = radd(rmul(g.rf, ring(G, n), n), rmul(g.rg, ring(F, n), n), -1)
            g.det = subst(d)
            E.prove('ntru_solve: f G - g F = q before the reduction', g.det == {(0, (), ()): Q})
            g.F, g.G = vec('Fr', n), vec('Gr', n)
            return g.F, g.G

        def xgcd(a, b):
            E.prove('ntru_solve: the extended gcd of f and g', (nf(a), nf(b)) == (nf(g.f[0]), nf(g.g[0])))
            one = P.SBool(z3.Bool('gcd_is_1'))
            u, v = NF({(('u',),): 1}), NF({(('v',),): 1})
            return (1 if bool(one) else 2), u, v

        def subst(d):
            """modulo Gp fp - Fp gp = q, fp = fe^2 - y fo^2, gp = ge^2 - y go^2 at degree n (y = x^2)"""
            y = xpow(2) if n > 2 else {(0, (), ()): -1}
            norm = lambda s: radd(rmul(atom(s + 'e', n), atom(s + 'e', n), n), rmul(y, rmul(atom(s + 'o', n), atom(s + 'o', n), n), n), -1)
            rel = radd(radd(rmul(atom('Gp', n), norm('f'), n), rmul(atom('Fp', n), norm('g'), n), -1), {(0, (), ()): Q}, -1)
            return radd(d, rel, -1)
        over = dict(field_norm=field_norm, karamul=kmul, reduce=reduce, xgcd=xgcd)
        m = module(g, **over)
        real = m._g['ntru_solve']
        h = max(1, n // 2)

        def rec(f, gg):
            E.prove('ntru_solve: the recursion is on the norms', n > 1 and ring(f, h) == atom('fp', h) and ring(gg, h) == atom('gp', h))
            return vec('Fp', h), vec('Gp', h)
        m._g['ntru_solve'] = rec

        def run():
            if n == 1:
                DIMS.update(f=1, g=1)
                g.f, g.g = [NF({(('f',),): 1})], [NF({(('g',),): 1})]
            else:
                g.f = interleave(vec('fe', h), vec('fo', h))
                g.g = interleave(vec('ge', h), vec('go', h))
                g.rf, g.rg = ring(g.f, n), ring(g.g, n)
                for x in ('Fp', 'Gp'):
                    DIMS[x] = h
            return real(g.f, g.g)

        def post(r):
            F, G = r
            if n == 1:
                # u f + v g = 1
                d = nf(g.f[0] * G[0] - g.g[0] * F[0])
                E.prove('ntru_solve: one coefficient each', len(F) == 1 and len(G) == 1)
                E.prove('ntru_solve: f G - g F = q (u f + v g) with u f + v g = 1', d == {k: Q * c for k, c in {(('f',), ('u',)): 1, (('g',), ('v',)): 1}.items()})
                E.prove('ntru_solve: only coprime constant terms', z3.Bool('gcd_is_1'))
                return
            E.prove('ntru_solve: the reduced pair is returned', F is g.F and G is g.G)

        def rais(e):
            E.prove('ntru_solve: raises ValueError only when the constant terms are not coprime', z3.Not(z3.Bool('gcd_is_1')) if n == 1 and isinstance(e, ValueError) else False, note=repr(e))
        return E.run(run, post, rais)
    return unit


# ------------------------------------------------------------------------------------- floating-point part, as exact algebra
class FF:
    """fraction of polynomials over opaque FFT vectors and their conjugates: monomial -> integer"""

    def __init__(self, num, den=None):
        self.num, self.den = num, den or {(): 1}


def fadd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if not r[m]:
            del r[m]
    return r


def fmul(a, b):
    r = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            k = tuple(sorted(m + m2))
            r[k] = r.get(k, 0) + c * c2
    return {k: c for k, c in r.items() if c}


def conj(a):
    return {tuple(sorted((x, not c) for x, c in m)): v for m, v in a.items()}


def fatom(name):
    return {((name, False),): 1}


class K:
    """coefficient of a real polynomial, in floating point: only rounding makes it an integer"""

    def __init__(self, i):
        self.i = i

    def __round__(self):
        return NF({(((('k', 1),), self.i),): 1})

    def _no(self, *a):
        raise P.Unsupported('a floating-point coefficient is used without rounding')
    __int__ = __float__ = __index__ = __trunc__ = __floor__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = _no
    _int_ = _no


def fft_ops():
    add = lambda a, b: FF(fadd(fmul(a.num, b.den), fmul(b.num, a.den)), fmul(a.den, b.den))
    mul = lambda a, b: FF(fmul(a.num, b.num), fmul(a.den, b.den))
    adj = lambda a: FF(conj(a.num), conj(a.den))
    div = lambda a, b: FF(fmul(a.num, b.den), fmul(a.den, b.num))
    return add, mul, adj, div


def feq(a, num, den):
    return fmul(a.num, den) == fmul(num, a.den)


def minmax(g):
    """builtins on lists of arbitrary integers"""
    def opq(kind):
        base = {'min': P.s_min, 'max': P.s_max}[kind]

        def f(*a):
            if len(a) == 1 and isinstance(a[0], list) and any(isinstance(x, NF) for x in a[0]):
                return Extreme(kind, a[0])
            if len(a) > 1 and any(isinstance(x, ZInt) for x in a):
                r = zt(a[0])
                for x in a[1:]:
                    r = z3.If(zt(x) > r if kind == 'max' else zt(x) < r, zt(x), r)
                return P.zint(r)
            return base(*a)
        return f

    def quant(kind):
        base = {'all': P.s_all, 'any': P.s_any}[kind]

        def f(it):
            l = list(it) if not hasattr(it, '_slen') else it
            if isinstance(l, list) and l and all(isinstance(x, Zero) for x in l) and len({x.eq for x in l}) == 1:
                # one truth value for the list: all are zero / one is zero
                eq = l[0].eq
                key = ('all' if (kind == 'all') == eq else 'any', tuple(repr(sorted(nf(x.x).items(), key=repr)) for x in l))
                reg = P.CTX.notes.setdefault('quant', {})
                b = reg.setdefault(key, z3.Bool('%s_zero_%d' % (key[0], len(reg))))
                g.quant = reg
                return P.SBool(b if eq else z3.Not(b))
            return base(l)
        return f
    return {'min': opq('min'), 'max': opq('max'), 'all': quant('all'), 'any': quant('any')}


class Extreme:
    """least or greatest coefficient of a list"""

    def __init__(self, kind, l):
        self.kind, self.l = kind, l


class Babai(P.LoopCut):
    """f G - g F never changes"""

    def __init__(self, g):
        self.g = g

    def head(self, ctx, env, v, names, itx):
        g, E = self.g, ctx.E
        n = g.dim
        if v == 0:
            lists = [k for k, x in env.items() if x is g.F]
            lists2 = [k for k, x in env.items() if x is g.G]
            E.prove('reduce: F and G enter the loop unchanged', ring(g.F, n) == atom('F', n) and ring(g.G, n) == atom('G', n) and len(lists) == 1 and len(lists2) == 1)
            g.names = lists[0], lists2[0]
            F, G = vec('F1', n), vec('G1', n)
            g.F[:], g.G[:] = F, G
            return {lists[0]: g.F, lists2[0]: g.G, **{k: env[k] for k in env if isinstance(env[k], list) and env[k] is not g.F and env[k] is not g.G and k not in names}}
        F, G = env[g.names[0]], env[g.names[1]]
        f, gg = atom('f', n), atom('g', n)
        det = lambda a, b: radd(rmul(f, b, n), rmul(gg, a, n), -1)
        E.prove('reduce: f G - g F is unchanged by a round', det(ring(F, n), ring(G, n)) == det(atom('F1', n), atom('G1', n)))
        E.prove('reduce: f and g are unchanged', ring(env_list(env, 'f'), n) == f and ring(env_list(env, 'g'), n) == gg)
        raise P.Infeasible()


def env_list(env, k):
    return env[k]


def reduce_unit(n):
    def unit():
        E = engine('reduce at %d' % n, 'reduce')
        g = fresh()
        g.dim = n
        add, mul, adj, div = fft_ops()
        g.add_fft, g.mul_fft, g.adj_fft, g.div_fft = add, mul, adj, div

        def fft(l):
            E.prove('reduce: scaled coefficients are transformed', len(l) == n and all(isinstance(x, Approx) for x in l))
            s = zt(l[0].s)
            E.prove('reduce: one scale per polynomial', all(zt(x.s).eq(s) for x in l))
            r = ring([x.x for x in l], n)
            for i, (q_, t) in enumerate(g.ffts):
                if q_ == r and E.valid(t == s):
                    return FF(fatom(i))
            g.ffts.append((r, s))
            return FF(fatom(len(g.ffts) - 1))

        def ifft(x):
            names = [[i for i, (r, s) in enumerate(g.ffts) if r == atom(w, n)] for w in ('f', 'g', 'F1', 'G1')]
            ok = all(len(l) == 1 for l in names)
            E.prove('reduce: f, g, F, G are transformed once', ok)
            f, gg, F, G = (fatom(l[0]) for l in names)
            sf, sg, sF, sG = (g.ffts[l[0]][1] for l in names)
            E.prove('reduce: the pairs have a common scale', z3.And(sf == sg, sF == sG))
            g.scale = sF - sf
            E.prove('reduce: k approximates (F f* + G g*) / (f f* + g g*)',
                    feq(x, fadd(fmul(F, conj(f)), fmul(G, conj(gg))), fadd(fmul(f, conj(f)), fmul(gg, conj(gg)))))
            DIMS['k'] = n
            return [K(i) for i in range(n)]
        g.fft, g.ifft = fft, ifft
        g.builtins = minmax(g)

        def bitsize(x):
            E.prove('reduce: sizes of extreme coefficients', isinstance(x, Extreme))
            key = (x.kind, repr(sorted(ring(x.l, n).items(), key=repr)))
            if key not in g.sizes:
                g.sizes[key] = P.zvar('bits%d' % len(g.sizes), 0)
            return g.sizes[key]

        def kmul(a, b):
            r = rmul(ring(a, n), ring(b, n), n)
            return emit(r, n)
        m = module(g, cuts={'*while': 'babai'}, loops={'babai': Babai(g)}, karamul=kmul, bitsize=bitsize)

        def run():
            g.ffts, g.sizes = [], {}
            g.f, g.g, g.F, g.G = (vec(x, n) for x in 'fgFG')
            vec('F1', n)
            vec('G1', n)
            g.scale = None
            return m._g['reduce'](g.f, g.g, g.F, g.G)

        def post(r):
            F, G = r
            E.prove('reduce: the reduced pair is returned', ring(F, n) == atom('F1', n) and ring(G, n) == atom('G1', n))
            # it stops only at k = 0, or when F and G are smaller than f and g
            def sz(a, b):
                l = [53]
                for w in (a, b):
                    for kind in ('min', 'max'):
                        key = (kind, repr(sorted(ring(vec(w, n), n).items(), key=repr)))
                        l.append(g.sizes[key] if key in g.sizes else P.zvar('unseen_size_%s_%s' % (kind, w), 0))
                return zmax(l)
            E.prove('reduce: it stops only when nothing is left to reduce',
                    z3.Or(sz('F1', 'G1') < sz('f', 'g'), *[b for k, b in getattr(g, 'quant', {}).items() if k[0] == 'all' and len(k[1]) == n]))
        return E.run(run, post)
    return unit


def zmax(l):
    r = zt(l[0])
    for x in l[1:]:
        r = z3.If(zt(x) > r, zt(x), r)
    return r


def gs_unit():
    """gs_norm at a generic degree: max(|(f, g)|^2, q^2 |(g* / (f f* + g g*), f* / (f f* + g g*))|^2)"""
    E = engine('gs_norm', 'gs_norm')
    g = fresh()
    g.add, g.mul, g.adj, g.div = fft_ops()
    g.builtins = minmax(g)

    def sqnorm(v):
        E.prove('gs_norm: norm of a pair', len(v) == 2)
        g.norms.append((v, P.zvar('norm%d' % len(g.norms), 0)))
        return g.norms[-1][1]
    m = module(g, sqnorm=sqnorm)

    def run():
        g.norms = []
        g.f, g.g = FF(fatom('f')), FF(fatom('g'))
        return m._g['gs_norm'](g.f, g.g, Q)

    def post(r):
        f, gg = fatom('f'), fatom('g')
        den = fadd(fmul(f, conj(f)), fmul(gg, conj(gg)))
        E.prove('gs_norm: two norms', len(g.norms) == 2)
        same = lambda v, w: all(feq(a, *b) for a, b in zip(v, w))
        one = {(): 1}
        A = [z for v, z in g.norms if same(v, [(f, one), (gg, one)]) or same(v, [(gg, one), (f, one)])]
        B = [z for v, z in g.norms if same(v, [(conj(gg), den), (conj(f), den)]) or same(v, [(conj(f), den), (conj(gg), den)])]
        E.prove('gs_norm: the norm of (f, g)', len(A) == 1)
        E.prove('gs_norm: the norm of the orthogonalised (F, G)', len(B) == 1)
        if not A or not B:
            return
        E.prove('gs_norm: the maximum of both', zt(r) == zmax([A[0], P.zint(Q * Q * B[0].t)]))
    return E.run(run, post)


def sqnorm_unit():
    E = P.Engine('sqnorm')
    E.res.functions.add('pythonref/common.py:sqnorm')
    m = P.load('common')
    g = fresh()

    def run():
        g.v = [vec(x, 64) for x in 'ab']
        return m._g['sqnorm'](g.v)

    def post(r):
        w = NF({})
        for l in g.v:
            for x in l:
                w = w + x * x
        E.prove('sqnorm: the sum of all squares', nf(r) == nf(w))
    return E.run(run, post)


def bitsize_unit():
    """bitsize(a): the least multiple of 8 with |a| < 2^size"""
    E = engine('bitsize', 'bitsize')
    g = fresh()

    class Loop(P.LoopCut):
        def head(self, ctx, env, v, names, itx):
            ctr = [k for k in names if k == 'res' or k not in ('val',)]
            P2 = g.P2
            if v == 0:
                ctx.E.prove('bitsize: starts at 0 with |a|', z3.And(zt(env['res']) == 0, zt(env['val']) == g.abs))
                k = z3.Int('rounds')
                ctx.assume(z3.And(k >= 0, P2(k) >= 1, z3.Implies(k > 0, z3.And(P2(k) == 256 * P2(k - 1), g.abs >= P2(k - 1))), z3.Implies(k == 0, P2(k) == 1)))
                ctx.assume(g.abs / P2(k) >= 0)
                g.k = k
                w = z3.Int('val')
                # w = |a| div 256^k
                ctx.assume(z3.And(w >= 0, w * P2(k) <= g.abs, g.abs < (w + 1) * P2(k)))
                return {'res': ZInt(8 * k), 'val': ZInt(w)}
            k = g.k
            ctx.assume(P2(k + 1) == 256 * P2(k))
            w, o = zt(env['val']), z3.Int('val')
            ctx.E.prove('bitsize: eight bits per round', zt(env['res']) == 8 * (k + 1))
            ctx.E.prove('bitsize: the value is divided by 256', w == o / 256)
            ctx.E.prove('bitsize: a round is only made for a nonzero value', o > 0)
            raise P.Infeasible()
    m = module(g, cuts={'*while': 'bytes'}, loops={'bytes': Loop()})

    def run():
        g.a = P.zvar('a')
        g.abs = z3.If(g.a.t < 0, -g.a.t, g.a.t)
        g.P2 = z3.Function('pow256', z3.IntSort(), z3.IntSort())
        return m._g['bitsize'](g.a)

    def post(r):
        E.prove('bitsize: a multiple of 8 with |a| < 2^size', z3.And(zt(r) == 8 * g.k, g.abs < g.P2(g.k)))
        E.prove('bitsize: no smaller multiple', z3.Implies(g.k > 0, g.abs >= g.P2(g.k - 1)))
    return E.run(run, post)


def genpoly_unit(n):
    def unit():
        E = engine('gen_poly at %d' % n, 'gen_poly')
        g = fresh()
        g.builtins = minmax(g)

        def samplerz(mu, sigma, sigmin, randombytes=None):
            E.prove_fast('gen_poly: samples are centered, of parameter 1.17 sqrt(q / 8192)', mu == 0 and sigma == 1.43300980528773 and sigmin == sigma - 0.001)
            E.prove_fast('gen_poly: samples use the given source', randombytes is g.rnd)
            g.count += 1
            return NF({(('sample', g.count),): 1})
        E.prove_fast = lambda nm, ok: ok or E.prove(nm, False)
        g.samplerz = samplerz
        m = module(g)

        def run():
            g.count = 0
            g.rnd = object()
            return m._g['gen_poly'](n, randombytes=g.rnd)

        def post(r):
            c = r.coeffs
            E.prove('gen_poly: n coefficients modulo q', len(c) == n and r.q == Q)
            used = [s for x in c for s in nf(x)]
            k = 4096 // n
            E.prove('gen_poly: every coefficient is the sum of 4096 / n samples', all(len(nf(x)) == k and set(nf(x).values()) == {1} for x in c))
            E.prove('gen_poly: no sample is used twice', len(set(used)) == len(used) == n * k)
        return E.run(run, post)
    return unit


def gen_unit(n, mk):
    """ntru_gen: what it returns"""
    def unit():
        E = engine('ntru_gen at %d%s' % (n, ' (C sampler)' if mk else ''), 'ntru_gen')
        g = fresh()
        g.builtins = minmax(g)

        class Again(P.LoopCut):
            def head(self, ctx, env, v, names, itx):
                if v:
                    raise P.Infeasible()
                g.polys.clear()
                return {}

        class Norm:
            def _cmp(self, o, pos):
                E.prove('ntru_gen: the Gram-Schmidt norm is compared with 1.17^2 q', o == 1.17 ** 2 * Q)
                g.norm_ok = z3.Bool('norm_is_within_the_bound')
                return P.SBool(z3.Not(g.norm_ok) if pos else g.norm_ok)

            def __gt__(self, o):
                return self._cmp(o, True)

            def __le__(self, o):
                return self._cmp(o, False)

        def poly():
            i = len(g.polys)
            l = vec('p%d' % i, n)
            g.polys.append(l)
            return l

        def gen_poly(k, ntt=None, randombytes=None):
            E.prove('ntru_gen: f and g are drawn from the given source at the degree', k == n and randombytes is g.rnd and not mk)
            return ns(coeffs=poly())

        def mkg(rng, k, logn):
            E.prove('ntru_gen: f and g are drawn from the given source at the degree', k == n and rng is g.rnd and mk and logn is g.logn)
            return poly()

        def gs(f, gg, q):
            E.prove('ntru_gen: norm of (f, g)', f is g.polys[0] and gg is g.polys[1] and q == Q)
            return Norm()

        def ntt(l):
            g.ntts.append(l)
            return [NF({(('ev%d' % (len(g.ntts)), i),): 1}) for i in range(n)]

        def solve(f, gg):
            E.prove('ntru_gen: the equation is solved for f and g', ring(f, n) == ring(g.polys[0], n) and ring(gg, n) == ring(g.polys[1], n))
            g.solvable = z3.Bool('solvable')
            if not bool(P.SBool(g.solvable)):
                raise ValueError
            g.F, g.G = vec('F', n), vec('G', n)
            return g.F, g.G
        g.ntt, g.mkgauss = ntt, mkg
        m = module(g, cuts={'*while': 'again'}, loops={'again': Again()}, gen_poly=gen_poly, gs_norm=gs, ntru_solve=solve)

        def run():
            g.polys, g.ntts, g.rnd, g.logn, g.norm_ok = [], [], object(), object(), None
            return m._g['ntru_gen'](n, randombytes=g.rnd, **({'logn': g.logn} if mk else {}))

        def post(r):
            f, gg, F, G = r
            E.prove('ntru_gen: f and g are the generated polynomials', len(g.polys) == 2 and ring(f, n) == atom('p0', n) and ring(gg, n) == atom('p1', n))
            E.prove('ntru_gen: F and G solve the equation for them', ring(F, n) == atom('F', n) and ring(G, n) == atom('G', n))
            E.prove('ntru_gen: the Gram-Schmidt norm is within 1.17^2 q', g.norm_ok if g.norm_ok is not None else False)
            b = [z for k, z in getattr(g, 'quant', {}).items() if k[0] == 'any' and len(k[1]) == n]
            E.prove('ntru_gen: f has an inverse modulo q (no zero value)', z3.Not(b[0]) if len(b) == 1 and len(g.ntts) == 1 and ring(g.ntts[0], n) == atom('p0', n) else False)
        return E.run(run, post)
    return unit


def units():
    u = [('karatsuba %d' % n, karatsuba_unit(n)) for n in [1] + DEGREES]
    u += [('karamul %d' % n, karamul_unit(n)) for n in [1] + DEGREES]
    u += [('small %d' % n, small_unit(n)) for n in DEGREES]
    u += [('xgcd', xgcd_unit), ('bitsize', bitsize_unit), ('gs_norm', gs_unit), ('sqnorm', sqnorm_unit)]
    u += [('solve %d' % n, solve_unit(n)) for n in [1] + DEGREES]
    u += [('reduce %d' % n, reduce_unit(n)) for n in DEGREES]
    u += [('gen_poly %d' % n, genpoly_unit(n)) for n in DEGREES]
    u += [('ntru_gen %d %s' % (n, mk), gen_unit(n, mk)) for n in DEGREES for mk in (False, True)]
    return u
