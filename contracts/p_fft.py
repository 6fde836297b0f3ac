"""Contracts of fft.py, ffsampling.py and the list functions of common.py: exact algebra over the complex numbers.

A value is a quotient of polynomials with Gaussian rational coefficients over named atoms and their conjugates; a floating
constant is the number it denotes.  Roots of unity are floating constants too, so that coefficients are compared up to
2^-40 (the table itself is proved within 2^-46 of exact roots).
"""
from fractions import Fraction

import pysym as P
from pysym import ns

DEGREES = [2, 4, 8, 16, 32, 64, 128, 256, 512, 1024]
TOL = Fraction(1, 1 << 40)
ZERO, ONE = (Fraction(0), Fraction(0)), (Fraction(1), Fraction(0))


def gmul(a, b):
    if not a[1] and not b[1]:
        return (a[0] * b[0], a[1])
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        o = r.get(m)
        v = (s * c[0], s * c[1]) if o is None else (o[0] + s * c[0], o[1] + s * c[1])
        if v[0] or v[1]:
            r[m] = v
        elif o is not None:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            k = tuple(sorted(m + m2))
            v = gmul(c, c2)
            o = r.get(k)
            r[k] = v if o is None else (o[0] + v[0], o[1] + v[1])
    return {m: c for m, c in r.items() if c[0] or c[1]}


REAL = set()


def pconj(a):
    return {tuple(sorted((x, c if x in REAL else not c) for x, c in m)): (v[0], -v[1]) for m, v in a.items()}


PONE = {(): ONE}


class CV:
    """complex value"""
    __hash__ = None
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num, self.den = num, den or PONE

    def conjugate(self):
        return CV(pconj(self.num), pconj(self.den) if self.den is not PONE else PONE)

    @property
    def real(self):
        return (self + self.conjugate()) * Fraction(1, 2)

    @property
    def imag(self):
        return (self - self.conjugate()) * CV({(): (Fraction(0), Fraction(-1, 2))})

    def __neg__(self):
        return CV({m: (-c[0], -c[1]) for m, c in self.num.items()}, self.den)

    def __pos__(self):
        return self

    def __round__(self):
        reg = P.CTX.notes.setdefault('round', {})
        return atom('round(%s)' % name_of(self, reg), True)

    def __pow__(self, k):
        if not isinstance(k, int) or not 0 <= k < 64:
            raise P.Unsupported('power of a complex number')
        r = CV(PONE)
        for _ in range(k):
            r = r * self
        return r

    def _no(self, *a):
        raise P.Unsupported('a complex value decides or is made an integer')
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __float__ = __int__ = __index__ = __complex__ = __abs__ = _no
    _int_ = _no


def cv(x):
    if isinstance(x, CV):
        return x
    if isinstance(x, bool):
        return None
    if isinstance(x, (int, float, Fraction)):
        return CV({(): (Fraction(x), Fraction(0))} if x else {})
    if isinstance(x, complex):
        return CV({(): (Fraction(x.real), Fraction(x.imag))} if x else {})
    return None


def _op(f):
    def op(a, b):
        b = cv(b)
        return NotImplemented if b is None else f(a, b)

    def rop(a, b):
        b = cv(b)
        return NotImplemented if b is None else f(b, a)
    return op, rop


def _sum(a, b, s):
    if a.den is PONE and b.den is PONE:
        return CV(padd(a.num, b.num, s))
    if a.den == b.den:
        return CV(padd(a.num, b.num, s), a.den)
    return CV(padd(pmul(a.num, b.den), pmul(b.num, a.den), s), pmul(a.den, b.den))


def _mul(a, b):
    return CV(pmul(a.num, b.num), PONE if a.den is PONE and b.den is PONE else pmul(a.den, b.den))


for _n, _f in (('add', lambda a, b: _sum(a, b, 1)), ('sub', lambda a, b: _sum(a, b, -1)), ('mul', _mul),
               ('truediv', lambda a, b: CV(pmul(a.num, b.den), pmul(a.den, b.num)))):
    _o, _r = _op(_f)
    setattr(CV, '__%s__' % _n, _o)
    setattr(CV, '__r%s__' % _n, _r)


def atom(name, real=False):
    if real:
        REAL.add(name)
    return CV({((name, False),): ONE})


def atoms(name, n, real=False):
    return [atom('%s%d' % (name, i), real) for i in range(n)]


def small(p):
    return all(abs(c[0]) <= TOL and abs(c[1]) <= TOL for c in p.values())


def same(a, b):
    a, b = cv(a), cv(b)
    if a is None or b is None:
        return False
    if a.den is PONE and b.den is PONE or a.den == b.den:
        return small(padd(a.num, b.num, -1))
    return small(padd(pmul(a.num, b.den), pmul(b.num, a.den), -1))


def same_list(a, b):
    return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def name_of(x, reg):
    for k, v in reg.items():
        if same(v, x):
            return k
    k = '#%d' % len(reg)
    reg[k] = x
    return k


# ------------------------------------------------------------------------------------- modules
ROOTS = []


def roots():
    if not ROOTS:
        ROOTS.append(P.load('fft_constants')._g['roots_dict'])
    return ROOTS[0]


def common():
    return P.load('common')


def module(**over):
    c = common()
    m = P.load('fft', stubs={'common': ns(split=c._g['split'], merge=c._g['merge']), 'fft_constants': ns(roots_dict=roots())})
    for k, v in over.items():
        if k not in m._g:
            raise P.Unsupported('fft.%s not found' % k)
        m._g[k] = v
    return m


def engine(name, file, *fns):
    E = P.Engine(name)
    E.normal = True
    E.res.functions |= {'pythonref/%s:%s' % (file, f) for f in fns}
    return E


class Frame:
    """lists that a function must leave alone"""

    def __init__(self, *ls):
        self.ls = [(l, list(l)) for l in ls]

    def kept(self):
        return all(len(l) == len(c) and all(x is y for x, y in zip(l, c)) for l, c in self.ls)


# ------------------------------------------------------------------------------------- roots
def table_unit():
    """roots_dict[n]: roots of x^n + 1 in pairs r, -r, the squares being the roots of x^(n/2) + 1"""
    E = engine('roots', 'fft_constants.py', 'roots_dict')
    D = roots()
    eps = Fraction(1, 1 << 46)
    c = lambda z: (Fraction(complex(z).real), Fraction(complex(z).imag))
    near = lambda a, b: abs(a[0] - b[0]) <= eps and abs(a[1] - b[1]) <= eps

    def run():
        return D

    def post(r):
        E.prove('roots: a table for every degree 2..1024', all(n in D and len(D[n]) == n for n in DEGREES))
        E.prove('roots: i and -i at degree 2', near(c(D[2][0]), (0, 1)) and near(c(D[2][1]), (0, -1)))
        for n in DEGREES:
            R = [c(z) for z in D[n]]
            E.prove('roots: unit length at %d' % n, all(near(gmul(a, (a[0], -a[1])), ONE) for a in R))
            E.prove('roots: pairs of opposites at %d' % n, all(near(R[2 * i + 1], (-R[2 * i][0], -R[2 * i][1])) for i in range(n // 2)))
            if n > 2:
                S = [c(z) for z in D[n // 2]]
                E.prove('roots: squares are the roots of half the degree, at %d' % n, all(near(gmul(R[2 * i], R[2 * i]), S[i]) for i in range(n // 2)))
            E.prove('roots: all different at %d' % n, len({(round(float(a), 9), round(float(b), 9)) for a, b in R}) == n)
    return E.run(run, post)


def w_of(n):
    return roots()[n]


def spec_split(F):
    n = len(F)
    w = w_of(n)
    h = Fraction(1, 2)
    return ([(cv(F[2 * i]) + F[2 * i + 1]) * h for i in range(n // 2)],
            [(cv(F[2 * i]) - F[2 * i + 1]) * h * cv(w[2 * i]).conjugate() for i in range(n // 2)])


def spec_merge(a, b):
    n = 2 * len(a)
    w = w_of(n)
    r = []
    for i in range(n // 2):
        t = cv(b[i]) * w[2 * i]
        r += [cv(a[i]) + t, cv(a[i]) - t]
    return r


# ------------------------------------------------------------------------------------- fft.py
def split_unit(n):
    def unit():
        E = engine('split_fft, merge_fft at %d' % n, 'fft.py', 'split_fft', 'merge_fft')
        m = module()
        g = ns()

        def run():
            g.F = atoms('F', n)
            g.a, g.b = atoms('a', n // 2), atoms('b', n // 2)
            g.fr = Frame(g.F, g.a, g.b)
            return m._g['split_fft'](g.F), m._g['merge_fft']([g.a, g.b])

        def post(r):
            s, M = r
            s = list(s)
            E.prove('split_fft: two halves', len(s) == 2)
            a, b = spec_split(g.F)
            E.prove('split_fft: f0 = (f(r) + f(-r)) / 2', same_list(s[0], a))
            E.prove('split_fft: f1 = (f(r) - f(-r)) / (2 r)', same_list(s[1], b))
            E.prove('merge_fft: f0(r^2) + r f1(r^2) and f0(r^2) - r f1(r^2)', same_list(M, spec_merge(g.a, g.b)))
            E.prove('split_fft, merge_fft: operands unchanged', g.fr.kept())
            s = m._g['split_fft'](list(M))
            E.prove('split_fft inverts merge_fft', same_list(s[0], g.a) and same_list(s[1], g.b))
            E.prove('merge_fft inverts split_fft', same_list(m._g['merge_fft'](list(m._g['split_fft'](list(g.F)))), g.F))
        return E.run(run, post)
    return unit


def fft_unit(n):
    """fft(f)_i = f(r_i), by the contract at half the degree; ifft is its inverse"""
    def unit():
        E = engine('fft, ifft at %d' % n, 'fft.py', 'fft', 'ifft')
        g = ns()

        def half(l):
            """values of a polynomial of half the degree at its roots"""
            if same_list(l, g.even):
                return list(g.E)
            E.prove('fft: recursion on the even or the odd coefficients', same_list(l, g.odd))
            return list(g.O)

        def ihalf(l):
            if same_list(l, g.s0):
                return list(g.c0)
            E.prove('ifft: recursion on one half', same_list(l, g.s1))
            return list(g.c1)
        m = module()
        fft, ifft = m._g['fft'], m._g['ifft']
        m._g['fft'], m._g['ifft'] = half, ihalf
        w = w_of(n)

        def run():
            g.f = atoms('f', n, real=True)
            g.even, g.odd = g.f[0::2], g.f[1::2]
            g.E, g.O = atoms('even', n // 2), atoms('odd', n // 2)
            g.F = atoms('F', n)
            g.s0, g.s1 = spec_split(g.F)
            g.c0, g.c1 = atoms('c', n // 2, real=True), atoms('d', n // 2, real=True)
            g.fr = Frame(g.f, g.F)
            return fft(g.f), ifft(g.F)

        def post(r):
            V, c = r
            if n == 2:
                E.prove('fft: f0 + i f1 and f0 - i f1', same_list(V, [g.f[0] + g.f[1] * 1j, g.f[0] - g.f[1] * 1j]))
                E.prove('ifft: real and imaginary part', same_list(c, [g.F[0].real, g.F[0].imag]))
                E.prove('ifft inverts fft', same_list(ifft(list(V)), g.f))
            else:
                E.prove('fft: f(r) = f_even(r^2) + r f_odd(r^2)', isinstance(V, list) and len(V) == n and all(
                    same(V[i], g.E[i // 2] + g.O[i // 2] * complex(w[i])) for i in range(n)))
                E.prove('ifft: coefficients of both halves, interleaved', isinstance(c, list) and len(c) == n and all(
                    same(c[i], (g.c1 if i % 2 else g.c0)[i // 2]) for i in range(n)))
            E.prove('fft, ifft: operands unchanged', g.fr.kept())
        return E.run(run, post)
    return unit


def ops_unit(n):
    def unit():
        E = engine('operations at %d' % n, 'fft.py', 'add', 'neg', 'sub', 'add_fft', 'sub_fft', 'mul_fft', 'div_fft', 'adj_fft', 'mul', 'div', 'adj')
        g = ns()

        def fft(l):
            for name, v in (('x', g.x), ('y', g.y)):
                if same_list(l, v):
                    return atoms('fft_' + name, n)
            raise P.Unsupported('transform of a third polynomial')

        def ifft(l):
            g.inv.append(list(l))
            return ('ifft', len(g.inv) - 1)
        m = module()
        m._g['fft'], m._g['ifft'] = fft, ifft

        def run():
            g.inv = []
            g.x, g.y = atoms('x', n), atoms('y', n)
            g.fr = Frame(g.x, g.y)
            return {k: m._g[k](g.x, g.y) for k in ('add', 'sub', 'add_fft', 'sub_fft', 'mul_fft', 'div_fft', 'mul', 'div')} | {
                k: m._g[k](g.x) for k in ('neg', 'adj_fft', 'adj')}

        def post(r):
            z = list(zip(g.x, g.y))
            X, Y = atoms('fft_x', n), atoms('fft_y', n)
            Z = list(zip(X, Y))
            for k, want in (('add', [a + b for a, b in z]), ('add_fft', [a + b for a, b in z]), ('sub', [a - b for a, b in z]),
                            ('sub_fft', [a - b for a, b in z]), ('neg', [-a for a in g.x]), ('mul_fft', [a * b for a, b in z]),
                            ('div_fft', [a / b for a, b in z]), ('adj_fft', [a.conjugate() for a in g.x])):
                E.prove('%s: coordinate by coordinate' % k, same_list(r[k], want))
            for k, want in (('mul', [a * b for a, b in Z]), ('div', [a / b for a, b in Z]), ('adj', [a.conjugate() for a in X])):
                t = r[k]
                E.prove('%s: the inverse transform of the %s of the values' % (k, {'mul': 'product', 'div': 'quotient', 'adj': 'conjugate'}[k]),
                        isinstance(t, tuple) and t[0] == 'ifft' and same_list(g.inv[t[1]], want))
            E.prove('operations: operands unchanged', g.fr.kept())
        return E.run(run, post)
    return unit


def list_unit(n):
    """split: even and odd coefficients; merge: its inverse"""
    def unit():
        E = engine('split, merge at %d' % n, 'common.py', 'split', 'merge')
        m = common()
        g = ns()

        def run():
            g.f, g.a, g.b = atoms('f', n), atoms('a', n // 2), atoms('b', n // 2)
            g.fr = Frame(g.f, g.a, g.b)
            return m._g['split'](g.f), m._g['merge']([g.a, g.b])

        def post(r):
            s, M = r
            E.prove('split: even and odd coefficients', len(s) == 2 and same_list(list(s[0]), g.f[0::2]) and same_list(list(s[1]), g.f[1::2]))
            E.prove('merge: interleaved', same_list(list(M), [x for p in zip(g.a, g.b) for x in p]))
            E.prove('split, merge: operands unchanged', g.fr.kept())
        return E.run(run, post)
    return unit


# ------------------------------------------------------------------------------------- ffsampling.py
def ffmodule(g, **over):
    """ffsampling.py on the contracts of fft.py and samplerz"""
    same_len = lambda a, b: len(a) == len(b)

    def two(f):
        def op(a, b):
            if not same_len(a, b):
                raise AssertionError('length')
            return [f(cv(x), cv(y)) for x, y in zip(a, b)]
        return op
    add, sub = two(lambda x, y: x + y), two(lambda x, y: x - y)
    ring = {k: getattr(g, k, None) for k in ('mul', 'div', 'adj')}
    stub = ns(add=getattr(g, 'add', add), sub=getattr(g, 'sub', sub), add_fft=add, sub_fft=sub, mul_fft=two(lambda x, y: x * y), div_fft=two(lambda x, y: x / y),
              adj_fft=lambda a: [cv(x).conjugate() for x in a], split_fft=lambda F: list(spec_split(F)), merge_fft=lambda l: spec_merge(*l),
              neg=lambda a: [-cv(x) for x in a], fft_ratio=module()._g['fft_ratio'], **ring)
    m = P.load('ffsampling', stubs={'common': ns(split=getattr(g, 'split', None), merge=getattr(g, 'merge', None)), 'fft': stub,
                                    'samplerz': ns(samplerz=getattr(g, 'samplerz', None))})
    for k, v in over.items():
        m._g[k] = v
    return m


def is_const(l, c):
    return isinstance(l, list) and all(same(x, c) for x in l)


def ldl_fft_unit(n):
    """L D L* = G, L lower triangular with a unit diagonal, D diagonal (G self-adjoint)"""
    def unit():
        E = engine('ldl_fft at %d' % n, 'ffsampling.py', 'ldl_fft')
        g = ns()
        m = ffmodule(g)

        def run():
            g.a, g.d = atoms('a', n, real=True), atoms('d', n, real=True)
            g.b = atoms('b', n)
            g.G = [[g.a, g.b], [[x.conjugate() for x in g.b], g.d]]
            g.fr = Frame(g.a, g.b, g.d, g.G[1][0], g.G[0], g.G[1], g.G)
            return m._g['ldl_fft'](g.G)

        def post(r):
            L, D = r
            E.prove('ldl_fft: L is unit lower triangular', is_const(L[0][0], 1) and is_const(L[0][1], 0) and is_const(L[1][1], 1))
            E.prove('ldl_fft: D is diagonal', is_const(D[0][1], 0) and is_const(D[1][0], 0))
            E.prove('ldl_fft: lengths', all(len(x) == n for M in (L, D) for row in M for x in row))
            l, d0, d1 = ([cv(x) for x in v] for v in (L[1][0], D[0][0], D[1][1]))
            E.prove('ldl_fft: D00 = G00', same_list(d0, g.a))
            E.prove('ldl_fft: L10 D00 = G10', all(same(x * y, z) for x, y, z in zip(l, d0, g.G[1][0])))
            E.prove('ldl_fft: D00 L10* = G01', all(same(x.conjugate() * y, z) for x, y, z in zip(l, d0, g.b)))
            E.prove('ldl_fft: L10 D00 L10* + D11 = G11', all(same(x * x.conjugate() * y + w, z) for x, y, z, w in zip(l, d0, g.d, d1)))
            E.prove('ldl_fft: G unchanged', g.fr.kept())
        return E.run(run, post)
    return unit


class Tree:
    def __init__(self, *a):
        self.a = a


def ffldl_fft_unit(n):
    """[L10, tree of the split of D00, tree of the split of D11]"""
    def unit():
        E = engine('ffldl_fft at %d' % n, 'ffsampling.py', 'ffldl_fft')
        g = ns()

        def ldl(G):
            E.prove('ffldl_fft: the decomposition of G', G is g.G or all(same_list(G[i][j], g.G[i][j]) for i in range(2) for j in range(2)))
            one, zero = [1] * n, [0] * n
            return [[[one, zero], [list(g.l), one]], [[list(g.d0), zero], [zero, list(g.d1)]]]

        def rec(G):
            g.calls.append(G)
            return Tree(len(g.calls) - 1)
        m = ffmodule(g)
        fn = m._g['ffldl_fft']
        m._g['ldl_fft'], m._g['ffldl_fft'] = ldl, rec

        def run():
            g.calls = []
            g.l = atoms('l', n)
            g.d0, g.d1 = atoms('p', n, real=True), atoms('q', n, real=True)
            g.G = [[atoms('G%d%d_' % (i, j), n) for j in range(2)] for i in range(2)]
            g.fr = Frame(*g.G[0], *g.G[1])
            return fn(g.G)

        def post(r):
            E.prove('ffldl_fft: three entries, L10 first', len(r) == 3 and same_list(r[0], g.l))
            E.prove('ffldl_fft: G unchanged', g.fr.kept())
            for k, d in ((1, g.d0), (2, g.d1)):
                nm = 'D%d%d' % (k - 1, k - 1)
                if n == 2:
                    E.prove('ffldl_fft: %s at the bottom' % nm, same_list(r[k], d))
                    continue
                ok = isinstance(r[k], Tree)
                E.prove('ffldl_fft: a subtree for %s' % nm, ok)
                if ok:
                    G = g.calls[r[k].a[0]]
                    a, b = spec_split(d)
                    want = [[a, b], [[x.conjugate() for x in b], a]]
                    E.prove('ffldl_fft: the subtree of the split of %s' % nm, all(same_list(G[i][j], want[i][j]) for i in range(2) for j in range(2)))
            if n == 2:
                E.prove('ffldl_fft: leaves are two lists', r[1] is not r[2])
        return E.run(run, post)
    return unit


def nearest_unit(n, fname):
    """z1 from t1 with T1, then z0 from t0 + (t1 - z1) L10 with T0; at the bottom one integer each"""
    def unit():
        E = engine('%s at %d' % (fname, n), 'ffsampling.py', fname)
        g = ns()
        samp = fname == 'ffsampling_fft'

        def samplerz(mu, sigma, sigmin, randombytes=None):
            g.log.append((mu, sigma, sigmin, randombytes))
            return atom('z_%d' % len(g.log), True)
        g.samplerz = samplerz

        def rec(t, T, *rest):
            g.log.append((t, T, rest))
            k = len(g.log)
            return [atoms('u%d_' % k, n // 2), atoms('v%d_' % k, n // 2)]
        m = ffmodule(g)
        fn = m._g[fname]
        m._g[fname] = rec

        def run():
            g.log = []
            g.t = [atoms('s', n), atoms('t', n)]
            g.rnd, g.sm = object(), object()
            g.fr = Frame(*g.t, g.t)
            if n == 1:
                g.leaf = [atom('sigma'), 0]
                return fn(g.t, g.leaf, g.sm, g.rnd) if samp else fn(g.t, g.leaf)
            g.l = atoms('l', n)
            g.T = [g.l, Tree(0), Tree(1)]
            return fn(g.t, g.T, g.sm, g.rnd) if samp else fn(g.t, g.T)

        def post(z):
            E.prove('%s: two vectors' % fname, len(z) == 2 and all(isinstance(x, list) and len(x) == n for x in z))
            E.prove('%s: target unchanged' % fname, g.fr.kept())
            if n == 1 and not samp:
                E.prove('%s: each coordinate is rounded' % fname, same(z[0][0], round(g.t[0][0].real)) and same(z[1][0], round(g.t[1][0].real)))
                return
            E.prove('%s: two calls' % fname, len(g.log) == 2)
            if n == 1:
                for k in (0, 1):
                    mu, sg, sm, rnd = g.log[k]
                    E.prove('%s: coordinate %d is sampled around its center' % (fname, k), same(mu, g.t[k][0].real) and same(z[k][0], atom('z_%d' % (k + 1), True)))
                    E.prove('%s: the deviation is the leaf' % fname, sg is g.leaf[0] or same(sg, g.leaf[0]))
                    E.prove('%s: sigmin and the random source are passed on' % fname, sm is g.sm and rnd is g.rnd)
                return
            (ta, Ta, ra), (tb, Tb, rb) = g.log
            E.prove('%s: the second coordinate first, with the second subtree' % fname, Ta is g.T[2] and all(same_list(x, y) for x, y in zip(ta, spec_split(g.t[1]))))
            z1 = spec_merge(atoms('u1_', n // 2), atoms('v1_', n // 2))
            E.prove('%s: z1 merges the result' % fname, same_list(z[1], z1))
            t0 = [x + (y - w) * l for x, y, w, l in zip(g.t[0], g.t[1], z1, g.l)]
            E.prove('%s: then t0 + (t1 - z1) L10 with the first subtree' % fname, Tb is g.T[1] and all(same_list(x, y) for x, y in zip(tb, spec_split(t0))))
            E.prove('%s: z0 merges the result' % fname, same_list(z[0], spec_merge(atoms('u2_', n // 2), atoms('v2_', n // 2))))
            if samp:
                E.prove('%s: sigmin and the random source are passed on' % fname, ra == rb == (g.sm, g.rnd))
        return E.run(run, post)
    return unit


# ---- coefficient representation: elements of the ring of polynomials modulo x^n + 1, as opaque values
class RP:
    """element of Q[x]/(x^n + 1): a quotient of polynomials in opaque elements and their adjoints"""

    def __init__(self, v, n, zeroed=()):
        self.v, self.n, self.zeroed = v, n, set(zeroed)

    def __len__(self):
        return self.n

    def _slen(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) != (None, None, None):
                raise P.Unsupported('part of a polynomial')
            return RP(self.v, self.n, self.zeroed)
        if i in self.zeroed:
            return 0
        return Coef(self.v, i)

    def __setitem__(self, i, x):
        if isinstance(x, int) and x == 0 and 0 <= i < self.n:
            self.zeroed.add(i)
        else:
            raise P.Unsupported('assignment of a coefficient')


class Coef:
    def __init__(self, v, i):
        self.v, self.i = v, i

    def __round__(self):
        return ('round', self)


def rp(x, n):
    if isinstance(x, RP):
        if x.zeroed:
            raise P.Unsupported('ring operation on a truncated polynomial')
        return x.v
    if isinstance(x, list) and len(x) == n and all(isinstance(c, int) for c in x) and not any(x[1:]):
        return cv(x[0])
    raise P.Unsupported('not a ring element')


def ring_ops(g, n):
    def two(f):
        return lambda a, b: RP(f(rp(a, n), rp(b, n)), n)
    g.add, g.sub, g.mul, g.div = two(lambda a, b: a + b), two(lambda a, b: a - b), two(lambda a, b: a * b), two(lambda a, b: a / b)
    g.adj = lambda a: RP(rp(a, n).conjugate(), n)


def halves(v, n, tag):
    """split of a ring element, by name"""
    reg = P.CTX.notes.setdefault('halves', {})
    k = name_of(v, reg)
    return atom('%s_even' % k), atom('%s_odd' % k)


def coef_unit(n):
    """gram, ldl, ffldl, ffnp on ring elements"""
    def unit():
        E = engine('coefficient versions at %d' % n, 'ffsampling.py', 'gram', 'ldl', 'ffldl', 'ffnp')
        g = ns()
        ring_ops(g, n)
        h = n // 2

        def split(f):
            a, b = halves(rp(f, n), n, 'split')
            return [RP(a, h), RP(b, h)]

        def merge(l):
            l = list(l)
            E.prove('ffnp: both halves are merged', len(l) == 2 and all(isinstance(x, Half) for x in l) and l[0].k == l[1].k and (l[0].i, l[1].i) == (0, 1))
            return RP(atom('merged%d' % l[0].k), n)
        g.split, g.merge = split, merge
        # the adjoint of a half has half the degree
        full_adj = g.adj
        g.adj = lambda a: RP(a.v.conjugate(), len(a)) if isinstance(a, RP) and not a.zeroed else full_adj(a)
        m = ffmodule(g)

        class Half:
            def __init__(self, k, i):
                self.k, self.i = k, i

        def rec_ldl(G):
            g.calls.append(G)
            return Tree(len(g.calls) - 1)

        def rec_np(t, T):
            g.np.append((list(t), T))
            return [Half(len(g.np), 0), Half(len(g.np), 1)]
        ffldl, ffnp, ldl, gram = (m._g[k] for k in ('ffldl', 'ffnp', 'ldl', 'gram'))
        m._g['ffldl'], m._g['ffnp'] = rec_ldl, rec_np

        def run():
            g.calls, g.np = [], []
            el = lambda s: RP(atom(s), n)
            g.B = [[el('b%d%d' % (i, j)) for j in range(2)] for i in range(2)]
            g.G = [[RP(atom('p', True), n), RP(atom('o'), n)], [RP(atom('o').conjugate(), n), RP(atom('r', True), n)]]
            g.t, g.l = [el('s'), el('t')], el('l')
            g.T = [g.l, Tree(10), Tree(11)]
            ins = [x for row in g.B + g.G for x in row] + g.t + [g.l]
            r = gram(g.B), ldl(g.G), (ffldl(g.G) if n > 1 else None), (ffnp(g.t, g.T) if n > 1 else None)
            g.kept = not any(x.zeroed for x in ins)
            return r

        def post(r):
            Gm, (L, D), T, z = r
            E.prove('gram, ldl, ffldl, ffnp: operands unchanged', g.kept)
            if not g.kept:
                return
            b = lambda i, j: atom('b%d%d' % (i, j))
            E.prove('gram: B B*', all(same(rp(Gm[i][j], n), b(i, 0) * b(j, 0).conjugate() + b(i, 1) * b(j, 1).conjugate()) for i in range(2) for j in range(2)))
            p, o, q = atom('p', True), atom('o'), atom('r', True)
            v = lambda x: rp(x, n)
            E.prove('ldl: L unit lower triangular, D diagonal', same(v(L[0][0]), 1) and same(v(L[0][1]), 0) and same(v(L[1][1]), 1)
                    and same(v(D[0][1]), 0) and same(v(D[1][0]), 0))
            l, d0, d1 = v(L[1][0]), v(D[0][0]), v(D[1][1])
            E.prove('ldl: L D L* = G', same(d0, p) and same(l * d0, o.conjugate()) and same(l * l.conjugate() * d0 + d1, q))
            if n == 1:
                return
            E.prove('ffldl: three entries, L10 first', len(T) == 3 and same(v(T[0]), o.conjugate() / p))
            want_d = (p, q - o * o.conjugate() / p)
            for k in (0, 1):
                x = T[k + 1]
                if n == 2:
                    if isinstance(x, RP):
                        E.prove('ffldl: D%d%d without its second coefficient at the bottom' % (k, k), same(x.v, want_d[k]) and x.zeroed <= {1})
                    else:
                        E.prove('ffldl: D%d%d without its second coefficient at the bottom' % (k, k),
                                isinstance(x, list) and len(x) == 2 and isinstance(x[0], Coef) and x[0].i == 0 and same(x[0].v, want_d[k]) and x[1] == 0)
                    continue
                E.prove('ffldl: a subtree for D%d%d' % (k, k), isinstance(x, Tree))
                M = g.calls[x.a[0]]
                a, c = halves(want_d[k], n, 'split')
                W = [[a, c], [c.conjugate(), a]]
                E.prove('ffldl: the subtree of the split of D%d%d' % (k, k), all(len(M[i][j]) == h and same(M[i][j].v, W[i][j]) for i in range(2) for j in range(2)))
            E.prove('ffnp: two calls', len(g.np) == 2 and len(z) == 2)
            (ta, Ta), (tb, Tb) = g.np
            isplit = lambda t, w: len(t) == 2 and all(isinstance(x, RP) and same(x.v, y) for x, y in zip(t, halves(w, n, 'split')))
            s, t, l = atom('s'), atom('t'), atom('l')
            E.prove('ffnp: the second coordinate first, with the second subtree', Ta is g.T[2] and isplit(ta, t) and same(v(z[1]), atom('merged1')))
            E.prove('ffnp: then t0 + (t1 - z1) L10 with the first subtree', Tb is g.T[1] and isplit(tb, s + (t - atom('merged1')) * l) and same(v(z[0]), atom('merged2')))
        return E.run(run, post)
    return unit


def bottom_unit():
    """ffnp at degree 1"""
    E = engine('ffnp at 1', 'ffsampling.py', 'ffnp')
    g = ns()
    m = ffmodule(g)

    def run():
        g.t = [[atom('s', True)], [atom('t', True)]]
        return m._g['ffnp'](g.t, [atom('a', True), 0])

    def post(z):
        E.prove('ffnp: each coordinate is rounded', all(len(z[k]) == 1 and same(z[k][0], round(g.t[k][0])) for k in (0, 1)) and len(z) == 2)
    return E.run(run, post)


def units():
    u = [('roots', table_unit)]
    u += [('split_fft %d' % n, split_unit(n)) for n in DEGREES]
    u += [('fft %d' % n, fft_unit(n)) for n in DEGREES]
    u += [('ops %d' % n, ops_unit(n)) for n in [1] + DEGREES]
    u += [('split %d' % n, list_unit(n)) for n in DEGREES]
    u += [('ldl_fft %d' % n, ldl_fft_unit(n)) for n in DEGREES]
    u += [('ffldl_fft %d' % n, ffldl_fft_unit(n)) for n in DEGREES]
    u += [('%s %d' % (f, n), nearest_unit(n, f)) for f in ('ffsampling_fft', 'ffnp_fft') for n in [1] + DEGREES]
    u += [('coef %d' % n, coef_unit(n)) for n in DEGREES]
    u += [('ffnp 1', bottom_unit)]
    return u
