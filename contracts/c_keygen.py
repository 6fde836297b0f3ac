"""Contracts of the key generation of keygen.c: what a generated key satisfies, whatever the intermediate steps of the
NTRU solver computed.

The drawing of f and g, the acceptance tests of keygen() and the final test of solve_NTRU() are under contract; the
multi-limb solver (deepest, intermediate and the two binary levels) enters as an arbitrary function of its buffer.
"""
import itertools
import numpy as np
import z3
import bv
import csrc
from auto import Auto, scalars
from bv import BV
from symex import Engine, State, Ptr, NULL, LoopSpec, Unsupported, select
from runner import UnitResult
from c_ring import Ring, small_obj

PFX = 'falcon_inner_'
BV64, B8 = z3.BitVecSort(64), z3.BitVecSort(8)
P = 2147473409
RI = pow(1 << 31, -1, P)
Q = 12289
FG_BITS = [0, 8, 8, 8, 8, 8, 7, 7, 6, 6, 5]
GAUSS = [1283868770400643928, 6416574995475331444, 4078260278032692663, 2353523259288686585, 1227179971273316331, 575931623374121527,
         242543240509105209, 91437049221049666, 30799446349977173, 9255276791179340, 2478152334826140, 590642893610164, 125206034929641,
         23590435911403, 3948334035941, 586753615614, 77391054539, 9056793210, 940121950, 86539696, 7062824, 510971, 32764, 1862, 94, 4, 0]
M63 = (1 << 63) - 1


def K(v, w):
    return z3.BitVecVal(v, w)


# ------------------------------------------------------------------ drawing f and g
def mkgauss_unit():
    R = UnitResult()
    for logn in range(1, 11):
        E = Engine([csrc.module('keygen.c')], timeout=20000)
        E.merge_ret = False
        st = State()
        rng = E.new_obj(st, 'rng', 208)
        n = 1 << (10 - logn)
        nm = 'mkgauss(logn=%d): ' % logn
        cnt = itertools.count()

        def extract(E, s, a, fr):
            E.prove(nm + 'draws from the given context', s, isinstance(a[0], Ptr) and a[0].obj == rng.id and not a[0].t and a[0].k == 0)
            E.prove(nm + 'eight bytes at a time', s, bv.icmp('eq', a[2], 8, 64))
            r = bv.fresh('draw%d' % next(cnt), 64)
            s.ghost['draws'] = s.ghost.get('draws', ()) + (r,)
            for i in range(8):
                E.store(s, a[1].plus_const(i), 1, BV(tuple(r.bits[8 * i:8 * i + 8])) if False else bv.frombits(tuple(r.bits[8 * i:8 * i + 8])), 'extract')

        E.contracts = {PFX + 'i_shake256_extract': extract}

        def value(d):
            r1, r2 = bv.z(d[0], 64), bv.z(d[1], 64)
            a, b = r1 & K(M63, 64), r2 & K(M63, 64)
            v = K(0, 64)
            for k in range(26, 0, -1):
                v = z3.If(z3.UGE(b, K(GAUSS[k], 64)), K(k, 64), v)
            v = z3.If(z3.ULT(a, K(GAUSS[0], 64)), K(0, 64), v)
            return z3.If(z3.Extract(63, 63, r1) == 1, -v, v)

        class Sum(Auto):
            ghost = ('sum', 'k')

            def candidates(self, E, L):
                T, k = bv.z(L.st.ghost['sum'], 64), bv.z(L.st.ghost['k'], 64)
                c = [('at most n draws', z3.ULE(k, n)), ('draws of at most 26', z3.And(T <= 26 * k, T >= -26 * k))]
                for x, zx, sx, w in scalars(L):
                    c += [('%s is the sum' % x, sx == T), ('%s counts up' % x, zx == k), ('%s counts down' % x, zx == n - k)]
                return c

            def ghosts(self, E, L):
                d = L.st.ghost.get('draws', ())
                ok = len(d) == 2
                if ok:
                    L.st.ghost['sum'] = bv.mk(64, bv.z(L.head.ghost['sum'], 64) + value(d))
                L.st.ghost['k'] = bv.mk(64, bv.z(L.head.ghost['k'], 64) + 1)
                L.st.ghost['draws'] = ()
                return ok

            def step(self, E, L):
                E.prove(nm + 'two 64-bit integers per draw', L.st, self.ghosts(E, L))
        E.loop_specs = [Sum('mkgauss', 0, 'draws')]
        st.ghost.update(sum=0, k=0, draws=())
        for s, r in E.call('mkgauss', [Ptr(rng.id), logn], st, csrc.module('keygen.c')):
            E.prove(nm + '%d draws' % n, s, z3.And(bv.z(s.ghost['k'], 64) == n, z3.BoolVal(s.ghost.get('draws', ()) == ())))
            E.prove(nm + 'the sum of the draws', s, z3.SignExt(32, bv.z(r, 32)) == bv.z(s.ghost['sum'], 64))
        R.from_engine(E)
    return R


def poly_mkgauss_unit():
    R = UnitResult()
    for logn in range(1, 11):
        E = Engine([csrc.module('keygen.c')], timeout=20000)
        E.merge_ret = False
        st = State()
        rng = E.new_obj(st, 'rng', 208)
        n = 1 << logn
        fo = E.new_obj(st, 'f', n)
        E.make_arr(fo, 1, z3.Array('F0', BV64, B8))
        nm = 'poly_small_mkgauss(logn=%d): ' % logn
        J = z3.BitVec('any_index', 64)
        B = 26 << (10 - logn)

        def mkgauss(E, s, a, fr):
            E.prove(nm + 'draws from the given context at the given degree', s, isinstance(a[0], Ptr) and a[0].obj == rng.id and not a[0].t and a[0].k == 0 and a[1] == logn)
            v = z3.FreshConst(z3.BitVecSort(32), 'coef')
            s.assume(z3.And(v >= -B, v <= B))
            s.ghost['last'] = bv.mk(32, v)
            return bv.mk(32, v)
        E.contracts = {'mkgauss': mkgauss}

        def at(s):
            return select(s.mem[fo.id].arr, J)

        class Outer(Auto):
            ghost = ('par', 'fj', 'k', 'last')

            def candidates(self, E, L):
                g = L.st.ghost
                par, fj, k = bv.z(g['par'], 64), bv.z(g['fj'], 8), bv.z(g['k'], 64)
                c = [('at most n coefficients', z3.ULE(k, n)),
                     ('coefficients are the draws', z3.Implies(z3.ULT(J, k), at(L.st) == fj)),
                     ('coefficients within -127..127', z3.Implies(z3.ULT(J, k), fj != K(0x80, 8))),
                     ('odd sum at the end', z3.Implies(k == n, par == 1)), ('parity is a bit', z3.ULE(par, 1))]
                for x, zx, sx, w in scalars(L):
                    c += [('%s counts up' % x, zx == k)]
                    if w == 32:
                        c += [('%s is the parity' % x, z3.Implies(z3.ULT(k, n), zx == par))]
                return c

            def ghosts(self, E, L):
                g, h = L.st.ghost, L.head.ghost
                last, k = bv.z(g['last'], 32), bv.z(h['k'], 64)
                g['par'] = bv.mk(64, bv.z(h['par'], 64) ^ z3.ZeroExt(32, last & 1))
                g['fj'] = bv.mk(8, z3.If(J == k, z3.Extract(7, 0, last), bv.z(h['fj'], 8)))
                g['k'] = bv.mk(64, k + 1)

            def step(self, E, L):
                last = bv.z(L.st.ghost['last'], 32)
                E.prove(nm + 'a coefficient out of range is drawn again', L.st, z3.And(last >= -127, last <= 127))
                self.ghosts(E, L)

        class Inner(Auto):
            ghost = ('last',)
        E.loop_specs = [Outer('poly_small_mkgauss', 0, 'coefficients'), Inner('poly_small_mkgauss', None, 'restart')]
        st.ghost.update(par=0, fj=bv.var('f_before', 8), k=0, last=bv.var('none', 32))
        for s, r in E.call('poly_small_mkgauss', [Ptr(rng.id), Ptr(fo.id), logn], st, csrc.module('keygen.c')):
            g = s.ghost
            E.prove(nm + '%d coefficients' % n, s, bv.z(g['k'], 64) == n)
            E.prove(nm + 'odd sum of coefficients', s, bv.z(g['par'], 64) == 1)
            E.prove(nm + 'every coefficient is a draw within -127..127', s, z3.Implies(z3.ULT(J, n), z3.And(at(s) == bv.z(g['fj'], 8), at(s) != K(0x80, 8))))
        R.from_engine(E)
    return R


def either(unit):
    """a loop that runs upwards or downwards: the proof has to succeed for one direction"""
    def run():
        R = unit(False)
        if any(o['status'] != 'proved' for o in R.obls):
            D = unit(True)
            if all(o['status'] == 'proved' for o in D.obls):
                return D
        return R
    return run


def sqnorm_unit(down):
    R = UnitResult()
    sq = z3.Function('square8', B8, z3.BitVecSort(15))
    for logn in range(1, 11):
        E = Engine([csrc.module('keygen.c')], timeout=30000)
        E.merge_ret = False
        st = State()
        n = 1 << logn
        fo = E.new_obj(st, 'f', n, writable=False)
        A = z3.Array('F', BV64, B8)
        E.make_arr(fo, 1, A)
        nm = 'poly_small_sqnorm(logn=%d): ' % logn

        def hook(a, b, w):
            return None

        class Sum(Auto):
            ghost = ('T', 'k', 'par')

            def candidates(self, E, L):
                T, k, par = [bv.z(L.st.ghost[x], 64) for x in ('T', 'k', 'par')]
                c = [('as odd as the coefficients', T & 1 == par), ('at most n terms', z3.ULE(k, n)), ('terms of at most 2^14', z3.ULE(T, k << 14))]
                for x, zx, sx, w in scalars(L):
                    c += [('%s is the sum' % x, zx == T), ('%s counts up' % x, zx == k), ('%s counts down' % x, zx == n - k), ('%s stays below 2^31' % x, z3.ULT(zx, 1 << 25))]
                return c

            def ghosts(self, E, L):
                k = bv.z(L.head.ghost['k'], 64)
                x = z3.SignExt(56, z3.Select(A, n - 1 - k if down else k))
                L.st.ghost['T'] = bv.mk(64, bv.z(L.head.ghost['T'], 64) + x * x)
                L.st.ghost['par'] = bv.mk(64, bv.z(L.head.ghost['par'], 64) ^ (x & 1))
                L.st.ghost['k'] = bv.mk(64, k + 1)
        E.loop_specs = [Sum('poly_small_sqnorm', 0, 'squares')]
        st.ghost.update(T=0, k=0, par=0)
        for s, r in E.call('poly_small_sqnorm', [Ptr(fo.id), logn], st, csrc.module('keygen.c')):
            E.prove(nm + 'as odd as the sum of the coefficients', s, z3.ZeroExt(32, bv.z(r, 32)) & 1 == bv.z(s.ghost['par'], 64))
            E.prove(nm + 'the exact sum of squares of all coefficients', s, z3.And(bv.z(s.ghost['k'], 64) == n, z3.ZeroExt(32, bv.z(r, 32)) == bv.z(s.ghost['T'], 64)))
        R.from_engine(E)
    return R


# ------------------------------------------------------------------ arithmetic modulo the prime of the final test
def modp_unit():
    E = Engine([csrc.module('keygen.c')], timeout=120000)
    E.merge_ret = False
    V = csrc.module('keygen.c')
    x, y = z3.BitVec('x', 32), z3.BitVec('y', 32)
    X, Y = bv.mk(32, x), bv.mk(32, y)
    st0 = State()
    p0i = None
    for s, r in E.call('modp_ninv31', [P], State(), V):
        p0i = r
        E.prove('modp_ninv31: -1/p modulo 2^31', s, isinstance(r, int) and (r * P + 1) % (1 << 31) == 0 and r < 1 << 31)
    E.prove('lemma: p is prime', st0, all(P % d for d in range(2, 46342)))

    def lt(s, *xs):
        for v in xs:
            s.assume(z3.ULT(v, P))
    for fn, args, goal in (
            ('modp_add', [X, Y, P], lambda r: z3.Or(r == x + y, r == x + y - P)),
            ('modp_sub', [X, Y, P], lambda r: z3.Or(r == x - y, r == x - y + P))):
        st = State()
        lt(st, x, y)
        for s, r in E.call(fn, args, st, V):
            r = bv.z(r, 32)
            E.prove('%s: result below p with the stated residue' % fn, s, z3.And(z3.ULT(r, P), goal(r)))
    st = State()
    st.assume(z3.And(x > -P, x < P))
    for s, r in E.call('modp_set', [X, P], st, V):
        r = bv.z(r, 32)
        E.prove('modp_set: result below p with the residue of x', s, z3.And(z3.ULT(r, P), z3.Or(r == x, r == x + P)))
    # Montgomery product, over the product of the operands
    a, b = z3.Ints('a b')
    E.prove('lemma: product of two residues is at most (p-1)^2', st0, z3.Implies(z3.And(a >= 0, a < P, b >= 0, b < P), z3.And(a * b >= 0, a * b <= (P - 1) * (P - 1))))
    z31 = z3.BitVec('z31', 31)
    E.prove('lemma: the multiple of p cancels the low 31 bits', st0, z3.simplify(z31 + z31 * K(p0i, 31) * K(P, 31)).eq(K(0, 31)))
    st = State()
    lt(st, x, y)
    Z = z3.BitVec('Z', 64)
    x64, y64 = z3.ZeroExt(32, x), z3.ZeroExt(32, y)
    pre = tuple(st.pc)
    for s, r in E.call('modp_montymul', [X, Y, P, p0i], st, V):
        s2 = State()
        s2.assume(z3.ULE(Z, (P - 1) * (P - 1)))
        m = z3.simplify((Z * p0i) & 0x7FFFFFFF)
        W = z3.BitVec('W', 64)
        T = Z + W

        # Z: the product of the operands; W: the multiple of p, m times p with m below 2^31
        def product(e):
            e = _abstract(e, lambda a, b: a.eq(z3.simplify(x64)) and b.eq(z3.simplify(y64)), Z)
            return _abstract(e, lambda a, b: a.eq(m) and z3.is_bv_value(b) and b.as_long() == P, W)
        re = product(bv.z(r, 32))
        path = [product(c) for c in s.pc[len(pre):] if not isinstance(c, bool)]
        for c in path:
            s2.assume(c)
        vs = {str(v) for e in [re] + path for v in _vars(e)}
        if vs & {'x', 'y'}:
            s2.pc = s2.pc + pre + (Z == x64 * y64,)
        else:
            s2.assume(z3.ULE(W, ((1 << 31) - 1) * P))
            s2.assume(z3.Extract(30, 0, T) == 0)
        if vs & {'x', 'y'} or 'Z' in vs and 'W' not in vs:
            s2.assume(W == m * P)
        r64 = z3.ZeroExt(32, re)
        E.prove('modp_montymul: result below p, 2^31 times it congruent to the product', s2, z3.And(z3.ULT(re, P), z3.Or(r64 << 31 == T, (r64 + P) << 31 == T)))
    return UnitResult().from_engine(E)


def _abstract(e, which, v):
    """e with the 64-bit products selected by which(a, b), in either order, replaced by v"""
    done, todo = {}, [e]
    out = []
    while todo:
        t = todo.pop()
        if t.get_id() in done:
            continue
        done[t.get_id()] = True
        if t.decl().kind() == z3.Z3_OP_BMUL and t.size() == 64 and t.num_args() == 2:
            a, b = z3.simplify(t.arg(0)), z3.simplify(t.arg(1))
            if which(a, b) or which(b, a):
                out.append((t, v))
                continue
        todo += t.children()
    return z3.substitute(e, *out) if out else e


def _vars(e):
    from c_ring import _consts
    return _consts(e)


def modp_contracts(Rg):
    """functions modulo p = %d by contract (modp_unit); obligations: operands below p, the modulus and its inverse are those of p""" % P
    p0i = -pow(P, -1, 1 << 31) % (1 << 31)

    def two(name, f, np0=False):
        def c(E, st, a, fr):
            E.prove('%s: modulus' % name, st, a[2] == P and (not np0 or a[3] == p0i)) if not (a[2] == P and (not np0 or a[3] == p0i)) else None
            if isinstance(a[0], int) and isinstance(a[1], int):
                return f(a[0], a[1])
            x, y = Rg.tag(st, a[0], 32, name), Rg.tag(st, a[1], 32, name)
            return Rg.word(name, f(x, y))
        return c

    def add(x, y):
        return (x + y) % P if isinstance(x, int) and isinstance(y, int) else Rg.add(x, y)

    def sub(x, y):
        return (x - y) % P if isinstance(x, int) and isinstance(y, int) else Rg.add(x, y, -1)

    def mul(x, y):
        return x * y * RI % P if isinstance(x, int) and isinstance(y, int) else Rg.mul(x, y, RI)
    return {'modp_add': two('modp_add', add), 'modp_sub': two('modp_sub', sub), 'modp_montymul': two('modp_montymul', mul, True)}


def gm_of(logn):
    """the table computed by modp_mkgm2 for p and its generator, by the real code on concrete values"""
    E = Engine([csrc.module('keygen.c')])
    E.merge_ret = False
    Rg = Ring(E, 'lin', 1, P, 31)
    E.contracts = modp_contracts(Rg)
    st = State()
    n = 1 << logn
    V = csrc.module('keygen.c')
    gm, igm = E.new_obj(st, 'gm', 4 * n), E.new_obj(st, 'igm', 4 * n)
    pr = E.global_obj(st, V, 'PRIMES') if hasattr(E, 'global_obj') else None
    (s0, p0i), = E.call('modp_ninv31', [P], State(), V)
    g = 383167813
    (s, _), = E.call('modp_mkgm2', [Ptr(gm.id), Ptr(igm.id), logn, g, P, p0i], st, V)
    return E, [E._cells_load(s.mem[gm.id], 4 * i, 4) for i in range(n)]


def ntt_unit(logn):
    def run():
        n = 1 << logn
        nm = 'modp_NTT2(logn=%d): ' % logn
        E0, gm = gm_of(logn)
        E = Engine([csrc.module('keygen.c')])
        E.merge_ret = False
        Rg = Ring(E, 'lin', n, P, 31)
        E.contracts = modp_contracts(Rg)
        st = State()
        V = csrc.module('keygen.c')
        o = E.new_obj(st, 'a', 4 * n)
        t = E.new_obj(st, 'gm', 4 * n, writable=False)
        for i in range(n):
            v = np.zeros(n, dtype=np.int64)
            v[i] = 1
            o.cells[4 * i] = (4, Rg.word('a', v, 32))
            t.cells[4 * i] = (4, gm[i])
        p0i = -pow(P, -1, 1 << 31) % (1 << 31)
        res = E.call('modp_NTT2_ext', [Ptr(o.id), 1, Ptr(t.id), logn, P, p0i], st, V)
        if len(res) != 1:
            raise Unsupported('several exits')
        s = res[0][0]
        N = np.array([Rg.tag(s, E._cells_load(s.mem[o.id], 4 * i, 4), 32, nm + 'output') for i in range(n)])
        roots = [int(N[u][1]) for u in range(n)]
        E.prove(nm + 'output u evaluates the polynomial at a root of X^n + 1', s, all(pow(r, n, P) == P - 1 for r in roots))
        E.prove(nm + 'the n roots are distinct', s, len(set(roots)) == n)
        W = np.ones((n, n), dtype=np.int64)
        for i in range(1, n):
            W[:, i] = W[:, i - 1] * np.array(roots) % P
        E.prove(nm + 'matrix entries are the powers of the roots', s, bool((N == W).all()))
        return UnitResult().from_engine(E0).from_engine(E)
    return run


# ------------------------------------------------------------------ the final test of solve_NTRU
def to_small_unit():
    """poly_big_to_small: 1 exactly when every 31-bit signed word is within the limit, and then the words are copied"""
    R = UnitResult()
    B32 = z3.BitVecSort(32)
    for logn in range(1, 11):
        E = Engine([csrc.module('keygen.c')], timeout=20000)
        E.merge_ret = False
        st = State()
        n = 1 << logn
        do, so = E.new_obj(st, 'd', n), E.new_obj(st, 's', 4 * n, writable=False)
        E.make_arr(do, 1, z3.Array('D0', BV64, B8))
        A = z3.Array('S', BV64, B32)
        E.make_arr(so, 4, A)
        lim = z3.BitVec('lim', 32)
        st.assume(z3.And(lim >= 0, lim <= 127))
        J = z3.BitVec('any_index', 64)
        nm = 'poly_big_to_small(logn=%d): ' % logn

        def val(i):
            return z3.SignExt(1, z3.Extract(30, 0, z3.Select(A, i)))

        class Copy(Auto):
            ghost = ('k',)

            def candidates(self, E, L):
                k = bv.z(L.st.ghost['k'], 64)
                v = val(J)
                c = [('at most n', z3.ULE(k, n)),
                     ('copied and within the limit', z3.Implies(z3.ULT(J, k), z3.And(v >= -lim, v <= lim, select(L.st.mem[do.id].arr, J) == z3.Extract(7, 0, v))))]
                for x, zx, sx, w in scalars(L):
                    c += [('%s counts up' % x, zx == k)]
                return c

            def ghosts(self, E, L):
                L.st.ghost['k'] = bv.mk(64, bv.z(L.head.ghost['k'], 64) + 1)
        E.loop_specs = [Copy('poly_big_to_small', 0, 'copy')]
        st.ghost['k'] = 0
        for s, r in E.call('poly_big_to_small', [Ptr(do.id), Ptr(so.id), bv.mk(32, lim), logn], st, csrc.module('keygen.c')):
            k = bv.z(s.ghost['k'], 64)
            v = val(J)
            r = bv.z(r, 32)
            E.prove(nm + 'on success every word is within the limit and copied', s, z3.Implies(z3.And(r != 0, z3.ULT(J, n)), z3.And(v >= -lim, v <= lim, select(s.mem[do.id].arr, J) == z3.Extract(7, 0, v))))
            vk = val(k)
            E.prove(nm + 'fails only on a word beyond the limit', s, z3.Implies(r == 0, z3.And(z3.ULT(k, n), z3.Or(vk < -lim, vk > lim, z3.Extract(31, 31, z3.Select(A, k)) == 1))))
        R.from_engine(E)
    return R


def unpacked(c):
    """facts that follow from a fact of the form (a ^ b | c ^ d | ...) == 0"""
    out, st = [], [(c, True)]
    zero = lambda x: z3.is_bv_value(x) and x.as_long() == 0
    while st:
        c, pos = st.pop()
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            st.append((c.arg(0), not pos))
        elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR) and pos == (k == z3.Z3_OP_AND):
            st += [(x, pos) for x in c.children()]
        elif k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bv(c.arg(0)):
            eq = pos == (k == z3.Z3_OP_EQ)
            a, b = c.arg(0), c.arg(1)
            if z3.is_bv_value(a):
                a, b = b, a
            ka = a.decl().kind()
            if ka == z3.Z3_OP_ITE and z3.is_bv_value(b) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
                t, e = [(x.as_long() == b.as_long()) == eq for x in (a.arg(1), a.arg(2))]
                if t != e:
                    st.append((a.arg(0), t))
                continue
            if ka == z3.Z3_OP_CONCAT and z3.is_bv_value(b):
                if eq:
                    n = b.size()
                    for x in a.children():
                        st.append((x == z3.simplify(z3.Extract(n - 1, n - x.size(), b)), True))
                        n -= x.size()
                elif all(z3.is_bv_value(x) for x in a.children()[:-1]) and zero(z3.simplify(z3.Concat(*a.children()[:-1]) if a.num_args() > 2 else a.arg(0))) and zero(z3.simplify(z3.Extract(b.size() - 1, a.children()[-1].size(), b))):
                    x = a.children()[-1]
                    st.append((x == z3.simplify(z3.Extract(x.size() - 1, 0, b)), False))
                continue
            if not eq:
                if a.size() == 1 and z3.is_bv_value(b):
                    st.append((a == 1 - b.as_long(), True))
                continue
            if zero(b) and ka == z3.Z3_OP_BOR:
                st += [(x == b, True) for x in a.children()]
            elif zero(b) and ka == z3.Z3_OP_BXOR and a.num_args() == 2:
                st.append((a.arg(0) == a.arg(1), True))
            elif zero(b) and ka == z3.Z3_OP_EXTRACT:
                pass
            else:
                out.append(a == b)
    return out


def solve_unit(logn, withG):
    def run():
        n = 1 << logn
        lim = 127
        E = Engine([csrc.module('keygen.c')], timeout=20000)
        E.merge_ret = False
        Rg = Ring(E, 'nf', 0, P, 31)
        V = csrc.module('keygen.c')
        _, gm = gm_of(logn)
        p0i = -pow(P, -1, 1 << 31) % (1 << 31)
        nm = 'solve_NTRU(logn=%d%s): ' % (logn, '' if withG else ', no G')
        st = State()
        fo, fv = small_obj(E, st, 'f', n, 8, -127, 127)
        go, gv = small_obj(E, st, 'g', n, 8, -127, 127)
        Fo = E.new_obj(st, 'F', n)
        Go = E.new_obj(st, 'G', n)
        tmp = E.new_obj(st, 'tmp', 28 * n if logn > 2 else 448)
        cnt = itertools.count()
        small = {}

        def havoc(s):
            o = s.wobj(tmp.id)
            o.cells = {}
            c = next(cnt)
            for i in range(2 * n):
                o.cells[4 * i] = (4, bv.var('t%d_%d' % (c, i), 32))

        def arbitrary(E, s, a, fr):
            havoc(s)
            return bv.fresh('ok', 32)

        def is_tmp(a):
            return isinstance(a, Ptr) and a.obj == tmp.id and not a.t and a.k == 0

        def to_small(E, s, a, fr):
            d, src, l, ln = a
            E.prove(nm + 'result limit', s, bv.icmp('eq', l, lim, 32))
            E.prove(nm + 'result degree', s, ln == logn)
            for i in range(n):
                E.load(s, src.plus_const(4 * i), 4, 'poly_big_to_small')
            c = next(cnt)
            ok = z3.BitVec('fits%d' % c, 1)
            vs = []
            for i in range(n):
                v = z3.BitVec('c%d_%d' % (c, i), 8)
                E.facts[v.decl().get_id()] = z3.Implies(ok == 1, z3.And(v >= -lim, v <= lim))
                vs.append(bv.mk(8, v))
                E.store(s, d.plus_const(i), 1, vs[-1], 'poly_big_to_small')
            small[c] = vs
            s.ghost['small'] = s.ghost.get('small', ()) + ((c, d, ok),)
            return bv.zext(bv.mk(1, ok), 1, 32)

        def mset(E, s, a, fr):
            x, p = a
            E.prove(nm + 'modulus', s, p == P)
            if isinstance(x, int):
                return x % P if x < 1 << 31 else (x - (1 << 32)) % P
            k = None
            vs = _vars(x.e)
            if len(vs) == 1 and z3.simplify(x.e).eq(z3.simplify(z3.SignExt(24, vs[0]))):
                E.prove(nm + 'operand between -p and p', s, True)
                return Rg.word('modp_set', Rg.symbol(('elt', str(vs[0]))), 32)
            raise Unsupported('modp_set of a word that is not a coefficient')

        def ntt(E, s, a, fr):
            p, stride, g, ln, q, qi = a
            E.prove(nm + 'transform of the degree, modulo p, with the table of p', s, stride == 1 and ln == logn and q == P and qi == p0i and
                    all(E.load(s, g.plus_const(4 * i), 4, 'modp_NTT2') == gm[i] for i in range(n)))
            tags = [Rg.tag(s, E.load(s, p.plus_const(4 * i), 4, 'modp_NTT2'), 32, 'modp_NTT2') for i in range(n)]
            vid = Rg.vec(tags)
            for i in range(n):
                E.store(s, p.plus_const(4 * i), 4, Rg.word('ntt', Rg.symbol(('ntt', vid, i)), 32), 'modp_NTT2')
        E.contracts = dict(modp_contracts(Rg), solve_NTRU_deepest=arbitrary, solve_NTRU_intermediate=arbitrary, solve_NTRU_binary_depth1=arbitrary,
                           solve_NTRU_binary_depth0=arbitrary, poly_big_to_small=to_small, modp_set=mset, modp_NTT2_ext=ntt)
        nsucc = 0
        for s, r in E.call('solve_NTRU', [Ptr(Fo.id), Ptr(Go.id) if withG else NULL, Ptr(fo.id), Ptr(go.id), lim, Ptr(tmp.id)] if False else
                           [logn, Ptr(Fo.id), Ptr(Go.id) if withG else NULL, Ptr(fo.id), Ptr(go.id), lim, Ptr(tmp.id)], st, V):
            if isinstance(r, int) and r == 0:
                continue
            if not isinstance(r, int):
                s.assume(bv.icmp('ne', r, 0, 32))
                for c in unpacked(s.pc[-1]):
                    s.assume(c)
            nsucc += 1
            sm = s.ghost.get('small', ())
            Fs = [(c, ok) for c, d, ok in sm if d.obj == Fo.id]
            Gs = [(c, ok) for c, d, ok in sm if d.obj != Fo.id]
            if not E.prove(nm + 'F and G are converted', s, len(Fs) == 1 and len(Gs) == 1):
                continue
            E.prove(nm + 'success only if both fit the limit', s, z3.And(Fs[0][1] == 1, Gs[0][1] == 1))
            same = all(E._cells_load(s.mem[Fo.id], i, 1) is small[Fs[0][0]][i] for i in range(n))
            if withG:
                same = same and all(E._cells_load(s.mem[Go.id], i, 1) is small[Gs[0][0]][i] for i in range(n))
            E.prove(nm + 'the F and G that were tested are returned', s, same)

            def hat(vs):
                vid = Rg.vec([Rg.symbol(('elt', str(v.e))) for v in vs])
                return [Rg.symbol(('ntt', vid, i)) for i in range(n)]
            f, g, F, G = hat(fv), hat(gv), hat(small[Fs[0][0]]), hat(small[Gs[0][0]])
            rev = {}
            for w, t in Rg.tags.items():
                if isinstance(t, dict):
                    rev.setdefault(Rg.key(t), []).append(bv._REG[w])
            qv = Q * RI % P
            bym = {}
            for w, t in Rg.tags.items():
                if isinstance(t, dict) and len(t) <= 4:
                    for m in t:
                        if len(m) == 2:
                            bym.setdefault(m, []).append((bv._REG[w], t))

            def goals(i):
                """equalities of machine words that mean f G - g F = q at the root"""
                want = Rg.add(Rg.mul(f[i], G[i], RI), Rg.mul(g[i], F[i], RI), -1)
                for k in (1, -1, 1 << 31, -(1 << 31)):
                    for w in rev.get(Rg.key(Rg.scale(want, k)), []):
                        yield z3.ZeroExt(33, w) == qv * k % P
                zero = Rg.add(want, Rg.const(qv), -1)
                for m in zero:
                    for w, t in bym.get(m, []):
                        for k in (1, -1, 1 << 31, -(1 << 31)):
                            for w2 in rev.get(Rg.key(Rg.add(t, Rg.scale(zero, k), -1)), []):
                                yield w == w2
            for i in range(n):
                gs = list(goals(i))
                best = gs[0] if len(gs) == 1 else next((x for x in gs if E.holds(s, x)), gs[0] if gs else None)
                if not E.prove(nm + 'success only if f G - g F = q at root %d' % i, s, best if best is not None else False, note=None if gs else 'the code compares a different residue'):
                    break
        E.prove(nm + 'can succeed', State(), nsucc >= 1)
        E.prove('lemma: equality at all roots modulo p is equality of f G - g F and q (coefficients below p in absolute value)', State(), 2 * n * 127 * 127 + Q < P)
        return UnitResult().from_engine(E)
    return run


# ------------------------------------------------------------------ keygen
BMAX = 4670353323383631276
FADD = z3.Function('contract_fpr_add', BV64, BV64, BV64)
FSQR = z3.Function('contract_fpr_sqr', BV64, BV64)
FMULF = z3.Function('contract_fpr_mul', BV64, BV64, BV64)
FLT = z3.Function('contract_fpr_lt', BV64, BV64, z3.BitVecSort(1))


def keygen_unit(logn, withh, withG):
    """the last iteration accepted the f and g that are returned: every test was made on them, with the result required"""
    def run():
        n = 1 << logn
        E = Engine([csrc.module('keygen.c'), csrc.module('codec.c')], timeout=20000)
        E.merge_ret = False
        V = csrc.module('keygen.c')
        nm = 'keygen(logn=%d%s%s): ' % (logn, '' if withh else ', no h', '' if withG else ', no G')
        st = State()
        rng = E.new_obj(st, 'rng', 208)
        small = {}
        for k in 'fgFG':
            small[k] = E.new_obj(st, k, n)
            E.make_arr(small[k], 1, z3.Array(k + '0', BV64, B8))
        ho = E.new_obj(st, 'h', 2 * n)
        E.make_arr(ho, 2, z3.Array('h0', BV64, z3.BitVecSort(16)))
        tmp = E.new_obj(st, 'tmp', 28 * n if logn > 3 else {1: 136, 2: 272, 3: 224}[logn])
        E.make_arr(tmp, 1, z3.Array('tmp0', BV64, B8))
        J = z3.BitVec('any_index', 64)
        ids = {small[k].id: k for k in small}

        def which(p):
            return ids.get(p.obj) if isinstance(p, Ptr) and not p.t and p.k == 0 else None

        def arr(s, k):
            return s.mem[small[k].id].arr

        def fresh_arr(s, oid):
            o = s.wobj(oid)
            o.arr = z3.FreshConst(o.arr.sort(), o.name)
            return o.arr

        def need(s, what, ok):
            if not ok:
                E.prove(nm + what, s, False)
            else:
                E.trivial += 1

        # drawing
        def mkgauss(E, s, a, fr):
            k = which(a[1])
            E.prove(nm + 'draws from the given context at the given degree', s, isinstance(a[0], Ptr) and a[0].obj == rng.id and a[2] == logn and k in ('f', 'g'))
            A = fresh_arr(s, a[1].obj)
            s.assume(z3.Implies(z3.ULT(J, n), z3.Select(A, J) != K(0x80, 8)))
            s.ghost['drawn_' + str(k)] = ('arr', A)

        def sqnorm(E, s, a, fr):
            k = which(a[0])
            need(s, 'norm of f or g at the degree', k is not None and a[1] == logn)
            v = z3.FreshConst(z3.BitVecSort(32), 'norm')
            s.assume(z3.ULT(v, 1 << 25))
            d = s.ghost.get('drawn_' + str(k))
            if isinstance(d, tuple) and d[1].eq(arr(s, k)):
                s.assume(v & 1 == 1)        # the drawn polynomials have an odd sum, so an odd sum of squares
            s.ghost['norm_' + str(k)] = ('arr', arr(s, k), v)
            return bv.mk(32, v)

        # the orthogonalised vector: values by what they are, per place in the buffer
        def place(p):
            if not isinstance(p, Ptr) or p.obj != tmp.id or p.t or p.k % 8:
                raise Unsupported('polynomial outside the buffer')
            if p.k + 8 * n > tmp.size:
                E.prove(nm + 'polynomial inside the buffer', st, False)
            return p.k

        def get(s, p):
            g = s.ghost.get('poly')
            k = place(p)
            if not isinstance(g, tuple) or not g or g[0] is None or not g[0].eq(s.mem[tmp.id].arr):
                return None
            for kk, v in g[1]:
                if kk == k:
                    return v
            return None

        def put(s, p, v):
            k = place(p)
            g = s.ghost.get('poly')
            old = ()
            if isinstance(g, tuple) and g and g[0] is not None and g[0].eq(s.mem[tmp.id].arr):
                old = tuple((kk, x) for kk, x in g[1] if abs(kk - k) >= 8 * n)
            A = fresh_arr(s, tmp.id)
            s.ghost['poly'] = (A, old + ((k, v),))

        def unary(f):
            def c(E, s, a, fr):
                v = get(s, a[0])
                need(s, 'polynomial operation at the degree', a[-1] == logn)
                put(s, a[0], f(v) if v is not None else None)
            return c

        def to_fp(E, s, a, fr):
            k = which(a[1])
            need(s, 'conversion of f or g at the degree', k is not None and a[2] == logn)
            put(s, a[0], ('time', (k, str(arr(s, k))), frozenset()) if k else None)

        # conjugation in the FFT domain keeps every norm: it is left out of the values
        def mulconst(E, s, a, fr):
            v = get(s, a[0])
            need(s, 'polynomial operation at the degree', a[2] == logn)
            put(s, a[0], (v[0], v[1], v[2] | {('times', a[1])}) if v is not None and isinstance(a[1], int) else None)

        def invnorm(E, s, a, fr):
            x, y = get(s, a[1]), get(s, a[2])
            put(s, a[0], ('invnorm', frozenset([x, y])) if x and y else None)

        def mulaa(E, s, a, fr):
            x, y = get(s, a[0]), get(s, a[1])
            put(s, a[0], (x[0], x[1], x[2] | {y}) if x and y and x[0] == 'fft' and y[0] == 'invnorm' else None)
        E.contracts = {'poly_small_mkgauss': mkgauss, 'poly_small_sqnorm': sqnorm, 'poly_small_to_fp': to_fp,
                       PFX + 'FFT': unary(lambda v: ('fft',) + v[1:] if v[0] == 'time' else None), PFX + 'iFFT': unary(lambda v: ('time',) + v[1:] if v[0] == 'fft' else None),
                       PFX + 'poly_adj_fft': unary(lambda v: v if v[0] == 'fft' else None), PFX + 'poly_mulconst': mulconst, PFX + 'poly_invnorm2_fft': invnorm, PFX + 'poly_mul_autoadj_fft': mulaa}

        def f2(F):
            return lambda E, s, a, fr: bv.mk(64, F(*[bv.z(x, 64) for x in a]))
        E.contracts.update({PFX + 'fpr_add': f2(FADD), 'fpr_sqr': f2(FSQR), PFX + 'fpr_mul': f2(FMULF)})
        # a product of a number with itself is its square
        E.contracts[PFX + 'fpr_mul'] = lambda E, s, a, fr: bv.mk(64, FSQR(bv.z(a[0], 64)) if bv.z(a[0], 64).eq(bv.z(a[1], 64)) else FMULF(bv.z(a[0], 64), bv.z(a[1], 64)))

        def lt(E, s, a, fr):
            s.ghost['lt'] = s.ghost.get('lt', ()) + ((bv.z(a[0], 64), a[1]),)
            return bv.zext(bv.mk(1, FLT(bv.z(a[0], 64), bv.z(a[1], 64))), 1, 32)
        E.contracts['fpr_lt'] = lt

        def public(E, s, a, fr):
            h, f, g, l, t = a
            need(s, 'public key of f and g at the degree', which(f) == 'f' and which(g) == 'g' and l == logn)
            ok = bv.fresh('public', 1)
            if withh:
                need(s, 'public key in h', isinstance(h, Ptr) and h.obj == ho.id and not h.t and h.k == 0)
                H = fresh_arr(s, ho.id)
            else:
                H = None
                need(s, 'public key in the buffer', isinstance(h, Ptr) and h.obj == tmp.id and not h.t and h.k + 2 * n <= tmp.size)
            need(s, 'scratch space in the buffer', isinstance(t, Ptr) and t.obj == tmp.id and not t.t and t.k + 2 * n <= tmp.size and (withh or abs(t.k - h.k) >= 2 * n))
            fresh_arr(s, tmp.id)
            s.ghost['public'] = ('arr', arr(s, 'f'), arr(s, 'g'), H, ok)
            return bv.zext(ok, 1, 32)

        def solve(E, s, a, fr):
            l, F, G, f, g, lim, t = a
            need(s, 'solver on f and g at the degree', l == logn and which(f) == 'f' and which(g) == 'g' and which(F) == 'F' and (which(G) == 'G' if withG else isinstance(G, Ptr) and G.obj == NULL.obj))
            E.prove(nm + 'limit of F and G', s, bv.icmp('eq', lim, 127, 32))
            need(s, 'solver in the buffer', isinstance(t, Ptr) and t.obj == tmp.id and not t.t and t.k == 0)
            ok = bv.fresh('solved', 1)
            X, Y = fresh_arr(s, small['F'].id), fresh_arr(s, small['G'].id) if withG else arr(s, 'G')
            fresh_arr(s, tmp.id)
            s.ghost['solved'] = ('arr', arr(s, 'f'), arr(s, 'g'), X, Y, ok)
            return bv.zext(ok, 1, 32)
        E.contracts.update({PFX + 'compute_public': public, 'solve_NTRU': solve})
        B = 1 << (FG_BITS[logn] - 1)

        class Attempt(LoopSpec):
            name = 'attempts'

        class Range(Auto):
            def ghosts(self, E, L):
                L.st.ghost['rk'] = bv.mk(64, bv.z(L.head.ghost['rk'], 64) + 1)
            ghost = ('rk',)

            def begin(self, E, L):
                for s in (L.st, L.entry):
                    s.ghost['rk'] = 0

            def candidates(self, E, L):
                k = bv.z(L.st.ghost['rk'], 64)
                f, g = [z3.SignExt(8, select(arr(L.st, k_), J)) for k_ in 'fg']
                c = [('at most n', z3.ULE(k, n)), ('f in range so far', z3.Implies(z3.ULT(J, k), z3.And(f < B, f > -B))), ('g in range so far', z3.Implies(z3.ULT(J, k), z3.And(g < B, g > -B)))]
                c += [(y + ' in range from the end', z3.Implies(z3.And(z3.ULE(n - k, J), z3.ULT(J, n)), z3.And(v < B, v > -B))) for y, v in (('f', f), ('g', g))]
                for x, zx, sx, w in scalars(L):
                    c += [('%s counts up' % x, zx == k), ('%s counts down' % x, zx == n - k), ('%s is the limit' % x, zx == B), ('%s is positive' % x, sx > 0)]
                return c

        class Norm(Auto):
            ghost = ('acc', 'nk')

            def begin(self, E, L):
                for s in (L.st, L.entry):
                    s.ghost['acc'], s.ghost['nk'] = bv.mk(64, K(0, 64)), 0
                g = L.st.ghost.get('poly')
                ok = isinstance(g, tuple) and g and g[0] is not None and g[0].eq(L.st.mem[tmp.id].arr)
                fid, gid = ('f', str(arr(L.st, 'f'))), ('g', str(arr(L.st, 'g')))
                inv = ('invnorm', frozenset([('fft', fid, frozenset()), ('fft', gid, frozenset())]))
                ops = frozenset([('times', 4667981563525332992), inv])
                self.at = [next((k for k, v in g[1] if v == ('time', x, ops)), None) if ok else None for x in (fid, gid)]
                E.prove(nm + 'the summed vectors are q f and q g over f adj(f) + g adj(g), up to conjugation', L.st, None not in self.at)
                for s in (L.st, L.entry):
                    s.ghost['orth'] = ('arr', arr(L.st, 'f'), arr(L.st, 'g'))

            def candidates(self, E, L):
                k, T = bv.z(L.st.ghost['nk'], 64), bv.z(L.st.ghost['acc'], 64)
                c = [('at most n', z3.ULE(k, n))]
                for x, zx, sx, w in scalars(L):
                    c += [('%s counts up' % x, zx == k)]
                    if w == 64:
                        c += [('%s is the sum' % x, zx == T)]
                return c

            def elt(self, L, p):
                A = L.head.mem[tmp.id].arr
                i = bv.z(L.head.ghost['nk'], 64) * 8 + p
                return z3.Concat(*[z3.Select(A, i + j) for j in range(7, -1, -1)])

            def ghosts(self, E, L):
                if None in self.at:
                    return
                x, y = [FSQR(self.elt(L, p)) for p in self.at]
                T = bv.z(L.head.ghost['acc'], 64)
                L.st.ghost['acc'] = bv.mk(64, FADD(FADD(T, x), y))
                L.st.ghost['nk'] = bv.mk(64, bv.z(L.head.ghost['nk'], 64) + 1)
        E.loop_specs = [Attempt(PFX + 'keygen', 0), Range(PFX + 'keygen', 1, 'range'), Norm(PFX + 'keygen', 2, 'orthogonalised norm')]
        nret = 0
        for s, r in E.call(PFX + 'keygen', [Ptr(rng.id), Ptr(small['f'].id), Ptr(small['g'].id), Ptr(small['F'].id), Ptr(small['G'].id) if withG else NULL,
                                            Ptr(ho.id) if withh else NULL, logn, Ptr(tmp.id)], st, V):
            nret += 1
            g = s.ghost
            f_, g_ = arr(s, 'f'), arr(s, 'g')

            def rec(key, *want):
                x = g.get(key)
                return isinstance(x, tuple) and len(x) > len(want) and all(a.eq(b) for a, b in zip(x[1:], want))
            E.prove(nm + 'f and g are the drawn polynomials', s, rec('drawn_f', f_) and rec('drawn_g', g_))
            f, gg = z3.SignExt(8, z3.Select(f_, J)), z3.SignExt(8, z3.Select(g_, J))
            E.prove(nm + 'coefficients of f and g within the width of the key format', s, z3.Implies(z3.ULT(J, n), z3.And(f < B, f > -B, gg < B, gg > -B)))
            if E.prove(nm + 'the norms of f and g were computed', s, rec('norm_f', f_) and rec('norm_g', g_)):
                E.prove(nm + 'squared norm of (f, g) below 16823', s, z3.ULT(g['norm_f'][2] + g['norm_g'][2], 16823))
            E.prove(nm + 'the orthogonalised norm was computed', s, rec('orth', f_, g_))
            T = bv.z(g['acc'], 64) if 'acc' in g else None
            E.prove(nm + 'it sums all coefficients and is below its bound', s, z3.And(bv.z(g['nk'], 64) == n, FLT(T, K(BMAX, 64)) == 1) if T is not None else False)
            if E.prove(nm + 'the public key was computed', s, rec('public', f_, g_)):
                E.prove(nm + 'the public key is returned', s, not withh or s.mem[ho.id].arr.eq(g['public'][3]))
                E.prove(nm + 'f is invertible', s, bv.icmp('eq', g['public'][4], 1, 1))
            if E.prove(nm + 'the equation was solved', s, rec('solved', f_, g_, arr(s, 'F'), arr(s, 'G'))):
                E.prove(nm + 'F and G solve the equation', s, bv.icmp('eq', g['solved'][5], 1, 1))
        E.prove(nm + 'can return', State(), nret >= 1)
        return UnitResult().from_engine(E)
    return run


def units():
    u = [('mkgauss', mkgauss_unit), ('poly_small_mkgauss', poly_mkgauss_unit), ('poly_small_sqnorm', either(sqnorm_unit)), ('modp', modp_unit),
         ('poly_big_to_small', to_small_unit)]
    u += [('modp_NTT2 %d' % l, ntt_unit(l)) for l in range(10, 0, -1)]
    u += [('solve_NTRU %d%s' % (l, '' if g else ' no G'), solve_unit(l, g)) for l in range(10, 0, -1) for g in (True, False)]
    u += [('keygen %d%s%s' % (l, '' if h else ' no h', '' if G else ' no G'), keygen_unit(l, h, G)) for l in range(10, 0, -1) for h, G in ((True, True), (True, False), (False, True))]
    return u
