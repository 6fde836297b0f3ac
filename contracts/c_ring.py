"""Contracts of the arithmetic modulo q and of the number-theoretic transform (vrfy.c), and of the functions built on them.

Every function of the modular layer has a contract over F_q values: its operands must be machine words below q, its
result is a machine word below q whose residue is the stated expression.  The transforms are specified by their
matrices.  Callers are executed against these contracts; residues are tracked as polynomials over F_q in the symbols
introduced by the inputs and by the transform contracts (normal forms, so the comparison is exact).
"""
import itertools
import numpy as np
import z3
import bv
import csrc
from symex import term_vars, Engine, State, Ptr, NULL, LoopSpec, Unsupported
from auto import Auto
from runner import UnitResult

Q = 12289
RI = pow(65536, -1, Q)
PFX = 'falcon_inner_'
BOUNDS = [0, 101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242]


class Ring:
    """residues of machine words.  mode 'nf': polynomials (dict monomial -> coefficient); mode 'lin': vectors"""

    def __init__(self, E, mode='nf', dim=0, q=Q, width=14):
        self.E, self.mode, self.dim, self.q, self.width = E, mode, dim, q, width
        self.sym = {}          # symbol key -> id
        self.syms = []         # id -> (key, payload)
        self.tags = {}         # registry key of the machine word -> residue
        self.cnt = itertools.count()
        self.vecs = {}
        E.facts = {}           # declaration id -> z3 fact (word below q)

    # residues -------------------------------------------------------------
    def const(self, c):
        if self.mode == 'lin':
            raise Unsupported('constant in the linear algebra of a transform')
        return {(): c % self.q} if c % self.q else {}

    def symbol(self, key, payload=None):
        i = self.sym.get(key)
        if i is None:
            i = self.sym[key] = len(self.syms)
            self.syms.append((key, payload))
        return {(i,): 1}

    def add(self, a, b, sb=1):
        if self.mode == 'lin':
            return (a + sb * b) % self.q
        r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) + sb * c) % self.q
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, a, b, k=1):
        if self.mode == 'lin':
            if isinstance(a, int):
                return (a * k % self.q) * b % self.q
            if isinstance(b, int):
                return (b * k % self.q) * a % self.q
            raise Unsupported('product of two inputs in a transform')
        r = {}
        if len(a) * len(b) > 4096:
            raise Unsupported('residue expression too large')
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2))
                v = (r.get(m, 0) + c1 * c2 * k) % self.q
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def scale(self, a, k):
        if self.mode == 'lin':
            return (a * k) % self.q
        return {m: c * k % self.q for m, c in a.items() if c * k % self.q}

    @staticmethod
    def key(a):
        return tuple(sorted(a.items()))

    # machine words ---------------------------------------------------------
    def word(self, name, tag, w=32):
        """fresh machine word below q with residue tag"""
        e = z3.BitVec('%s#%d' % (name, next(self.cnt)), self.width)
        self.E.facts[e.decl().get_id()] = z3.ULT(e, self.q)
        self.tags[bv._key(e)] = tag
        return bv.zext(bv.mk(self.width, e), self.width, w)

    def tag(self, st, v, w, what):
        """residue of a machine word that must be below q (obligation)"""
        if isinstance(v, int):
            if v >= self.q:
                self.E.prove('%s: operand below q' % what, st, False)
            else:
                self.E.trivial += 1
            return v if self.mode == 'lin' else self.const(v)
        bits = v.bits
        k = bits[0] >> 10 if bits[0] > 1 else None
        if k in self.tags:
            t = bv._REG[k]
            n = t.size()
            if list(bits[:n]) == [(k << 10) | (i << 2) | 2 for i in range(n)] and not any(bits[n:]):
                self.E.trivial += 1
                return self.tags[k]
        self.E.prove('%s: operand below q' % what, st, bv.icmp('ult', v, self.q, w))
        if self.mode == 'lin':
            raise Unsupported('word without a residue in a transform')
        z = z3.simplify(v.e)
        return self.symbol(('val', z.get_id()), (z, w))

    def vec(self, tags):
        k = tuple(self.key(t) for t in tags)
        i = self.vecs.get(k)
        if i is None:
            i = self.vecs[k] = len(self.vecs)
        return i


# ------------------------------------------------------------------ contracts of the modular functions
def mq_contracts(Rg):
    def two(name, f):
        def c(E, st, a, fr):
            x = Rg.tag(st, a[0], 32, name)
            y = Rg.tag(st, a[1], 32, name)
            return Rg.word(name, f(x, y))
        return c

    def lmul(x, y):
        if Rg.mode == 'lin':
            if isinstance(x, int) and isinstance(y, int):
                return x * y * RI % Q
            return Rg.mul(x, y, RI)
        return Rg.mul(x, y, RI)

    def montymul(E, st, a, fr):
        x, y = Rg.tag(st, a[0], 32, 'mq_montymul'), Rg.tag(st, a[1], 32, 'mq_montymul')
        if isinstance(a[0], int) and isinstance(a[1], int):
            return a[0] * a[1] * RI % Q
        return Rg.word('mq_montymul', lmul(x, y))

    def rshift1(E, st, a, fr):
        if isinstance(a[0], int):
            if a[0] >= Q:
                E.prove('mq_rshift1: operand below q', st, False)
            return a[0] * pow(2, -1, Q) % Q
        return Rg.word('mq_rshift1', Rg.scale(Rg.tag(st, a[0], 32, 'mq_rshift1'), pow(2, -1, Q)))

    def div(E, st, a, fr):
        x, y = Rg.tag(st, a[0], 32, 'mq_div'), Rg.tag(st, a[1], 32, 'mq_div')
        inv = Rg.symbol(('inv', Rg.key(y)), y)
        return Rg.word('mq_div', Rg.mul(x, inv))
    return {'mq_add': two('mq_add', lambda x, y: Rg.add(x, y)), 'mq_sub': two('mq_sub', lambda x, y: Rg.add(x, y, -1)),
            'mq_montymul': montymul, 'mq_rshift1': rshift1, 'mq_div_12289': div}


def transform_contract(Rg, kind):
    def c(E, st, a, fr):
        p, logn = a
        if not isinstance(logn, int):
            raise Unsupported('transform of symbolic degree')
        n = 1 << logn
        tags = []
        for i in range(n):
            q = p.plus_const(2 * i)
            tags.append(Rg.tag(st, E.load(st, q, 2, kind), 16, kind))
        vid = Rg.vec(tags)
        for i in range(n):
            t = Rg.symbol((kind, vid, logn, i), tags)
            E.store(st, p.plus_const(2 * i), 2, Rg.word(kind, t, 16), kind)
        return None
    return c


def ring_engine(mods=('vrfy.c',), logn_contracts=True, contracts=None, defines=()):
    E = Engine([csrc.module(f, defines) for f in mods])
    E.merge_ret = False
    Rg = Ring(E)
    E.contracts.update(mq_contracts(Rg))
    E.contracts['mq_NTT'] = transform_contract(Rg, 'ntt')
    E.contracts['mq_iNTT'] = transform_contract(Rg, 'intt')
    E.contracts.update(contracts or {})
    return E, Rg


# ------------------------------------------------------------------ units: modular functions against the machine code
def base_unit():
    E = Engine([csrc.module('vrfy.c')])
    E.merge_ret = False
    V = csrc.module('vrfy.c')

    def run(fn, args, st):
        res = E.call(fn, args, st, V)
        return res

    def lt(*xs):
        return z3.And(*[z3.ULT(x, Q) for x in xs])
    x, y = z3.BitVec('x', 32), z3.BitVec('y', 32)
    X, Y = bv.mk(32, x), bv.mk(32, y)
    for fn, args, goal in (
            ('mq_add', [X, Y], lambda r: z3.And(z3.ULT(r, Q), z3.Or(r == x + y, r == x + y - Q))),
            ('mq_sub', [X, Y], lambda r: z3.And(z3.ULT(r, Q), z3.Or(r == x - y, r == x - y + Q))),
            ('mq_rshift1', [X], lambda r: z3.And(z3.ULT(r, Q), z3.Or(2 * r == x, 2 * r == x + Q)))):
        st = State()
        st.assume(z3.ULT(x, Q))
        st.assume(z3.ULT(y, Q))
        for s, r in run(fn, args, st):
            E.prove('%s: result below q with the stated residue' % fn, s, goal(bv.z(r, 32)))
    st = State()
    st.assume(z3.And(x >= -6144, x <= 6144))
    for s, r in run('mq_conv_small', [X], st):
        r = bv.z(r, 32)
        E.prove('mq_conv_small: result below q with the residue of x', s, z3.And(z3.ULT(r, Q), z3.Or(r == x, r == x + Q)))
    # Montgomery product: x*y < q^2 enters the machine code through the product only
    a, b = z3.Ints('a b')
    s0 = State()
    E.prove('lemma: product of two residues is at most (q-1)^2', s0,
            z3.Implies(z3.And(a >= 0, a < Q, b >= 0, b < Q), z3.And(a * b >= 0, a * b <= (Q - 1) * (Q - 1))))
    st = State()
    st.assume(z3.ULT(x, Q))
    st.assume(z3.ULT(y, Q))
    Z = z3.BitVec('Z', 32)
    pre = tuple(st.pc)
    for s, r in run('mq_montymul', [X, Y], st):
        def product(e):
            return z3.substitute(e, (x * y, Z), (y * x, Z))
        re = product(bv.z(r, 32))
        path = [product(c) for c in s.pc[len(pre):] if not isinstance(c, bool)]
        s2 = State()
        s2.assume(z3.ULE(Z, (Q - 1) * (Q - 1)))
        for c in path:
            s2.assume(c)
        m = (Z * pow(-Q, -1, 65536)) & 0xFFFF       # the k with Z + k q divisible by 2^16
        r64 = z3.ZeroExt(32, re)
        T = z3.ZeroExt(32, Z) + z3.ZeroExt(32, m) * Q
        if any(str(v) in ('x', 'y') for e in [re] + path for v in _consts(e)):
            s2.pc = s2.pc + pre + (Z == x * y,)
        E.prove('mq_montymul: result below q, 2^16 times it congruent to the product', s2,
                z3.And(z3.ULT(re, Q), z3.Or(r64 << 16 == T, (r64 + Q) << 16 == T)))
    return UnitResult().from_engine(E)


def _consts(e):
    seen, st, out = set(), [e], []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


def div_unit():
    """x * y^(q-2): by Fermat the quotient, and 0 when y = 0"""
    E = Engine([csrc.module('vrfy.c')])
    E.merge_ret = False

    class Mono:            # coefficient * x^a * y^b
        def __init__(self, c, a, b):
            self.c, self.a, self.b = c % Q, a, b
    tags = {}
    cnt = itertools.count()

    def tag(st, v):
        if isinstance(v, int):
            if v >= Q:
                E.prove('mq_div_12289: operand below q', st, False)
            return Mono(v, 0, 0)
        k = v.bits[0] >> 10
        t = tags.get(k)
        if t is None:
            raise Unsupported('mq_div_12289: unexpected value')
        E.trivial += 1
        return t

    def montymul(E, st, a, fr):
        p, q = tag(st, a[0]), tag(st, a[1])
        return word(Mono(p.c * q.c * RI, p.a + q.a, p.b + q.b))

    def word(t):
        e = z3.BitVec('m%d' % next(cnt), 14)
        tags[bv._key(e)] = t
        return bv.zext(bv.mk(14, e), 14, 32)
    E.contracts = {'mq_montymul': montymul}
    st = State()
    X, Y = word(Mono(1, 1, 0)), word(Mono(1, 0, 1))
    R = UnitResult()
    for s, r in E.call('mq_div_12289', [X, Y], st, csrc.module('vrfy.c')):
        t = tag(s, r)
        ok = t.c == 1 and t.a == 1 and t.b > 0 and t.b % (Q - 1) == Q - 2
        E.prove('mq_div_12289: result is x * y^(q-2) (0 when y is 0)', s, ok)
    E.prove('lemma: q is prime (Fermat applies)', State(), all(Q % d for d in range(2, 111)))
    return R.from_engine(E)


def lin_engine(n):
    E = Engine([csrc.module('vrfy.c')])
    E.merge_ret = False
    Rg = Ring(E, 'lin', n)
    E.contracts.update(mq_contracts(Rg))
    return E, Rg


def run_transform(fn, logn):
    n = 1 << logn
    E, Rg = lin_engine(n)
    st = State()
    o = E.new_obj(st, 'a', 2 * n)
    for i in range(n):
        v = np.zeros(n, dtype=np.int64)
        v[i] = 1
        o.cells[2 * i] = (2, Rg.word('a', v, 16))
    res = E.call(fn, [Ptr(o.id), logn], st, csrc.module('vrfy.c'))
    if len(res) != 1:
        raise Unsupported('%s: several exits' % fn)
    s, _ = res[0]
    M = []
    for i in range(n):
        t = Rg.tag(s, E._cells_load(s.mem[o.id], 2 * i, 2), 16, fn + ': output')
        M.append(t)
    return E, np.array(M)


def transform_unit(logn):
    def run():
        n = 1 << logn
        E, N = run_transform('mq_NTT', logn)
        st = State()
        nm = 'mq_NTT(logn=%d): ' % logn
        roots = [int(N[u][1]) for u in range(n)]
        E.prove(nm + 'output u evaluates the polynomial at a root of X^n + 1', st,
                all(pow(r, n, Q) == Q - 1 for r in roots))
        E.prove(nm + 'the n roots are distinct', st, len(set(roots)) == n)
        W = np.ones((n, n), dtype=np.int64)
        for i in range(1, n):
            W[:, i] = W[:, i - 1] * np.array(roots) % Q
        E.prove(nm + 'matrix entries are the powers of the roots', st, bool((N % Q == W).all()))
        E2, I = run_transform('mq_iNTT', logn)
        P = np.array([[0]])
        P = (I.astype(np.float64) @ N.astype(np.float64))     # entries below 2^27.2 * 1024 < 2^53: exact
        P = np.rint(P).astype(np.int64) % Q
        E2.prove('mq_iNTT(logn=%d): inverse of mq_NTT' % logn, st, bool((P == np.eye(n, dtype=np.int64)).all()))
        return UnitResult().from_engine(E).from_engine(E2)
    return run


# ------------------------------------------------------------------ norm
class NormLoop(Auto):
    """a loop of the sum of squares, over one vector or both, upwards or downwards, whatever its variables are called: an
    accumulator carries the exact sum as long as it is below 2^31, and a flag tells whether it is (or the accumulator has 64 bits)"""
    VAR = [(way, sub) for sub in (3, 1, 2) for way in ('up', 'down')]
    ghost = ('k',) + tuple('T%s%d' % v for v in VAR)

    def __init__(self, fn, s1, s2, n, bound):
        Auto.__init__(self, PFX + fn, None, 'norm')
        self.arr, self.n, self.bound = {1: s1, 2: s2}, n, bound
        self.vars = [v for v in self.VAR if all(self.arr[b] is not None for b in (1, 2) if v[1] & b)]
        self.keep = None

    def begin(self, E, L):
        self.alive = None
        for s in (L.st, L.entry):
            s.ghost['k'] = 0
            for v in self.VAR:
                s.ghost['T%s%d' % v] = s.ghost['T']

    def terms(self, E, L, v):
        """the sum with the squares of one more element"""
        k = bv.z(L.head.ghost['k'], 64)
        T = bv.z(L.head.ghost['T%s%d' % v], 64)
        for b in (1, 2):
            if v[1] & b:
                T = T + z3.ZeroExt(33, E.square(z3.Select(self.arr[b], self.n - 1 - k if v[0] == 'down' else k)))
        return T

    def candidates(self, E, L):
        k = bv.z(L.st.ghost['k'], 64)
        c = [(('k', 'at most n'), z3.ULE(k, self.n))]
        sc = []
        for x, e, w in L.words():
            if w in (32, 64):
                zx = z3.ZeroExt(64 - w, bv.z(e, w)) if w < 64 else bv.z(e, w)
                sc.append((x, zx, w))
                c += [((x, 'counts up'), zx == k), ((x, 'counts down'), zx == self.n - k)]
            elif w == 0 and e.obj in self.objs:
                i = E._index(e, 2)
                if i is not None:
                    i = bv.z(i, 64)
                    c += [((x, 'moves up'), i == k), ((x, 'moves down'), i == self.n - k), ((x, 'stays'), i == 0)]
        for v in self.vars:
            T = bv.z(L.st.ghost['T%s%d' % v], 64)
            big = z3.UGE(T, 1 << 31)
            c += [(v + ('does not wrap',), z3.ULE(T, (k + 4096 * (1 + bin(L.st.ghost['done']).count('1'))) << 32)), (v + ('is within the bound',), z3.ULE(T, self.bound))]
            for x, zx, w in sc:
                if w == 64:
                    c.append((v + (x, 'is the sum'), zx == T))
                else:
                    top = z3.Extract(31, 31, zx)
                    c += [(v + (x, 'is the sum'), z3.Or(big, zx == T)), (v + (x, 'is clear below 2^31'), z3.Or(big, top == 0)),
                          (v + (x, 'is set from 2^31 on'), z3.Or(z3.Not(big), top == 1))]
        return [('%s' % (' '.join(map(str, key)),), g) for key, g in c if self.keep is None or ' '.join(map(str, key)) in self.keep]

    def ghosts(self, E, L):
        for v in self.vars:
            L.st.ghost['T%s%d' % v] = bv.mk(64, self.terms(E, L, v))
        L.st.ghost['k'] = bv.mk(64, bv.z(L.head.ghost['k'], 64) + 1)

    def infer(self, E, fr, header, entry, mk):
        Auto.infer(self, E, fr, header, entry, mk)
        self.pick = None
        for v in self.vars:
            nm = '%s %d ' % v
            if nm + 'does not wrap' in self.alive and any(a.startswith(nm) and a.endswith('is the sum') for a in self.alive):
                self.pick = v
                break

    def decreases(self, E, L):
        return z3.And(z3.ULT(bv.z(L.head.ghost['k'], 64), self.n), bv.z(L.st.ghost['k'], 64) == bv.z(L.head.ghost['k'], 64) + 1)

    def leave(self, E, L):
        v = self.pick
        if v is None:
            E.prove('norm: an accumulator holds the sum of the squares', L.st, False)
            return
        E.prove('norm: each vector is summed once', L.st, L.st.ghost['done'] & v[1] == 0)
        k = bv.z(L.head.ghost['k'], 64)
        early = z3.ULT(k, self.n)
        L.st.ghost['T'] = bv.mk(64, z3.If(early, self.terms(E, L, v), bv.z(L.head.ghost['T%s%d' % v], 64)))
        L.st.ghost['done'] |= v[1]
        L.st.ghost['early'] = z3.Or(L.st.ghost['early'], early)


def norm_unit(fn):
    def run():
        E = Engine([csrc.module('common.c')], timeout=60000)
        E.merge_ret = False
        E.square = z3.Function('square16', z3.BitVecSort(16), z3.BitVecSort(31))
        E.prove('lemma: the square of a 16-bit integer is below 2^31', State(), all(0 <= v * v < 1 << 31 for v in range(-32768, 32768)))
        BV64 = z3.BitVecSort(64)
        for logn in range(1, 11):
            st = State()
            n = 1 << logn
            A1, A2 = z3.Array('s1', BV64, z3.BitVecSort(16)), z3.Array('s2', BV64, z3.BitVecSort(16))
            o1 = E.new_obj(st, 's1', 2 * n, writable=False)
            o2 = E.new_obj(st, 's2', 2 * n, writable=False)
            E.make_arr(o1, 2, A1)
            E.make_arr(o2, 2, A2)
            if fn == 'is_short':
                sp = NormLoop(fn, A1, A2, n, BOUNDS[logn])
                args = [Ptr(o1.id), Ptr(o2.id), logn]
                base = 0
            else:
                sq = bv.var('sqn', 32)
                base = bv.zext(sq, 32, 64)
                sp = NormLoop(fn, None, A2, n, BOUNDS[logn])
                args = [sq, Ptr(o2.id), logn]
            sp.objs = (o1.id, o2.id)
            E.loop_specs = [sp]
            st.ghost.update(T=base, done=0, early=z3.BoolVal(False), k=0)
            for s, r in E.call(PFX + fn, args, st):
                T, early = bv.z(s.ghost['T'], 64), s.ghost['early']
                nm = '%s(logn=%d): ' % (fn, logn)
                full = s.ghost['done'] == (3 if fn == 'is_short' else 2)
                E.prove(nm + 'every element is summed, but for a return of 0 on a partial sum that is too large', s,
                        z3.Or(z3.And(z3.BoolVal(full), z3.Not(early)), z3.And(bv.z(r, 32) == 0, z3.UGT(T, BOUNDS[logn]))))
                E.prove(nm + 'returns 1 exactly when the sum of squares is at most %d' % BOUNDS[logn], s,
                        bv.z(r, 32) == z3.If(z3.ULE(T, BOUNDS[logn]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        return UnitResult().from_engine(E)
    return run


# ------------------------------------------------------------------ functions over ring elements
def small_obj(E, st, name, n, w, lo, hi, xs=None):
    """object of n signed w-bit elements in [lo, hi] (assumed)"""
    o = E.new_obj(st, name, n * w // 8, writable=False)
    vs = []
    for i in range(n):
        v = z3.BitVec('%s%d' % (name, i), w)
        E.facts[v.decl().get_id()] = z3.And(v >= lo, v <= hi)
        b = bv.mk(w, v)
        o.cells[i * w // 8] = (w // 8, b)
        vs.append(b)
    return o, vs


def res_obj(E, Rg, st, name, n, writable=False, keyf=None):
    """object of n words below q, each its own residue symbol"""
    o = E.new_obj(st, name, 2 * n, writable=writable)
    tags = []
    for i in range(n):
        t = Rg.symbol(('in', name, i), None)
        o.cells[2 * i] = (2, Rg.word(name, t, 16))
        tags.append(t)
    return o, tags


def reduced(E, Rg, st, vs, w, what):
    """residue symbols of signed elements: the word v (v>=0) or v+q must be what the code fed to the transform"""
    out = []
    for v in vs:
        e = bv.z(v, w)
        x = z3.SignExt(16 - w, e) if w < 16 else e
        spec = z3.If(x < 0, x + Q, x)
        out.append(spec)
    return out


def val_symbols(E, Rg, vs, w, st, name):
    """maps every ('val', term) symbol the code created to the element it equals (obligation), returns tags per element"""
    specs = reduced(E, Rg, st, vs, w, name)
    tags = [None] * len(vs)
    index = {str(bv.z(v, w)): i for i, v in enumerate(vs)}
    for i, (key, payload) in enumerate(list(Rg.syms)):
        if key[0] != 'val':
            continue
        term, tw = payload
        cs = _consts(term)
        if len(cs) != 1 or str(cs[0]) not in index:
            continue
        k = index[str(cs[0])]
        want = z3.ZeroExt(tw - 16, specs[k]) if tw > 16 else specs[k]
        E.prove('%s[%d]: word fed to the modular layer is the element reduced modulo q' % (name, k), st, term == want)
        tags[k] = {(i,): 1}
    return tags


def ntt(Rg, tags, logn, kind='ntt'):
    vid = Rg.vec(tags)
    return [Rg.symbol((kind, vid, logn, i)) for i in range(len(tags))]


def centered(x16):
    return z3.If(z3.UGT(x16, (Q - 1) // 2), x16 - Q, x16)


def short_contract(rec):
    def c(E, st, a, fr):
        p1, p2, logn = a
        if not isinstance(logn, int):
            raise Unsupported('norm test of symbolic degree')
        n = 1 << logn
        v1 = [E.load(st, p1.plus_const(2 * i), 2, 'is_short') for i in range(n)]
        v2 = [E.load(st, p2.plus_const(2 * i), 2, 'is_short') for i in range(n)]
        r = bv.var('short#%d' % len(rec), 1)
        rec.append((r, v1, v2, logn))
        return bv.zext(r, 1, 32)
    return c


def same(E, st, name, got, want, w):
    g = got if isinstance(got, int) else z3.simplify(got.e)
    if not isinstance(g, int) and g.eq(z3.simplify(want)):
        E.trivial += 1
        return True
    return E.prove(name, st, bv.z(got, w) == want)


def word_of(E, Rg, tag):
    """a machine word constant standing for 'the word below q with this residue' if the code produced one"""
    k = Rg.key(tag)
    if not hasattr(Rg, '_rev') or Rg._revn != len(Rg.tags):
        Rg._rev = {}
        for w, t in Rg.tags.items():
            Rg._rev.setdefault(Rg.key(t), []).append(bv._REG[w])
        Rg._revn = len(Rg.tags)
    return Rg._rev.get(k, [])


def check_centered(E, Rg, st, name, vals, tags):
    """vals[i] (16-bit) is the representative in -(q-1)/2..(q-1)/2 of residue tags[i], up to a common sign"""
    for sgn in (1, -1):
        ok = True
        for v, t in zip(vals, tags):
            if not word_of(E, Rg, Rg.scale(t, sgn)):
                ok = False
                break
        if ok:
            break
    else:
        E.prove(name + ': vector is c0 - s2 h up to sign', st, False, note='the code computes a different residue')
        return False
    for i, (v, t) in enumerate(zip(vals, tags)):
        ws = word_of(E, Rg, Rg.scale(t, sgn))
        c = None
        for w in ws:
            c = centered(z3.ZeroExt(2, w))
            if str(_consts(v.e if not isinstance(v, int) else c)[0]) == str(w):
                break
        same(E, st, '%s: element %d is the centered representative' % (name, i), v, c, 16)
    E.prove(name + ': vector is c0 - s2 h up to sign', st, True)
    return True


def verify_raw_unit(logn, S2MAX=6144):
    def run():
        n = 1 << logn
        rec = []
        E, Rg = ring_engine()
        E.contracts[PFX + 'is_short'] = short_contract(rec)
        st = State()
        c0, c0t = res_obj(E, Rg, st, 'c0', n)
        h, ht = res_obj(E, Rg, st, 'h', n)
        s2, s2v = small_obj(E, st, 's2_', n, 16, -S2MAX, S2MAX)
        tmp = E.new_obj(st, 'tmp', 2 * n)
        nm = 'verify_raw(logn=%d)' % logn
        for s, r in E.call(PFX + 'verify_raw', [Ptr(c0.id), Ptr(s2.id), Ptr(h.id), logn, Ptr(tmp.id)], st):
            st2 = val_symbols(E, Rg, s2v, 16, s, nm + ': s2')
            if any(t is None for t in st2):
                E.prove(nm + ': every element of s2 is used', s, False)
                continue
            S = ntt(Rg, st2, logn)
            prod = ntt(Rg, [Rg.mul(a, b, RI) for a, b in zip(S, ht)], logn, 'intt')
            want = [Rg.add(c, p, -1) for c, p in zip(c0t, prod)]
            if not E.prove(nm + ': the norm test decides', s, len(rec) == 1 and z3.simplify(bv.z(r, 32)).eq(z3.simplify(bv.z(bv.zext(rec[0][0], 1, 32), 32))) if rec else False):
                continue
            _, v1, v2, l = rec[0]
            E.prove(nm + ': norm test at the degree of the call', s, l == logn)
            check_centered(E, Rg, s, nm, v1, want)
            for i in range(n):
                same(E, s, nm + ': second half of the tested vector is s2 (element %d)' % i, v2[i], bv.z(s2v[i], 16), 16)
        return UnitResult().from_engine(E)
    return run


def out_tags(E, Rg, st, oid, n, name):
    return [Rg.tag(st, E._cells_load(st.mem[oid], 2 * i, 2), 16, name + ': output') for i in range(n)]


def same_tags(E, Rg, st, name, got, want):
    bad = [i for i, (a, b) in enumerate(zip(got, want)) if Rg.key(a) != Rg.key(b)]
    return E.prove('%s: every output residue is the stated ring element' % name, st, not bad, note='first difference at %s' % (bad[:1],))


def nonzero(E, Rg, tags):
    ws = []
    for t in tags:
        w = word_of(E, Rg, t)
        if not w:
            return None
        ws.append(w[0] != 0)
    return bv.fast_and(ws) if len(ws) > 1 else ws[0]


def exit_on(E, st, conds, name, note=None):
    """an exit taken only if one of conds (a list of formulas) is false: tried against the exit's own last condition
    first (fewer hypotheses), then against the whole path"""
    last = [c for c in st.pc[-2:]]
    vs = set()
    for c in last:
        vs |= term_vars(c)
    own = [c for c in conds if vs & term_vars(c)]
    if own:
        s2 = State()
        for c in last:
            s2.assume(c)
        if E.holds(s2, z3.Not(z3.And(*own)) if len(own) > 1 else z3.Not(own[0])):
            E.trivial += 1
            return True
    return E.prove(name, st, z3.Not(bv.fast_and(conds) if len(conds) > 1 else conds[0]), note=note)


def to_ntt_unit(logn):
    def run():
        n = 1 << logn
        R = UnitResult()
        for fn, k in (('to_ntt_monty', 65536 % Q), ('to_ntt', 1)):
            E, Rg = ring_engine()
            st = State()
            h, ht = res_obj(E, Rg, st, 'h', n, writable=True)
            for s, r in E.call(PFX + fn, [Ptr(h.id), logn], st, csrc.module('vrfy.c')):
                same_tags(E, Rg, s, '%s(logn=%d)' % (fn, logn), out_tags(E, Rg, s, h.id, n, fn), [Rg.scale(t, k) for t in ntt(Rg, ht, logn)])
            R.from_engine(E)
        return R
    return run


def compute_public_unit(logn):
    def run():
        n = 1 << logn
        E, Rg = ring_engine()
        st = State()
        h = E.new_obj(st, 'h', 2 * n)
        f, fv = small_obj(E, st, 'f_', n, 8, -127, 127)
        g, gv = small_obj(E, st, 'g_', n, 8, -127, 127)
        tmp = E.new_obj(st, 'tmp', 2 * n)
        nm = 'compute_public(logn=%d)' % logn
        nok = 0
        for s, r in E.call(PFX + 'compute_public', [Ptr(h.id), Ptr(f.id), Ptr(g.id), logn, Ptr(tmp.id)], st):
            ft, gt = val_symbols(E, Rg, fv, 8, s, nm + ': f') if nok == 0 else ft, val_symbols(E, Rg, gv, 8, s, nm + ': g') if nok == 0 else gt
            nok += 1
            if any(t is None for t in ft + gt):
                E.prove(nm + ': every coefficient is used', s, False)
                continue
            F = ntt(Rg, ft, logn)
            G = ntt(Rg, gt, logn)
            if isinstance(r, int) and r == 0:
                exit_on(E, s, [w[0] != 0 for w in (word_of(E, Rg, t) for t in F) if w], nm + ': fails only if f has a zero in its transform')
                continue
            nz = nonzero(E, Rg, F)
            E.prove(nm + ': returns 1', s, bv.z(r, 32) == 1)
            E.prove(nm + ': succeeds only if f is invertible', s, nz)
            want = ntt(Rg, [Rg.mul(b, Rg.symbol(('inv', Rg.key(a)), a)) for a, b in zip(F, G)], logn, 'intt')
            same_tags(E, Rg, s, nm, out_tags(E, Rg, s, h.id, n, nm), want)
        return UnitResult().from_engine(E)
    return run


def complete_private_unit(logn):
    def run():
        n = 1 << logn
        E, Rg = ring_engine()
        st = State()
        Go = E.new_obj(st, 'G', n)
        objs = {}
        for nme in 'fgF':
            objs[nme] = small_obj(E, st, nme + '_', n, 8, -127, 127)
        tmp = E.new_obj(st, 'tmp', 4 * n)
        nm = 'complete_private(logn=%d)' % logn
        T = None
        for s, r in E.call(PFX + 'complete_private', [Ptr(Go.id), Ptr(objs['f'][0].id), Ptr(objs['g'][0].id), Ptr(objs['F'][0].id), logn, Ptr(tmp.id)], st):
            if T is None:
                T = {k: val_symbols(E, Rg, v[1], 8, s, nm + ': ' + k) for k, v in objs.items()}
                if any(t is None for v in T.values() for t in v):
                    E.prove(nm + ': every coefficient is used', s, False)
                    break
                H = {k: ntt(Rg, v, logn) for k, v in T.items()}
                want = ntt(Rg, [Rg.mul(Rg.mul(a, b), Rg.symbol(('inv', Rg.key(c)), c)) for a, b, c in zip(H['g'], H['F'], H['f'])], logn, 'intt')
                cache = {}

                def centre():
                    out = []
                    for i, t in enumerate(want):
                        if i not in cache:
                            w = word_of(E, Rg, t)
                            if not w:
                                out.append(None)
                                continue
                            cache[i] = centered(z3.ZeroExt(2, w[0]))
                        out.append(cache[i])
                    return out
            if isinstance(r, int) and r == 0:
                cen = centre()
                conds = [w[0] != 0 for w in (word_of(E, Rg, t) for t in H['f']) if w]
                if all(c is not None for c in cen):
                    conds += [z3.And(c >= -127, c <= 127) for c in cen]
                exit_on(E, s, conds, nm + ': fails only if f is not invertible or a coefficient of G is out of range')
                continue
            cen = centre()
            nz = nonzero(E, Rg, H['f'])
            E.prove(nm + ': returns 1', s, bv.z(r, 32) == 1)
            E.prove(nm + ': succeeds only if f is invertible', s, nz)
            for i in range(n):
                if cen[i] is None:
                    E.prove(nm + ': G = g F / f', s, False)
                    break
                gi = E._cells_load(s.mem[Go.id], i, 1)
                E.prove(nm + ': G[%d] is the centered residue of g F / f, within -127..127' % i, s,
                        z3.And(cen[i] >= -127, cen[i] <= 127, z3.SignExt(8, bv.z(gi, 8)) == cen[i]))
        return UnitResult().from_engine(E)
    return run


def invertible_unit(logn):
    def run():
        n = 1 << logn
        E, Rg = ring_engine()
        st = State()
        s2, s2v = small_obj(E, st, 's2_', n, 16, -6144, 6144)
        tmp = E.new_obj(st, 'tmp', 2 * n)
        nm = 'is_invertible(logn=%d)' % logn
        for s, r in E.call(PFX + 'is_invertible', [Ptr(s2.id), logn, Ptr(tmp.id)], st):
            t = val_symbols(E, Rg, s2v, 16, s, nm + ': s2')
            if any(x is None for x in t):
                E.prove(nm + ': every coefficient is used', s, False)
                continue
            nz = nonzero(E, Rg, ntt(Rg, t, logn))
            E.prove(nm + ': 1 exactly when no transform coefficient is zero', s, bv.z(r, 32) == z3.If(nz, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        return UnitResult().from_engine(E)
    return run


def recover_unit(fn, logn):
    def run():
        n = 1 << logn
        rec = []
        E, Rg = ring_engine()
        E.contracts[PFX + 'is_short'] = short_contract(rec)
        st = State()
        h = E.new_obj(st, 'h', 2 * n)
        c0, c0t = res_obj(E, Rg, st, 'c0', n)
        s1, s1v = small_obj(E, st, 's1_', n, 16, -6144, 6144)
        s2, s2v = small_obj(E, st, 's2_', n, 16, -6144, 6144)
        tmp = E.new_obj(st, 'tmp', 2 * n)
        nm = '%s(logn=%d)' % (fn, logn)
        for s, r in E.call(PFX + fn, [Ptr(h.id), Ptr(c0.id), Ptr(s1.id), Ptr(s2.id), logn, Ptr(tmp.id)], st):
            t1 = val_symbols(E, Rg, s1v, 16, s, nm + ': s1')
            t2 = val_symbols(E, Rg, s2v, 16, s, nm + ': s2')
            if any(x is None for x in t1 + t2):
                E.prove(nm + ': every coefficient is used', s, False)
                continue
            S2 = ntt(Rg, t2, logn)
            D = ntt(Rg, [Rg.add(c, x, -1) for c, x in zip(c0t, t1)], logn)
            hat = [Rg.mul(d, Rg.symbol(('inv', Rg.key(x)), x)) for d, x in zip(D, S2)]
            want = ntt(Rg, hat, logn, 'intt') if fn == 'verify_recover' else hat
            same_tags(E, Rg, s, nm, out_tags(E, Rg, s, h.id, n, nm), want)
            if not E.prove(nm + ': the norm is tested', s, len(rec) == 1):
                continue
            sh, v1, v2, l = rec[0]
            E.prove(nm + ': norm test at the degree of the call', s, l == logn)
            for i in range(n):
                same(E, s, nm + ': tested vector is (s1, s2), element %d' % i, v1[i], bv.z(s1v[i], 16), 16)
                same(E, s, nm + ': tested vector is (s1, s2), element %d' % (n + i), v2[i], bv.z(s2v[i], 16), 16)
            nz = nonzero(E, Rg, S2)
            E.prove(nm + ': 1 exactly when short and s2 invertible', s,
                    bv.z(r, 32) == z3.If(z3.And(nz, bv.z(sh, 1) == 1), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        return UnitResult().from_engine(E)
    return run


def hint_unit(logn):
    def run():
        n = 1 << logn
        E, Rg = ring_engine()
        st = State()
        s2, s2v = small_obj(E, st, 's2_', n, 16, -6144, 6144)
        nm = 'hint_epervier(logn=%d)' % logn
        for s, r in E.call(PFX + 'hint_epervier', [Ptr(s2.id), logn], st):
            t = val_symbols(E, Rg, s2v, 16, s, nm + ': s2')
            if any(x is None for x in t):
                E.prove(nm + ': every coefficient is used', s, False)
                continue
            p = Rg.const(1)
            for x in ntt(Rg, t, logn):
                p = Rg.mul(p, x)
            want = Rg.symbol(('inv', Rg.key(p)), p)
            got = Rg.tag(s, r, 16, nm)
            E.prove(nm + ': inverse of the product of the transform coefficients', s, Rg.key(got) == Rg.key(want))
        return UnitResult().from_engine(E)
    return run
