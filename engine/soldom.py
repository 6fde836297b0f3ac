"""Domain of words known as integers with bounds and as elements of F_q: linear integer combinations of atoms.

A V is an integer i with lo <= i <= hi (the word is i mod 2^256), given as const + sum c_k atom_k, together with its
class mod q as a polynomial in field symbols.  The result of addmod/mulmod by q is the atom `red(p)` of the polynomial
p: the residue of p in [0, q), one atom per polynomial."""
import time
import z3
import bv
from solex import Dom, Ptr, Unsupported, Revert, W, M

Q = 12289


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + s * c) % Q
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, c):
    c %= Q
    if c == 0:
        return {}
    return {m: v * c % Q for m, v in a.items()}


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m, c in a.items():
        for k, d in b.items():
            t = tuple(sorted(m + k)) if m and k else m or k
            v = (r.get(t, 0) + c * d) % Q
            if v:
                r[t] = v
            else:
                r.pop(t, None)
    return r


def pconst(c):
    c %= Q
    return {(): c} if c else {}


class Atom:
    __slots__ = ('name', 'z', 'lo', 'hi', 'defn', 'f', 'kind')

    def __init__(self, name, lo, hi, f=None, defn=None, kind=None):
        self.name = name
        self.z = z3.Int(name)
        self.lo = lo
        self.hi = hi
        self.f = f
        self.defn = defn          # z3 term over other atoms, or None
        self.kind = kind


class Space:
    """the atoms of one proof"""

    def __init__(self):
        self.reds = {}
        self.n = 0
        self.syms = {}
        self.prods = {}
        self.ites = {}
        self.byz = {}

    def atom(self, name, lo, hi, f=None, defn=None, kind=None):
        a = Atom(name, lo, hi, f, defn, kind)
        self.byz[name] = a
        return a

    def sym(self, name, lo=0, hi=Q - 1):
        """a fresh integer unknown in [lo, hi]; its class mod q is the field symbol of that name"""
        a = self.atom(name, lo, hi, {(name,): 1})
        if lo == 0 and hi == Q - 1:
            self.reds[self.key(a.f)] = a
        return V(self, {a: 1}, 0)

    @staticmethod
    def key(f):
        return frozenset(f.items())

    def red(self, f):
        if not f or (len(f) == 1 and () in f):
            return f.get((), 0)
        k = self.key(f)
        a = self.reds.get(k)
        if a is None:
            self.n += 1
            a = self.reds[k] = self.atom('r!%d' % self.n, 0, Q - 1, dict(f))
        return V(self, {a: 1}, 0)

    def prod(self, x, y):
        """product of two values as an opaque atom"""
        kx, ky = x.key(), y.key()
        k = (kx, ky) if hash(kx) <= hash(ky) else (ky, kx)
        a = self.prods.get(k)
        if a is None:
            self.n += 1
            c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
            lo, hi = min(c), max(c)
            if kx == ky:
                lo = 0
            f = pmul(x.f, y.f) if x.f is not None and y.f is not None and len(x.f) * len(y.f) < 64 else None
            a = self.prods[k] = self.atom('p!%d' % self.n, lo, hi, f, kind=('prod', x, y))
        return V(self, {a: 1}, 0)

    def ite(self, c, x):
        """c ? x : 0"""
        k = (c.get_id(), x.key())
        a = self.ites.get(k)
        if a is None:
            self.n += 1
            a = self.ites[k] = self.atom('i!%d' % self.n, min(0, x.lo), max(0, x.hi), None, z3.If(c, x.z(), z3.IntVal(0)), kind=('ite', c, x))
        return V(self, {a: 1}, 0)

    def cond(self, c, x, y):
        """c ? x : y"""
        x, y = [V(self, {}, v) if type(v) is int else v for v in (x, y)]
        for i in (0, 1):
            v = (x, y)[i]
            if len(v.d) == 1 and v.c == 0:
                (a, n), = v.d.items()
                if n == 1 and a.kind and a.kind[0] == 'cond' and z3.eq(a.kind[1], c):
                    x, y = (a.kind[2], y) if i == 0 else (x, a.kind[3])
        if x.key() == y.key():
            return x
        k = (c.get_id(), x.key(), y.key())
        a = self.ites.get(k)
        if a is None:
            self.n += 1
            d = z3.If(c, x.z(), y.z())
            lo, hi = min(x.lo, y.lo), max(x.hi, y.hi)
            f = x.f if x.f is not None and y.f is not None and x.f == y.f else None
            for l, h in ((0, Q - 1), (0, hi), (-(Q // 2), Q // 2)):
                if (lo, hi) != (l, h) and (lo < l or hi > h):
                    v = z3.Int('value')
                    if prove(z3.And(v >= l, v <= h), self.facts(d) + [v == d], 2000)[0] == 'proved':
                        lo, hi = max(lo, l), min(hi, h)
                        break
            a = self.ites[k] = self.atom('i!%d' % self.n, lo, hi, f, d, kind=('cond', c, x, y))
        return V(self, {a: 1}, 0)

    def of_bool(self, name, a):
        """arithmetic on a condition and a constant"""
        x, y = [V(self, {}, v) if type(v) is int else self.ite(v, V(self, {}, 1)) if isinstance(v, z3.BoolRef) else None for v in a]
        if x is None or y is None:
            return None
        if name == 'mul' and type(a[0]) is int or type(a[1]) is int and name == 'mul':
            k = a[0] if type(a[0]) is int else a[1]
            return self.ite(a[1] if type(a[0]) is int else a[0], V(self, {}, k)) if k < 1 << 128 else None
        if name == 'shl':
            return self.of_bool('mul', [1 << a[0], a[1]]) if type(a[0]) is int and a[0] < 128 else None
        if name in ('add', 'sub'):
            return lin(self, x, y, 1 if name == 'add' else -1)
        return None

    def expand(self, t):
        """the term with the values defined by cases replaced by their definitions"""
        while True:
            sub, todo, seen = [], [t], set()
            while todo:
                u = todo.pop()
                if u.get_id() in seen:
                    continue
                seen.add(u.get_id())
                if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    a = self.byz.get(str(u))
                    if a is not None and a.defn is not None:
                        sub.append((a.z, a.defn))
                todo.extend(u.children())
            if not sub:
                return t
            t = z3.substitute(t, *sub)

    def facts(self, *terms):
        """bounds and definitions of the atoms a term depends on"""
        out = []
        seen = set()
        todo = list(terms)
        done = set()
        while todo:
            t = todo.pop()
            if t.get_id() in done:
                continue
            done.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                a = self.byz.get(str(t))
                if a is not None and a.name not in seen:
                    seen.add(a.name)
                    out.append(a.z >= a.lo)
                    out.append(a.z <= a.hi)
                    if a.defn is not None:
                        out.append(a.z == a.defn)
                        todo.append(a.defn)
            todo.extend(t.children())
        return out


class V(Dom):
    __slots__ = ('sp', 'd', 'c', 'lo', 'hi', '_f', '_z', '_k')

    def __init__(self, sp, d, c):
        self.sp = sp
        self.d = d
        self.c = c
        lo = hi = c
        for a, k in d.items():
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        self.lo, self.hi = lo, hi
        self._f = 0
        self._z = None
        self._k = None

    @property
    def f(self):
        if self._f == 0:
            r = pconst(self.c)
            for a, k in self.d.items():
                if a.f is None:
                    r = None
                    break
                r = padd(r, a.f, k % Q) if k % Q in (1,) else padd(r, pscale(a.f, k))
            self._f = r
        return self._f

    def key(self):
        if self._k is None:
            self._k = (self.c, frozenset((a.name, k) for a, k in self.d.items()))
        return self._k

    def z(self):
        if self._z is None:
            ts = [a.z if k == 1 else z3.IntVal(k) * a.z for a, k in self.d.items()]
            if self.c or not ts:
                ts.append(z3.IntVal(self.c))
            self._z = z3.Sum(ts) if len(ts) > 1 else ts[0]
        return self._z

    def __repr__(self):
        return 'V(%s%s)' % (' '.join('%+d*%s' % (k, a.name) for a, k in list(self.d.items())[:6]), '%+d' % self.c if self.c else '')

    def interval(self):
        return self.lo, self.hi

    def same(self, o):
        return isinstance(o, V) and self.key() == o.key()

    # ------------------------------------------------------------------
    def yop(self, name, a, ex):
        sp = self.sp
        if name == 'ite':
            c, x, y = a[0], lift(sp, a[1]), lift(sp, a[2])
            if x is NotImplemented or y is NotImplemented:
                return NotImplemented
            return sp.cond(c, x, y)
        if name == 'truth':
            small(self)
            return zc(self, self.z() != 0, ex) if self.lo <= 0 <= self.hi else True
        if name == 'overflow':
            op, x, y, w, s = a
            x, y = lift(sp, x), lift(sp, y)
            if s:
                raise Unsupported('signed arithmetic')
            r = lin(sp, x, y, 1, True) if op == 'add' else lin(sp, x, y, -1, True) if op == 'sub' else mul(sp, x, y)
            lo, hi = (r, r) if type(r) is int else (r.lo, r.hi)
            if lo >= 0 and hi < 1 << w:
                return False
            if type(r) is int or hi < 0 or lo >= 1 << w:
                return True
            return z3.Or(r.z() < 0, r.z() >= (1 << w))
        if name in ('add', 'sub'):
            x, y = lift(sp, a[0]), lift(sp, a[1])
            if x is NotImplemented or y is NotImplemented:
                return NotImplemented
            return lin(sp, x, y, 1 if name == 'add' else -1)
        if name == 'mul':
            c = [x for x in a if isinstance(x, z3.BoolRef)]
            if c:
                return sp.ite(c[0], next(x for x in a if not isinstance(x, z3.BoolRef)))
            x, y = lift(sp, a[0]), lift(sp, a[1])
            if x is NotImplemented or y is NotImplemented:
                return NotImplemented
            return mul(sp, x, y)
        if name in ('addmod', 'mulmod') and type(a[2]) is int and a[2] == Q:
            x, y = lift(sp, a[0]), lift(sp, a[1])
            if x is NotImplemented or y is NotImplemented:
                return NotImplemented
            fx, fy = fq(x), fq(y)
            if fx is None or fy is None:
                return NotImplemented
            return sp.red(padd(fx, fy) if name == 'addmod' else pmul(fx, fy))
        if name == 'mod' and type(a[1]) is int and a[1] == Q:
            return sp.red(fq(a[0]))
        if name == 'shl' and type(a[0]) is int:
            return mul(sp, lift(sp, a[1]), 1 << a[0])
        if name == 'and':
            for i in (0, 1):
                # -(c) and x: a selection
                m = a[i]
                if isinstance(m, V) and m.c == 0 and len(m.d) == 1:
                    (t, k), = m.d.items()
                    if k == -1 and t.kind and t.kind[0] == 'ite' and t.kind[2].d == {} and t.kind[2].c == 1:
                        x = lift(sp, a[1 - i])
                        return NotImplemented if x is NotImplemented else sp.ite(t.kind[1], x if isinstance(x, V) else V(sp, {}, x))
            x, m = (a[0], a[1]) if isinstance(a[0], V) else (a[1], a[0])
            if type(m) is int and (m & (m + 1)) == 0 and x.lo >= 0 and x.hi <= m:
                return x
            return NotImplemented
        if name in ('lt', 'gt', 'eq', 'slt', 'sgt'):
            x, y = lift(sp, a[0]), lift(sp, a[1])
            if x is NotImplemented or y is NotImplemented:
                return NotImplemented
            if name == 'eq':
                small(lin(sp, x, y, -1, True))
            elif name[0] != 's':
                nonneg(x)
                nonneg(y)
            else:
                for v in (x, y):
                    lo, hi = (v, v) if type(v) is int else (v.lo, v.hi)
                    if lo < -(1 << 255) or hi >= 1 << 255:
                        raise Unsupported('signed comparison of a value outside the signed range')
            n = name[1:] if name[0] == 's' else name
            d = lin(sp, x, y, -1, True)
            lo, hi = (d, d) if type(d) is int else (d.lo, d.hi)
            if n == 'eq':
                if lo > 0 or hi < 0:
                    return 0
                if lo == hi == 0:
                    return 1
                return zc(self, zt(x) == zt(y), ex)
            if n == 'lt':
                return 1 if hi < 0 else 0 if lo >= 0 else zc(self, zt(x) < zt(y), ex)
            return 1 if lo > 0 else 0 if hi <= 0 else zc(self, zt(x) > zt(y), ex)
        if name == 'or':
            for i in (0, 1):
                if type(a[i]) is int and a[i] == 0:
                    return a[1 - i]
            return zor(sp, a)
        if name == 'xor':
            x, y = lift(sp, a[0]), lift(sp, a[1])
            if x is NotImplemented or y is NotImplemented:
                return NotImplemented
            nonneg(x)
            nonneg(y)
            d = lin(sp, x, y, -1, True)
            return 0 if type(d) is int and d == 0 else Z(sp, zt(x) == zt(y))
        if name == 'iszero':
            small(self)
            if self.lo > 0:
                return 0
            return zc(self, self.z() == 0, ex)
        return NotImplemented


class Z(Dom):
    """a word of which only the condition of being zero is known (differences accumulated with or and xor)"""

    def __init__(self, sp, zero):
        self.sp = sp
        self.zero = zero

    def key(self):
        return ('zero', self.zero.get_id())

    def interval(self):
        return 0, M

    def same(self, o):
        return isinstance(o, Z) and z3.eq(self.zero, o.zero)

    def yop(self, name, a, ex):
        if name == 'truth':
            return zc(self, z3.Not(self.zero), ex)
        if name == 'iszero':
            return zc(self, self.zero, ex)
        if name == 'or':
            return zor(self.sp, a)
        if name in ('eq', 'gt', 'lt'):
            x, y = a if name != 'lt' else (a[1], a[0])
            if name == 'eq' and type(x) is int:
                x, y = y, x
            if type(y) is int and y == 0 and x is self:
                return zc(self, self.zero if name == 'eq' else z3.Not(self.zero), ex)
        return NotImplemented


def zor(sp, a):
    c = []
    for x in a:
        if type(x) is int:
            if x:
                return NotImplemented
        elif isinstance(x, Z):
            c.append(x.zero)
        elif isinstance(x, V):
            small(x)
            c.append(x.z() == 0)
        elif isinstance(x, z3.BoolRef):
            c.append(z3.Not(x))
        else:
            return NotImplemented
    return Z(sp, z3.And(c) if len(c) > 1 else c[0])


def zc(v, c, ex):
    """a comparison used as a branch condition needs the facts about its atoms"""
    ex.sp = v.sp
    for f in v.sp.facts(c):
        k = f.get_id()
        if k not in ex.__dict__.setdefault('_facts', {}):
            ex._facts[k] = f
            ex.solver.add(f)
    return c


def zt(x):
    return z3.IntVal(x) if type(x) is int else x.z()


def small(x):
    """zero modulo 2^256 only when zero"""
    lo, hi = (x, x) if type(x) is int else (x.lo, x.hi)
    if lo <= -(1 << 256) or hi >= 1 << 256:
        raise Unsupported('a value that may be a nonzero multiple of 2^256 is compared with zero')


def nonneg(x):
    if type(x) is int:
        return
    if x.lo < 0 or x.hi > M:
        raise Unsupported('a value that may be negative modulo 2^256 is compared: %r in [%d, %d]' % (x, x.lo, x.hi))


def fq(x):
    if type(x) is int:
        return pconst(x)
    if x.lo < 0 or x.hi > M:
        raise Unsupported('a value that may wrap modulo 2^256 enters modular arithmetic: %r in [%d, %d]' % (x, x.lo, x.hi))
    return x.f


def lift(sp, x):
    if isinstance(x, V) or type(x) is int:
        return x
    if type(x) is bool:
        return int(x)
    if isinstance(x, z3.BoolRef):
        return sp.ite(x, ONE(sp))
    return NotImplemented


def ONE(sp):
    return V(sp, {}, 1)


def lin(sp, x, y, s, exact=False):
    """x + s*y (a constant result is reduced modulo 2^256 unless exact)"""
    if type(x) is int and type(y) is int:
        return x + s * y
    if type(x) is int:
        x = V(sp, {}, x)
    if type(y) is int:
        y = V(sp, {}, y)
    d = dict(x.d)
    for a, k in y.d.items():
        v = d.get(a, 0) + s * k
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    c = x.c + s * y.c
    if not d:
        return c if exact else c & M
    r = V(sp, d, c)
    if abs(r.lo) >= 1 << 264 or abs(r.hi) >= 1 << 264:
        raise Unsupported('integer out of bounds: %r' % r)
    return r


def mul(sp, x, y):
    if type(x) is int and type(y) is int:
        return x * y
    if type(x) is int:
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if y >= 1 << 255:
            y -= 1 << 256
        return V(sp, {a: k * y for a, k in x.d.items()}, x.c * y)
    return sp.prod(x, y)


def prove(goal, facts=(), timeout=30000):
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    t = time.time()
    r = s.check()
    return {'unsat': 'proved', 'sat': 'failed', 'unknown': 'unknown'}[str(r)], (s.model() if r == z3.sat else None), time.time() - t
