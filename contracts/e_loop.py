"""Loop invariants over inferred roles.

Every variable a loop assigns is described in terms of the features of the invariant (the iteration number, the number of
bytes consumed, ...) by fitting the values it takes in concrete runs of the current source; a variable that fits no
description is arbitrary.  The description is then *checked*: the initial state must satisfy it and the loop body must
re-establish it from an arbitrary state that satisfies it."""
from e_common import *
from soldom import lin, mul
import bv

M = (1 << 256) - 1


class Window(Region):
    """memory read and written around a symbolic index: cells relative to the offset `at` (a V)"""

    def setup(self, at, rel=None, word=None):
        self.at = at
        self.rel = {}
        self.word = word          # rel -> initial word (default: arbitrary)
        self.stores = {}
        return self

    def _d(self, o):
        if type(o) is int:
            if getattr(self, 'absolute', None) is not None and sgn(o) in self.absolute:
                return ('abs', sgn(o))
            o = V(self.at.sp, {}, o)
        d = lin(self.at.sp, o, self.at, -1)
        if type(d) is not int:
            if d.lo == d.hi:
                return d.lo
            raise Unsupported('%s is accessed at an offset that does not follow the invariant' % self.name)
        return sgn(d)

    def load(self, ex, o):
        if type(o) is int and o in self.cells:
            return self.cells[o]
        d = self._d(o)
        if d in self.stores:
            return self.stores[d]
        if d % 32 and any(abs(k - d) < 32 for k in self.stores):
            raise Unsupported('overlapping read of %s' % self.name)
        if d not in self.rel:
            self.rel[d] = self.word(d) if self.word else ex.fresh(self.name)
        return self.rel[d]

    def store(self, ex, o, v):
        if self.ro:
            ex.outside_write(self, o, 32)
        d = self._d(o)
        if any(k != d and abs(k - d) < 32 for k in self.stores):
            raise Unsupported('overlapping write to %s' % self.name)
        self.stores[d] = v

    def sym_byte(self, ex, off, i):
        o = ex.op('add', [ex.op('add', [off, 32]), i])
        w = self.load(ex, o)
        return ex.op('and', [w, 0xff << 248])

    def get_byte(self, ex, i):
        w = self.load(ex, 32 + i)
        return ex.op('byte', [0, w])


def sgn(x):
    return x - (1 << 256) if type(x) is int and x >> 255 else x


def as_num(v):
    """a variable's concrete value as (region or None, integer)"""
    if isinstance(v, Ptr):
        return (v.r.name.split('#')[0], sgn(v.o)) if type(v.o) is int else None
    if type(v) is bool:
        return None
    if type(v) is int:
        return (None, v)
    return None


def fit(samples, feats):
    """samples: list of (value, features dict).  Returns (const, {feature: coef}) or None; mod 2^256"""
    names = list(feats)
    nums = [as_num(v) for v, _ in samples]
    if any(x is None for x in nums) or len({x[0] for x in nums}) != 1:
        return None
    ys = [x[1] for x in nums]
    # candidate supports, smallest first
    import itertools
    for k in range(0, 3):
        for sup in itertools.combinations(names, k):
            r = solve(ys, [[f[n] for n in sup] for _, f in samples])
            if r is not None:
                return r[0], dict(zip(sup, r[1:]))
    return None


def solve(ys, xs):
    """integer affine fit"""
    from fractions import Fraction
    ys = [sgn(y) for y in ys]
    k = len(xs[0])
    if k == 0:
        return [ys[0]] if all(y == ys[0] for y in ys) else None
    rows = [[Fraction(1)] + [Fraction(v) for v in x] + [Fraction(y)] for x, y in zip(xs, ys)]
    m = [r[:] for r in rows]
    piv = []
    r = 0
    for c in range(k + 1):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            return None
        m[r], m[p] = m[p], m[r]
        m[r] = [v / m[r][c] for v in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [a - f * b for a, b in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    if any(row[-1] != 0 for row in m[r:]):
        return None
    sol = [m[i][-1] for i in range(k + 1)]
    if any(s.denominator != 1 for s in sol):
        return None
    return [int(s) for s in sol]


class Role:
    """const + sum coef*feature, in a region or a plain number"""

    def __init__(self, const, coefs, region=None):
        self.const = const
        self.coefs = coefs
        self.region = region

    def __repr__(self):
        return '%s%+d %s' % (self.region or '', self.const, self.coefs)

    def value(self, sp, F, cur=None):
        """F: feature -> V or int.  cur: the pointer currently held (its region)"""
        r = self.const
        for n, c in self.coefs.items():
            r = lin(sp, r, mul(sp, F[n], c), 1)
        if type(r) is int:
            r &= M
        if self.region is not None:
            return Ptr(cur.r, sgn(r))
        return r

    def holds(self, sp, F, v):
        """goal: v follows the role (True, False or a z3 condition)"""
        w = self.value(sp, F, v if isinstance(v, Ptr) else None) if self.region is None or isinstance(v, Ptr) else None
        if w is None:
            return False
        if self.region is not None:
            v, w = v.o, w.o
        elif isinstance(v, Ptr):
            return False
        return eqz(v, w)


def eqz(v, w):
    if v is None:
        return False
    if isinstance(v, bv.BV) or isinstance(w, bv.BV):
        if isinstance(v, V) or isinstance(w, V):
            return False
        c = bv.icmp('eq', v, w, 256)
        return c if type(c) is bool else c
    if type(v) is int and type(w) is int:
        return (v - w) & M == 0
    if isinstance(v, z3.BoolRef) or isinstance(w, z3.BoolRef) or type(v) is bool or type(w) is bool:
        return False
    d = lin(v.sp if isinstance(v, V) else w.sp, v, w, -1)
    if type(d) is int:
        return d & M == 0
    return d.z() == 0


def traced(exname, ex, record):
    """loops rule for concrete runs: calls record(run) at every test of the condition of the loop"""
    def rule(L):
        n = 0
        while True:
            record(L, n)
            if not L.cond():
                return True
            if L.body() == 'break':
                record(L, None)
                return True
            L.post()
            n += 1
    return rule


def prove_goal(R, name, goal, pc=(), sp=None, timeout=60000):
    if goal is True or goal is False:
        return R.check(name, goal, 'evaluates to false' if not goal else None)
    fs = list(pc)
    if sp is not None:
        fs += sp.facts(goal, *pc)
    st, m, dt = prove(goal, fs, timeout)
    R.add(name, st, dt, 'z3', None, m)
    R.solver_s += dt
    return st == 'proved'
