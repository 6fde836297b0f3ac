"""Contract verification of Python code.

The functions under contract are the ones in /repo/pythonref: the module source is read on every run, parsed, and executed
by the Python interpreter itself on symbolic values (operator overloading); only three things are changed, mechanically:
  * loops that a contract gives an invariant to are cut at their head (establish / havoc+assume / preserve);
  * imports named in `stubs` and functions named in `patches` are replaced by their contracts;
  * a few builtins (len, int, bytes, bytearray, sum, format, bin, print, min, max) accept symbolic values as well.
Every branch on a symbolic condition forks the path; all paths are enumerated.
"""
import ast
import builtins
import itertools
import ctypes
import os
import pickle
import sys
import time
import types

import z3

import bv
from runner import UnitResult

REPO = os.environ.get('VERIF_REPO', '/repo')
PYREF = os.path.join(REPO, 'pythonref')


class Unsupported(Exception):
    pass


class Infeasible(BaseException):
    """the current path ends here (after a loop-invariant check, or because its condition is unsatisfiable)"""


class Ctx:
    """the path being executed"""

    def __init__(self, E, prefix):
        self.E = E
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.heads = {}
        self.notes = {}
        self.n = 0
        self.uniform = 0

    def name(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def assume(self, c):
        c = zb(c)
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)

    def decide(self, c):
        c = zb(c)
        if isinstance(c, bool):
            return c
        if self.uniform:
            E = self.E
            t = E.sat(self.pc, c)
            f = E.sat(self.pc, z3.Not(c))
            if t and f:
                raise Unsupported('branch on an element inside a comprehension')
            return t
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.taken.append(d)
            self.pc.append(c if d[0] else z3.Not(c)) if not d[1] else None
            return d[0]
        E = self.E
        t = E.sat(self.pc, c)
        f = E.sat(self.pc, z3.Not(c))
        if t and f:
            if E.fork:
                d = E.split()
                self.taken.append((d, False))
                self.pc.append(c if d else z3.Not(c))
                return d
            E.todo.append(self.taken + [(False, False)])
            self.taken.append((True, False))
            self.pc.append(c)
            return True
        if not t and not f:
            raise Infeasible()
        self.taken.append((t, True))      # forced: implied by the path condition
        return t


CTX = None


def ctx():
    return CTX


def die_with_parent():
    try:
        ctypes.CDLL(None).prctl(1, 9)       # PR_SET_PDEATHSIG, SIGKILL
    except Exception:
        pass


class Engine:
    def __init__(self, name, timeout=20000, logic=None, fork=False):
        self.name = name
        self.res = UnitResult()
        self.timeout = timeout
        self.logic = logic
        self.todo = []
        self.paths = 0
        self.axioms = []
        self.max_paths = 20000
        self._cache = {}
        self._vars = {}
        self._sorts = {}
        self._memo = {}
        self.feas_timeout = 1500
        self.seen_names = {}
        self.fork = fork
        self.int_bits = False
        self.int_bytes = False   # int.from_bytes of symbolic bytes as integer arithmetic
        self.square_uf = False   # squares as an uninterpreted even function
        self.normal = False     # obligations decided by normal form are listed by name
        self.up = None          # pipe to the parent process (a forked path)

    def split(self):
        """fork the process: the child follows the True branch to its end, then the parent goes on with False (True is the
        usual side of `if bad: raise`, so that the children are short)"""
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            die_with_parent()
            os.close(r)
            self.up = w
            self.res = UnitResult()
            self.paths = 0
            return True
        os.close(w)
        buf = b''
        with os.fdopen(r, 'rb') as fh:
            buf = fh.read()
        os.waitpid(pid, 0)
        if not buf:
            raise Unsupported('a forked path ended without an answer')
        res, n, names, err = pickle.loads(buf)
        if err:
            raise Unsupported(err.replace('Unsupported: ', ''))
        self.res.obls += res.obls
        self.res.trivial += res.trivial
        self.res.solver_s += res.solver_s
        self.res.functions |= res.functions
        self.res.assumed |= res.assumed
        self.paths += n
        self.seen_names = names
        if self.paths > self.max_paths:
            raise Unsupported('more than %d paths' % self.max_paths)
        return False

    def _up(self, err=None):
        with os.fdopen(self.up, 'wb') as fh:
            fh.write(pickle.dumps((self.res, self.paths, self.seen_names, err)))
        os._exit(0)

    # ------------------------------------------------------------------ solver
    def solver(self, t):
        s = z3.SolverFor(self.logic) if self.logic else z3.Solver()
        s.set('timeout', t)
        for a in self.axioms:
            s.add(a)
        return s

    def vars(self, e):
        k = e.get_id()
        r = self._vars.get(k)
        if r is not None:
            return r[1]
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = self._vars.get(i)
            if c is not None:
                out |= c[1]
                continue
            if z3.is_app(x):
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                else:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                    st.extend(x.children())
            elif z3.is_quantifier(x):
                st.append(x.body())
        out = frozenset(out)
        self._vars[k] = (e, out)
        return out

    def canon(self, exprs):
        """text of the expressions up to a renaming of the symbols"""
        import re
        if len(exprs) > 8:
            return None
        m, sorts, out = {}, [], []
        for e in exprs:
            t = e.sexpr()
            if len(t) > 4000:
                return None
            vs = self.vars(e)

            def sub(x):
                n = x.group(0)
                k = n[1:-1] if n[0] == '|' else n
                if k not in vs:
                    return n
                if k not in m:
                    m[k] = 'V%d' % len(m)
                return m[k]
            out.append(re.sub(r'\|[^|]*\||[^\s()]+', sub, t))
            for v, srt in sorted(self.sorts(e).items()):
                if v in m:
                    sorts.append((m[v], srt))
        return tuple(out) + tuple(sorted(set(sorts)))

    def sorts(self, e):
        r = self._sorts.get(e.get_id())
        if r is not None:
            return r[1]
        out, seen, st = {}, set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[x.decl().name()] = str([x.decl().domain(i) for i in range(x.decl().arity())]) + str(x.decl().range())
                st.extend(x.children())
            elif z3.is_quantifier(x):
                st.append(x.body())
        self._sorts[e.get_id()] = (e, out)
        return out

    def near(self, pc, c):
        """the facts connected with c"""
        seen = set(self.vars(c))
        rest = [(x, self.vars(x)) for x in pc]
        out = []
        while True:
            nxt, n = [], len(out)
            for x, v in rest:
                if v & seen or not v:
                    seen |= v
                    out.append(x)
                else:
                    nxt.append((x, v))
            rest = nxt
            if len(out) == n or not rest:
                return out

    def sat(self, pc, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if len(pc) > 4:
            pc = self.near(pc, c)
        key = self.canon(list(pc) + [c]) if not self.axioms else None
        if key is not None and key in self._memo:
            return self._memo[key]
        s = self.solver(self.feas_timeout)
        s.add(*pc)
        s.add(c)
        t = time.time()
        r = s.check()
        self.res.solver_s += time.time() - t
        if key is not None:
            self._memo[key] = r != z3.unsat
        return r != z3.unsat

    def valid(self, goal):
        """the goal follows from the path condition (no obligation)"""
        goal = zb(goal)
        if isinstance(goal, bool):
            return goal
        old, self.feas_timeout = self.feas_timeout, 5000
        r = not self.sat(list(CTX.pc), z3.Not(goal))
        self.feas_timeout = old
        return r

    def prove(self, name, goal, note=None, timeout=None, pc=None):
        goal = zb(goal)
        pc = list(CTX.pc) if pc is None else pc
        k = self.seen_names.get(name, 0)
        self.seen_names[name] = k + 1
        label = '%s: %s%s' % (self.name, name, '' if not k else ' (path %d)' % (k + 1))
        if isinstance(goal, bool):
            if goal:
                if self.normal:
                    self.res.add(label, 'proved', 0.0, 'normal form')
                else:
                    self.res.trivial += 1
                return True
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.res.trivial += 1
            return True
        t = time.time()
        gv = self.vars(goal)
        stages = []
        near = self.near(pc, goal)
        only = [c for c in near if self.vars(c) <= gv]
        if len(only) < len(near):
            stages.append((only, 4000))
        if len(near) < len(pc):
            stages.append((near, timeout or self.timeout))
        stages.append((pc, timeout or self.timeout))
        for st, (p, to) in enumerate(stages):
            key = self.canon(list(p) + [z3.Not(g)]) if not self.axioms else None
            if key is not None and self._memo.get(key) is False:
                self.res.add(label, 'proved', time.time() - t)
                return True
            s = self.solver(to)
            s.add(*p)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                dt = time.time() - t
                self.res.solver_s += dt
                if key is not None:
                    self._memo[key] = False
                self.res.add(label, 'proved', dt)
                return True
        dt = time.time() - t
        self.res.solver_s += dt
        if r == z3.sat:
            self.res.add(label, 'failed', dt, 'z3', note, s.model())
            return False
        import symex
        r2 = symex.cvc5_unsat(s, 20)
        if r2 == 'unsat':
            self.res.add(label, 'proved', time.time() - t, 'cvc5')
            return True
        self.res.add(label, 'unknown', time.time() - t, 'z3', note or s.reason_unknown())
        return False

    def warm(self, conds):
        """conditions prepared before the paths fork"""
        for c in conds:
            if not isinstance(c, bool):
                self.vars(c)
        return conds

    def prove_any(self, name, conds, note=None):
        """one of the conditions holds: tried first with those about the last decision"""
        conds = [c for c in conds if c is not False]
        pc = CTX.pc
        if pc and len(conds) > 3 and not any(c is True for c in conds):
            v = self.vars(pc[-1])
            near = [c for c in conds if self.vars(c) & v]
            last = [f for f in pc[-40:] if self.vars(f) & v][-6:]
            s = self.solver(3000)
            s.add(*last)
            s.add(*[z3.Not(c) for c in near])
            if near and s.check() == z3.unsat:
                return self.prove(name, bv.bor(*near), note, pc=last)
        return self.prove(name, bv.bor(*conds), note)

    # ------------------------------------------------------------------ paths
    def run(self, fn, on_return, on_raise=None):
        """fn() is executed along every path; on_return(value) / on_raise(exception) state the postcondition"""
        global CTX
        self.todo = [[]]
        n0 = self.paths
        top = self.up
        while self.todo:
            pre = self.todo.pop()
            CTX = Ctx(self, pre)
            self.paths += 1
            if self.paths - n0 > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            err = None
            try:
                self._path(fn, on_return, on_raise)
            except Infeasible:
                pass
            except BaseException as e:
                if self.up is top:
                    raise
                err = '%s: %s' % (type(e).__name__, e)
            if self.up is not top:
                self._up(err)
        CTX = None
        return self.res

    def _path(self, fn, on_return, on_raise):
        try:
            v = fn()
        except (Unsupported, z3.Z3Exception, RecursionError, MemoryError):
            raise
        except Exception as e:
            if on_raise is None:
                import traceback
                self.prove('raises no exception', False, note=traceback.format_exc()[-800:])
            else:
                on_raise(e)
            return
        on_return(v)


# ---------------------------------------------------------------------------------------------- values
def zb(c):
    if isinstance(c, SBool):
        return c.c
    return c


class SBool:
    __slots__ = ('c', 'hook')

    def __init__(self, c, hook=None):
        self.c = c
        self.hook = hook

    def __bool__(self):
        d = CTX.decide(self.c)
        if self.hook is not None:
            self.hook(d)
        return d

    def __invert__(self):
        raise Unsupported('~bool')

    def __and__(self, o):
        return SBool(bv.band(self.c, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(bv.bor(self.c, zb(o)))

    __ror__ = __or__

    def __int__(self):
        return 1 if self else 0

    def __index__(self):
        return int(self)

    def _num(self):
        return SInt(bv.b2bv(self.c, 1), 1)

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__


def sbool(c):
    return c if isinstance(c, bool) else SBool(c)


class SInt:
    """exact integer: bit-vector wide enough for every value (signed: two's complement, else non-negative)"""
    __slots__ = ('t', 'w', 's')

    def __init__(self, t, w, signed=False):
        self.t, self.w, self.s = t, w, signed

    def __repr__(self):
        return '<SInt%d%s>' % (self.w, 's' if self.s else '')

    def __format__(self, spec):
        return '<symbolic>'

    __hash__ = None

    def as_w(self, w):
        """two's complement on w bits"""
        if w < self.w + (0 if self.s else 1) and w < self.w:
            return bv.trunc(self.t, self.w, w)
        return bv.sext(self.t, self.w, w) if self.s else bv.zext(self.t, self.w, w)

    def sw(self):
        return self.w if self.s else self.w + 1

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        raise Unsupported('int() of a symbolic integer by the interpreter')

    def __index__(self):
        raise Unsupported('symbolic index')

    def __abs__(self):
        if not self.s:
            return self
        w = self.w
        neg = bv.icmp('slt', self.t, 0, w)
        return mkint(bv.ite(neg, bv.sub(0, self.t, w), self.t, w), w, False)

    def __neg__(self):
        w = self.sw() + 1
        return mkint(bv.sub(0, self.as_w(w), w), w, True)

    def __invert__(self):
        return -self - 1

    def __pos__(self):
        return self

    def bit_length(self):
        raise Unsupported('bit_length')

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if signed:
            raise Unsupported('signed to_bytes')
        if bool(self < 0) or bool(self >= (1 << 8 * length)):
            raise OverflowError('int too big to convert')
        t = self.as_w(8 * length)
        l = [mkint(bv.extract(t, 8 * i, 8, 8 * length), 8) for i in range(length)]
        return VBytes(l if byteorder == 'little' else l[::-1])


def mkint(t, w, signed=False):
    """normal form: trim known leading bits"""
    if isinstance(t, int):
        return bv.sgn(t, w) if signed else t & bv.full(w)
    b = t.bits
    if not signed:
        k = w
        while k > 1 and b[k - 1] == 0:
            k -= 1
    else:
        k = w
        while k > 1 and b[k - 1] == b[k - 2]:
            k -= 1
        if b[k - 1] == 0:
            return mkint(bv.frombits(b[:k - 1]) if k > 1 else 0, k - 1 or 1, False)
    if k < w:
        t = bv.frombits(b[:k])
        if isinstance(t, int):
            return bv.sgn(t, k) if signed else t
    return SInt(t, k, signed)


def coerce(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        if x >= 0:
            return SInt(x, max(1, x.bit_length()), False)
        w = (-x - 1).bit_length() + 1
        return SInt(x & bv.full(w), w, True)
    if isinstance(x, SBool):
        return x._num()
    return None


def _bin(f):
    def op(a, b):
        b = coerce(b)
        if b is None:
            return NotImplemented
        return f(a, b)

    def rop(a, b):
        b = coerce(b)
        if b is None:
            return NotImplemented
        return f(b, a)
    return op, rop


def _add(a, b):
    if not a.s and not b.s:
        w = max(a.w, b.w) + 1
        return mkint(bv.add(a.as_w(w), b.as_w(w), w), w, False)
    w = max(a.sw(), b.sw()) + 1
    return mkint(bv.add(a.as_w(w), b.as_w(w), w), w, True)


def _sub(a, b):
    w = max(a.sw(), b.sw()) + 1
    return mkint(bv.sub(a.as_w(w), b.as_w(w), w), w, True)


def _mul(a, b):
    sg = a.s or b.s
    w = (a.sw() + b.sw()) if sg else a.w + b.w
    return mkint(bv.mul(a.as_w(w), b.as_w(w), w), w, sg)


def _and(a, b):
    if not a.s and not b.s:
        w = min(a.w, b.w)
        return mkint(bv.and_(bv.trunc(a.as_w(max(w, a.w)), max(w, a.w), w), bv.trunc(b.as_w(max(w, b.w)), max(w, b.w), w), w), w, False)
    if not a.s or not b.s:
        w = a.w if not a.s else b.w
        return mkint(bv.and_(a.as_w(w), b.as_w(w), w), w, False)
    w = max(a.w, b.w)
    return mkint(bv.and_(a.as_w(w), b.as_w(w), w), w, True)


def _or(a, b):
    if not a.s and not b.s:
        w = max(a.w, b.w)
        return mkint(bv.or_(a.as_w(w), b.as_w(w), w), w, False)
    w = max(a.sw(), b.sw())
    return mkint(bv.or_(a.as_w(w), b.as_w(w), w), w, True)


def _xor(a, b):
    if not a.s and not b.s:
        w = max(a.w, b.w)
        return mkint(bv.xor(a.as_w(w), b.as_w(w), w), w, False)
    w = max(a.sw(), b.sw())
    return mkint(bv.xor(a.as_w(w), b.as_w(w), w), w, True)


def conc(b):
    return b.t if isinstance(b.t, int) and not b.s else (bv.sgn(b.t, b.w) if isinstance(b.t, int) else None)


def _shl(a, b):
    k = conc(b)
    if k is None:
        raise Unsupported('shift by a symbolic amount')
    if k < 0:
        raise ValueError('negative shift count')
    w = a.w + k
    return mkint(bv.shl(a.as_w(w) if a.s else bv.zext(a.t, a.w, w), k, w), w, a.s)


def _shr(a, b):
    k = conc(b)
    if k is None:
        # symbolic amount below the width: exact
        w = max(a.w, b.w)
        if a.s or b.s:
            raise Unsupported('shift by a symbolic amount')
        return mkint(bv.lshr(a.as_w(w), b.as_w(w), w), w, False)
    if k < 0:
        raise ValueError('negative shift count')
    if k >= a.w:
        if not a.s:
            return 0
        k = a.w - 1
    t = bv.frombits(bv.tobits(a.t, a.w)[k:])
    return mkint(t, a.w - k, a.s)


def _mod(a, b):
    m = conc(b)
    if m is None or m <= 0:
        raise Unsupported('modulus not a positive constant')
    if m & (m - 1) == 0:
        return _and(a, coerce(m - 1)) if m > 1 else 0
    if not a.s:
        w = max(a.w, b.w)
        if bv.umax(a.as_w(w), w) < m:
            return mkint(a.as_w(w), w)
        return mkint(bv.urem(a.as_w(w), m, w), min(w, w), False) if False else _trim_mod(bv.urem(a.as_w(w), m, w), w, m)
    w = max(a.w, b.w + 1)
    t = bv.mk(w, bv.z(a.as_w(w), w) % z3.BitVecVal(m, w)) if not isinstance(a.t, int) else bv.sgn(a.t, a.w) % m
    return _trim_mod(t, w, m)


def _trim_mod(t, w, m):
    if isinstance(t, int):
        return t
    k = (m - 1).bit_length()
    return mkint(bv.extract(t, 0, k, w), k, False)


def _fdiv(a, b):
    m = conc(b)
    if m is None or m <= 0:
        raise Unsupported('divisor not a positive constant')
    if m & (m - 1) == 0:
        return _shr(a, coerce(m.bit_length() - 1)) if m > 1 else a
    if not a.s:
        w = max(a.w, b.w)
        return mkint(bv.udiv(a.as_w(w), m, w), w, False)
    raise Unsupported('signed floor division')


for _n, _f in (('add', _add), ('sub', _sub), ('mul', _mul), ('and', _and), ('or', _or), ('xor', _xor), ('lshift', _shl),
               ('rshift', _shr), ('mod', _mod), ('floordiv', _fdiv)):
    _o, _r = _bin(_f)
    setattr(SInt, '__%s__' % _n, _o)
    setattr(SInt, '__r%s__' % _n, _r)


def _pow(a, b, m=None):
    if m is not None or not isinstance(b, int) or b < 0:
        return NotImplemented
    r = 1
    for _ in range(b):
        r = a * r
    return r


SInt.__pow__ = _pow


def _divmod(a, b):
    return a // b, a % b


SInt.__divmod__ = _divmod


def _cmp(pred):
    def op(a, b):
        b = coerce(b)
        if b is None:
            return NotImplemented
        if not a.s and not b.s:
            w = max(a.w, b.w)
            p = {'slt': 'ult', 'sle': 'ule', 'sgt': 'ugt', 'sge': 'uge'}.get(pred, pred)
            return sbool(bv.icmp(p, a.as_w(w), b.as_w(w), w))
        w = max(a.sw(), b.sw())
        return sbool(bv.icmp(pred, a.as_w(w), b.as_w(w), w))
    return op


class RInt(SInt):
    """an input integer: decisions on comparisons with constants narrow its representation (the path condition holds the
    fact, so the narrowed bits denote the same value)"""
    __slots__ = ('lo', 'hi')

    def __init__(self, t, w, signed):
        SInt.__init__(self, t, w, signed)
        self.lo, self.hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)

    def narrow(self, lo, hi):
        lo, hi = max(lo, self.lo), min(hi, self.hi)
        if lo > hi or (lo, hi) == (self.lo, self.hi):
            return
        self.lo, self.hi = lo, hi
        sg = lo < 0
        w = max(max(hi, -lo - 1).bit_length() + 1 if sg else hi.bit_length(), 1)
        if w < self.w or sg != self.s:
            self.t, self.w, self.s = bv.frombits(bv.tobits(self.t, self.w)[:w]), min(w, self.w), sg


def _rcmp(pred, base):
    rng = {'slt': lambda k: ((None, k - 1), (k, None)), 'sle': lambda k: ((None, k), (k + 1, None)),
           'sgt': lambda k: ((k + 1, None), (None, k)), 'sge': lambda k: ((k, None), (None, k - 1))}[pred]

    def op(a, b):
        r = base(a, b)
        if isinstance(r, SBool) and isinstance(b, int):
            y, n = rng(b)

            def hook(d):
                lo, hi = y if d else n
                a.narrow(a.lo if lo is None else lo, a.hi if hi is None else hi)
            r.hook = hook
        return r
    return op


for _n, _p in (('lt', 'slt'), ('le', 'sle'), ('gt', 'sgt'), ('ge', 'sge')):
    setattr(RInt, '__%s__' % _n, _rcmp(_p, _cmp(_p)))
for _n, _p in (('lt', 'slt'), ('le', 'sle'), ('gt', 'sgt'), ('ge', 'sge'), ('eq', 'eq'), ('ne', 'ne')):
    setattr(SInt, '__%s__' % _n, _cmp(_p))


def var(name, w, signed=False):
    return SInt(bv.var(name, w), w, signed)


def term(x, w):
    """two's complement term of an int or SInt on w bits"""
    return coerce(x).as_w(w)


def ieq(a, b):
    """condition: the integers are equal"""
    return zb(coerce(a) == coerce(b))


# ---------------------------------------------------------------------------------------------- byte strings
class VBytes:
    """byte string of concrete length with symbolic elements"""
    mutable = False

    def __init__(self, l=()):
        self.l = list(l)

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return iter(list(self.l))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return type(self)(self.l[i])
        return self.l[i]

    def __add__(self, o):
        if isinstance(o, Seq):
            return NotImplemented
        return type(self)(self.l + list(o))

    def __radd__(self, o):
        if isinstance(o, Seq):
            return NotImplemented
        return VBytes(list(o) + self.l)

    def __mul__(self, k):
        return type(self)(self.l * k)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, VBytes)):
            return False
        if len(o) != len(self):
            return False
        return sbool(bv.band(*[ieq(a, b) for a, b in zip(self.l, o)]))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else sbool(bv.bnot(r.c))

    __hash__ = None

    def hex(self):
        return VHex(list(self.l))

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.l
            out += list(p)
        return VBytes(out)


class VByteArray(VBytes):
    mutable = True

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.l[i] = list(v)
            return
        if not isinstance(v, (int, SInt)):
            raise TypeError('an integer is required')
        if bool(v < 0) or bool(v > 255):
            raise ValueError('byte must be in range(0, 256)')
        self.l[i] = v

    def extend(self, o):
        self.l.extend(list(o))

    def append(self, v):
        self.l.append(None)
        self[len(self.l) - 1] = v

    def __iadd__(self, o):
        self.l.extend(list(o))
        return self


class VHex:
    """hexadecimal text of a VBytes"""
    __hash__ = None

    def __init__(self, l):
        self.l = l

    def __len__(self):
        return 2 * len(self.l)

    def __getitem__(self, i):
        if not isinstance(i, slice):
            raise Unsupported('a digit of hexadecimal text')
        a, b, st = i.indices(2 * len(self.l))
        if st != 1 or a % 2 or b % 2:
            raise Unsupported('slice of hexadecimal text')
        return VHex(self.l[a // 2:b // 2])

    def __add__(self, o):
        if isinstance(o, str):
            o = VHex(list(bytes.fromhex(o)))
        return VHex(self.l + o.l) if isinstance(o, VHex) else NotImplemented

    def __radd__(self, o):
        return VHex(list(bytes.fromhex(o)) + self.l) if isinstance(o, str) else NotImplemented


def _chk_byte(v):
    if not isinstance(v, (int, SInt)):
        raise TypeError('an integer is required')
    if bool(v < 0) or bool(v > 255):
        raise ValueError('bytes must be in range(0, 256)')
    return v


_bytes, _bytearray, _len, _int, _range, _sum, _min, _max = bytes, bytearray, len, int, range, sum, min, max


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real) or (hasattr(x, '_is_bytes') and cls is s_bytes) or (isinstance(x, VBytes) and x.mutable == (cls is s_bytearray))

    def __call__(cls, *a, **k):
        return cls.make(*a, **k)


class s_bytes(metaclass=_BytesMeta):
    real = _bytes

    @staticmethod
    def make(x=b'', *a, **k):
        if a or k or isinstance(x, (_bytes, _bytearray)) :
            return _bytes(x, *a, **k)
        if hasattr(x, '_to_bytes'):
            return x._to_bytes()
        if isinstance(x, VBytes):
            return VBytes(x.l)
        if isinstance(x, _int):
            return _bytes(x)
        l = [_chk_byte(v) for v in x]
        if all(isinstance(v, _int) for v in l):
            return _bytes(l)
        return VBytes(l)

    fromhex = staticmethod(lambda h: VBytes(h.l) if isinstance(h, VHex) else h._fromhex() if hasattr(h, '_fromhex') else _bytes.fromhex(h))


class s_bytearray(metaclass=_BytesMeta):
    real = _bytearray

    @staticmethod
    def make(x=b'', *a, **k):
        if hasattr(x, '_to_bytearray'):
            return x._to_bytearray()
        if isinstance(x, _int):
            return VByteArray([0] * x)
        return VByteArray([_chk_byte(v) for v in x])


def s_len(x):
    if hasattr(x, '_slen'):
        return x._slen()
    return _len(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _int) or isinstance(x, SInt) or hasattr(x, '_is_int')

    def __subclasscheck__(cls, x):
        return issubclass(x, _int)

    def __call__(cls, x=0, base=None):
        if base is not None:
            if hasattr(x, '_to_int'):
                return x._to_int(base)
            return _int(x, base)
        if isinstance(x, SInt) or hasattr(x, '_is_int'):
            return x
        if isinstance(x, SBool):
            return x._num()
        if hasattr(x, '_int_'):
            return x._int_()
        return _int(x)

    def __eq__(cls, o):
        return o is _int or o is s_int

    def __hash__(cls):
        return hash(_int)


class s_int(metaclass=_IntMeta):
    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        if isinstance(b, (_bytes, _bytearray)):
            return _int.from_bytes(b, byteorder, signed=signed)
        if hasattr(b, '_from_bytes'):
            return b._from_bytes(byteorder)
        if signed:
            raise Unsupported('signed from_bytes')
        l = list(b)
        if byteorder == 'big':
            l = l[::-1]
        if all(isinstance(x, _int) for x in l):
            return _int.from_bytes(_bytes(l), 'little')
        if not l:
            return 0
        if CTX.E.int_bytes:
            return zint(z3.Sum([zt(x) * (1 << (8 * i)) for i, x in enumerate(l)]))
        t = bv.concat([(term(x, 8), 8) for x in l])
        return mkint(t, 8 * len(l), False)


def s_sum(it, start=0):
    if hasattr(it, '_slen') and not isinstance(it._slen(), _int):
        return start + sum_of(it)
    r = start
    for x in it:
        r = r + x
    return r


def sum_of(s):
    """sum of the elements of a sequence of symbolic length: an unknown that depends on the elements only"""
    if s.kind != 'ints':
        raise Unsupported('sum')
    E = CTX.E
    reg = CTX.notes.setdefault('sums', [])
    k = z3.Int('sum_k')
    for n, get, z in reg:
        if E.valid(s.nt() == n) and E.valid(z3.Implies(z3.And(k >= 0, k < n), s.at(k) == get(k))):
            return zint(z)
    z = z3.Int(CTX.name('sum'))
    reg.append((s.nt(), s.get, z))
    return zint(z)


def s_all(it):
    if isinstance(it, Seq) and it.kind == 'bools':
        E = CTX.E
        k = z3.Int('all_k')
        n = it.nt()
        b, w = z3.Bool(CTX.name('all')), z3.Int(CTX.name('wit'))
        CTX.assume(z3.Implies(b, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), it.at(k)))))
        CTX.assume(z3.Implies(z3.Not(b), z3.And(w >= 0, w < n, z3.Not(it.at(w)))))
        return SBool(b)
    for x in it:
        if not x:
            return False
    return True


def s_any(it):
    if isinstance(it, Seq) and it.kind == 'bools':
        g = it.get
        return SBool(z3.Not(s_all(Seq(it.n, lambda k: z3.Not(g(k)), 'bools')).c))
    for x in it:
        if x:
            return True
    return False


class Items:
    """iterable of symbolic length whose items are tuples"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def _slen(self):
        return self.n

    def _item(self, k):
        return self.item(k)

    def __iter__(self):
        raise Unsupported('iteration over a sequence of symbolic length')


def _sym(x):
    return hasattr(x, '_slen') and not isinstance(x._slen(), _int)


def item_of(x, k):
    if hasattr(x, '_item'):
        return x._item(k)
    return x.wrap(x.at(k))


def s_zip(*a, **kw):
    if not any(_sym(x) for x in a):
        return zip(*a, **kw)
    n = a[0]._slen() if hasattr(a[0], '_slen') else _len(a[0])
    for x in a[1:]:
        m = x._slen() if hasattr(x, '_slen') else _len(x)
        n = n if bool(n <= m) else m
    if isinstance(n, _int):
        raise Unsupported('zip')
    l = [x if hasattr(x, '_slen') else to_seq(x, 'ints') for x in a]
    return Items(n, lambda k: tuple(item_of(x, k) for x in l))


def s_enumerate(x, start=0):
    if not _sym(x):
        return enumerate(x, start)
    return Items(x._slen(), lambda k: (zint(k + start), item_of(x, k)))


def s_ite(c, a, b):
    """a() if c else b()"""
    if isinstance(c, SBool) and CTX.uniform:
        m = _len(CTX.pc)
        CTX.pc.append(c.c)
        x = a()
        CTX.pc[m:] = [z3.Not(c.c)]
        y = b()
        del CTX.pc[m:]
        if zt(x) is None or zt(y) is None:
            raise Unsupported('conditional expression')
        return zint(z3.If(c.c, zt(x), zt(y)))
    return a() if c else b()


def s_bool(op, *f):
    """and / or of expressions inside a comprehension"""
    acc = None
    m = _len(CTX.pc)
    try:
        for i, x in enumerate(f):
            v = x()
            if not isinstance(v, SBool):
                if isinstance(v, bool) and i < _len(f) - 1:
                    if v is (op == 'or'):
                        return v if acc is None else SBool(acc)
                    continue
                if isinstance(v, bool):
                    return v if acc is None else SBool(bv.band(acc, v) if op == 'and' else bv.bor(acc, v))
                raise Unsupported('and/or of values')
            acc = v.c if acc is None else (bv.band if op == 'and' else bv.bor)(acc, v.c)
            CTX.pc.append(v.c if op == 'and' else z3.Not(v.c))
    finally:
        del CTX.pc[m:]
    return sbool(acc) if isinstance(acc, bool) else (SBool(acc) if acc is not None else op == 'and')


def s_not(v):
    return sbool(bv.bnot(v.c)) if isinstance(v, SBool) and CTX.uniform else not v


def s_join(sep, f, it):
    """sep.join(f(x) for x in it)"""
    if not _sym(it) or _len(sep):
        return s_joinl(sep, [f(x) for x in it]) if not _sym(it) else _no_join()
    n = it._slen()
    k = z3.Int(CTX.name('elt'))
    m = _len(CTX.pc)
    CTX.pc += [k >= 0, k < zt(n)]
    CTX.uniform += 1
    v = f(item_of(it, k))
    CTX.uniform -= 1
    del CTX.pc[m:]
    w = s_len(v)
    if not isinstance(w, _int) or w == 0:
        raise Unsupported('join of pieces of different lengths')
    el = [const_elem(x, 'bytes') for x in v]

    def get(i):
        r = z3.substitute(el[-1], (k, i / w))
        for j in range(w - 1):
            r = z3.If(i % w == j, z3.substitute(el[j], (k, i / w)), r)
        return r
    return Seq(n * w, get, 'bytes')


def s_joinl(sep, it):
    """sep.join(it)"""
    if isinstance(sep, str) and not sep and not isinstance(it, str):
        it = list(it)
        if any(isinstance(x, VHex) or hasattr(x, '_hextext') for x in it):
            l = []
            for x in it:
                x = x._hextext() if hasattr(x, '_hextext') else x
                l += x.l if isinstance(x, VHex) else list(bytes.fromhex(x))
            return VHex(l)
    return sep.join(it)


def _no_join():
    raise Unsupported('join')


def s_acc(acc, f, it):
    """for x in it: acc += f(x)"""
    if not _sym(it):
        for x in it:
            acc += f(x)
        return acc
    return acc + s_sum(s_map(f, it))


def s_format(x, spec=''):
    if hasattr(x, '_format'):
        return x._format(spec)
    return format(x, spec)


def s_bin(x):
    if hasattr(x, '_bin'):
        return x._bin()
    return bin(x)


def s_range(*a):
    if all(isinstance(x, _int) for x in a):
        return _range(*a)
    return SRange(*a)


class SRange:
    """range with symbolic bounds: only for loops that are cut and comprehensions"""

    def __init__(self, a, b=None, step=1):
        self.a, self.b = (0, a) if b is None else (a, b)
        self.step = step

    def _slen(self):
        if not isinstance(self.step, _int) or self.step <= 0:
            raise Unsupported('range')
        d = self.b - self.a + (self.step - 1)
        n = zt(d) / self.step
        return zint(z3.If(n > 0, n, z3.IntVal(0)))

    def _item(self, k):
        return zint(zt(self.a) + k * self.step)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of a range')
        return self._item(zt(i))

    def _siter(self):
        return self

    def __iter__(self):
        raise Unsupported('loop over a symbolic range without an invariant')


class RangeIt:
    """a concrete range that an invariant may index symbolically"""

    def __init__(self, r):
        self.r = r

    def __len__(self):
        return _len(self.r)

    def __getitem__(self, i):
        if isinstance(i, _int):
            return self.r[i]
        return zint(self.r.start + zt(i) * self.r.step)

    def __iter__(self):
        return iter(self.r)


def s_map(f, it):
    """[f(x) for x in it]"""
    if not _sym(it):
        return [f(x) for x in it]
    n = it._slen()
    if not bool(n > 0):
        return []
    k = z3.Int(CTX.name('elt'))
    m = _len(CTX.pc)
    CTX.pc += [k >= 0, k < zt(n)]
    CTX.uniform += 1
    v = f(item_of(it, k))
    CTX.uniform -= 1
    del CTX.pc[m:]
    if hasattr(v, '_vx_vec'):
        return v._vx_vec(n, k)
    if isinstance(v, SInt) and v.w <= 8 and not v.s:
        kind, e = 'bytes', bv.z(term(v, 8), 8)
    elif isinstance(v, BitChar):
        kind, e = 'bits', zbb(v.c)
    elif isinstance(v, (SBool, bool)):
        kind, e = 'bools', zbb(zb(v))
    else:
        kind, e = 'ints', zt(v)
        if e is None:
            raise Unsupported('elements of a comprehension')
    return (MSeq if kind == 'ints' else Seq)(n, lambda i: z3.substitute(e, (k, i)), kind)


def s_print(*a, **k):
    pass


# ---------------------------------------------------------------------------------------------- loading and loop cuts
class LoopCut:
    """Base of loop specifications.  head(env) is called at every arrival at the loop head with the local variables."""

    def head(self, ctx, env, visit):
        raise NotImplementedError


class _Uniform(ast.NodeTransformer):
    """expressions inside comprehensions: conditions are merged instead of forking the path"""

    def _l(self, e):
        return ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), e)

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__vx_ite__', ast.Load()), [node.test, self._l(node.body), self._l(node.orelse)], []), node)

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__vx_bool__', ast.Load()), [ast.Constant('and' if isinstance(node.op, ast.And) else 'or')]
                                          + [self._l(v) for v in node.values], []), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return node
        l = [node.left] + node.comparators
        return self.visit_BoolOp(ast.copy_location(ast.BoolOp(ast.And(), [ast.Compare(l[i], [node.ops[i]], [l[i + 1]]) for i in range(len(node.ops))]), node))

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(ast.Call(ast.Name('__vx_not__', ast.Load()), [node.operand], []), node)
        return node


class _Cutter(ast.NodeTransformer):
    """cuts the loops of the functions named in cuts (qualified name -> list of keys, one per loop in source order, None =
    unroll)"""

    def __init__(self, cuts, rewrite=False):
        self.cuts = cuts
        self.rewrite = rewrite
        self.stack = []
        self.found = {}
        self.n = 0
        self.fn = None

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        q = '.'.join(self.stack)
        old = self.fn
        self.fn = q if q in self.cuts or '*while' in self.cuts else None
        if self.fn:
            self.found[q] = 0
            a = node.args
            self.locals = set(self._assigned(node)) | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x}
        self.generic_visit(node)
        self.fn = old
        self.stack.pop()
        return node

    def _assigned(self, node):
        out = []
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out:
                out.append(x.id)
        return [v for v in out if not v.startswith('__vx')]

    def _mutated(self, node):
        """variables whose object may change: x[...] = , x.a = , x.f(...), del x[...]"""
        out = []
        for x in ast.walk(node):
            b = None
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                b = x
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                b = x.func
            elif isinstance(x, ast.AugAssign):
                b = x.target
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id not in out:
                out.append(b.id)
            if isinstance(x, ast.Call):
                out += [a.id for a in x.args if isinstance(a, ast.Name) and a.id not in out]
        return [v for v in out if not v.startswith('__vx')]

    def _loop(self, node, test, pre, post_head):
        q = self.fn
        k = self.found[q]
        self.found[q] += 1
        if q not in self.cuts:
            return q, k, self.cuts['*while'] if isinstance(node, ast.While) else None
        spec = self.cuts[q]
        # [..., Ellipsis]: the loops after the named ones are unrolled
        open_ = bool(spec) and spec[-1] is Ellipsis
        key = None if open_ and k >= len(spec) - 1 else spec[k] if k < len(spec) else 'EXTRA'
        return q, k, key

    def visit_While(self, node):
        if not self.fn:
            return self.generic_visit(node)
        q, k, key = self._loop(node, None, None, None)
        names = self._assigned(ast.Module(body=node.body, type_ignores=[]))
        self.generic_visit(node)
        if key is None:
            return node
        return self._build(q, k, names, node, ast.UnaryOp(ast.Not(), node.test), node.body)

    def visit_For(self, node):
        r = self._rewrite(node)
        if r is not None:
            return self.visit(r) if not isinstance(r, ast.Assign) else self.generic_visit(r)
        if not self.fn:
            return self.generic_visit(node)
        q, k, key = self._loop(node, None, None, None)
        names = self._assigned(ast.Module(body=node.body + [ast.Assign([node.target], ast.Constant(0), lineno=1)], type_ignores=[]))
        self.generic_visit(node)
        if key is None:
            return node
        self.n += 1
        it, ix = '__vx_it%d' % self.n, '__vx_i%d' % self.n
        pre = ast.parse('%s = __vx_iter__(None)\n%s = 0' % (it, ix)).body
        pre[0].value.args = [node.iter]
        body = ast.parse('x = %s[%s]\n%s = %s + 1' % (it, ix, ix, ix)).body
        body[0].targets = [node.target]
        test = ast.parse('not (%s < __vx_len__(%s))' % (ix, it)).body[0].value
        return pre + [self._build(q, k, names + [ix], node, test, body + node.body, it, ix)]

    def _lam(self, node):
        """lambda for the element of a comprehension with one generator and no condition"""
        g = node.generators
        if len(g) != 1 or g[0].ifs or g[0].is_async:
            return None
        elt = _Uniform().visit(node.elt)
        return self._fun(g[0].target, elt)

    def _fun(self, target, elt):
        if isinstance(target, ast.Name):
            names, star = [target.id], False
        elif isinstance(target, ast.Tuple) and all(isinstance(x, ast.Name) for x in target.elts):
            names, star = [x.id for x in target.elts], True
        else:
            return None
        lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]), elt)
        if star:
            lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg('__vx_t')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             ast.Call(lam, [ast.Starred(ast.Name('__vx_t', ast.Load()), ast.Load())], []))
        return lam

    def visit_ListComp(self, node):
        self.generic_visit(node)
        lam = self._lam(node)
        if lam is None:
            return node
        return ast.copy_location(ast.Call(ast.Name('__vx_map__', ast.Load()), [lam, node.generators[0].iter], []), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('sum', 'all', 'any') and len(node.args) == 1 and not node.keywords \
                and isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)) and len(node.args[0].generators) > 1:
            ge = node.args[0]
            inner = ast.Call(ast.Name(node.func.id, ast.Load()), [ast.GeneratorExp(ge.elt, ge.generators[1:])], [])
            node.args[0] = ast.GeneratorExp(inner, ge.generators[:1])
        self.generic_visit(node)
        if len(node.args) == 1 and not node.keywords and isinstance(node.args[0], ast.GeneratorExp):
            ge = node.args[0]
            lam = self._lam(ge)
            if lam is None:
                return node
            it = ge.generators[0].iter
            if isinstance(node.func, ast.Name) and node.func.id in ('sum', 'all', 'any', 'list'):
                node.args[0] = ast.copy_location(ast.Call(ast.Name('__vx_map__', ast.Load()), [lam, it], []), node)
            elif isinstance(node.func, ast.Attribute) and node.func.attr == 'join':
                return ast.copy_location(ast.Call(ast.Name('__vx_join__', ast.Load()), [node.func.value, lam, it], []), node)
        elif len(node.args) == 1 and not node.keywords and isinstance(node.func, ast.Attribute) and node.func.attr == 'join' \
                and not isinstance(node.args[0], ast.Starred) and isinstance(node.func.value, ast.Constant):
            return ast.copy_location(ast.Call(ast.Name('__vx_joinl__', ast.Load()), [node.func.value, node.args[0]], []), node)
        return node

    def _rewrite(self, node):
        """loops over all items that only look for an item (`if TEST: return ...`), check each (`assert TEST`) or add up
        (`acc += EXPR`), as an expression over the whole sequence"""
        if not self.rewrite or node.orelse or len(node.body) != 1:
            return None
        s = node.body[0]
        tn = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        used = lambda l: {x.id for y in l for x in ast.walk(y) if isinstance(x, ast.Name)}

        def call(fn, elt, *pre):
            import copy
            lam = self._fun(node.target, _Uniform().visit(copy.deepcopy(elt)))
            if lam is None:
                return None
            return ast.Call(ast.Name(fn, ast.Load()), list(pre) + [lam, node.iter], [])
        r = None
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], (ast.Return, ast.Raise)) \
                and not used(s.body) & tn:
            c = call('__vx_map__', s.test)
            r = c and ast.If(ast.Call(ast.Name('any', ast.Load()), [c], []), s.body, [])
        elif isinstance(s, ast.Assert):
            c = call('__vx_map__', s.test)
            r = c and ast.Assert(ast.Call(ast.Name('all', ast.Load()), [c], []), None)
        elif isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id not in used([s.value]):
            c = call('__vx_acc__', s.value, ast.Name(s.target.id, ast.Load()))
            r = c and ast.Assign([ast.Name(s.target.id, ast.Store())], c)
        return r and ast.copy_location(r, node)

    def _build(self, q, k, names, node, exit_test, body, it=None, ix=None):
        if node.orelse:
            raise Unsupported('loop with else in ' + q)
        mut = [n for n in self._mutated(ast.Module(body=[ast.Expr(exit_test)] + body, type_ignores=[])) if n not in names and n in self.locals]
        src = '__vx_h = __vx_head__(%r, %d, %r, %r, %s, {**locals()})\n' % (q, k, names, mut, repr((it, ix)))
        for n in names + mut:
            src += 'if %r in __vx_h: %s = __vx_h[%r]\n' % (n, n, n)
        head = ast.parse(src).body
        brk = ast.If(exit_test, [ast.Break()], [])
        w = ast.While(ast.Constant(True), head + [brk] + body, [])
        return ast.copy_location(w, node)


class Unknown:
    """value of a variable that a loop changes and its invariant does not mention"""
    __hash__ = None

    def __init__(self, n):
        object.__setattr__(self, '_vx_n', n)

    def _no(self, *a, **k):
        raise Unsupported('the loop invariant says nothing about ' + object.__getattribute__(self, '_vx_n'))


for _n in ('add sub mul floordiv truediv mod pow lshift rshift and or xor neg pos abs invert lt le gt ge eq ne bool len iter '
           'getitem setitem delitem contains call int index format str repr getattr setattr enter exit float').split():
    setattr(Unknown, '__%s__' % _n, Unknown._no)
    setattr(Unknown, '__r%s__' % _n, Unknown._no)
    setattr(Unknown, '__i%s__' % _n, Unknown._no)


class Module:
    pass


def strip_main(tree):
    tree.body = [n for n in tree.body if not (isinstance(n, ast.If) and isinstance(n.test, ast.Compare)
                                              and isinstance(n.test.left, ast.Name) and n.test.left.id == '__name__')]
    return tree


def load(name, cuts=None, stubs=None, loops=None, extra_builtins=None, path=None, rewrite=False):
    """execute /repo/pythonref/<name>.py symbolically ready; stubs: module name -> object for imports"""
    path = path or os.path.join(PYREF, name.replace('.', '/') + '.py')
    src = open(path).read()
    tree = strip_main(ast.parse(src))
    cutter = _Cutter(cuts or {}, rewrite)
    tree = cutter.visit(tree)
    ast.fix_missing_locations(tree)
    for q, spec in (cuts or {}).items():
        if q == '*while':
            continue
        if cutter.found.get(q) is None:
            raise Unsupported('function %s not found in %s' % (q, path))
        if cutter.found[q] != len(spec) and not (spec and spec[-1] is Ellipsis and cutter.found[q] >= len(spec) - 1):
            raise Unsupported('%s has %d loops, its contract covers %d' % (q, cutter.found[q], len(spec)))
    loops = loops or {}

    def head(q, k, names, mut, itx, env):
        key = (q, k)
        ck = cuts[q][k] if q in cuts else cuts['*while']
        spec = loops.get((q, ck)) or loops[ck]
        CTX.E.res.functions.add(os.path.relpath(path, REPO) + ':' + q)
        v = CTX.heads.get(key, 0)
        CTX.heads[key] = v + 1
        env = {a: b for a, b in env.items() if a != '__vx_h'}
        r = dict(spec.head(CTX, env, v, names, itx) or {})
        # whatever the loop may change and the invariant does not speak about is unknown in an arbitrary round
        for n in names + mut:
            if n not in r and n in env and (n in names or isinstance(env[n], (list, dict, set, _bytearray, MSeq))):
                r[n] = Unknown(n)
        return r

    bi = dict(vars(builtins))
    bi.update(bytes=s_bytes, bytearray=s_bytearray, len=s_len, int=s_int, sum=s_sum, format=s_format, bin=s_bin,
              range=s_range, print=s_print, min=s_min, max=s_max, all=s_all, any=s_any, zip=s_zip, enumerate=s_enumerate)
    bi.update(extra_builtins or {})
    real_import = builtins.__import__
    stubs = stubs or {}

    def imp(nm, g=None, l=None, fromlist=(), level=0):
        if nm in stubs:
            if not fromlist:
                top = nm.split('.')[0]
                return stubs.get(top, stubs[nm])
            return stubs[nm]
        if fromlist and not os.path.exists(os.path.join(PYREF, nm.replace('.', '/') + '.py')):
            return real_import(nm, g, l, fromlist, level)
        if os.path.exists(os.path.join(PYREF, nm.replace('.', '/') + '.py')):
            raise Unsupported('import of %s in %s has no contract' % (nm, name))
        return real_import(nm, g, l, fromlist, level)
    bi['__import__'] = imp
    g = {'__name__': name, '__builtins__': bi, '__file__': path,
         '__vx_head__': head, '__vx_iter__': (lambda x: x._siter() if hasattr(x, '_siter') else RangeIt(x) if isinstance(x, _range) else (x if hasattr(x, '__getitem__') else list(x))),
         '__vx_len__': s_len, '__vx_map__': s_map, '__vx_join__': s_join, '__vx_joinl__': s_joinl,
         '__vx_ite__': s_ite, '__vx_bool__': s_bool, '__vx_not__': s_not, '__vx_acc__': s_acc}
    exec(compile(tree, path, 'exec'), g)
    m = types.SimpleNamespace()
    m.__dict__.update({k: v for k, v in g.items()})
    m._g = g
    return m


def ns(**k):
    return types.SimpleNamespace(**k)


# ---------------------------------------------------------------------------------------------- mathematical integers
class ZInt:
    """integer as a z3 Int term (lengths, counters, unbounded values)"""
    __slots__ = ('t',)
    _is_int = True
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '<ZInt %s>' % str(self.t)[:40]

    def __format__(self, spec):
        return '<symbolic>'

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        raise Unsupported('symbolic index')

    def __int__(self):
        raise Unsupported('int() of a symbolic integer by the interpreter')

    def __neg__(self):
        return zint(-self.t)

    def __abs__(self):
        return zint(z3.If(self.t < 0, -self.t, self.t))

    def __round__(self):
        return self

    def _format(self, spec):
        return Fmt(self, spec)

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if signed or not isinstance(length, _int) or byteorder not in ('big', 'little'):
            raise Unsupported('to_bytes')
        if bool(self < 0) or bool(self >= 1 << (8 * length)):
            raise OverflowError('int too big to convert')
        l = [mkint(bv.mk(8, z3.Int2BV((self.t / (1 << (8 * j))) % 256, 8)), 8, False) for j in range(length)]
        return VBytes(l[::-1] if byteorder == 'big' else l)


def zt(x):
    """z3 Int term of an int, ZInt, SInt"""
    if isinstance(x, ZInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SInt):
        return z3.BV2Int(bv.z(x.t, x.w), is_signed=x.s)
    if isinstance(x, SBool):
        return z3.If(x.c, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    return None


def zint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return ZInt(t)


def _zop(f):
    def op(a, b):
        b = zt(b)
        return NotImplemented if b is None else f(a.t, b)

    def rop(a, b):
        b = zt(b)
        return NotImplemented if b is None else f(b, a.t)
    return op, rop


def _zconst(t):
    return t.as_long() if z3.is_int_value(t) else None


def _zmod(a, b):
    m = _zconst(b)
    if m is None or m <= 0:
        raise Unsupported('modulus not a positive constant')
    return zint(a % b)


def _zfdiv(a, b):
    m = _zconst(b)
    if m is None or m <= 0:
        raise Unsupported('divisor not a positive constant')
    return zint(a / b)


def _zshl(a, b):
    k = _zconst(b)
    if k is None:
        raise Unsupported('shift by a symbolic amount')
    return zint(a * (1 << k))


def _zshr(a, b):
    k = _zconst(b)
    if k is None:
        raise Unsupported('shift by a symbolic amount')
    return zint(a / (1 << k))


def _zand(a, b):
    for x, y in ((a, b), (b, a)):
        m = _zconst(y)
        if m is not None and m >= 0 and m & (m + 1) == 0:
            return zint(x % (m + 1))
    raise Unsupported('& of symbolic integers')


for _n, _f in (('add', lambda a, b: zint(a + b)), ('sub', lambda a, b: zint(a - b)), ('mul', lambda a, b: square(a) if CTX.E.square_uf and a.eq(b) else zint(a * b)),
               ('mod', _zmod), ('floordiv', _zfdiv), ('lshift', _zshl), ('rshift', _zshr), ('and', _zand)):
    _o, _r = _zop(_f)
    setattr(ZInt, '__%s__' % _n, _o)
    setattr(ZInt, '__r%s__' % _n, _r)
for _n, _f in (('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b),
               ('ge', lambda a, b: a >= b), ('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b)):
    setattr(ZInt, '__%s__' % _n, (lambda f: lambda a, b: NotImplemented if zt(b) is None else sbool(_zsimp(f(a.t, zt(b)))))(_f))
SQ = z3.Function('SQ', z3.IntSort(), z3.IntSort())


def square(t):
    return zint(SQ(z3.If(t < 0, -t, t)))


ZInt.__pow__ = lambda a, b, m=None: square(a.t) if CTX.E.square_uf and isinstance(b, _int) and b == 2 and m is None else _pow(a, b, m)
ZInt.__mul__ = (lambda old: lambda a, b: b.__rmul__(a) if isinstance(b, (Seq, str, _bytes)) and not isinstance(b, (str, _bytes)) else (rep_const(b, a) if isinstance(b, (str, _bytes, list)) else old(a, b)))(ZInt.__mul__)
ZInt.__rmul__ = (lambda old: lambda a, b: rep_const(b, a) if isinstance(b, (str, _bytes, list)) else old(a, b))(ZInt.__rmul__)


def _zsimp(c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def zvar(name, lo=None, hi=None):
    v = z3.Int(name)
    if lo is not None:
        CTX.assume(v >= lo)
    if hi is not None:
        CTX.assume(v <= hi)
    return ZInt(v)


# ---------------------------------------------------------------------------------------------- sequences of any length
BV8 = z3.BitVecSort(8)


class Seq:
    """immutable sequence: length (int or z3 Int), get(z3 Int) -> z3 element; kind: 'bytes' (BV8), 'bits' (Bool; a str of
    0 and 1), 'ints' (Int; a list)"""
    __hash__ = None

    def __init__(self, n, get, kind):
        self.n = n
        self.get = get
        self.kind = kind

    @property
    def _is_bytes(self):
        if self.kind != 'bytes':
            raise AttributeError
        return True

    def _slen(self):
        return zint(zt(ZInt(self.n)) if not isinstance(self.n, (int, ZInt)) else zt(self.n))

    def nt(self):
        return zt(self._slen())

    def wrap(self, e):
        if self.kind == 'bytes':
            return mkint(bv.mk(8, e), 8, False)
        if self.kind == 'bits':
            return BitChar(e)
        if self.kind == 'bools':
            return sbool(_zsimp(e))
        return zint(e)

    def at(self, i):
        return self.get(z3.IntVal(i) if isinstance(i, int) else i)

    def idx(self, i):
        """Python index -> z3 Int, IndexError when outside"""
        n = self._slen()
        if isinstance(i, SInt):
            i = zint(zt(i))
        if bool(i < 0):
            i = i + n
            if bool(i < 0):
                raise IndexError('index out of range')
        if bool(i >= n):
            raise IndexError('index out of range')
        return zt(i)

    def bound(self, i, default):
        n = self._slen()
        if i is None:
            return default
        if isinstance(i, SInt):
            i = zint(zt(i))
        if bool(i < 0):
            i = i + n
            if bool(i < 0):
                return 0
            return i
        if bool(i > n):
            return n
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                raise Unsupported('slice step')
            a = self.bound(i.start, 0)
            b = self.bound(i.stop, self._slen())
            if bool(b <= a):
                return type(self)(0, self.get, self.kind)
            at = zt(a)
            g = self.get
            return type(self)(b - a, (lambda k: g(k + at)) if not (isinstance(a, int) and a == 0) else g, self.kind)
        return self.wrap(self.get(self.idx(i)))

    def __add__(self, o):
        o = to_seq(o, self.kind)
        return cat(self, o)

    def __radd__(self, o):
        return cat(to_seq(o, self.kind), self)

    def __iter__(self):
        n = self._slen()
        if not isinstance(n, int):
            raise Unsupported('iteration over a sequence of symbolic length')
        for i in range(n):
            yield self.wrap(self.at(i))

    def __eq__(self, o):
        if isinstance(o, (str, _bytes, list)) and len(o) == 0:
            return sbool(_zsimp(self.nt() == 0)) if (isinstance(o, str) == (self.kind == 'bits')) else False
        raise Unsupported('comparison of symbolic sequences')

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else sbool(bv.bnot(r.c))

    def __bool__(self):
        return bool(self != ({'bits': '', 'bytes': b'', 'ints': []}[self.kind]))

    def _to_int(self, base):
        """int(bits, 2)"""
        n = self._slen()
        if base != 2 or self.kind != 'bits':
            raise Unsupported('int(text, %d)' % base)
        if not isinstance(n, int):
            for k in range(0, 65):
                if bool(n == k):
                    n = k
                    break
            else:
                raise Unsupported('int() of text of symbolic length')
        if n == 0:
            raise ValueError("invalid literal for int() with base 2: ''")
        bits = [self.at(n - 1 - i) for i in range(n)]
        if CTX.E.int_bits:
            return zint(z3.Sum([z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)) for i, b in enumerate(bits)]))
        return mkint(bv.concat([(bv.b2bv(_zsimp(b), 1), 1) for b in bits]), n, False)

    def _to_bytes(self):
        return Seq(self.n, self.get, 'bytes')

    def hexseq(self):
        return self


class MSeq(Seq):
    """mutable sequence (bytearray, list, array of bytes) of any length; fixed=True: a numpy array, whose length never changes"""

    def __init__(self, n, get, kind, fixed=False):
        Seq.__init__(self, n, get, kind)
        self.fixed = fixed

    def snap(self):
        return Seq(self.n, self.get, self.kind)

    def __getitem__(self, i):
        r = self.snap()[i]
        return MSeq(r.n, r.get, r.kind, self.fixed) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        g = self.get
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('slice step')
            a = self.bound(i.start, 0)
            b = self.bound(i.stop, self._slen())
            if bool(b < a):
                b = a
            at, bt = zt(a), zt(b)
            if self.fixed and isinstance(v, (_int, SInt)):
                e = const_elem(v, self.kind)
                self.get = lambda k: z3.If(z3.And(k >= at, k < bt), e, g(k))
                return
            v = to_seq(v.snap() if isinstance(v, MSeq) else v, self.kind)
            m = v.nt()
            if self.fixed:
                if bool(v._slen() != b - a):
                    raise ValueError('could not broadcast input array')
            else:
                self.n = zint(self.nt() - (bt - at) + m)
            vg = v.get
            same = bool(sbool(_zsimp(m == bt - at)))
            if same:
                self.get = lambda k: z3.If(z3.And(k >= at, k < bt), vg(k - at), g(k))
            else:
                self.get = lambda k: z3.If(k < at, g(k), z3.If(k < at + m, vg(k - at), g(k - m + (bt - at))))
            return
        at = self.idx(i)
        if self.kind == 'bytes':
            if not isinstance(v, (_int, SInt)):
                raise TypeError('an integer is required')
            if not self.fixed and (bool(v < 0) or bool(v > 255)):
                raise ValueError('byte must be in range(0, 256)')
        e = const_elem(v, self.kind)
        self.get = lambda k: z3.If(k == at, e, g(k))

    def extend(self, o):
        o = cat(self.snap(), to_seq(o.snap() if isinstance(o, MSeq) else o, self.kind))
        self.n, self.get = o.n, o.get

    def append(self, v):
        o = cat(self.snap(), seq_of([const_elem(v, self.kind)], self.kind))
        self.n, self.get = o.n, o.get

    def __add__(self, o):
        return cat(self.snap(), to_seq(o.snap() if isinstance(o, MSeq) else o, self.kind))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __ixor__(self, o):
        if isinstance(o, _int) or isinstance(o, SInt):
            raise Unsupported('^= of an array and a number')
        if bool(self._slen() != o._slen()):
            raise ValueError('operands could not be broadcast together')
        g, h = self.get, o.get
        self.get = lambda k: g(k) ^ h(k)
        return self

    def view(self, dtype=None):
        return self

    def tobytes(self):
        return self.snap()

    def copy(self):
        return MSeq(self.n, self.get, self.kind, self.fixed)


def zeros(n, kind='bytes', fixed=False):
    e = zero_elem(kind)
    return MSeq(n, lambda k: e, kind, fixed)


def s_min(*a):
    if len(a) == 1:
        return _min(*a)
    r = a[0]
    for x in a[1:]:
        r = x if bool(x < r) else r
    return r


def s_max(*a):
    if len(a) == 1:
        return _max(*a)
    r = a[0]
    for x in a[1:]:
        r = x if bool(x > r) else r
    return r


def seq_bytearray(x=b''):
    """bytearray as a mutable sequence of any length"""
    if isinstance(x, (_int, ZInt)):
        return zeros(x)
    x = to_seq(x.snap() if isinstance(x, MSeq) else x, 'bytes')
    return MSeq(x.n, x.get, 'bytes')


class BitChar:
    """one character '0' or '1'"""
    __hash__ = None

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        if o == '1':
            return sbool(_zsimp(zbb(self.c)))
        if o == '0':
            return sbool(_zsimp(z3.Not(zbb(self.c))))
        if isinstance(o, str):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else sbool(bv.bnot(r.c))


def zbb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def const_elem(x, kind):
    if kind == 'bytes':
        return bv.z(term(x, 8), 8)
    if kind == 'bits':
        return z3.BoolVal(x == '1') if isinstance(x, str) else zbb(x.c)
    return zt(x)


def to_seq(o, kind):
    if isinstance(o, Seq):
        if o.kind != kind:
            raise TypeError('can only concatenate ' + kind)
        return o
    if isinstance(o, BitChar):
        return Seq(1, lambda k: zbb(o.c), 'bits')
    if kind == 'bits' and isinstance(o, str):
        if set(o) - {'0', '1'}:
            raise Unsupported('text')
    elif kind == 'bits' and hasattr(o, '_seq'):
        return o._seq()
    elif kind == 'bytes' and isinstance(o, (_bytes, _bytearray, VBytes)):
        pass
    elif kind == 'ints' and isinstance(o, (list, tuple)):
        pass
    else:
        raise TypeError('can only concatenate %s (not %s)' % (kind, type(o).__name__))
    return seq_of([const_elem(x, kind) for x in o], kind)


def zero_elem(kind):
    return {'bytes': z3.BitVecVal(0, 8), 'bits': z3.BoolVal(False), 'ints': z3.IntVal(0)}[kind]


def seq_of(l, kind):
    l = list(l)

    def get(k):
        if z3.is_int_value(k):
            i = k.as_long()
            return l[i] if 0 <= i < len(l) else zero_elem(kind)
        r = zero_elem(kind)
        for i, x in enumerate(l):
            r = z3.If(k == i, x, r)
        return r
    return Seq(len(l), get, kind)


def cat(a, b):
    na, nb = a._slen(), b._slen()
    if isinstance(na, int) and na == 0:
        return b
    if isinstance(nb, int) and nb == 0:
        return a
    t = zt(na)
    ga, gb = a.get, b.get

    def get(k):
        c = _zsimp(k < t)
        if c is True:
            return ga(k)
        if c is False:
            return gb(z3.simplify(k - t))
        return z3.If(c, ga(k), gb(k - t))
    return Seq(na + nb, get, a.kind)


class Rep:
    """[x] * n for an object x"""

    def __init__(self, x, n):
        self.x, self.n = x, n

    def _slen(self):
        return self.n

    def nt(self):
        return zt(self.n)


def rep_const(x, n):
    """x * n with a symbolic count (negative counts give the empty sequence)"""
    if len(x) != 1:
        raise Unsupported('repetition')
    if isinstance(x, list) and zt(x[0]) is None:
        return Rep(x[0], n)
    kind = 'bits' if isinstance(x, str) else 'bytes' if isinstance(x, (_bytes, _bytearray)) else 'ints'
    if bool(n < 0):
        n = 0
    e = const_elem(x[0], kind)
    return (MSeq if isinstance(x, list) else Seq)(n, lambda k: e, kind)


def aseq(name, kind, n=None):
    """arbitrary sequence: uninterpreted elements; length n or symbolic"""
    sort = {'bytes': BV8, 'bits': z3.BoolSort(), 'ints': z3.IntSort()}[kind]
    f = z3.Function(name, z3.IntSort(), sort)
    if n is None:
        n = zvar(name + '.len', 0)
    return Seq(n, lambda k: f(k), kind)


class Fmt:
    """format(x, spec) of a symbolic integer: text"""

    def __init__(self, x, spec):
        self.x, self.spec = x, spec

    def __getitem__(self, i):
        import re
        m = re.fullmatch(r'#0(\d+)b', self.spec)
        if m and isinstance(i, slice) and i.start == 2 and i.stop is None and i.step is None:
            return bits_text(self.x, int(m.group(1)) - 2)
        raise Unsupported('text of format %r' % self.spec)

    def _seq(self):
        import re
        m = re.fullmatch(r'0(\d+)b', self.spec)
        if m:
            return bits_text(self.x, int(m.group(1)))
        raise Unsupported('text of format %r' % self.spec)

    def __add__(self, o):
        return self._seq() + o

    def __radd__(self, o):
        return o + self._seq()


def bits_text(x, k):
    """k-digit binary text of 0 <= x < 2^k"""
    if bool(x < 0) or bool(x >= (1 << k)):
        raise Unsupported('binary text of a value of more than %d bits' % k)
    if isinstance(x, ZInt):
        return seq_of([(x.t / (1 << (k - 1 - i))) % 2 == 1 for i in range(k)], 'bits')
    t = term(x, k)
    return seq_of([zbb(bv.bv2b(bv.trunc(bv.extract(t, k - 1 - i, 1, k), 1, 1))) for i in range(k)], 'bits')


SInt._format = lambda self, spec: Fmt(self, spec)


class _Bin:
    def __init__(self, x):
        self.x = x

    def __getitem__(self, i):
        # bin((1 << k) ^ x)[3:] : the k digits of x
        if not (isinstance(i, slice) and i.start == 3 and i.stop is None):
            raise Unsupported('bin()')
        b = bv.tobits(self.x.t, self.x.w)
        if self.x.s or b[-1] != 1:
            raise Unsupported('bin() of a value without known leading bit')
        return bits_text(mkint(bv.frombits(b[:-1]), len(b) - 1), len(b) - 1)


SInt._bin = lambda self: _Bin(self)
