"""Verification-condition generator for the C sources: symbolic execution of clang's LLVM IR.

* loops whose conditions evaluate to constants are executed to the end (no bound: all iterations);
* every other loop needs a loop contract (cut point): invariant on entry, havoc of everything the body modifies
  (found by a fixpoint over the body itself), invariant assumed, body executed once, invariant preserved;
* a call is replaced by the callee's contract where one is given (pre checked, frame havocked, post assumed),
  otherwise the callee's current body is inlined;
* every load/store must be in bounds of its object, every store must hit a writable object, signed overflow,
  oversized shifts and division by zero are obligations.
"""
import json
import os
import time
import z3
import bv
from bv import BV
from llir import Unsupported

BV64 = z3.BitVecSort(64)


class NeedInvariant(Unsupported):
    pass


# ------------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ('obj', 'k', 't')

    def __init__(self, obj, k=0, t=()):
        self.obj = obj          # object id or None for null
        self.k = k & bv.full(64)
        self.t = t              # tuple of (coef, BV64)

    def off(self):
        r = self.k
        for c, x in self.t:
            r = bv.add(r, bv.mul(x, c, 64), 64)
        return r

    def plus_const(self, c):
        return Ptr(self.obj, self.k + c, self.t)

    def plus(self, coef, x):
        """+ coef * x (x: BV64 value)"""
        if isinstance(x, int):
            return Ptr(self.obj, self.k + coef * bv.sgn(x, 64), self.t)
        ts = []
        done = False
        for c, y in self.t:
            if not done and (y is x or y.e.eq(x.e)):
                c = (c + coef) & bv.full(64)
                done = True
            if c:
                ts.append((c, y))
        if not done:
            ts.append((coef & bv.full(64), x))
        return Ptr(self.obj, self.k, tuple(ts))

    def concrete(self):
        return not self.t

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.obj, self.k, self.t)


NULL = Ptr(None)


def pkey(p):
    return (p.obj, p.k, tuple(sorted((c, bv.z(x, 64).get_id()) for c, x in p.t)))


class PtrInt:
    """ptrtoint"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Opaque:
    """value the engine does not model (floating point and the like): may be moved, never inspected"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


# ------------------------------------------------------------------ objects
class Obj:
    __slots__ = ('id', 'name', 'size', 'writable', 'cells', 'arr', 'elem', 'kind', 'lazy', 'forbid', 'scal')

    def __init__(self, id, name, size, writable=True, kind='alloca'):
        self.id, self.name, self.size, self.writable, self.kind = id, name, size, writable, kind
        self.cells = {}
        self.arr = None
        self.elem = None
        self.lazy = None        # function(off, n) -> value for bytes never written (concrete mode)
        self.forbid = None      # reason: no access allowed
        self.scal = {}          # offset -> size: scalar fields kept as cells beside the byte array

    def copy(self):
        o = Obj(self.id, self.name, self.size, self.writable, self.kind)
        o.cells = dict(self.cells)
        o.arr, o.elem, o.lazy, o.forbid, o.scal = self.arr, self.elem, self.lazy, self.forbid, self.scal
        return o


class State:
    __slots__ = ('mem', 'pc', 'regs', 'ghost', 'owned', 'zeros')

    def __init__(self):
        self.zeros = frozenset()     # bits (provenance codes) known to be zero on this path
        self.mem = {}
        self.pc = ()
        self.regs = {}
        self.ghost = {}
        self.owned = set()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.zeros = self.zeros
        s.regs = dict(self.regs)
        s.ghost = dict(self.ghost)
        s.owned = set()
        self.owned = set()
        return s

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                self.pc = self.pc + (z3.BoolVal(False),)
            return
        self.pc = self.pc + (c,)
        neg = z3.is_not(c)
        f = RANGE.get((c.arg(0) if neg else c).get_id())
        if f is not None:
            x, hi = f[1], f[3 if neg else 2]
            if hi is not None:
                k = hi.bit_length()
                zs = [b for b in x.bits[k:] if b > 1 and not b & 1]
                if zs:
                    self.zeros = self.zeros.union(zs)

    def wobj(self, oid):
        if oid not in self.owned:
            self.mem[oid] = self.mem[oid].copy()
            self.owned.add(oid)
        return self.mem[oid]


RANGE = {}       # id of a comparison term -> (term, BV, max if true, max if false)


def note_range(pred, a, b, w, c):
    """remember what an unsigned comparison with a constant says about the leading bits"""
    if isinstance(c, bool) or not z3.is_expr(c):
        return
    if pred[0] == 's':
        if bv.umax(a, w) >> (w - 1) or bv.umax(b, w) >> (w - 1):
            return
        pred = 'u' + pred[1:]
    neg = z3.is_not(c)
    t = c.arg(0) if neg else c
    if isinstance(b, int) and isinstance(a, BV):
        hi = {'ult': (b - 1, None), 'ule': (b, None), 'ugt': (None, b), 'uge': (None, b - 1)}.get(pred)
        x = a
    elif isinstance(a, int) and isinstance(b, BV):
        hi = {'ugt': (a - 1, None), 'uge': (a, None), 'ult': (None, a), 'ule': (None, a - 1)}.get(pred)
        x = b
    else:
        return
    if hi is None or any(h is not None and h < 0 for h in hi):
        return
    if neg:
        hi = (hi[1], hi[0])
    RANGE[t.get_id()] = (t, x, hi[0], hi[1])


def reduce_zeros(v, zeros):
    if isinstance(v, BV) and v._bits is not None or isinstance(v, BV) and v.w <= 64:
        bits = v.bits
        if any(b in zeros for b in bits):
            return bv.frombits([0 if b in zeros else b for b in bits])
    return v


_TV = {}


def term_vars(e):
    """ids of the uninterpreted constants/functions of a term (cached)"""
    i = e.get_id()
    r = _TV.get(i)
    if r is not None:
        return r[1]
    acc = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        c = _TV.get(k)
        if c is not None:
            acc |= c[1]
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(d.get_id())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    r = frozenset(acc)
    _TV[i] = (e, r)
    return r


class Frame:
    def __init__(self, func, parent, callsite=None):
        self.func, self.parent = func, parent
        self.locals = {}     # '%name' -> list of obj ids
        self.args = []
        self.conc = set()    # loops one of whose exits was decided by a constant (they terminate by themselves)


# ------------------------------------------------------------------ obligations
class Obl:
    def __init__(self, name, status, secs=0.0, model=None, note=None, backend='z3'):
        self.name, self.status, self.secs, self.model, self.note, self.backend = name, status, secs, model, note, backend


class Engine:
    def __init__(self, modules, contracts=None, timeout=20000, loop_specs=None):
        self.funcs = {}
        self.modules = modules
        for m in modules:
            for f in m.funcs.values():
                self.funcs[(m.name, f.name)] = f
        self.by_name = {}
        for m in modules:
            for f in m.funcs.values():
                if not f.internal:
                    self.by_name[f.name] = f
        self.contracts = contracts or {}
        self.loop_specs = loop_specs or {}
        self.obls = []
        self.quiet = 0
        self.timeout = timeout
        self.next_id = 1
        self.globals = {}
        self.gobjs = {}
        self.touched = set()       # functions executed (under contract or inlined)
        self.called_contracts = set()
        self.assumptions = set()
        self.solver_time = 0.0
        self.nchecks = 0
        self.trivial = 0
        self.max_paths = 4000
        self.merge_ret = True
        self.depth = 0
        self.prune_all = False
        self.alloca_hook = None
        self.logic = None
        self.axioms = []           # z3 facts valid everywhere (ghost definitions, proved lemmas)
        self.steps = 0
        self.deadline = None
        self.square = None         # uninterpreted square of a 16-bit integer (31 bits); see c_ring.square_lemma
        self.concretize = None     # sample models of the path: a word they agree on is replaced by the constant once proved
        self.mul_hook = None       # (engine, x, y, w) -> product term or None
        self.iter_hook = None      # (engine, frame, state, header, iteration) at every back edge of an unrolled loop
        self.facts = {}            # declaration id -> fact about that variable, added to the queries that mention it

    # ---------------------------------------------------------------- solver
    def check(self, pc, extra=(), timeout=None):
        s = z3.SolverFor(self.logic) if self.logic else z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for a in self.axioms:
            s.add(a)
        for c in pc:
            s.add(c)
        for c in extra:
            s.add(bv.zb(c))
        if self.facts:
            used = set()
            for c in list(pc) + [bv.zb(c) for c in extra]:
                used |= term_vars(c)
            for d in used:
                f = self.facts.get(d)
                if f is not None:
                    s.add(f)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.nchecks += 1
        return r, s

    def feasible(self, st, c=True):
        if isinstance(c, bool):
            if not c:
                return False
            if not st.pc:
                return True
        pc = st.pc
        if len(pc) > 24:
            # the path facts connected to the condition (the others are independent of it; the path itself was feasible)
            seen = set() if isinstance(c, bool) else set(term_vars(c))
            rest = [(x, term_vars(x)) for x in pc]
            pc = [x for x, v in rest if not v]
            while True:
                nxt = []
                n = len(pc)
                for x, v in rest:
                    if v & seen:
                        seen |= v
                        pc.append(x)
                    elif v:
                        nxt.append((x, v))
                rest = nxt
                if len(pc) == n or not rest:
                    break
        r, _ = self.check(pc, [c], timeout=3000)
        return r != z3.unsat

    def prove(self, name, st, goal, note=None, timeout=None):
        """obligation: st.pc => goal"""
        if self.quiet:
            return None
        if isinstance(goal, bool) and goal:
            self.obls.append(Obl(name, 'proved', backend='eval'))
            return True
        t = time.time()
        if len(st.pc) > 8:
            # first with the path facts that share a variable with the goal only (fewer assumptions: sound)
            gv = term_vars(goal) if not isinstance(goal, bool) else frozenset()
            only = [c for c in st.pc if term_vars(c) <= gv] if gv else []
            if only and len(only) < len(st.pc):
                r, s = self.check(only, [bv.bnot(goal)], 4000)
                if r == z3.unsat:
                    self.obls.append(Obl(name, 'proved', time.time() - t))
                    return True
            near = [c for c in st.pc if term_vars(c) & gv] if gv else []
            if len(near) < len(st.pc):
                r, s = self.check(near, [bv.bnot(goal)], timeout)
                if r == z3.unsat:
                    self.obls.append(Obl(name, 'proved', time.time() - t))
                    return True
        r, s = self.check(st.pc, [bv.bnot(goal)], timeout)
        dt = time.time() - t
        if r == z3.unsat:
            self.obls.append(Obl(name, 'proved', dt))
            return True
        if r == z3.sat:
            self.obls.append(Obl(name, 'failed', dt, s.model(), note))
            return False
        # second back end
        r2 = cvc5_unsat(s, (timeout or self.timeout) // 1000 + 1)
        dt = time.time() - t
        if r2 == 'unsat':
            self.obls.append(Obl(name, 'proved', dt, backend='cvc5'))
            return True
        self.obls.append(Obl(name, 'unknown', dt, None, note or str(s.reason_unknown())))
        return False

    def holds(self, st, goal, timeout=None):
        if isinstance(goal, bool) and goal:
            return True
        r, _ = self.check(st.pc, [bv.bnot(goal)], timeout or self.timeout)
        return r == z3.unsat

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, name, size, writable=True, kind='mem'):
        o = Obj(self.next_id, name, size, writable, kind)
        self.next_id += 1
        st.mem[o.id] = o
        st.owned.add(o.id)
        return o

    def make_arr(self, o, elem, term=None):
        """turn o into a z3 array of elem-byte words"""
        o.elem = elem
        if term is not None:
            o.arr = term
            o.cells = {k: v for k, v in o.cells.items() if k in o.scal}
            return
        a = z3.FreshConst(z3.ArraySort(BV64, z3.BitVecSort(8 * elem)), o.name + '_arr')
        for off in sorted(o.cells):
            n, v = o.cells[off]
            if off in o.scal:
                continue
            if isinstance(v, (Ptr, Opaque, PtrInt)):
                raise Unsupported('pointer inside array object ' + o.name)
            if n % elem or off % elem:
                # split to bytes then regroup
                pass
        size = o.size if isinstance(o.size, int) else None
        covered = set()
        for off in sorted(o.cells):
            n, v = o.cells[off]
            if off in o.scal:
                continue
            for b in range(off // elem, (off + n + elem - 1) // elem):
                covered.add(b)
        if o.lazy is not None and size is not None:
            covered |= set(range(size // elem))
        for b in sorted(covered):
            w = self._cells_load(o, b * elem, elem)
            a = z3.Store(a, z3.BitVecVal(b, 64), bv.z(w, 8 * elem))
        o.arr = a
        o.cells = {k: v for k, v in o.cells.items() if k in o.scal}
        o.lazy = None

    def _cells_load(self, o, off, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # assemble from bytes
        parts = []
        i = 0
        while i < n:
            c = o.cells.get(off + i)
            if c is not None and c[0] <= n - i:
                v = c[1]
                if isinstance(v, (Ptr, Opaque, PtrInt)):
                    if i == 0 and c[0] == n:
                        return v
                    return Opaque('partial pointer read')
                parts.append((v, 8 * c[0]))
                i += c[0]
                continue
            found = None
            for d in range(0, 8):
                c = o.cells.get(off + i - d)
                if c is not None and c[0] > d:
                    found = (d, c)
                    break
            if found:
                d, c = found
                v = c[1]
                if isinstance(v, (Ptr, Opaque, PtrInt)):
                    return Opaque('partial pointer read')
                take = min(c[0] - d, n - i)
                parts.append((bv.extract(v, 8 * d, 8 * take, 8 * c[0]), 8 * take))
                i += take
                continue
            if o.lazy is not None:
                v = o.lazy(off + i, 1)
            else:
                v = bv.fresh('%s@%d' % (o.name, off + i), 8)
            o.cells[off + i] = (1, v)      # remember (reads of undetermined bytes are consistent)
            parts.append((v, 8))
            i += 1
        if len(parts) == 1:
            return parts[0][0]
        return bv.concat(parts)

    def _cells_store(self, o, off, n, v):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, v)
            return
        lo, hi = off, off + n
        for d in range(7, 0, -1):
            c = o.cells.get(off - d)
            if c is not None and c[0] > d:
                self._split(o, off - d, lo, hi)
        for i in range(n):
            c = o.cells.get(off + i)
            if c is not None:
                if i + c[0] <= n:
                    del o.cells[off + i]
                else:
                    self._split(o, off + i, lo, hi)
        o.cells[off] = (n, v)

    def _split(self, o, at, lo, hi):
        n, v = o.cells.pop(at)
        for i in range(n):
            if lo <= at + i < hi:
                continue
            if isinstance(v, (Ptr, Opaque, PtrInt)):
                o.cells[at + i] = (1, Opaque('split pointer'))
            else:
                o.cells[at + i] = (1, bv.extract(v, 8 * i, 8, 8 * n))

    def _bounds(self, st, o, p, n, what, fn):
        if o.forbid:
            self.prove('%s: %s of %s (%s)' % (fn, what, o.name, o.forbid), st, False)
            return
        if p.concrete() and isinstance(o.size, int):
            ok = p.k + n <= o.size
            if ok:
                self.trivial += 1
            else:
                self.prove('%s: %s in bounds of %s' % (fn, what, o.name), st, False, note='offset %d size %d' % (p.k, o.size))
            return
        off = p.off()
        sz = o.size
        goal = bv.band(bv.icmp('ule', n, sz, 64), bv.icmp('ule', off, bv.sub(sz, n, 64), 64))
        self.prove('%s: %s in bounds of %s' % (fn, what, o.name), st, goal)

    def _index(self, p, elem):
        """p's offset / elem as BV64 or None"""
        k = bv.sgn(p.k, 64)
        if k % elem:
            return None
        r = (k // elem) & bv.full(64)
        for c, x in p.t:
            cs = bv.sgn(c, 64)
            if cs % elem:
                return None
            r = bv.add(r, bv.mul(x, (cs // elem) & bv.full(64), 64), 64)
        return r

    def load(self, st, p, n, fn='?', isptr=False, check=True):
        if isinstance(p, Opaque):
            raise Unsupported('load through opaque pointer (%s)' % p.why)
        if p.obj is None:
            self.prove(fn + ': load through null pointer', st, False)
            return bv.fresh('nullload', 8 * n)
        o = st.mem[p.obj]
        if check:
            self._bounds(st, o, p, n, 'load', fn)
        if o.scal and p.concrete() and o.scal.get(p.k) == n:
            return o.cells[p.k][1]
        if o.scal:
            self._clear_of_fields(st, o, p, n, fn)
        if o.arr is None and p.concrete():
            return self._cells_load(o, p.k, n)
        if o.arr is None:
            o = st.wobj(p.obj)
            self.make_arr(o, n)
        i = self._index(p, o.elem)
        if n == o.elem and i is not None:
            return bv.mk(8 * n, self._select(o, i))
        if i is not None and n % o.elem == 0:
            return bv.concat([(bv.mk(8 * o.elem, self._select(o, bv.add(i, j, 64))), 8 * o.elem)
                              for j in range(n // o.elem)])
        if o.elem > n and o.elem % n == 0:
            q = self._index(p, n)
            if q is not None:
                r = o.elem // n
                word = bv.mk(8 * o.elem, self._select(o, bv.udiv(q, r, 64)))
                sh = bv.urem(q, r, 64)
                if isinstance(sh, int):
                    return bv.extract(word, 8 * n * sh, 8 * n, 8 * o.elem)
                sh = bv.mul(bv.trunc(sh, 64, 8 * o.elem) if o.elem < 8 else sh, 8 * n, 8 * o.elem)
                return bv.trunc(bv.lshr(word, sh, 8 * o.elem), 8 * o.elem, 8 * n)
        raise Unsupported('mixed-size access to %s' % o.name)

    def _select(self, o, i):
        if z3.is_quantifier(o.arr):
            return select(o.arr, bv.z(i, 64))
        return z3.simplify(z3.Select(o.arr, bv.z(i, 64))) if isinstance(i, int) else z3.Select(o.arr, bv.z(i, 64))

    def store(self, st, p, n, v, fn='?', check=True):
        if isinstance(p, Opaque):
            raise Unsupported('store through opaque pointer (%s)' % p.why)
        if p.obj is None:
            self.prove(fn + ': store through null pointer', st, False)
            return
        o = st.mem[p.obj]
        if check:
            self._bounds(st, o, p, n, 'store', fn)
        if not o.writable:
            self.prove('%s: store to read-only object %s' % (fn, o.name), st, False)
            return
        o = st.wobj(p.obj)
        if o.scal and p.concrete() and o.scal.get(p.k) == n:
            o.cells[p.k] = (n, v)
            return
        if o.scal:
            self._clear_of_fields(st, o, p, n, fn)
        if o.arr is None and p.concrete():
            self._cells_store(o, p.k, n, v)
            return
        if isinstance(v, (Ptr, Opaque, PtrInt)):
            raise Unsupported('pointer stored at symbolic offset')
        if o.arr is None:
            self.make_arr(o, n)
        i = self._index(p, o.elem)
        if i is not None and n == o.elem:
            o.arr = z3.Store(o.arr, bv.z(i, 64), bv.z(v, 8 * n))
            return
        if i is not None and n % o.elem == 0:
            for j in range(n // o.elem):
                o.arr = z3.Store(o.arr, bv.z(bv.add(i, j, 64), 64), bv.z(bv.extract(v, 8 * o.elem * j, 8 * o.elem, 8 * n), 8 * o.elem))
            return
        if o.elem > n and o.elem % n == 0:
            q = self._index(p, n)
            r = o.elem // n
            if q is not None:
                idx = bv.udiv(q, r, 64)
                old = bv.mk(8 * o.elem, self._select(o, idx))
                sh = bv.urem(q, r, 64)
                w = 8 * o.elem
                if isinstance(sh, int):
                    new = bv.concat([(bv.extract(old, 0, 8 * n * sh, w), 8 * n * sh)] * (sh > 0) + [(v, 8 * n)] +
                                    [(bv.extract(old, 8 * n * (sh + 1), w - 8 * n * (sh + 1), w), w - 8 * n * (sh + 1))] * (sh + 1 < r))
                else:
                    sh = bv.mul(bv.trunc(sh, 64, w) if w < 64 else sh, 8 * n, w)
                    mask = bv.shl(bv.full(8 * n), sh, w)
                    new = bv.or_(bv.and_(old, bv.xor(mask, bv.full(w), w), w), bv.shl(bv.zext(v, 8 * n, w), sh, w), w)
                o.arr = z3.Store(o.arr, bv.z(idx, 64), bv.z(new, w))
                return
        raise Unsupported('mixed-size store to %s' % o.name)

    def _clear_of_fields(self, st, o, p, n, fn):
        """an access to the byte array part of a structure does not touch its scalar fields"""
        off, nn = bv.z(p.off(), 64), bv.z(n, 64)
        if p.concrete() and isinstance(n, int):
            if any(p.k < f + m and f < p.k + n for f, m in o.scal.items()):
                raise Unsupported('mixed access to a field of ' + o.name)
            return
        fs = sorted(o.scal.items())
        spans = []
        for f, m in fs:
            if spans and spans[-1][1] == f:
                spans[-1][1] = f + m
            else:
                spans.append([f, f + m])
        self.prove('%s: array access of %s stays clear of the scalar fields' % (fn, o.name), st,
                   z3.Or(nn == 0, z3.And(*[z3.Or(z3.UGE(off, hi), z3.ULE(off + nn, lo)) for lo, hi in spans])))

    def copy_bytes(self, st, dst, src, n, fn='memcpy'):
        """memcpy/memmove"""
        if isinstance(n, int):
            if n == 0:
                return
            so, do = st.mem[src.obj], st.mem[dst.obj]
            self._bounds(st, so, src, n, 'copy source', fn)
            self._bounds(st, do, dst, n, 'copy destination', fn)
            if src.concrete() and dst.concrete() and so.arr is None and do.arr is None:
                if not do.writable:
                    self.prove('%s: copy to read-only object %s' % (fn, do.name), st, False)
                    return
                vals = []
                i = 0
                while i < n:
                    c = so.cells.get(src.k + i)
                    if c is not None and c[0] <= n - i:
                        vals.append((i, c[0], c[1]))
                        i += c[0]
                    else:
                        vals.append((i, 1, self._cells_load(so, src.k + i, 1)))
                        i += 1
                do = st.wobj(dst.obj)
                for i, m, v in vals:
                    self._cells_store(do, dst.k + i, m, v)
                return
            e = so.elem if so.arr is not None else None
            if e and e > 1 and n % e == 0 and (do.elem == e if do.arr is not None else dst.concrete() and dst.k == 0 and n == do.size) and so.id != do.id:
                i0, j0 = self._index(src, e), self._index(dst, e)
                if i0 is not None and j0 is not None:
                    do = st.wobj(dst.obj)
                    if not do.writable:
                        self.prove('%s: copy to read-only object %s' % (fn, do.name), st, False)
                    if do.arr is None:
                        do.cells = {}
                        self.make_arr(do, e)
                    i = z3.FreshConst(BV64, 'i')
                    d = i - bv.z(j0, 64)
                    do.arr = z3.Lambda([i], z3.If(z3.ULT(d, n // e), z3.Select(so.arr, d + bv.z(i0, 64)), z3.Select(do.arr, i)))
                    return
            if n <= 256:
                vals = [self.load(st, src.plus_const(i), 1, fn, check=False) for i in range(n)]
                for i, v in enumerate(vals):
                    self.store(st, dst.plus_const(i), 1, v, fn, check=False)
                return
        # symbolic length: destination becomes a byte array defined pointwise
        so, do = st.mem[src.obj], st.mem[dst.obj]
        self.sym_bounds(st, src, n, fn + ': copy source')
        self.sym_bounds(st, dst, n, fn + ': copy destination')
        if not do.writable:
            self.prove('%s: copy to read-only object %s' % (fn, do.name), st, bv.icmp('eq', n, 0, 64))
        for oo, pp in ((so, src), (do, dst)):
            if oo.scal:
                self._clear_of_fields(st, oo, pp, n, fn)
        so = st.wobj(src.obj)
        if so.arr is None:
            self.make_arr(so, 1)
        do = st.wobj(dst.obj)
        if do.arr is None:
            self.make_arr(do, 1)
        if so.elem != 1 or do.elem != 1:
            raise Unsupported('symbolic copy of non-byte object')
        i = z3.FreshConst(BV64, 'i')
        d0, s0, nn = bv.z(dst.off(), 64), bv.z(src.off(), 64), bv.z(n, 64)
        do.arr = z3.Lambda([i], z3.If(z3.ULT(i - d0, nn), z3.Select(so.arr, i - d0 + s0), z3.Select(do.arr, i)))

    def sym_bounds(self, st, p, n, what):
        """[p, p+n) inside its object, or n == 0"""
        if p.obj is None:
            self.prove(what + ': null pointer', st, bv.icmp('eq', n, 0, 64))
            return
        o = st.mem[p.obj]
        off = p.off()
        goal = bv.bor(bv.icmp('eq', n, 0, 64), bv.band(bv.icmp('ule', n, o.size, 64), bv.icmp('ule', off, bv.sub(o.size, n, 64), 64)))
        if o.forbid:
            goal = bv.icmp('eq', n, 0, 64)
        self.prove('%s in bounds of %s' % (what, o.name), st, goal)

    # ---------------------------------------------------------------- globals
    def gptr(self, st, module, name, off):
        g = module.globals.get(name)
        key = (module.name, name)
        if g is None or g.init is None:
            for m in self.modules:
                h = m.globals.get(name)
                if h is not None and h.init is not None and not h.internal:
                    g, key = h, (m.name, name)
                    module = m
                    break
        if g is None:
            if name in self.by_name or name in module.funcs or name in module.decls:
                return Opaque('function pointer ' + name)
            raise Unsupported('global ' + name)
        if key not in self.gobjs:
            oid = self.next_id
            self.next_id += 1
            o = Obj(oid, name, module.types.size(g.ty), writable=not g.const, kind='global')
            if g.init is None or not g.const:
                # unknown contents
                if g.init is None and o.size == 0:
                    raise Unsupported('extern global %s without definition' % name)
            else:
                self._init(module, o, 0, g.ty, g.init)
            self.gobjs[key] = o
        o = self.gobjs[key]
        if o.id not in st.mem:
            st.mem[o.id] = o
        return Ptr(o.id, off)

    def _init(self, m, o, off, ty, init):
        ty = m.types.resolve(ty)
        if init[0] == 'c':
            o.cells[off] = (m.types.size(ty), init[1])
        elif init[0] == 'bytes':
            for i, b in enumerate(init[1]):
                o.cells[off + i] = (1, b)
        elif init[0] == 'zero':
            sz = m.types.size(ty)
            if ty[0] == 'arr' and ty[2][0] == 'i':
                s = m.types.size(ty[2])
                for i in range(ty[1]):
                    o.cells[off + i * s] = (s, 0)
            else:
                for i in range(sz):
                    o.cells[off + i] = (1, 0)
        elif init[0] == 'agg':
            for i, (t, v) in enumerate(init[1]):
                if ty[0] == 'arr':
                    self._init(m, o, off + i * m.types.size(ty[2]), ty[2], v)
                else:
                    self._init(m, o, off + m.types.field_off(ty, i), ty[1][i], v)
        elif init[0] == 'undef':
            pass
        else:
            raise Unsupported('initialiser of ' + o.name)

    # ---------------------------------------------------------------- values
    def val(self, fr, st, v, t):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'r':
            return st.regs[v[1]]
        if k == 'g':
            return self.gptr(st, fr.func.module, v[1], v[2])
        if k == 'null':
            return NULL
        if k == 'undef':
            return bv.fresh('undef', t[1]) if t[0] == 'i' else NULL
        if k == 'zero':
            return 0
        raise Unsupported('value %r' % (v,))

    def merge_val(self, c, a, b):
        """ite(c, a, b) for register / cell values; None if impossible"""
        if a is b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if pkey(a) == pkey(b):
                return a
            if a.obj != b.obj:
                return None
            # factor common linear part
            if a.t == b.t or [(x, y.e.get_id()) for x, y in a.t] == [(x, y.e.get_id()) for x, y in b.t]:
                # offsets differ by a constant: keep scale information via gcd
                d = bv.sgn((b.k - a.k) & bv.full(64), 64)
                g = abs(d) & -abs(d)
                g = max(1, min(g, 8))
                return Ptr(a.obj, a.k, a.t).plus(g, bv.ite(c, 0, (d // g) & bv.full(64), 64))
            oa, ob = a.off(), b.off()
            for g in (8, 4, 2, 1):
                ia, ib = self._index(a, g), self._index(b, g)
                if ia is not None and ib is not None:
                    return Ptr(a.obj).plus(g, bv.ite(c, ia, ib, 64))
            return Ptr(a.obj).plus(1, bv.ite(c, oa, ob, 64))
        if isinstance(a, bool) or isinstance(b, bool) or z3.is_expr(a) or z3.is_expr(b):
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                if isinstance(a, bool) and isinstance(b, bool) and a == b:
                    return a
                return z3.If(c, bv.zb(a), bv.zb(b))
            return None
        if isinstance(a, (int, BV)) and isinstance(b, (int, BV)):
            if isinstance(a, int) and isinstance(b, int):
                if a == b:
                    return a
                return ('needw', a, b)
            w = a.w if isinstance(a, BV) else b.w
            return bv.ite(c, a, b, w)
        return None

    def merge(self, fr, A, B):
        """merge two states at the same program point; None if not mergeable"""
        # common prefix of the path condition
        i = 0
        n = min(len(A.pc), len(B.pc))
        while i < n and A.pc[i] is B.pc[i]:
            i += 1
        ra, rb = A.pc[i:], B.pc[i:]
        ca = bv.band(*ra)
        cb = bv.band(*rb)
        c = bv.zb(ca)
        S = State()
        S.zeros = A.zeros & B.zeros if A.zeros is not B.zeros else A.zeros
        S.pc = A.pc[:i]
        if len(ra) >= 1 and len(rb) >= 1:
            # peel complementary heads: (p, rest_a) vs (not p, rest_b)
            na = bv.bnot(ra[0])
            if rb[0].eq(na) or (z3.is_not(rb[0]) and rb[0].arg(0).eq(ra[0])):
                c = ra[0]
                if len(ra) > 1:
                    S.pc = S.pc + (z3.Implies(ra[0], bv.fast_and(ra[1:]) if len(ra) > 2 else ra[1]),)
                if len(rb) > 1:
                    S.pc = S.pc + (z3.Implies(rb[0], bv.fast_and(rb[1:]) if len(rb) > 2 else rb[1]),)
            else:
                S.pc = S.pc + (z3.Or(bv.zb(ca), bv.zb(cb)),)
        # (if one side has no extra condition the disjunction is true)
        elif len(ra) == 0 and len(rb) == 0:
            return None
        # ghost
        for k in set(A.ghost) | set(B.ghost):
            x, y = A.ghost.get(k), B.ghost.get(k)
            if x is y:
                S.ghost[k] = x
                continue
            if isinstance(x, BV) or isinstance(y, BV) or (isinstance(x, int) and isinstance(y, int)):
                if x is None or y is None:
                    return None
                w = x.w if isinstance(x, BV) else (y.w if isinstance(y, BV) else 64)
                S.ghost[k] = bv.ite(c, x, y, w)
                continue
            if z3.is_expr(x) and z3.is_expr(y):
                S.ghost[k] = x if x.eq(y) else z3.If(c, x, y)
                continue
            if x == y:
                S.ghost[k] = x
                continue
            return None
        for oid in A.mem:
            oa = A.mem[oid]
            ob = B.mem.get(oid)
            if ob is None:
                continue
            if oa is ob:
                S.mem[oid] = oa
                continue
            o = oa.copy()
            if oa.arr is not None or ob.arr is not None:
                if oa.arr is None:
                    oa = oa.copy()
                    self.make_arr(oa, ob.elem)
                if ob.arr is None:
                    ob = ob.copy()
                    self.make_arr(ob, oa.elem)
                if oa.elem != ob.elem:
                    return None
                o.cells, o.elem, o.lazy = {}, oa.elem, None
                for off, n in o.scal.items():
                    x, y = oa.cells[off][1], ob.cells[off][1]
                    o.cells[off] = (n, x if x is y else bv.ite(c, x, y, 8 * n))
                o.arr = oa.arr if oa.arr.eq(ob.arr) else z3.If(c, oa.arr, ob.arr)
                S.mem[oid] = o
                S.owned.add(oid)
                continue
            for off in set(oa.cells) | set(ob.cells):
                x, y = oa.cells.get(off), ob.cells.get(off)
                if x is y:
                    continue
                if x is None or y is None:
                    # one side has not determined these bytes: normalise
                    n = (x or y)[0]
                    if x is None:
                        if oa.kind == 'alloca' and not self._overlap(oa, off, n) and oa.lazy is None and not self._defined(oa, off, n):
                            o.cells.pop(off, None)
                            if self._overlap(o, off, n):
                                return None
                            o.cells[off] = (n, y[1])   # undefined on A: any value is allowed
                            continue
                        xv, yv = self._cells_load(oa, off, n), y[1]
                    else:
                        if ob.kind == 'alloca' and not self._overlap(ob, off, n) and ob.lazy is None and not self._defined(ob, off, n):
                            continue
                        xv, yv = x[1], self._cells_load(ob, off, n)
                else:
                    if x[0] != y[0]:
                        n = max(x[0], y[0])
                        xv, yv = self._cells_load(oa, off, n), self._cells_load(ob, off, n)
                    else:
                        n, xv, yv = x[0], x[1], y[1]
                if xv is yv:
                    v = xv
                else:
                    v = self.merge_val(c, xv, yv)
                    if isinstance(v, tuple):
                        v = bv.ite(c, xv, yv, 8 * n)
                if v is None:
                    if isinstance(xv, Opaque) or isinstance(yv, Opaque):
                        v = Opaque('merged')
                    elif o.kind == 'alloca':
                        return None
                    else:
                        return None
                self._cells_store(o, off, n, v)
            S.mem[oid] = o
            S.owned.add(oid)
        for r in A.regs:
            if r in B.regs:
                x, y = A.regs[r], B.regs[r]
                if x is y:
                    S.regs[r] = x
                    continue
                v = self.merge_val(c, x, y)
                if isinstance(v, tuple):
                    continue     # register width unknown here: such a register is dead past the join (-O0 code)
                if v is not None:
                    S.regs[r] = v
        return S

    def _overlap(self, o, off, n):
        for d in range(1, 8):
            c = o.cells.get(off - d)
            if c is not None and c[0] > d:
                return True
        for i in range(1, n):
            if off + i in o.cells:
                return True
        return False

    def _defined(self, o, off, n):
        return off in o.cells

    # ---------------------------------------------------------------- execution
    def call(self, name, args, st, module=None, parent=None):
        """execute function body; returns list of (state, retval)"""
        f = None
        if module is not None:
            f = module.funcs.get(name)
        if f is None:
            f = self.by_name.get(name)
        if f is None:
            for m in self.modules:
                if name in m.funcs:
                    f = m.funcs[name]
        if f is None:
            raise Unsupported('no body for ' + name)
        self.touched.add(f.module.name + ':' + name)
        fr = Frame(f, parent)
        fr.args = args
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion too deep')
        saved = st.regs
        st.regs = {}
        for (pn, pt), a in zip(f.params, args):
            st.regs[pn] = a
        res = self._run(fr, st)
        out = []
        for s, r in res:
            # free locals
            for ids in fr.locals.values():
                for i in ids:
                    s.mem.pop(i, None)
            s.regs = dict(saved) if len(res) > 1 else saved
            out.append((s, r))
        self.depth -= 1
        return out

    def _key(self, cfg, block, iters):
        k = []
        for h in cfg['nest'][block]:
            k.append(cfg['rpo'][h])
            k.append(iters.get(h, 0))
        k.append(cfg['rpo'][block])
        return tuple(k)

    def _run(self, fr, st, start=None, region=None, cuts=None):
        """worklist execution; region/cuts used for loop bodies under a loop contract.
        returns list of (state, retval) at returns; with region also appends ('exit', state, block, prev, iters) tuples"""
        f = fr.func
        cfg = f.cfg()
        results = []
        work = {}     # key -> list of (state, block, prev, iters)

        def push(s, b, prev, iters):
            k = self._key(cfg, b, iters)
            # evaluate phis on the edge so that merged states do not need the predecessor
            ins = f.blocks[b].ins
            if ins and ins[0].op == 'phi':
                newv = []
                for x in ins:
                    if x.op != 'phi':
                        break
                    for v, pb in x.a[1]:
                        if pb == prev:
                            newv.append((x.dst, x.a[0], self.val(fr, s, v, x.a[0])))
                            break
                for d, t, v in newv:
                    if t == ('i', 1):
                        v = bv.bv2b(v) if not isinstance(v, (bool, z3.BoolRef)) else v
                    s.regs[d] = v
            lst = work.setdefault(k, [])
            if not self.merge_ret and fr.parent is None and (not cfg['succ'][b] or self.merge_ret is None and leads_to_return(cfg, b)):
                lst.append((s, b, prev, iters))
                return
            for i, (s2, b2, p2, it2) in enumerate(lst):
                m = self._merge_checked(fr, s2, s, b)
                if m is not None:
                    lst[i] = (m, b, prev, iters)
                    return
            lst.append((s, b, prev, iters))
            if sum(len(v) for v in work.values()) > self.max_paths:
                raise Unsupported('too many paths in ' + f.name)

        b0 = start or cfg['entry']
        if region is None:
            push(st, b0, None, {h: 0 for h in cfg['nest'][b0]})
        else:
            work[self._key(cfg, b0, {})] = [(st, b0, None, {h: 0 for h in cfg['nest'][b0]})]
        first = region is not None
        while work:
            k = min(work)
            lst = work.pop(k)
            for (s, b, prev, iters) in lst:
                if not first and region is None and b in cfg['loops'] and iters.get(b, 0) == 0:
                    spec = self._spec_for(fr, b, s)
                    if spec is not None:
                        for kind, s2, b2, prev2 in self._cut_loop(fr, s, b, spec):
                            if kind == 'ret':
                                results.append((s2, prev2))
                            else:
                                it2 = {h: iters.get(h, 0) for h in cfg['nest'][b2]}
                                push(s2, b2, prev2, it2)
                        continue
                elif not first and region is not None and b in cfg['loops'] and b != region and iters.get(b, 0) == 0:
                    spec = self._spec_for(fr, b, s)
                    if spec is not None:
                        for kind, s2, b2, prev2 in self._cut_loop(fr, s, b, spec):
                            if kind == 'ret':
                                results.append(('ret', s2, None, prev2))
                            elif b2 == region:
                                results.append(('back', s2, b2, prev2))
                            elif b2 not in cfg['loops'][region]:
                                results.append(('exit', s2, b2, prev2))
                            else:
                                it2 = {h: iters.get(h, 0) for h in cfg['nest'][b2]}
                                push(s2, b2, prev2, it2)
                        continue
                first = False
                for (s2, nb, ret) in self._block(fr, s, b):
                    if nb is None:
                        if region is not None:
                            results.append(('ret', s2, None, ret))
                        else:
                            results.append((s2, ret))
                        continue
                    it2 = {}
                    for h in cfg['nest'][nb]:
                        if nb == h and b in cfg['loops'][h]:
                            it2[h] = iters.get(h, 0) + 1
                        elif h in cfg['nest'][b]:
                            it2[h] = iters.get(h, 0)
                        else:
                            it2[h] = 0
                    if region is not None:
                        if nb == region:
                            results.append(('back', s2, nb, b))
                            continue
                        if nb not in cfg['loops'][region]:
                            results.append(('exit', s2, nb, b))
                            continue
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported('time budget of the executor exhausted in ' + f.name)
                    if self.iter_hook is not None and nb in cfg['loops'] and it2.get(nb) is not None:
                        self.iter_hook(self, fr, s2, nb, it2[nb])
                    push(s2, nb, b, it2)
        if region is None and len(results) > 1 and self.merge_ret:
            results = self._merge_results(fr, results)
        return results

    def _merge_results(self, fr, results):
        out = []
        for s, r in results:
            for i, (s2, r2) in enumerate(out):
                m = self._try_merge_ret(fr, s2, r2, s, r)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append((s, r))
        return out

    def _try_merge_ret(self, fr, s1, r1, s2, r2):
        a, b = s1, s2
        a.regs, b.regs = {}, {}
        t = fr.func.rett
        m = self.merge(fr, a, b)
        if m is None:
            return None
        if t[0] == 'void':
            return (m, None)
        w = t[1] if t[0] == 'i' else 64
        # recompute the merge condition for the return value
        i = 0
        n = min(len(a.pc), len(b.pc))
        while i < n and a.pc[i] is b.pc[i]:
            i += 1
        c = bv.zb(bv.band(*a.pc[i:]))
        v = self.merge_val(c, r1, r2)
        if isinstance(v, tuple):
            v = bv.ite(c, r1, r2, w)
        if v is None:
            return None
        return (m, v)

    def _merge_checked(self, fr, s2, s, b):
        live = self._live_regs(fr.func, b)
        a = s2.regs
        c = s.regs
        s2.regs = {r: a[r] for r in a if r in live}
        s.regs = {r: c[r] for r in c if r in live}
        m = self.merge(fr, s2, s)
        if m is not None:
            for r in live:
                if r in s2.regs and r in s.regs and r not in m.regs:
                    m = None
                    break
        if m is None:
            s2.regs, s.regs = a, c
        return m

    def _live_regs(self, f, b):
        """registers used in blocks reachable from b that may be defined before b (cross-block registers only)"""
        if not hasattr(f, '_cross'):
            defb, use = {}, {}
            for bn in f.order:
                for ins in f.blocks[bn].ins:
                    if ins.dst:
                        defb[ins.dst] = bn

            def ops(x, acc):
                if isinstance(x, tuple):
                    if len(x) == 2 and x[0] == 'r':
                        acc.add(x[1])
                    else:
                        for y in x:
                            ops(y, acc)
                elif isinstance(x, list):
                    for y in x:
                        ops(y, acc)
            cross = set()
            for bn in f.order:
                for ins in f.blocks[bn].ins:
                    acc = set()
                    ops(ins.a, acc)
                    for r in acc:
                        if defb.get(r) != bn or ins.op == 'phi':
                            cross.add(r)
            for bn in f.order:
                for ins in f.blocks[bn].ins:
                    if ins.op in ('phi',):
                        cross.add(ins.dst)
            f._cross = cross
        return f._cross

    # one basic block; yields (state, nextblock|None, ret)
    def _block(self, fr, st, b):
        ins_list = fr.func.blocks[b].ins
        i = 0
        while i < len(ins_list) and ins_list[i].op == 'phi':
            i += 1
        stack = [(st, i)]
        out = []
        while stack:
            s, i = stack.pop()
            n = len(ins_list)
            while i < n:
                ins = ins_list[i]
                op = ins.op
                self.steps += 1
                if op == 'load':
                    t, q = ins.a
                    p = self.val(fr, s, q, ('ptr',))
                    sz = 8 if t[0] == 'ptr' else (t[1] + 7) // 8 if t[0] == 'i' else fr.func.module.types.size(t)
                    o = s.mem.get(p.obj) if isinstance(p, Ptr) and not p.t else None
                    v = None
                    if o is not None and o.arr is None:
                        c = o.cells.get(p.k)
                        if c is not None and c[0] == sz and o.forbid is None:
                            v = c[1]
                    if v is None:
                        if t[0] not in ('i', 'ptr', 'double'):
                            raise Unsupported('aggregate load')
                        if t[0] == 'ptr' and o is not None and o.arr is None and p.k not in o.cells:
                            raise Unsupported('load of unknown pointer from %s in %s' % (o.name, fr.func.name))
                        v = self.load(s, p, sz, fr.func.name)
                    if t[0] == 'ptr' and not isinstance(v, (Ptr, Opaque)):
                        if isinstance(v, int) and v == 0:
                            v = NULL
                        else:
                            raise Unsupported('integer used as pointer in ' + fr.func.name)
                    if t[0] == 'i' and t[1] == 1:
                        v = bv.bv2b(v)
                    if s.zeros and isinstance(v, BV):
                        v = reduce_zeros(v, s.zeros)
                    s.regs[ins.dst] = v
                elif op == 'store':
                    t, v, q = ins.a
                    v = self.val(fr, s, v, t)
                    p = self.val(fr, s, q, ('ptr',))
                    if t[0] == 'i' and t[1] == 1:
                        v = bv.b2bv(v, 8) if isinstance(v, (bool, z3.BoolRef)) else bv.zext(v, 1, 8)
                        sz = 1
                    else:
                        sz = 8 if t[0] == 'ptr' else fr.func.module.types.size(t)
                    self.store(s, p, sz, v, fr.func.name)
                elif op == 'gep':
                    s.regs[ins.dst] = self._gep(fr, s, ins)
                elif op == 'bin':
                    s.regs[ins.dst] = self._bin(fr, s, ins)
                elif op == 'icmp':
                    s.regs[ins.dst] = self._icmp(fr, s, ins)
                elif op == 'cast':
                    s.regs[ins.dst] = self._cast(fr, s, ins)
                elif op == 'alloca':
                    t, cnt = ins.a
                    c = self.val(fr, s, cnt, ('i', 64))
                    o = self.new_obj(s, fr.func.name + '.' + ins.dst[1:], fr.func.module.types.size(t) * c, kind='alloca')
                    fr.locals.setdefault(ins.dst, []).append(o.id)
                    s.regs[ins.dst] = Ptr(o.id)
                    if self.alloca_hook:
                        self.alloca_hook(self, fr, s, ins.dst[1:], o)
                elif op == 'br':
                    out.append((s, ins.a[0], None))
                    break
                elif op == 'cbr':
                    c = self.val(fr, s, ins.a[0], ('i', 1))
                    if isinstance(c, (int, BV)) and not isinstance(c, bool):
                        c = bv.bv2b(c)
                    cfg = fr.func.cfg()
                    nest = cfg['nest'][b]
                    if isinstance(c, bool):
                        out.append((s, ins.a[1] if c else ins.a[2], None))
                        for h in nest:
                            if ins.a[1] not in cfg['loops'][h] or ins.a[2] not in cfg['loops'][h]:
                                fr.conc.add(h)
                        break
                    prune = self.prune_all or bool(nest) and nest[-1] not in fr.conc
                    sc = z3.simplify(c)
                    if z3.is_true(sc) or z3.is_false(sc):
                        out.append((s, ins.a[1] if z3.is_true(sc) else ins.a[2], None))
                        break
                    nc = bv.bnot(c)
                    ft = self.feasible(s, c) if prune else True
                    ff = self.feasible(s, nc) if (prune and ft) else True
                    if ft and ff:
                        s2 = s.fork()
                        s.assume(c)
                        s2.assume(nc)
                        out.append((s, ins.a[1], None))
                        out.append((s2, ins.a[2], None))
                    elif ft:
                        s.assume(c)
                        out.append((s, ins.a[1], None))
                    else:
                        s.assume(nc)
                        out.append((s, ins.a[2], None))
                    break
                elif op == 'switch':
                    t, v, d, cases = ins.a
                    v = self.val(fr, s, v, t)
                    if isinstance(v, int):
                        tgt = d
                        for cv, cb in cases:
                            if cv == v:
                                tgt = cb
                        out.append((s, tgt, None))
                        break
                    nots = []
                    for cv, cb in cases:
                        c = bv.icmp('eq', v, cv, t[1])
                        s2 = s.fork()
                        s2.assume(c)
                        out.append((s2, cb, None))
                        nots.append(bv.bnot(c))
                    s.assume(bv.band(*nots))
                    out.append((s, d, None))
                    break
                elif op == 'ret':
                    t, v = ins.a
                    r = None
                    if v is not None:
                        r = self.val(fr, s, v, t)
                    out.append((s, None, r))
                    break
                elif op == 'call':
                    res = self._call(fr, s, ins)
                    for j, (s2, r) in enumerate(res):
                        if ins.dst is not None:
                            s2.regs[ins.dst] = r
                        if j > 0:
                            stack.append((s2, i + 1))
                    if not res:
                        s = None
                        break
                    s = res[0][0]
                elif op == 'select':
                    c, t, x, y = ins.a
                    c = self.val(fr, s, c, ('i', 1))
                    if isinstance(c, (int, BV)) and not isinstance(c, bool):
                        c = bv.bv2b(c)
                    x, y = self.val(fr, s, x, t), self.val(fr, s, y, t)
                    if isinstance(c, bool):
                        v = x if c else y
                    else:
                        v = self.merge_val(c, x, y)
                        if isinstance(v, tuple):
                            v = bv.ite(c, x, y, t[1])
                        if v is None:
                            raise Unsupported('select')
                    s.regs[ins.dst] = v
                elif op == 'unreachable':
                    self.prove(fr.func.name + ': unreachable code is not reached', s, False)
                    break
                elif op == 'float':
                    raise Unsupported('floating point in ' + fr.func.name)
                else:
                    raise Unsupported(op)
                i += 1
        return out

    def _gep(self, fr, s, ins):
        t, base, idx, inb = ins.a
        types = fr.func.module.types
        p = self.val(fr, s, base, ('ptr',))
        if isinstance(p, Opaque):
            return p
        cur = t
        for n, (it, iv) in enumerate(idx):
            x = self.val(fr, s, iv, it)
            if it[1] < 64:
                x = bv.sext(x, it[1], 64)
            if n == 0:
                p = p.plus(types.size(cur), x)
            else:
                rt = types.resolve(cur)
                if rt[0] == 'arr':
                    p = p.plus(types.size(rt[2]), x)
                    cur = rt[2]
                else:
                    if not isinstance(x, int):
                        raise Unsupported('gep')
                    p = p.plus_const(types.field_off(rt, x))
                    cur = rt[1][x]
        return p

    def _bin(self, fr, s, ins):
        op, t, a, b, fl = ins.a
        w = t[1]
        x = self.val(fr, s, a, t)
        y = self.val(fr, s, b, t)
        if isinstance(x, PtrInt) or isinstance(y, PtrInt):
            if op == 'sub' and isinstance(x, PtrInt) and isinstance(y, PtrInt) and x.p.obj == y.p.obj:
                return bv.sub(x.p.off(), y.p.off(), 64)
            def addr(p):
                return bv.add(bv.var('addr_%s' % p.obj, 64), p.off(), 64) if p.obj is not None else p.off()
            x = addr(x.p) if isinstance(x, PtrInt) else x
            y = addr(y.p) if isinstance(y, PtrInt) else y
            if isinstance(x, Opaque) or isinstance(y, Opaque):
                return Opaque('pointer arithmetic on integers')
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return Opaque('op')
        if w == 1:
            x = x if isinstance(x, (bool, z3.BoolRef)) else bv.bv2b(x)
            y = y if isinstance(y, (bool, z3.BoolRef)) else bv.bv2b(y)
            if op == 'xor':
                if isinstance(y, bool):
                    return bv.bnot(x) if y else x
                return z3.Xor(bv.zb(x), bv.zb(y))
            if op == 'and':
                return bv.band(x, y)
            if op == 'or':
                return bv.bor(x, y)
            raise Unsupported('i1 ' + op)
        if op == 'mul' and self.square is not None and w == 32 and isinstance(x, BV) and isinstance(y, BV) and \
                (x is y or x.e.eq(y.e)) and self._srange(x, w)[0] >= -32768 and self._srange(x, w)[1] <= 32767:
            self.trivial += 1          # (-32768)^2 = 2^30: no signed overflow, result below 2^31
            return bv.mk(32, z3.ZeroExt(1, self.square(z3.simplify(z3.Extract(15, 0, x.e)))))
        r = None
        if op == 'mul' and self.mul_hook is not None and isinstance(x, BV) and isinstance(y, BV):
            r = self.mul_hook(self, x, y, w)
        if r is None:
            r = bv.BINOPS[op](x, y, w)
        if self.concretize and isinstance(r, BV):
            r = self.constant(s, r, w)
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(y, int):
                if y >= w:
                    self.prove('%s: shift amount < %d' % (fr.func.name, w), s, False)
            else:
                self.prove('%s: shift amount < %d' % (fr.func.name, w), s, bv.icmp('ult', y, w, w))
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.prove('%s: division by zero' % fr.func.name, s, bv.icmp('ne', y, 0, w)) if not (isinstance(y, int) and y) else None
        if 'nsw' in fl and op in ('add', 'sub', 'mul'):
            if isinstance(x, int) and isinstance(y, int):
                q = {'add': bv.sgn(x, w) + bv.sgn(y, w), 'sub': bv.sgn(x, w) - bv.sgn(y, w), 'mul': bv.sgn(x, w) * bv.sgn(y, w)}[op]
                if not -(1 << (w - 1)) <= q < (1 << (w - 1)):
                    self.prove('%s: signed overflow in %s' % (fr.func.name, op), s, False)
            else:
                g = self._nsw(op, x, y, w)
                if g is not True:
                    self.prove('%s: no signed overflow in %s' % (fr.func.name, op), s, g)
        return r

    def constant(self, st, r, w):
        """r itself, or the constant it equals on the whole path (sampled first, then proved)"""
        v = None
        for m in self.concretize:
            k = m.eval(r.e, model_completion=True)
            if not z3.is_bv_value(k) or (v is not None and k.as_long() != v):
                return r
            v = k.as_long()
        q, _ = self.check(st.pc, [r.e != v], timeout=4000)
        return v if q == z3.unsat else r

    def _srange(self, x, w):
        if isinstance(x, int):
            v = bv.sgn(x, w)
            return v, v
        # sign-extended?  find the run of equal top bits
        bits = x.bits
        top = bits[-1]
        i = w - 1
        while i > 0 and bits[i - 1] == top:
            i -= 1
        if top == 0:
            return bv.umin(x, w), bv.umax(x, w)
        if top == 1:
            return -(1 << i), -1
        return -(1 << i), (1 << i) - 1

    def _nsw(self, op, x, y, w):
        (a0, a1), (b0, b1) = self._srange(x, w), self._srange(y, w)
        if op == 'add':
            lo, hi = a0 + b0, a1 + b1
        elif op == 'sub':
            lo, hi = a0 - b1, a1 - b0
        else:
            c = [a0 * b0, a0 * b1, a1 * b0, a1 * b1]
            lo, hi = min(c), max(c)
        if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)):
            self.trivial += 1
            return True
        zx, zy = bv.z(x, w), bv.z(y, w)
        k = w if op == 'mul' else 1
        ex, ey = z3.SignExt(k, zx), z3.SignExt(k, zy)
        r = {'add': ex + ey, 'sub': ex - ey, 'mul': ex * ey}[op]
        return z3.And(r >= -(1 << (w - 1)), r <= (1 << (w - 1)) - 1)

    def _icmp(self, fr, s, ins):
        pred, t, a, b = ins.a
        x = self.val(fr, s, a, t)
        y = self.val(fr, s, b, t)
        if t[0] == 'ptr':
            if not isinstance(x, Ptr) or not isinstance(y, Ptr):
                raise Unsupported('opaque pointer comparison')
            if x.obj != y.obj:
                if pred == 'eq':
                    return False
                if pred == 'ne':
                    return True
                raise Unsupported('ordering of unrelated pointers')
            return bv.icmp(pred, x.off(), y.off(), 64)
        if isinstance(x, (Opaque, PtrInt)) or isinstance(y, (Opaque, PtrInt)):
            raise Unsupported('comparison of opaque value in ' + fr.func.name)
        if t[1] == 1:
            x = x if isinstance(x, (bool, z3.BoolRef)) else bv.bv2b(x)
            y = y if isinstance(y, (bool, z3.BoolRef)) else bv.bv2b(y)
            if pred == 'eq' or pred == 'ne':
                r = bv.zb(x) == bv.zb(y)
                if isinstance(y, bool):
                    r = x if y else bv.bnot(x)
                return r if pred == 'eq' else bv.bnot(r)
            raise Unsupported('i1 compare')
        if isinstance(x, (bool, z3.BoolRef)):
            x = bv.b2bv(x, t[1])
        r = bv.icmp(pred, x, y, t[1])
        note_range(pred, x, y, t[1], r)
        return r

    def _cast(self, fr, s, ins):
        op, t, v, t2 = ins.a
        x = self.val(fr, s, v, t)
        if op == 'ptrtoint':
            return PtrInt(x) if isinstance(x, Ptr) else x
        if op == 'inttoptr':
            if isinstance(x, PtrInt):
                return x.p
            return Opaque('inttoptr')
        if isinstance(x, Opaque):
            return x
        w, w2 = t[1], t2[1]
        if w == 1:
            c = x if isinstance(x, (bool, z3.BoolRef)) else bv.bv2b(x)
            if op == 'zext':
                return bv.b2bv(c, w2)
            r = bv.b2bv(c, 1)
            return bv.sext(r, 1, w2)
        if op == 'zext':
            return bv.zext(x, w, w2)
        if op == 'sext':
            return bv.sext(x, w, w2)
        if op == 'trunc':
            if isinstance(x, PtrInt):
                return Opaque('trunc ptr')
            r = bv.trunc(x, w, w2)
            if w2 == 1:
                return bv.bv2b(r)
            return r
        raise Unsupported(op)

    def _call(self, fr, s, ins):
        rt, callee, args = ins.a
        if not callee.startswith('@'):
            raise Unsupported('indirect call in ' + fr.func.name)
        name = callee[1:]
        av = [self.val(fr, s, v, t) for t, v in args]
        c = self.contracts.get(name)
        if c is not None:
            self.called_contracts.add(name)
            r = c(self, s, av, fr)
            if isinstance(r, list):
                return r
            return [(s, r)]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            a, b, n = av[0], av[1], av[2]
            if 'memcpy' in name and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None:
                d = bv.sub(a.off(), b.off(), 64)
                self.prove(fr.func.name + ': memcpy regions do not overlap', s,
                           bv.bor(bv.icmp('eq', n, 0, 64), bv.band(bv.icmp('uge', d, n, 64), bv.icmp('uge', bv.sub(0, d, 64), n, 64))))
            self.copy_bytes(s, a, b, n, fr.func.name + ': ' + ('memcpy' if 'memcpy' in name else 'memmove'))
            return [(s, av[0])]
        if name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
            t = args[0][0]
            w = t[1]
            x = bv.z(av[0], w)
            r = K_(w, w)
            for i in (range(w) if 'ctlz' in name else range(w - 1, -1, -1)):
                r = z3.If(z3.Extract(i, i, x) == 1, K_(w - 1 - i if 'ctlz' in name else i, w), r)
            if av[1] is True or (isinstance(av[1], int) and av[1]):
                self.prove('%s: bit scan of zero' % fr.func.name, s, x != 0)
            return [(s, bv.mk(w, z3.simplify(r)))]
        if name.startswith('llvm.memset') or name == 'memset':
            p, v, n = av[0], av[1], av[2]
            if name == 'memset':
                v = bv.trunc(v, 32, 8)
            if not isinstance(n, int) or not p.concrete() or s.mem[p.obj].arr is not None:
                self.sym_bounds(s, p, n, fr.func.name + ': memset')
                o = s.wobj(p.obj)
                if not o.writable:
                    self.prove('%s: memset of read-only object %s' % (fr.func.name, o.name), s, bv.icmp('eq', n, 0, 64))
                if o.scal:
                    self._clear_of_fields(s, o, p, n, fr.func.name)
                if o.arr is None:
                    self.make_arr(o, 1)
                if o.elem != 1:
                    raise Unsupported('symbolic memset of non-byte object')
                i = z3.FreshConst(BV64, 'i')
                o.arr = z3.Lambda([i], z3.If(z3.ULT(i - bv.z(p.off(), 64), bv.z(n, 64)), bv.z(v, 8), z3.Select(o.arr, i)))
                return [(s, p)]
            if n:
                o = s.mem[p.obj]
                self._bounds(s, o, p, n, 'memset', fr.func.name)
                if p.k + n <= o.size:
                    for i in range(n):
                        self.store(s, p.plus_const(i), 1, v, fr.func.name, check=False)
            return [(s, p)]
        return self.call(name, av, s, fr.func.module, fr)

    # ---------------------------------------------------------------- loop contracts
    def _spec_for(self, fr, header, st):
        specs = self.loop_specs
        for sp in specs:
            if sp.matches(self, fr, header, st):
                return sp
        return None

    def _cut_loop(self, fr, st, header, spec):
        """returns list of (kind, state, block, prev|ret): continuation of the states leaving the loop"""
        cfg = fr.func.cfg()
        entry = st.fork()
        L0 = View(self, fr, st, entry)
        spec.begin(self, L0)
        havoc = {'obj': {}, 'ghost': set(spec.ghost)}
        # fixpoint over modified locations
        self.quiet += 1
        for rounds in range(12):
            h = self._havoc(fr, entry, havoc, spec)
            hb = h.fork()
            vh = View(self, fr, hb, entry)
            for nm, g in spec.invariants(self, vh):
                hb.assume(g)
            spec.assume_hook(self, vh)
            res = self._run(fr, hb, start=header, region=header)
            grew = False
            for kind, s2, b2, prev in res:
                grew |= self._diff(h, s2, havoc, only_back=(kind == 'back'))
            if not grew:
                break
        else:
            raise Unsupported('loop frame does not stabilise')
        self.quiet -= 1
        spec.infer(self, fr, header, entry, lambda: self._havoc(fr, entry, havoc, spec))
        name = fr.func.name + ':' + spec.name
        for nm, g in spec.invariants(self, View(self, fr, entry, entry)):
            self.prove('%s: invariant on entry: %s' % (name, nm), entry, g)
        h = self._havoc(fr, entry, havoc, spec)
        body = h.fork()
        vb = View(self, fr, body, entry)
        for nm, g in spec.invariants(self, vb):
            body.assume(g)
        spec.assume_hook(self, vb)
        # vacuity guard: the invariant must be satisfiable
        if not self.quiet:
            r, _ = self.check(body.pc, timeout=5000)
            self.obls.append(Obl(name + ': invariant satisfiable (vacuity guard)', 'proved' if r != z3.unsat else 'failed'))
        head = body.fork()
        res = self._run(fr, body, start=header, region=header)
        out = []
        nback = 0
        for kind, s2, b2, prev in res:
            v2 = View(self, fr, s2, entry, head)
            if kind == 'back':
                nback += 1
                spec.step(self, v2)
                for nm, g in spec.invariants(self, v2):
                    self.prove('%s: invariant preserved: %s' % (name, nm), s2, g)
                d = spec.decreases(self, v2)
                if d is not None:
                    self.prove('%s: variant decreases' % name, s2, d)
            elif kind == 'exit':
                spec.leave(self, v2)
                out.append(('exit', s2, b2, prev))
            else:
                spec.leave(self, v2)
                out.append(('ret', s2, None, prev))
        return out

    def _havoc(self, fr, entry, havoc, spec):
        s = entry.fork()
        for oid, offs in havoc['obj'].items():
            if oid not in s.mem:
                continue
            o = s.wobj(oid)
            for off, n in havoc.get(('scal', oid), ()):
                o.cells[off] = (n, bv.fresh('%s_%d' % (o.name, off), 8 * n))
            if offs == 'arr':
                src = o
                if o.arr is None:
                    self.make_arr(o, havoc.get(('elem', oid), 1))
                o.arr = z3.FreshConst(o.arr.sort(), o.name + '_h')
            else:
                for off, n in offs:
                    c = o.cells.get(off)
                    old = c[1] if c is not None and c[0] == n else None
                    if isinstance(old, Ptr):
                        g = havoc.get(('scale', oid, off), 1)
                        v = Ptr(old.obj, old.k % g).plus(g, bv.fresh(o.name, 64))
                    else:
                        v = bv.fresh(o.name, 8 * n)
                    self._cells_store(o, off, n, v)
        for g in havoc['ghost']:
            v = s.ghost.get(g)
            if isinstance(v, (int, BV)):
                s.ghost[g] = bv.fresh('g_' + g, v.w if isinstance(v, BV) else 64)
            elif z3.is_expr(v):
                s.ghost[g] = z3.FreshConst(v.sort(), 'g_' + g)
        return s

    def _diff(self, h, s2, havoc, only_back):
        """locations of s2 that differ from the header state and are not havocked yet"""
        grew = False
        if not only_back:
            return False
        for g in s2.ghost:
            a, b = h.ghost.get(g), s2.ghost[g]
            same = a is b or (isinstance(a, BV) and isinstance(b, BV) and a.e.eq(b.e)) or (isinstance(a, int) and isinstance(b, int) and a == b)
            if not same and z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
                same = True
            if not same and not isinstance(a, (BV, int)) and not z3.is_expr(a) and a == b:
                same = True
            if not same and g not in havoc['ghost']:
                havoc['ghost'].add(g)
                grew = True
        for oid, oh in h.mem.items():
            o2 = s2.mem.get(oid)
            if o2 is None or o2 is oh:
                continue
            cur = havoc['obj'].get(oid)
            if o2.scal:
                ks = set(havoc.get(('scal', oid), ()))
                for off, n in o2.scal.items():
                    a, b = oh.cells.get(off), o2.cells.get(off)
                    same = a is b or (a is not None and b is not None and
                                      (a[1] is b[1] or (isinstance(a[1], int) and isinstance(b[1], int) and a[1] == b[1]) or
                                       (isinstance(a[1], BV) and isinstance(b[1], BV) and a[1].e.eq(b[1].e))))
                    if not same and (off, n) not in ks:
                        ks.add((off, n))
                        grew = True
                if ks:
                    havoc[('scal', oid)] = sorted(ks)
                    havoc['obj'].setdefault(oid, [])
            if cur == 'arr':
                continue
            if o2.arr is not None:
                if oh.arr is not None and oh.arr.eq(o2.arr):
                    continue
                havoc['obj'][oid] = 'arr'
                havoc[('elem', oid)] = o2.elem
                grew = True
                continue
            known = set(cur or ())
            for off, (n, v) in o2.cells.items():
                c = oh.cells.get(off)
                if c is not None and c[0] == n:
                    w = c[1]
                    if w is v or (isinstance(w, int) and isinstance(v, int) and w == v):
                        continue
                    if isinstance(w, BV) and isinstance(v, BV) and w.e.eq(v.e):
                        continue
                    if isinstance(w, Ptr) and isinstance(v, Ptr):
                        if pkey(w) == pkey(v):
                            continue
                        if w.obj != v.obj:
                            raise Unsupported('pointer variable changes object inside a loop')
                        d = Ptr(w.obj, v.k - w.k, tuple(x for x in v.t))
                        g = 8
                        for cc in [bv.sgn((v.k - w.k) & bv.full(64), 64)] + [bv.sgn(x, 64) for x, y in v.t if not any(y is yy for _, yy in w.t)]:
                            while cc % g:
                                g //= 2
                        key = ('scale', oid, off)
                        if (off, n) in known:
                            if g < havoc.get(key, 8):
                                havoc[key] = g
                                grew = True
                            continue
                        havoc[key] = g
                if (off, n) not in known:
                    # cell sizes may differ between rounds: drop overlapping smaller entries
                    known = {(a, b) for a, b in known if a + b <= off or a >= off + n}
                    known.add((off, n))
                    grew = True
            if known:
                havoc['obj'][oid] = sorted(known)
        return grew


def select(a, i):
    """element i of an array term; copies (lambda terms) are unfolded at the index"""
    if z3.is_quantifier(a) and a.is_lambda():
        b = z3.substitute_vars(a.body(), i)
        return _unfold(b)
    return z3.Select(a, i)


def _unfold(e):
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return z3.If(e.arg(0), _unfold(e.arg(1)), _unfold(e.arg(2)))
    if z3.is_app_of(e, z3.Z3_OP_SELECT):
        return select(e.arg(0), e.arg(1))
    return e


class View:
    """what a loop contract sees: variables by source name (innermost frame first), ghost state, memory"""

    def __init__(self, eng, fr, st, entry, head=None):
        self.eng, self.fr, self.st, self.entry, self.head = eng, fr, st, entry, head

    def obj_of(self, name):
        f = self.fr
        while f is not None:
            ids = f.locals.get('%' + name) or f.locals.get('%' + name + '.addr')
            if ids:
                return ids[-1]
            f = f.parent
        raise Unsupported('loop contract refers to variable %s, which does not exist' % name)

    def has(self, name):
        try:
            self.obj_of(name)
            return True
        except Unsupported:
            return False

    def _get(self, st, name):
        o = st.mem[self.obj_of(name)]
        if o.arr is not None:
            return o
        c = o.cells.get(0)
        if c is None:
            v = bv.fresh(o.name, 8 * o.size)
            o.cells[0] = (o.size, v)
            return v
        return c[1]

    def v(self, name):
        return self._get(self.st, name)

    def v0(self, name):
        return self._get(self.entry, name)

    def vh(self, name):
        return self._get(self.head, name)

    def w(self, name):
        return 8 * self.st.mem[self.obj_of(name)].size

    def obj(self, oid):
        return self.st.mem[oid]

    def scalars(self):
        """names of scalar integer locals of the innermost frame"""
        out = []
        for nm, ids in self.fr.locals.items():
            o = self.st.mem.get(ids[-1])
            if o is not None and o.arr is None and o.size in (1, 2, 4, 8):
                c = o.cells.get(0)
                if c is None or isinstance(c[1], (int, BV)):
                    out.append((nm[1:], 8 * o.size))
        return out

    def words(self):
        """(label, value, width) of every scalar integer local of the frames in sight; pointers: (label, Ptr, 0)"""
        out, f, d = [], self.fr, 0
        while f is not None:
            for nm, ids in f.locals.items():
                o = self.st.mem.get(ids[-1])
                if o is not None and o.arr is None and o.size in (1, 2, 4, 8):
                    c = o.cells.get(0)
                    lab = nm[1:] + "'" * d
                    if c is None:
                        c = o.cells[0] = (o.size, bv.fresh(o.name, 8 * o.size))
                    if isinstance(c[1], (int, BV)):
                        out.append((lab, c[1], 8 * o.size))
                    elif isinstance(c[1], Ptr):
                        out.append((lab, c[1], 0))
            f, d = f.parent, d + 1
        return out


def K_(v, w):
    return z3.BitVecVal(v, w)


ORIGINAL = set(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c_functions.json'))))


def leads_to_return(cfg, b):
    for _ in range(20):
        n = cfg['succ'][b]
        if not n:
            return True
        if len(n) > 1:
            return False
        b = n[0]
    return False


def loops_of(eng, func, seen=()):
    """loops in order, those of functions extracted from this one included: (function, header)"""
    cfg = func.cfg()
    out = []
    for b in sorted(cfg['rpo'], key=lambda b: cfg['rpo'][b]):
        if b in cfg['loops']:
            out.append((func.name, b))
        for i in func.blocks[b].ins:
            if i.op == 'call' and isinstance(i.a[1], str):
                n = i.a[1].lstrip('@')
                if n in func.module.funcs and n not in ORIGINAL and n not in seen and n not in eng.contracts:
                    out += [x for x in loops_of(eng, func.module.funcs[n], seen + (func.name, n)) if x not in out]
    return out


class LoopSpec:
    name = 'loop'
    ghost = ()

    def __init__(self, func=None, ordinal=None, name=None):
        self.func, self.ordinal = func, ordinal
        if name:
            self.name = name

    def matches(self, eng, fr, header, st):
        # a function the original code does not have is a part of its caller, and so are its loops
        name = fr.func.name
        while fr is not None and fr.func.name not in ORIGINAL:
            fr = fr.parent
        if fr is None or fr.func.name != self.func:
            return False
        return self.ordinal is None or loops_of(eng, fr.func).index((name, header)) == self.ordinal

    def begin(self, eng, L):
        pass

    def infer(self, eng, fr, header, entry, mk):
        pass

    def invariants(self, eng, L):
        return []

    def assume_hook(self, eng, L):
        pass

    def step(self, eng, L):
        pass

    def leave(self, eng, L):
        pass

    def decreases(self, eng, L):
        return None


def cvc5_unsat(solver, secs):
    import subprocess
    import tempfile
    import os
    try:
        smt = solver.to_smt2()
    except Exception:
        return None
    if 'lambda' in smt:
        return None
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write('(set-logic ALL)\n' + smt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), fh.name], capture_output=True, text=True, timeout=secs + 5)
        out = r.stdout.split()
        return out[0] if out else None
    except Exception:
        return None
    finally:
        os.unlink(fh.name)
