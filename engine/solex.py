"""Executor for the Solidity and Yul of /repo, over EVM words: Python ints, bit-vector terms (bv.BV), z3 booleans,
memory references (Ptr) or domain objects (classes derived from Dom, which bring their own arithmetic).

Memory is a set of regions (one per allocation); an address is a region and an offset.  The absolute address of a
region is not known to a proof: comparing an address with a number is an error there, and so is any write outside the
region an address points into.  The concrete interpreter (mode 'run') lays regions out from 0x80 as solc does.
Reverts, panics and checked arithmetic follow Solidity 0.8.  Paths are explored by re-execution (engine Paths).
"""
import os
import z3
import bv
from solparse import parse, N, SolError, Unsupported

W = 256
M = (1 << 256) - 1


class Revert(Exception):
    def __init__(self, data=None):
        super().__init__(repr(data))
        self.data = data


class _Return(Exception):
    pass


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Leave(Exception):
    pass


class Infeasible(Exception):
    pass


class StopPath(Exception):
    """the rest of the path is of no interest (a loop rule ended it)"""


class Dom:
    """domain value: op(name, args, ex) -> value, or NotImplemented"""

    def yop(self, name, args, ex):
        return NotImplemented

    def interval(self):
        return None


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r
        self.o = o

    def __repr__(self):
        return '<%s+%s>' % (self.r.name, self.o)


class Region:
    """words at multiples of 32"""

    def __init__(self, name, size, base=None, zero=True, cells=None, ro=False):
        self.name = name
        self.size = size            # bytes, or None (unbounded)
        self.base = base
        self.zero = zero
        self.cells = cells if cells is not None else {}
        self.ro = ro
        self.ty = None

    def clone(self):
        r = self.__class__.__new__(self.__class__)
        r.__dict__.update(self.__dict__)
        r.cells = dict(self.cells)
        return r

    def get(self, ex, o):
        v = self.cells.get(o)
        if v is None:
            if self.size is not None and (o < 0 or o >= (self.size + 31) // 32 * 32):
                return ex.outside_read(self, o)
            if not self.zero:
                return ex.unset(self, o)
            return 0
        return v

    def load(self, ex, o):
        if type(o) is not int:
            raise Unsupported('read of %s at a symbolic offset' % self.name)
        o = sgn(o)
        k = o % 32
        if k == 0:
            return self.get(ex, o)
        a, b = self.get(ex, o - k), self.get(ex, o - k + 32)
        return ex.op('or', [ex.op('shl', [8 * k, a]), ex.op('shr', [256 - 8 * k, b])])

    def store(self, ex, o, v):
        if type(o) is not int:
            raise Unsupported('write to %s at a symbolic offset' % self.name)
        o = sgn(o)
        if self.ro or o < 0 or (self.size is not None and o + 32 > (self.size + 31) // 32 * 32):
            ex.outside_write(self, o, 32)
        k = o % 32
        if k == 0:
            self.cells[o] = v
            ex.written(self, o)
            return
        a, b = self.get(ex, o - k), self.get(ex, o - k + 32)
        hi = M ^ ((1 << (256 - 8 * k)) - 1)
        lo = (1 << (256 - 8 * k)) - 1
        self.cells[o - k] = ex.op('or', [ex.op('and', [a, hi]), ex.op('shr', [8 * k, v])])
        self.cells[o - k + 32] = ex.op('or', [ex.op('and', [b, lo]), ex.op('shl', [256 - 8 * k, v])])
        ex.written(self, o - k)
        ex.written(self, o - k + 32)

    def get_byte(self, ex, i):
        """byte i of a bytes array"""
        o = 32 + i
        return ex.op('byte', [o % 32, self.get(ex, o - o % 32)])

    def put_byte(self, ex, i, v):
        o = 32 + i
        k = o % 32
        sh = 8 * (31 - k)
        w = self.get(ex, o - k)
        self.cells[o - k] = ex.op('or', [ex.op('and', [w, M ^ (0xff << sh)]), ex.op('shl', [sh, v])])
        ex.written(self, o - k)


def sgn(x):
    return x - (1 << 256) if x >> 255 else x


def signed(x):
    return x - (1 << 256) if x >> 255 else x


# ---------------------------------------------------------------------------------------------- types
LIT = ('lit',)
U256 = ('elem', 'uint256')
BOOL = ('elem', 'bool')
BYTES = ('elem', 'bytes')
STRING = ('elem', 'string')
ADDR = ('elem', 'address')
B32 = ('elem', 'bytes32')
B1 = ('elem', 'bytes1')


def bits_of(ty):
    if ty[0] != 'elem':
        raise Unsupported('width of %r' % (ty,))
    n = ty[1]
    if n.startswith('uint'):
        return int(n[4:] or 256)
    if n.startswith('int'):
        return int(n[3:] or 256)
    if n == 'address':
        return 160
    if n == 'bool':
        return 1
    if n.startswith('bytes') and len(n) > 5:
        return 8 * int(n[5:])
    raise Unsupported('width of %s' % n)


def is_signed(ty):
    return ty[0] == 'elem' and ty[1].startswith('int')


def is_uint(ty):
    return ty[0] == 'elem' and ty[1].startswith('uint')


def is_fbytes(ty):
    return ty[0] == 'elem' and ty[1].startswith('bytes') and len(ty[1]) > 5


def is_ref(ty):
    return ty[0] in ('array', 'struct') or ty in (BYTES, STRING)


# ---------------------------------------------------------------------------------------------- programs
class Program:
    """a Solidity file with its imports"""

    def __init__(self, path, skip=('forge-std', 'InterfaceVerifier', 'sstore2')):
        self.funs = {}
        self.consts = {}
        self.structs = {}
        self.contracts = {}
        self.files = []
        self.skip = skip
        self._load(os.path.realpath(path))

    def _load(self, path):
        if path in self.files:
            return
        self.files.append(path)
        for it in parse(path):
            if it.k == 'import':
                if any(s in it.path for s in self.skip):
                    continue
                self._load(os.path.realpath(os.path.join(os.path.dirname(path), it.path)))
            elif it.k == 'function':
                self.funs.setdefault(it.name, []).append(it)
            elif it.k == 'struct':
                self.structs[it.name] = it
            elif it.k == 'contract':
                it.file = path
                self.contracts[it.name] = it
            elif it.k == 'var':
                self.consts[it.name] = it

    def contract(self, name):
        return self.contracts[name]


class Contract:
    """an instance: storage and code"""

    def __init__(self, cdef):
        self.cdef = cdef
        self.funs = {}
        self.vars = {}
        self.structs = {}
        self.storage = {}
        self.types = {}
        for it in cdef.items:
            if it.k == 'function':
                self.funs.setdefault(it.name, []).append(it)
            elif it.k == 'var':
                self.vars[it.name] = it
            elif it.k == 'struct':
                self.structs[it.name] = it


class Env:
    __slots__ = ('d', 'up')

    def __init__(self, up=None):
        self.d = {}
        self.up = up

    def find(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return e.d
            e = e.up
        return None

    def flat(self):
        out = {}
        e = self
        while e is not None:
            for k, v in e.d.items():
                out.setdefault(k, v)
            e = e.up
        return out


class Frame:
    def __init__(self, ex, fn, contract, env):
        self.fn = fn
        self.contract = contract
        self.env = env
        self.unchecked = False
        self.loops = 0
        self.depth = 0


class LoopRun:
    """a loop of the program handed to a rule"""

    def __init__(self, ex, node, yul, no):
        self.ex = ex
        self.node = node
        self.yul = yul
        self.no = no
        self.env = ex.fr.env

    def cond(self):
        """decide whether the loop goes on (None condition: always)"""
        n = self.node
        if n.cond is None:
            return True
        v = self.ex.yeval(n.cond) if self.yul else self.ex.eval(n.cond)[0]
        return self.ex.truth(v)

    def body(self):
        """run the body once: 'next', 'break' (exceptions for anything else)"""
        try:
            if self.yul:
                self.ex.yblock(self.node.body)
            else:
                self.ex.stmt(self.node.body)
        except _Break:
            return 'break'
        except _Continue:
            pass
        return 'next'

    def post(self):
        if self.yul:
            self.ex.yblock(self.node.post)
        elif self.node.post is not None:
            self.ex.stmt(self.node.post)

    def run(self):
        """plain execution"""
        ex = self.ex
        n = 0
        if not self.yul and not self.node.pre:
            if self.body() == 'break':
                return
        while self.cond():
            n += 1
            if n > ex.max_iter:
                raise Unsupported('loop at line %d: more than %d iterations' % (self.node.line, ex.max_iter))
            if self.body() == 'break':
                return
            self.post()

    def vars(self):
        """the variables assigned in the loop and declared outside it: name -> dictionary holding it"""
        names = assigned(self.node)
        out = {}
        for a in names:
            d = self.env.find(a)
            if d is not None:
                out[a] = d
        return out


def assigned(node):
    out = []

    def walk(n):
        if isinstance(n, N):
            if n.k == 'yassign':
                out.extend(v for v in n.vars if v not in out)
            elif n.k == 'assign':
                tgt(n.lhs)
            elif n.k == 'incdec':
                tgt(n.e)
            for k, v in n.__dict__.items():
                if k not in ('k', 'line'):
                    walk(v)
        elif isinstance(n, (list, tuple)):
            for v in n:
                walk(v)

    def tgt(n):
        if n is None:
            return
        if n.k == 'id' and n.name not in out:
            out.append(n.name)
        elif n.k == 'paren':
            tgt(n.e)
        elif n.k == 'tuple':
            for e in n.es:
                tgt(e)
    walk(node)
    return out


def pure(n):
    """an expression without calls, assignments or increments"""
    if isinstance(n, N):
        if n.k in ('assign', 'incdec', 'new') or (n.k == 'call' and not (n.f.k in ('type', 'elem') or (n.f.k == 'id' and n.f.name in TYPEFUNS))):
            return False
        return all(pure(v) for k, v in n.__dict__.items() if k not in ('k', 'line'))
    if isinstance(n, (list, tuple)):
        return all(pure(v) for v in n)
    return True


TYPEFUNS = ('addmod', 'mulmod')


def ypure(n):
    if n.k == 'ycall':
        return (n.f in COP or n.f == 'mload') and all(ypure(a) for a in n.args)
    return n.k in ('ynum', 'yid')


def only_assigns(n, yul):
    """a block of assignments of pure expressions to local variables"""
    if yul:
        return all((s.k == 'yassign' and len(s.vars) == 1 and ypure(s.e)) or (s.k == 'ylet' and s.e is not None and len(s.vars) == 1 and ypure(s.e)) for s in n.body)
    if n.k == 'block':
        return all(only_assigns(s, False) for s in n.body)
    return n.k == 'expr' and n.e.k == 'assign' and n.e.lhs is not None and n.e.lhs.k == 'id' and pure(n.e.rhs)


# ---------------------------------------------------------------------------------------------- executor
class Ex:
    def __init__(self, prog, mode='prove', stubs=None, loops=None, keccak=None, decisions=(), solver=None):
        self.prog = prog
        self.mode = mode
        self.stubs = stubs or {}
        self.loops = loops or {}
        self.keccak_hook = keccak
        self.decisions = list(decisions)
        self.taken = []
        self.pending = []            # alternative decision vectors
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 60000)
        self.nfresh = 0
        self.next_base = 0x80
        self.free = Region('free', None, zero=False)
        self.free_off = 0
        self.fr = None
        self.problems = []           # (name, detail): memory errors met on this path
        self.reverts = []            # (path condition, data): paths ended by a revert that were followed inline
        self.touched = set()
        self.max_iter = 200000
        self.codes = {}              # address -> code bytes (concrete mode)
        self.scratch = {}
        self.constcache = {}
        self.no_fork = False
        self.log = []
        self.track = None
        self.sp = None               # the space of the domain values met so far (soldom)

    # --- solver and branching
    def assume(self, c):
        if c is True or (type(c) is bool and c):
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)
        self.solver.add(c)

    def sat(self, *cs):
        self.solver.push()
        for c in cs:
            self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        if r == z3.unknown:
            raise Unsupported('the solver cannot decide a branch condition')
        return r == z3.sat

    def truth(self, v):
        """truth of a word or boolean, forking if need be"""
        if type(v) is bool:
            return v
        if type(v) is int:
            return v != 0
        if isinstance(v, Dom):
            r = v.yop('truth', [v], self)
            if r is NotImplemented:
                raise Unsupported('branch on %r' % (v,))
            return self.truth(r)
        if isinstance(v, bv.BV):
            v = bv.bnot(bv.icmp('eq', v, 0, v.w))
            if type(v) is bool:
                return v
        if isinstance(v, Ptr):
            return True
        return self.branch(v)

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.taken)
        if k < len(self.decisions):
            d = self.decisions[k]
        else:
            a = self.sat(c)
            b = self.sat(z3.Not(c)) if a else True
            if a and b:
                if self.no_fork:
                    raise Unsupported('branch inside an inline path')
                self.pending.append(self.taken + [False])
                d = True
            else:
                if not a and not b:
                    raise Infeasible()
                # forced: not a decision
                self.assume(c if a else z3.Not(c))
                self.taken.append(2 if a else 3)
                return a
        self.taken.append(d)
        d = d in (True, 2)
        self.assume(c if d else z3.Not(c))
        return d

    def fresh(self, name):
        self.nfresh += 1
        return bv.var('%s!%d' % (name, self.nfresh), W)

    # --- memory
    def alloc(self, name, size, ty=None, zero=True):
        base = self.next_base
        self.next_base += (size + 31) // 32 * 32
        r = Region('%s#%x' % (name, base), size, base if self.mode == 'run' else None, zero=zero)
        r.ty = ty
        return r

    def outside_read(self, r, o):
        if self.mode == 'run':
            a = r.base + o
            return 0
        self.problem('read outside %s' % r.name, 'offset %d, size %s' % (o, r.size))
        return self.fresh('outside')

    def outside_write(self, r, o, n):
        if self.mode == 'run':
            return
        self.problem('write outside %s' % r.name, 'offset %s, size %s' % (o, r.size))

    def unset(self, r, o):
        if self.mode == 'run':
            return 0
        return self.fresh('dirty')

    def written(self, r, o):
        if self.track is not None:
            self.track.add((r, o))

    def problem(self, name, detail=''):
        self.problems.append((name, detail))

    def mload(self, a):
        if isinstance(a, Ptr):
            return a.r.load(self, a.o)
        if type(a) is int:
            if a == 0x40:
                return Ptr(self.free, self.free_off)
            if a < 0x40:
                return self.scratch.get(a, 0)
            if a == 0x60:
                return 0
            if self.mode == 'run':
                return 0
            self.problem('read at a constant address', hex(a))
            return self.fresh('abs')
        raise Unsupported('read at address %r' % (a,))

    def mstore(self, a, v):
        if isinstance(a, Ptr):
            return a.r.store(self, a.o, v)
        if type(a) is int:
            if a == 0x40:
                if not isinstance(v, Ptr) or v.r is not self.free:
                    raise Unsupported('free memory pointer set to %r' % (v,))
                self.free_off = v.o
                return
            if a < 0x40:
                self.scratch[a] = v
                return
            if self.mode == 'run':
                return
            self.problem('write at a constant address', hex(a))
            return
        raise Unsupported('write at address %r' % (a,))

    # --- words
    def op(self, name, a):
        allint = True
        for x in a:
            if type(x) is not int:
                allint = False
                break
        if allint:
            return self.cop(name, a)
        for x in a:
            if isinstance(x, Dom):
                r = x.yop(name, a, self)
                if r is not NotImplemented:
                    return r
        if any(isinstance(x, Ptr) for x in a):
            return self.pop(name, a)
        if any(isinstance(x, Dom) for x in a):
            raise Unsupported('%s on %r' % (name, a))
        return self.sop(name, a)

    def cop(self, name, a):
        f = COP.get(name)
        if f is None:
            raise Unsupported('operation %s' % name)
        return f(*a)

    def pop(self, name, a):
        if len(a) == 2:
            x, y = a
            px, py = isinstance(x, Ptr), isinstance(y, Ptr)
            if name == 'add' and px != py:
                p, i = (x, y) if px else (y, x)
                return Ptr(p.r, self.op('add', [p.o, i]))
            if name == 'sub' and px and not py:
                return Ptr(x.r, self.op('sub', [x.o, y]))
            if name == 'sub' and px and py and x.r is y.r:
                return self.op('sub', [x.o, y.o])
            if name in ('lt', 'gt', 'eq', 'slt', 'sgt'):
                if px and py and x.r is y.r:
                    if type(x.o) is int and type(y.o) is int:
                        return self.cop('s' + name if name in ('lt', 'gt') else name, [x.o, y.o])
                    return self.op(name, [x.o, y.o])
                if name == 'eq' and px and py:
                    return 0
                if self.mode == 'run':
                    f = [v.r.base + sgn(v.o) if isinstance(v, Ptr) else v for v in a]
                    return self.cop(name, f)
                self.problem('an address is compared with a number', '%s(%r, %r)' % (name, x, y))
                raise StopPath('address compared with a number')
            if self.mode == 'run':
                return self.cop(name, [(v.r.base + sgn(v.o)) & M if isinstance(v, Ptr) else v for v in a])
        if name == 'iszero':
            return 0
        raise Unsupported('%s of an address' % name)

    def sop(self, name, a):
        if any(isinstance(x, z3.BoolRef) for x in a):
            r = self.bop(name, a)
            if r is not None:
                return r
        a = [self.word(x) for x in a]
        if name in ('add', 'sub', 'mul'):
            return getattr(bv, name)(a[0], a[1], W)
        if name in ('and', 'or'):
            return getattr(bv, name + '_')(a[0], a[1], W)
        if name == 'xor':
            return bv.xor(a[0], a[1], W)
        if name == 'not':
            return bv.xor(a[0], M, W)
        if name in ('shl', 'shr'):
            if type(a[0]) is not int:
                r = bv.z(a[1], W) << bv.z(a[0], W) if name == 'shl' else z3.LShR(bv.z(a[1], W), bv.z(a[0], W))
                return bv.mk(W, z3.simplify(r))
            if a[0] >= W:
                return 0
            return (bv.shl if name == 'shl' else bv.lshr)(a[1], a[0], W)
        if name in ('lt', 'gt', 'slt', 'sgt', 'eq'):
            return self.bword(bv.icmp({'lt': 'ult', 'gt': 'ugt', 'slt': 'slt', 'sgt': 'sgt', 'eq': 'eq'}[name], a[0], a[1], W))
        if name == 'iszero':
            return self.bword(bv.icmp('eq', a[0], 0, W))
        if name == 'byte':
            if type(a[0]) is not int:
                raise Unsupported('byte at a symbolic index')
            if a[0] >= 32:
                return 0
            return bv.and_(bv.lshr(a[1], 8 * (31 - a[0]), W), 0xff, W)
        if name in ('div', 'mod'):
            if type(a[1]) is int:
                if a[1] == 0:
                    return 0
                if a[1] & (a[1] - 1) == 0:
                    return bv.lshr(a[0], a[1].bit_length() - 1, W) if name == 'div' else bv.and_(a[0], a[1] - 1, W)
                return (bv.udiv if name == 'div' else bv.urem)(a[0], a[1], W)
            raise Unsupported('%s by a symbolic value' % name)
        raise Unsupported('operation %s on symbolic words' % name)

    def bop(self, name, a):
        isb = [isinstance(x, z3.BoolRef) for x in a]
        if name == 'iszero':
            return z3.Not(a[0])
        if name == 'sub' and a[0] == 1 and isb[1]:
            return z3.Not(a[1])
        if name in ('and', 'or', 'xor', 'mul', 'eq') and all(isb):
            f = {'and': z3.And, 'mul': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'eq': lambda x, y: x == y}[name]
            return f(*a)
        if name in ('and', 'or', 'mul', 'eq', 'xor') and type(a[0 if isb[1] else 1]) is int:
            b, k = (a[1], a[0]) if isb[1] else (a[0], a[1])
            if k == 0:
                return {'and': 0, 'mul': 0, 'or': b, 'xor': b, 'eq': z3.Not(b)}[name]
            if k == 1:
                return {'and': b, 'mul': b, 'or': 1, 'xor': z3.Not(b), 'eq': b}[name]
            if name == 'and' and k & 1:
                return b
        if self.sp is not None and name in ('mul', 'sub', 'add', 'shl'):
            r = self.sp.of_bool(name, a)
            if r is not None:
                return r
        if name == 'gt' and isb[0] and a[1] == 0 and type(a[1]) is int:
            return a[0]
        return None

    def word(self, x):
        if type(x) is bool:
            return int(x)
        if isinstance(x, z3.BoolRef):
            return bv.ite(x, 1, 0, W)
        return x

    def bword(self, c):
        if type(c) is bool:
            return int(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        return c

    # --- values of types
    def default(self, ty, name=''):
        if ty[0] == 'array':
            if ty[2] is None:
                r = self.alloc(name or 'empty', 32, ty)
                r.cells[0] = 0
                return Ptr(r, 0)
            n = ty[2]
            r = self.alloc(name or 'arr', 32 * n, ty)
            if is_ref(ty[1]):
                for i in range(n):
                    r.cells[32 * i] = self.default(ty[1])
            return Ptr(r, 0)
        if ty[0] == 'struct':
            s = self.struct_def(ty[1])
            r = self.alloc(name or ty[1], 32 * len(s.fields), ty)
            for i, (ft, fn) in enumerate(s.fields):
                r.cells[32 * i] = self.default(self.rtype(ft), '%s.%s' % (name, fn))
            return Ptr(r, 0)
        if ty in (BYTES, STRING):
            r = self.alloc(name or 'empty', 32, ty)
            r.cells[0] = 0
            return Ptr(r, 0)
        return 0

    def struct_def(self, n):
        c = self.fr.contract if self.fr else None
        if c is not None and n in c.structs:
            return c.structs[n]
        return self.prog.structs[n]

    def rtype(self, ty):
        """resolve a syntactic type"""
        if ty[0] == 'array':
            n = ty[2]
            if isinstance(n, N):
                n = self.eval(n)[0]
            return ('array', self.rtype(ty[1]), n)
        if ty[0] == 'user':
            c = self.fr.contract if self.fr else None
            if ty[1] in self.prog.structs or (c is not None and ty[1] in c.structs):
                return ('struct', ty[1])
            return ('contract', ty[1])
        if ty[0] == 'map':
            return ('map', self.rtype(ty[1]), self.rtype(ty[2]))
        return ty

    def new_bytes(self, data, name='bytes', ty=BYTES):
        r = self.alloc(name, 32 + len(data), ty)
        r.cells[0] = len(data)
        for i in range(0, len(data), 32):
            r.cells[32 + i] = int.from_bytes(data[i:i + 32].ljust(32, b'\0'), 'big')
        return Ptr(r, 0)

    def new_array(self, vals, name='array', ty=('array', U256, None)):
        r = self.alloc(name, 32 + 32 * len(vals), ty)
        r.cells[0] = len(vals)
        for i, v in enumerate(vals):
            r.cells[32 + 32 * i] = v
        return Ptr(r, 0)

    def get_bytes(self, p):
        n = p.r.load(self, p.o)
        out = b''
        for i in range(0, n, 32):
            out += p.r.load(self, p.o + 32 + i).to_bytes(32, 'big')
        return out[:n]

    def get_array(self, p):
        n = p.r.load(self, p.o)
        return [p.r.load(self, p.o + 32 + 32 * i) for i in range(n)]

    # --- calls
    def call(self, name, args, contract=None, types=None):
        """args: values; picks the overload by arity and types"""
        cands = []
        if contract is not None:
            cands = contract.funs.get(name, [])
        if not cands:
            cands = self.prog.funs.get(name, [])
            contract_for = None if cands else contract
        else:
            contract_for = contract
        fn = self.pick(name, cands, args, types, contract_for)
        return self.invoke(fn, args, contract_for)

    def pick(self, name, cands, args, types, contract):
        cands = [f for f in cands if len(f.params) == len(args)]
        if not cands:
            raise Unsupported('no function %s with %d arguments' % (name, len(args)))
        if len(cands) > 1 and types is not None:
            best = []
            for f in cands:
                s = 0
                for (ty, loc, pn), t in zip(f.params, types):
                    rt = self.rtype(ty)
                    if rt == t:
                        s += 2
                    elif t is not None and (is_ref(rt) != is_ref(t)):
                        s -= 100
                    elif t is not None and t == LIT and rt[0] == 'elem' and rt[1].startswith('uint'):
                        s += 1
                    elif t is not None and rt[0] != t[0]:
                        s -= 100
                best.append((s, f))
            best.sort(key=lambda x: -x[0])
            if best[0][0] == best[1][0]:
                raise Unsupported('ambiguous call of %s' % name)
            return best[0][1]
        if len(cands) > 1:
            raise Unsupported('overloaded function %s' % name)
        return cands[0]

    def invoke(self, fn, args, contract=None):
        st = self.stubs.get(fn.name)
        if st is not None:
            r = st(self, fn, args)
            if r is not NotImplemented:
                return r
        self.touched.add((contract.cdef.name + '.' if contract is not None else '') + fn.name)
        if fn.body is None:
            raise Unsupported('function %s has no body' % fn.name)
        old = self.fr
        env = Env()
        self.fr = Frame(self, fn, contract, env)
        self.fr.depth = old.depth + 1 if old else 0
        if self.fr.depth > 200:
            raise Unsupported('recursion too deep')
        try:
            for (ty, loc, pn), v in zip(fn.params, args):
                if pn:
                    env.d[pn] = [v, self.rtype(ty)]
            for i, (ty, loc, rn) in enumerate(fn.rets):
                rt = self.rtype(ty)
                env.d[rn or '$ret%d' % i] = [self.default(rt, rn or 'ret'), rt]
            try:
                self.stmt(fn.body)
            except _Return:
                pass
            vals = [(env.d[rn or '$ret%d' % i][0]) for i, (ty, loc, rn) in enumerate(fn.rets)]
            tys = [(env.d[rn or '$ret%d' % i][1]) for i, (ty, loc, rn) in enumerate(fn.rets)]
        finally:
            self.fr = old
        if len(vals) == 1:
            return vals[0], tys[0]
        return tuple(vals), tuple(tys)

    def new_contract(self, name, args=()):
        c = Contract(self.prog.contracts[name])
        old = self.fr
        self.fr = Frame(self, None, c, Env())
        try:
            for it in c.cdef.items:
                if it.k == 'var':
                    ty = self.rtype(it.ty)
                    c.types[it.name] = ty
                    if it.init is not None:
                        c.storage[it.name] = self.to_storage(*self.eval(it.init), ty)
                    else:
                        c.storage[it.name] = self.storage_default(ty)
            if 'constructor' in c.funs:
                self.invoke(c.funs['constructor'][0], list(args), c)
        finally:
            self.fr = old
        return c

    def storage_default(self, ty):
        if ty[0] == 'map':
            return {}
        if ty[0] == 'array':
            return [] if ty[2] is None else [self.storage_default(ty[1]) for _ in range(ty[2])]
        return 0

    def to_storage(self, v, ty, want):
        if want[0] == 'array':
            if isinstance(v, list):
                return list(v)
            p = v
            if ty[2] is None:
                return self.get_array(p)
            return [p.r.load(self, p.o + 32 * i) for i in range(ty[2])]
        return v

    # --- statements
    def stmt(self, n):
        getattr(self, 's_' + n.k)(n)

    def s_block(self, n):
        fr = self.fr
        old, ou = fr.env, fr.unchecked
        fr.env = Env(old)
        if n.unchecked:
            fr.unchecked = True
        try:
            for s in n.body:
                self.stmt(s)
        finally:
            fr.env, fr.unchecked = old, ou

    def s_if(self, n):
        c = self.eval(n.cond)[0]
        if self.inline_revert(c, n.then, n.els, False):
            return
        if self.merge_if(c, n.then, n.els, False):
            return
        if self.truth(c):
            self.stmt(n.then)
        elif n.els is not None:
            self.stmt(n.els)

    def boolean(self, c):
        """a condition as a z3 boolean, or None"""
        if type(c) in (int, bool) or isinstance(c, Ptr):
            return None
        if isinstance(c, Dom):
            c = c.yop('truth', [c], self)
            if c is NotImplemented or type(c) is bool:
                return None
        if isinstance(c, bv.BV):
            c = bv.bnot(bv.icmp('eq', c, 0, c.w))
        if not isinstance(c, z3.BoolRef):
            return None
        c = z3.simplify(c)
        return None if z3.is_true(c) or z3.is_false(c) else c

    def merge_if(self, c, then, els, yul):
        """an if that only assigns local variables: conditional values instead of two paths (where the domain has them)"""
        if self.mode == 'run' or self.no_fork or not only_assigns(then, yul) or (els is not None and not only_assigns(els, yul)):
            return False
        c = self.boolean(c)
        if c is None or not self.sat(c) or not self.sat(z3.Not(c)):
            return False
        cells = [d for n in assigned([then, els]) for d in [self.fr.env.find(n)] if d is not None]
        names = [n for n in assigned([then, els]) if self.fr.env.find(n) is not None]
        res = []
        for g, b in ((c, then), (z3.Not(c), els)):
            r = self.under(g, b, yul, names, cells)
            if r is None:
                return False
            res.append(r)
        out = []
        for (a, fa, ra), (b, fb, rb) in [res]:
            for x, y in zip(a, b):
                m = self.choose(c, x, y)
                if m is NotImplemented:
                    return False
                out.append(m)
            for f in fa + fb:
                self.assume(f)
            self.reverts += ra + rb
        for n, d, v in zip(names, cells, out):
            d[n][0] = v
        return True

    def under(self, g, body, yul, names, cells):
        """the values of the variables after body, run under the condition g; facts and reverts met on the way"""
        old = [d[n][0] for n, d in zip(names, cells)]
        if body is None:
            return old, [], []
        np, nr = len(self.pc), len(self.reverts)
        facts = dict(self.__dict__.get('_facts', {}))
        saved = (self.free_off, self.next_base)
        self.solver.push()
        self.no_fork = True
        try:
            self.assume(g)
            (self.yblock if yul else self.stmt)(body)
            new = [d[n][0] for n, d in zip(names, cells)]
        except (Unsupported, Revert):
            return None
        finally:
            self.no_fork = False
            self.solver.pop()
            self._facts = facts
            self.free_off, self.next_base = saved
            pc, rv = self.pc[np + 1:], self.reverts[nr:]
            del self.pc[np:]
            del self.reverts[nr:]
            for n, d, v in zip(names, cells, old):
                d[n][0] = v
        return new, [z3.Implies(g, f) for f in pc], rv

    def choose(self, c, x, y):
        """c ? x : y"""
        if type(x) is int and type(y) is int and x == y:
            return x
        if x is y:
            return x
        for v in (x, y):
            if isinstance(v, Dom):
                return v.yop('ite', [c, x, y], self)
        if self.sp is not None and type(x) is int and type(y) is int:
            return self.sp.cond(c, x, y)
        return NotImplemented

    def inline_revert(self, c, then, els, yul):
        """if (c) <always reverts>: follow the revert here and go on with not c"""
        if self.mode == 'run' or els is not None or type(c) in (bool, int) or not ends_in_revert(then, yul):
            return False
        if isinstance(c, Dom):
            c = c.yop('truth', [c], self)
            if c is NotImplemented or type(c) is bool:
                return False
        if isinstance(c, bv.BV):
            c = bv.bnot(bv.icmp('eq', c, 0, c.w))
            if type(c) is bool:
                return False
        if not isinstance(c, z3.BoolRef):
            return False
        c = z3.simplify(c)
        if z3.is_false(c):
            return True
        if z3.is_true(c):
            return False
        data = None
        saved = (self.free_off, self.next_base)
        self.no_fork = True
        try:
            (self.yblock if yul else self.stmt)(then)
        except Revert as r:
            data = r.data
        finally:
            self.no_fork = False
            self.free_off, self.next_base = saved
        self.reverts.append((list(self.pc), c, data))
        self.assume(z3.Not(c))
        return True

    def s_loop(self, n):
        fr = self.fr
        old = fr.env
        fr.env = Env(old)
        try:
            if n.init is not None:
                self.stmt(n.init)
            self.do_loop(n, False)
        finally:
            fr.env = old

    def do_loop(self, n, yul):
        fr = self.fr
        no = fr.loops
        fr.loops += 1
        lr = LoopRun(self, n, yul, no)
        rule = self.loops.get(fr.fn.name) if fr.fn is not None else None
        if rule is not None and rule(lr) is True:
            return
        lr.run()

    def s_return(self, n):
        fn = self.fr.fn
        if n.e is not None:
            env = self.top_env()
            rts = [self.rtype(ty) for ty, loc, rn in fn.rets]
            if len(rts) == 1:
                v, t = self.eval(n.e)
                env[fn.rets[0][2] or '$ret0'][0] = self.convert(v, t, rts[0])
            else:
                vs, ts = self.eval(n.e)
                for i, (v, t) in enumerate(zip(vs, ts)):
                    env[fn.rets[i][2] or '$ret%d' % i][0] = self.convert(v, t, rts[i])
        raise _Return()

    def top_env(self):
        e = self.fr.env
        while e.up is not None:
            e = e.up
        return e.d

    def s_break(self, n):
        raise _Break()

    def s_continue(self, n):
        raise _Continue()

    def s_expr(self, n):
        self.eval(n.e, stmt=True)

    def s_decl(self, n):
        ty = self.rtype(n.ty)
        if n.e is None:
            v = self.default(ty, n.name) if n.loc != 'storage' else None
        else:
            v, t = self.eval(n.e)
            v = self.convert(v, t, ty)
            if isinstance(v, Cd) and n.loc == 'memory':
                v = v.to_memory(self)
        self.fr.env.d[n.name] = [v, ty]

    def s_tdecl(self, n):
        vs, ts = self.eval(n.e)
        for d, v, t in zip(n.vars, vs, ts):
            if d is not None:
                ty = self.rtype(d[0])
                self.fr.env.d[d[2]] = [self.convert(v, t, ty), ty]

    def s_asm(self, n):
        fr = self.fr
        old = fr.env
        try:
            self.yblock(n.body)
        finally:
            fr.env = old

    # --- conversions
    def convert(self, v, t, ty):
        """implicit conversion"""
        if isinstance(v, list) and ty[0] == 'array':
            return self.from_storage(v, ty)
        if t == ty or t is None:
            return v
        if t == LIT:
            if ty[0] == 'elem':
                if is_fbytes(ty) and v != 0:
                    return (v << (256 - bits_of(ty))) & M
                if is_signed(ty):
                    return v & M
            if v < 0:
                v &= M
            return v
        if ty == BYTES or ty == STRING:
            if isinstance(v, Cd):
                return v.to_memory(self)
            if isinstance(v, bytes):
                return self.new_bytes(v, 'literal', ty)
        if isinstance(v, bytes) and is_fbytes(ty):
            return int.from_bytes(v.ljust(32, b'\0'), 'big')
        return v

    def from_storage(self, vals, ty):
        if ty[2] is None:
            return self.new_array(vals, ty=ty)
        r = self.alloc('arr', 32 * len(vals), ty)
        for i, x in enumerate(vals):
            r.cells[32 * i] = x
        return Ptr(r, 0)

    def cast(self, v, t, ty):
        """explicit conversion T(v)"""
        if ty[0] == 'contract':
            return v
        if isinstance(v, Contract):
            return v
        if ty in (BYTES, STRING):
            return self.convert(v, t, ty)
        if t == LIT:
            if is_fbytes(ty):
                return (v << (256 - bits_of(ty))) & M
            return v & ((1 << bits_of(ty)) - 1) if not is_signed(ty) else v & M
        if isinstance(v, bytes):
            return int.from_bytes(v.ljust(32, b'\0'), 'big')
        fb, tb = is_fbytes(t), is_fbytes(ty)
        if fb and tb:
            nb = bits_of(ty)
            return self.op('and', [v, M ^ ((1 << (256 - nb)) - 1)]) if nb < bits_of(t) else v
        if fb:
            v = self.op('shr', [256 - bits_of(t), v])
            t = ('elem', 'uint%d' % bits_of(t))
        if tb:
            return self.op('shl', [256 - bits_of(ty), v])
        a, b = bits_of(t), bits_of(ty)
        if is_signed(ty) or is_signed(t):
            if b < 256:
                raise Unsupported('signed conversion to %r' % (ty,))
            return v
        if b < a:
            return self.op('and', [v, (1 << b) - 1])
        return v

    # --- expressions
    def eval(self, n, stmt=False):
        return getattr(self, 'e_' + n.k)(n)

    def e_num(self, n):
        if n.hexlen == 40:
            return n.v, ADDR
        return n.v, LIT

    def e_bool(self, n):
        return int(n.v), BOOL

    def e_str(self, n):
        return n.v, STRING

    def e_paren(self, n):
        return self.eval(n.e)

    def e_type(self, n):
        raise Unsupported('type as a value')

    def e_tuple(self, n):
        vs, ts = [], []
        for e in n.es:
            v, t = self.eval(e)
            vs.append(v)
            ts.append(t)
        return tuple(vs), tuple(ts)

    def e_id(self, n):
        return self.lookup(n.name)

    def lookup(self, name):
        d = self.fr.env.find(name)
        if d is not None:
            v, t = d[name][0], d[name][1]
            if type(v) is int and t[0] == 'elem' and t[1] != 'uint256' and not is_fbytes(t) and t not in (BYTES, STRING) \
                    and not is_signed(t):
                v &= (1 << bits_of(t)) - 1       # higher-order bits set by assembly are cleaned on use
            elif t[0] == 'elem' and t[1] != 'uint256' and isinstance(v, bv.BV) and is_uint(t):
                v = bv.and_(v, (1 << bits_of(t)) - 1, W)
            return v, t
        c = self.fr.contract
        if c is not None and name in c.vars:
            if c.vars[name].const:
                return self.const(c.vars[name])
            return c.storage[name], c.types[name]
        if name in self.prog.consts:
            return self.const(self.prog.consts[name])
        if name == 'this':
            return c, ('contract', c.cdef.name)
        raise Unsupported('identifier %s' % name)

    def const(self, it):
        r = self.constcache.get(id(it))
        if r is None:
            ty = self.rtype(it.ty)
            v, t = self.eval(it.init)
            r = self.constcache[id(it)] = (self.convert(v, t, ty), ty)
        return r

    def e_alit(self, n):
        vals = [self.eval(e) for e in n.es]
        ty = vals[0][1]
        if ty == LIT:
            # smallest type that holds the literals (only the width of the memory word matters here)
            m = max(v for v, t in vals)
            ty = U256
        r = self.alloc('lit', 32 * len(vals), ('array', ty, len(vals)))
        for i, (v, t) in enumerate(vals):
            r.cells[32 * i] = self.convert(v, t, ty)
        return Ptr(r, 0), ('array', ty, len(vals))

    def e_new(self, n):
        raise Unsupported('new without arguments')

    def e_cond(self, n):
        c = self.eval(n.c)[0]
        if type(c) is not int and type(c) is not bool and not isinstance(c, Dom):
            # pure words on both sides: a conditional value
            c = self.word(c) if isinstance(c, bv.BV) else c
            if isinstance(c, bv.BV):
                c = bv.bnot(bv.icmp('eq', c, 0, W))
        if self.mode != 'run' and not self.no_fork and pure(n.a) and pure(n.b):
            g = self.boolean(c)
            if g is not None and self.sat(g) and self.sat(z3.Not(g)):
                res = []
                for h, e in ((g, n.a), (z3.Not(g), n.b)):
                    box = []
                    r = self.under(h, N('expr_', e=e, box=box, line=n.line), False, [], [])
                    if r is None:
                        break
                    res.append((box[0], r))
                else:
                    (va, ta), (vb, tb) = res[0][0], res[1][0]
                    v = self.choose(g, va, vb)
                    if v is not NotImplemented:
                        for _, (_, fs, rv) in res:
                            for f in fs:
                                self.assume(f)
                            self.reverts += rv
                        return v, (tb if ta == LIT else ta)
        if self.truth(c):
            return self.eval(n.a)
        return self.eval(n.b)

    def s_expr_(self, n):
        n.box.append(self.eval(n.e))

    def e_un(self, n):
        if n.op == 'delete':
            raise Unsupported('delete')
        v, t = self.eval(n.e)
        if n.op == '!':
            if type(v) in (int, bool):
                return int(not v), BOOL
            return self.op('iszero', [v]), BOOL
        if n.op == '~':
            if t == LIT:
                return ~v, LIT
            return self.op('and', [self.op('not', [v]), (1 << bits_of(t)) - 1]), t
        if n.op == '-':
            if t == LIT:
                return -v, LIT
            return self.arith('-', 0, v, t)
        raise Unsupported(n.op)

    def e_bin(self, n):
        op = n.op
        if op in ('&&', '||'):
            a = self.eval(n.a)[0]
            if self.truth(a):
                return (1, BOOL) if op == '||' else (self.eval(n.b)[0], BOOL)
            return (0, BOOL) if op == '&&' else (self.eval(n.b)[0], BOOL)
        a, ta = self.eval(n.a)
        b, tb = self.eval(n.b)
        return self.binop(op, a, ta, b, tb)

    def binop(self, op, a, ta, b, tb):
        if ta == LIT and tb == LIT:
            return litop(op, a, b)
        if op in ('<<', '>>'):
            if ta == LIT:
                ta = U256
            if is_signed(ta) and op == '>>':
                raise Unsupported('signed shift')
            r = self.op('shl' if op == '<<' else 'shr', [b, a])
            if op == '<<' and bits_of(ta) < 256 and not is_fbytes(ta):
                r = self.op('and', [r, (1 << bits_of(ta)) - 1])
            return r, ta
        if op == '**':
            t = ta if ta != LIT else U256
            if type(a) is int and type(b) is int:
                r = a ** b
                if r >> bits_of(t):
                    self.panic(0x11)
                return r, t
            raise Unsupported('power')
        if ta == LIT:
            t = tb
            a = self.convert(a, LIT, tb)
        elif tb == LIT:
            t = ta
            b = self.convert(b, LIT, ta)
        else:
            t = ta
            if ta != tb and ta[0] == 'elem' and tb[0] == 'elem' and not is_fbytes(ta):
                t = ta if bits_of(ta) >= bits_of(tb) else tb
            elif is_fbytes(ta) and is_fbytes(tb) and ta != tb:
                t = ta if bits_of(ta) >= bits_of(tb) else tb
        if op in ('==', '!=', '<', '>', '<=', '>='):
            s = is_signed(t)
            neg = op in ('!=', '<=', '>=')
            base = {'==': 'eq', '!=': 'eq', '<': 'lt', '>=': 'lt', '>': 'gt', '<=': 'gt'}[op]
            if s and base != 'eq':
                base = 's' + base
            r = self.op(base, [a, b])
            return (self.op('iszero', [r]) if neg else r), BOOL
        if op in ('&', '|', '^'):
            return self.op({'&': 'and', '|': 'or', '^': 'xor'}[op], [a, b]), t
        return self.arith(op, a, b, t)

    def arith(self, op, a, b, t):
        w = bits_of(t)
        if op in ('/', '%'):
            if type(b) is int and b == 0:
                self.panic(0x12)
            if type(b) is not int:
                self.require_not(self.op('iszero', [b]), 0x12)
            if is_signed(t):
                raise Unsupported('signed division')
            return self.op('div' if op == '/' else 'mod', [a, b]), t
        name = {'+': 'add', '-': 'sub', '*': 'mul'}[op]
        r = self.op(name, [a, b])
        if self.fr.unchecked:
            if w < 256:
                if is_signed(t):
                    raise Unsupported('unchecked signed arithmetic')
                r = self.op('and', [r, (1 << w) - 1])
            return r, t
        # checked
        if type(a) is int and type(b) is int:
            if is_signed(t):
                x, y = signed(a), signed(b)
                e = x + y if op == '+' else x - y if op == '-' else x * y
                if not -(1 << (w - 1)) <= e < 1 << (w - 1):
                    self.panic(0x11)
                return e & M, t
            e = a + b if op == '+' else a - b if op == '-' else a * b
            if e < 0 or e >> w:
                self.panic(0x11)
            return e, t
        if isinstance(r, Dom) or isinstance(a, Dom) or isinstance(b, Dom):
            d = next(x for x in (r, a, b) if isinstance(x, Dom))
            ov = d.yop('overflow', [name, a, b, w, is_signed(t)], self)
            if ov is NotImplemented:
                raise Unsupported('checked %s on %r, %r' % (op, a, b))
            if ov is not False:
                self.require_not(ov, 0x11)
            return r, t
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('arithmetic on references')
        if is_signed(t):
            raise Unsupported('checked signed arithmetic on symbolic values')
        A, B = bv.z(self.word(a), W), bv.z(self.word(b), W)
        ua, ub = bv.umax(self.word(a), W), bv.umax(self.word(b), W)
        if op == '+':
            if ua + ub >= 1 << w:
                ov = z3.UGT(bv.z(r, W), z3.BitVecVal((1 << w) - 1, W)) if w < 256 else z3.ULT(bv.z(r, W), A)
                self.require_not(ov, 0x11)
        elif op == '-':
            if bv.umin(self.word(a), W) < ub:
                self.require_not(z3.ULT(A, B), 0x11)
        else:
            if ua * ub >= 1 << w:
                x, y = z3.ZeroExt(W, A), z3.ZeroExt(W, B)
                self.require_not(z3.UGE(x * y, z3.BitVecVal(1 << w, 2 * W)), 0x11)
        return r, t

    def panic(self, code):
        raise Revert(('panic', code))

    def require_not(self, c, code):
        """panic when c holds"""
        if type(c) is int:
            c = bool(c)
        if type(c) is bool:
            if c:
                self.panic(code)
            return
        if isinstance(c, Dom):
            c = c.yop('truth', [c], self)
            return self.require_not(c, code)
        if isinstance(c, bv.BV):
            c = bv.bnot(bv.icmp('eq', c, 0, W))
            return self.require_not(c, code)
        c = z3.simplify(c)
        if z3.is_false(c):
            return
        if not self.sat(c):
            return
        self.reverts.append((list(self.pc), c, ('panic', code)))
        if not self.sat(z3.Not(c)):
            raise Revert(('panic', code))
        self.assume(z3.Not(c))

    # --- places
    def place(self, n):
        """(get, set, type)"""
        if n.k == 'paren':
            return self.place(n.e)
        if n.k == 'id':
            d = self.fr.env.find(n.name)
            if d is not None:
                return ('env', d, n.name), d[n.name][1]
            c = self.fr.contract
            if c is not None and n.name in c.vars:
                return ('dict', c.storage, n.name), c.types[n.name]
            raise Unsupported('assignment to %s' % n.name)
        if n.k == 'index':
            b, t = self.eval(n.e)
            i = self.eval(n.i)[0]
            if t[0] == 'map':
                return ('dict', b, i), t[2]
            if t[0] == 'array' and isinstance(b, list):
                self.bound(i, len(b))
                return ('dict', b, i), t[1]
            if t[0] == 'array':
                if t[2] is None:
                    self.bound(i, b.r.load(self, b.o))
                    return ('mem', b.r, self.op('add', [b.o + 32, self.op('mul', [32, i])])), t[1]
                self.bound(i, t[2])
                return ('mem', b.r, self.op('add', [b.o, self.op('mul', [32, i])])), t[1]
            if t in (BYTES, STRING):
                self.bound(i, b.r.load(self, b.o))
                return ('byte', b, i), B1
            raise Unsupported('index of %r' % (t,))
        if n.k == 'member':
            b, t = self.eval(n.e)
            if t[0] == 'struct':
                for k, (ft, fn) in enumerate(self.struct_def(t[1]).fields):
                    if fn == n.name:
                        return ('mem', b.r, b.o + 32 * k), self.rtype(ft)
            raise Unsupported('member %s' % n.name)
        raise Unsupported('assignment to %s' % n.k)

    def bound(self, i, n):
        if type(i) is int and type(n) is int:
            if i >= n:
                self.panic(0x32)
            return
        self.require_not(self.op('iszero', [self.op('lt', [i, n])]), 0x32)

    def pget(self, pl, ty):
        k, a, b = pl
        if k == 'env':
            return self.lookup(b)[0]
        if k == 'dict':
            if isinstance(a, list):
                return self.list_get(a, b)
            if b not in a:
                a[b] = self.storage_default(ty)
            return a[b]
        if k == 'mem':
            return a.load(self, b)
        if k == 'byte':
            if type(b) is not int or a.o != 0:
                return a.r.sym_byte(self, a.o, b)
            return self.op('shl', [248, a.r.get_byte(self, b)])

    def list_get(self, a, i):
        if type(i) is int:
            return a[i]
        if isinstance(i, Dom):
            r = i.yop('select', [a, i], self)
            if r is not NotImplemented:
                return r
        raise Unsupported('table read at a symbolic index')

    def pset(self, pl, ty, v):
        k, a, b = pl
        if k == 'env':
            a[b][0] = v
        elif k == 'dict':
            a[b] = v
        elif k == 'mem':
            a.store(self, b, v)
        elif k == 'byte':
            if type(b) is not int or a.o != 0:
                a.r.sym_put(self, a.o, b, v)
                return
            a.r.put_byte(self, b, self.op('shr', [248, v]))

    def e_index(self, n):
        pl, ty = self.place(n)
        return self.pget(pl, ty), ty

    def e_assign(self, n):
        if n.lhs.k == 'tuple':
            vs, ts = self.eval(n.rhs)
            if len(n.lhs.es) != len(vs):
                raise Unsupported('tuple sizes')
            pls = [None if e is None else self.place(e) for e in n.lhs.es]
            for p, v, t in list(zip(pls, vs, ts))[::-1]:
                if p is not None:
                    self.pset(p[0], p[1], self.convert(v, t, p[1]))
            return vs, ts
        if n.op == '':
            v, t = self.eval(n.rhs)
            pl, ty = self.place(n.lhs)
            if ty[0] == 'array' and pl[0] == 'dict':
                v = self.to_storage(v, t, ty)
            elif ty[0] == 'contract' and t[0] == 'contract':
                pass
            else:
                v = self.convert(v, t, ty)
            self.pset(pl, ty, v)
            return v, ty
        v, t = self.eval(n.rhs)
        pl, ty = self.place(n.lhs)
        r, rt = self.binop(n.op, self.pget(pl, ty), ty, v, t)
        r = self.convert(r, rt, ty)
        self.pset(pl, ty, r)
        return r, ty

    def e_incdec(self, n):
        pl, ty = self.place(n.e)
        old = self.pget(pl, ty)
        r, _ = self.arith('+' if n.op == '++' else '-', old, 1, ty)
        self.pset(pl, ty, r)
        return (r if n.pre else old), ty

    def e_member(self, n):
        if n.e.k == 'id':
            nm = n.e.name
            if nm in self.prog.contracts and self.fr.env.find(nm) is None and not (
                    self.fr.contract and nm in self.fr.contract.vars):
                return ('cls', nm, n.name), ('special',)
            if nm in ('abi', 'block', 'msg', 'tx', 'console', 'vm', 'ISigVerifier', 'SSTORE2', 'type') and \
                    self.fr.env.find(nm) is None and not (self.fr.contract and nm in self.fr.contract.vars):
                return ('cls', nm, n.name), ('special',)
        if n.e.k == 'member' and n.name == 'selector':
            return SELECTOR, ('elem', 'bytes4')
        b, t = self.eval(n.e)
        if n.name == 'length':
            if isinstance(b, list):
                return len(b), U256
            if isinstance(b, Cd):
                return b.length, U256
            if isinstance(b, bytes):
                return len(b), U256
            if t[0] == 'array' and t[2] is not None:
                return t[2], U256
            return b.r.load(self, b.o), U256
        if t[0] == 'struct':
            pl, ty = self.place(n)
            return self.pget(pl, ty), ty
        if isinstance(b, Contract):
            return ('bound', b, n.name), ('special',)
        raise Unsupported('member %s of %r' % (n.name, t))

    def e_call(self, n):
        f = n.f
        if f.k == 'paren':
            f = f.e
        if f.k == 'type':
            v, t = self.eval(n.args[0])
            return self.cast(v, t, f.ty), f.ty
        if f.k == 'new':
            ty = self.rtype(f.ty)
            args = [self.eval(a) for a in n.args]
            if ty[0] == 'contract':
                return self.new_contract(ty[1], [a for a, t in args]), ty
            ln = args[0][0]
            st = self.stubs.get('new')
            if type(ln) is not int or st is not None:
                if st is None:
                    raise Unsupported('new array of symbolic length')
                r = st(self, ty, ln)
                if r is not NotImplemented:
                    return r, ty
            if ty in (BYTES, STRING):
                r = self.alloc('new', 32 + ln, ty)
            else:
                r = self.alloc('new', 32 + 32 * ln, ty)
                if is_ref(ty[1]):
                    raise Unsupported('new array of references')
            r.cells[0] = ln
            return Ptr(r, 0), ty
        if f.k == 'id':
            nm = f.name
            if nm == 'require':
                c = self.eval(n.args[0])[0]
                if self.mode != 'run' and type(c) not in (int, bool):
                    c = self.op('iszero', [c])
                    self.require_revert(c)
                    return None, None
                if not self.truth(c):
                    raise Revert(('require', self.eval(n.args[1])[0] if len(n.args) > 1 else None))
                return None, None
            if nm == 'assert':
                c = self.eval(n.args[0])[0]
                if self.mode != 'run' and type(c) not in (int, bool):
                    self.require_not(self.op('iszero', [c]), 1)
                    return None, None
                if not self.truth(c):
                    self.panic(1)
                return None, None
            if nm == 'revert':
                raise Revert(('revert', self.eval(n.args[0])[0] if n.args else None))
            if nm == 'keccak256':
                v, t = self.eval(n.args[0])
                return self.keccak(v, t), B32
            if nm in ('mulmod', 'addmod'):
                a = [self.eval(x) for x in n.args]
                return self.op(nm, [self.convert(v, t, U256) for v, t in a]), U256
            if nm == 'gasleft':
                return 0, U256
            if nm in self.prog.structs or (self.fr.contract and nm in self.fr.contract.structs):
                ty = ('struct', nm)
                p = self.default(ty, nm)
                for i, ((ft, fn), a) in enumerate(zip(self.struct_def(nm).fields, n.args)):
                    v, t = self.eval(a)
                    p.r.cells[32 * i] = self.convert(v, t, self.rtype(ft))
                return p, ty
            if nm in self.prog.contracts or nm == 'payable':
                return self.eval(n.args[0])
            d = self.fr.env.find(nm)
            vals = [self.eval(a) for a in n.args]
            h = self.stubs.get('call:' + nm)
            if h is not None:
                return h(self, vals)
            return self.call_typed(nm, vals, self.fr.contract)
        if f.k == 'member':
            tgt, tt = self.e_member(f)
            if tt == ('special',):
                return self.special(tgt, n)
        raise Unsupported('call of %s' % f.k)

    def require_revert(self, c):
        if type(c) is int:
            if c:
                raise Revert(('require', None))
            return
        if isinstance(c, Dom):
            c = c.yop('truth', [c], self)
            if type(c) is bool:
                if c:
                    raise Revert(('require', None))
                return
        if isinstance(c, bv.BV):
            c = bv.bnot(bv.icmp('eq', c, 0, W))
        c = z3.simplify(c) if not type(c) is bool else c
        if c is True or (not type(c) is bool and z3.is_true(c)):
            raise Revert(('require', None))
        if c is False or z3.is_false(c):
            return
        self.reverts.append((list(self.pc), c, ('require', None)))
        self.assume(z3.Not(c))

    def call_typed(self, nm, vals, contract, external=False):
        cands = contract.funs.get(nm, []) if contract is not None else []
        cf = contract
        if not cands and not external:
            cands = self.prog.funs.get(nm, [])
            cf = None
        fn = self.pick(nm, cands, [v for v, t in vals], [t for v, t in vals], cf)
        args = []
        for (ty, loc, pn), (v, t) in zip(fn.params, vals):
            old = self.fr
            rt = self.rtype(ty)
            v = self.convert(v, t, rt)
            if external and is_ref(rt) and loc == 'memory' and isinstance(v, Ptr):
                v = self.copy_ref(v, rt)
            args.append(v)
        return self.invoke(fn, args, cf)

    def copy_ref(self, p, ty):
        h = self.stubs.get('copy')
        if h is not None:
            return h(self, p, ty)
        if ty in (BYTES, STRING):
            return self.new_bytes(self.get_bytes(p), 'copy', ty)
        if ty[0] == 'array' and ty[2] is None:
            return self.new_array(self.get_array(p), 'copy', ty)
        if ty[0] == 'array':
            r = self.alloc('copy', 32 * ty[2], ty)
            for i in range(ty[2]):
                r.cells[32 * i] = p.r.load(self, p.o + 32 * i)
            return Ptr(r, 0)
        if ty[0] == 'struct':
            s = self.struct_def(ty[1])
            r = self.alloc('copy', 32 * len(s.fields), ty)
            for i, (ft, fn) in enumerate(s.fields):
                ft = self.rtype(ft)
                v = p.r.load(self, p.o + 32 * i)
                r.cells[32 * i] = self.copy_ref(v, ft) if is_ref(ft) else v
            return Ptr(r, 0)
        raise Unsupported('copy of %r' % (ty,))

    def special(self, tgt, n):
        if tgt[0] == 'bound':
            c, nm = tgt[1], tgt[2]
            vals = [self.eval(a) for a in n.args]
            h = self.stubs.get('ext:' + nm)
            if h is not None:
                r = h(self, c, vals)
                if r is not NotImplemented:
                    return r
            if nm in c.vars:
                v, t = c.storage[nm], c.types[nm]
                for a, _ in vals:
                    v, t = v[a], t[1] if t[0] == 'array' else t[2]
                return v, t
            return self.call_typed(nm, vals, c, external=True)
        _, base, nm = tgt
        key = base + '.' + nm
        if key in ('abi.encodePacked', 'bytes.concat'):
            vals = [self.eval(a) for a in n.args]
            return self.encode_packed(vals), BYTES
        if key == 'abi.decode':
            v, t = self.eval(n.args[0])
            ty = n.args[1]
            h = self.stubs.get('abi.decode')
            if h is not None:
                return h(self, v, ty)
            return self.abi_decode(v), ('array', U256, None)
        if key == 'abi.encode':
            vals = [self.eval(a) for a in n.args]
            return self.abi_encode(vals), BYTES
        if base in ('console', 'vm'):
            h = self.stubs.get(key)
            if h is not None:
                return h(self, [self.eval(a) for a in n.args])
            for a in n.args:
                pass
            return None, None
        h = self.stubs.get(key)
        if h is not None:
            return h(self, [self.eval(a) for a in n.args])
        raise Unsupported('call of %s' % key)

    def abi_decode(self, p):
        b = self.get_bytes(p)
        o = int.from_bytes(b[:32], 'big')
        if o + 32 > len(b):
            raise Revert(None)
        ln = int.from_bytes(b[o:o + 32], 'big')
        if o + 32 + 32 * ln > len(b):
            raise Revert(None)
        return self.new_array([int.from_bytes(b[o + 32 + 32 * i:o + 64 + 32 * i], 'big') for i in range(ln)])

    def abi_encode(self, vals):
        (v, t), = vals
        a = self.get_array(v) if isinstance(v, Ptr) and t[2] is None else v
        return self.new_bytes((32).to_bytes(32, 'big') + len(a).to_bytes(32, 'big') + b''.join(x.to_bytes(32, 'big') for x in a))

    def encode_packed(self, vals):
        h = self.stubs.get('abi.encodePacked')
        if h is not None:
            r = h(self, vals)
            if r is not NotImplemented:
                return r
        out = b''
        for v, t in vals:
            out += self.packed(v, t)
        return self.new_bytes(out, 'packed')

    def packed(self, v, t):
        if isinstance(v, bytes):
            return v
        if t in (BYTES, STRING):
            return self.get_bytes(v)
        if t[0] == 'array':
            vs = v if isinstance(v, list) else (
                self.get_array(v) if t[2] is None else [v.r.load(self, v.o + 32 * i) for i in range(t[2])])
            return b''.join(x.to_bytes(32, 'big') for x in vs)
        if type(v) is not int:
            raise Unsupported('encoding of %r' % (v,))
        if is_fbytes(t):
            return v.to_bytes(32, 'big')[:bits_of(t) // 8]
        w = 8 if t == BOOL else bits_of(t)
        return v.to_bytes(32, 'big')[32 - w // 8:]

    def keccak(self, v, t):
        if self.keccak_hook is not None:
            r = self.keccak_hook(self, v, t)
            if r is not NotImplemented:
                return r
        data = v if isinstance(v, bytes) else self.get_bytes(v)
        return int.from_bytes(keccak256(data), 'big')

    # --- Yul
    def yblock(self, n):
        fr = self.fr
        old = fr.env
        fr.env = Env(old)
        try:
            for s in n.body:
                if s.k == 'yfun':
                    fr.env.d['$f:' + s.name] = s
            for s in n.body:
                self.ystmt(s)
        finally:
            fr.env = old

    def ystmt(self, n):
        k = n.k
        fr = self.fr
        if k == 'yassign':
            v = self.yeval(n.e)
            if len(n.vars) == 1:
                self.yset(n.vars[0], v)
            else:
                for a, x in zip(n.vars, v):
                    self.yset(a, x)
        elif k == 'ylet':
            if n.e is None:
                for a in n.vars:
                    fr.env.d[a] = [0, U256]
            else:
                v = self.yeval(n.e)
                if len(n.vars) == 1:
                    fr.env.d[n.vars[0]] = [v, U256]
                else:
                    for a, x in zip(n.vars, v):
                        fr.env.d[a] = [x, U256]
        elif k == 'yexpr':
            self.yeval(n.e)
        elif k == 'yif':
            c = self.yeval(n.cond)
            if self.inline_revert(c, n.then, None, True):
                return
            if self.merge_if(c, n.then, None, True):
                return
            if self.truth(c):
                self.yblock(n.then)
        elif k == 'yfor':
            old = fr.env
            fr.env = Env(old)
            try:
                for s in n.init.body:
                    self.ystmt(s)
                self.do_loop(n, True)
            finally:
                fr.env = old
        elif k == 'yblock':
            self.yblock(n)
        elif k == 'ybreak':
            raise _Break()
        elif k == 'ycontinue':
            raise _Continue()
        elif k == 'yleave':
            raise _Leave()
        elif k == 'yswitch':
            v = self.yeval(n.e)
            for c, b in n.cases:
                if self.truth(self.op('eq', [v, self.yeval(c)])):
                    self.yblock(b)
                    return
            if n.default is not None:
                self.yblock(n.default)
        elif k == 'yfun':
            pass
        else:
            raise Unsupported('Yul statement %s' % k)

    def yset(self, name, v):
        d = self.fr.env.find(name)
        if d is None:
            raise Unsupported('Yul variable %s' % name)
        d[name][0] = v

    def yeval(self, n):
        k = n.k
        if k == 'ynum':
            return n.v & M
        if k == 'yid':
            name = n.name
            d = self.fr.env.find(name)
            if d is not None:
                v = d[name][0]
                return v
            if '.' in name:
                a, b = name.rsplit('.', 1)
                v = self.fr.env.find(a)[a][0]
                return Ptr(v, 0) if b == 'offset' else v.length
            v, t = self.lookup(name)
            return v
        f = n.f
        fr = self.fr
        uf = fr.env.find('$f:' + f)
        a = [self.yeval(x) for x in reversed(n.args)][::-1]
        if uf is not None:
            return self.ycall(uf['$f:' + f], a)
        if f == 'mload':
            return self.mload(a[0])
        if f == 'mstore':
            return self.mstore(a[0], a[1])
        if f in COP:
            return self.op(f, a)
        h = getattr(self, 'y_' + f, None)
        if h is None:
            raise Unsupported('Yul function %s' % f)
        return h(*a)

    def ycall(self, fn, a):
        fr = self.fr
        old = fr.env
        e = fr.env
        root = Env()
        while e is not None:
            for k, v in e.d.items():
                if k.startswith('$f:'):
                    root.d.setdefault(k, v)
            e = e.up
        fr.env = Env(root)
        for p, v in zip(fn.params, a):
            fr.env.d[p] = [v, U256]
        for r in fn.rets:
            fr.env.d[r] = [0, U256]
        top = fr.env
        try:
            try:
                self.yblock(fn.body)
            except _Leave:
                pass
            vals = [top.d[r][0] for r in fn.rets]
        finally:
            fr.env = old
        return vals[0] if len(vals) == 1 else tuple(vals)

    def y_mstore8(self, a, v):
        if not isinstance(a, Ptr) or type(a.o) is not int:
            raise Unsupported('mstore8')
        o = sgn(a.o)
        k = o % 32
        sh = 8 * (31 - k)
        if a.r.ro or o < 0 or (a.r.size is not None and o >= a.r.size):
            self.outside_write(a.r, o, 1)
        w = a.r.get(self, o - k)
        a.r.cells[o - k] = self.op('or', [self.op('and', [w, M ^ (0xff << sh)]), self.op('shl', [sh, self.op('and', [v, 0xff])])])
        self.written(a.r, o - k)

    def y_keccak256(self, a, ln):
        if self.keccak_hook is not None:
            r = self.keccak_hook(self, a, ('mem', ln))
            if r is not NotImplemented:
                return r
        data = b''
        for i in range(0, ln, 32):
            data += self.mload(self.op('add', [a, i])).to_bytes(32, 'big')
        return int.from_bytes(keccak256(data[:ln]), 'big')

    def y_calldataload(self, a):
        if not isinstance(a, Ptr):
            raise Unsupported('calldataload of %r' % (a,))
        return a.r.load(self, a.o)

    def y_revert(self, a, n):
        raise Revert(('yul', n))

    def y_extcodecopy(self, addr, dst, off, n):
        h = self.stubs.get('extcodecopy')
        if h is not None:
            return h(self, addr, dst, off, n)
        code = self.codes.get(addr, b'')
        data = code[off:off + n].ljust(n, b'\0')
        if n % 32:
            raise Unsupported('extcodecopy of %d bytes' % n)
        for i in range(0, n, 32):
            self.mstore(self.op('add', [dst, i]), int.from_bytes(data[i:i + 32], 'big'))

    def y_create2(self, val, a, n, salt):
        h = self.stubs.get('create2')
        if h is not None:
            return h(self, a, n, salt)
        if self.mode != 'run':
            raise Unsupported('create2')
        code = b''
        for i in range(0, n, 32):
            code += self.mload(self.op('add', [a, i])).to_bytes(32, 'big')
        code = run_init(code[:n])
        if code is None:
            return 0
        addr = int.from_bytes(keccak256(b'\xff' + salt.to_bytes(32, 'big') + keccak256(code)), 'big') & ((1 << 160) - 1)
        self.codes[addr] = code
        return addr

    def y_pop(self, a):
        return None

    def y_gas(self):
        return 0


SELECTOR = 0x12345678 << 224      # symbolic identity of ISigVerifier.verify.selector


class Cd:
    """calldata bytes"""

    def __init__(self, data):
        self.data = data
        self.length = len(data)
        self.name = 'calldata'

    def load(self, ex, o):
        return int.from_bytes(self.data[o:o + 32].ljust(32, b'\0'), 'big')

    def to_memory(self, ex):
        return ex.new_bytes(self.data, 'calldata copy')


def run_init(code):
    """the code a (loop-free) init code returns"""
    st, mem, pc = [], bytearray(), 0
    while pc < len(code):
        o = code[pc]
        if 0x60 <= o <= 0x7f:
            k = o - 0x5f
            st.append(int.from_bytes(code[pc + 1:pc + 1 + k], 'big'))
            pc += k
        elif 0x80 <= o <= 0x8f:
            st.append(st[-1 - (o - 0x80)])
        elif o == 0x39:
            d, s, n = st.pop(), st.pop(), st.pop()
            mem.extend(bytes(max(0, d + n - len(mem))))
            mem[d:d + n] = code[s:s + n].ljust(n, b'\0')
        elif o == 0xf3:
            a, n = st.pop(), st.pop()
            mem.extend(bytes(max(0, a + n - len(mem))))
            return bytes(mem[a:a + n])
        else:
            return None
        pc += 1
    return None


def litop(op, a, b):
    if op in ('==', '!=', '<', '>', '<=', '>='):
        return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]), BOOL
    f = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<<': lambda: a << b, '>>': lambda: a >> b, '**': lambda: a ** b,
         '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '%': lambda: a % b, '/': lambda: a // b if a % b == 0 else None}
    r = f[op]()
    if r is None:
        raise Unsupported('rational literal')
    return r, LIT


def ends_in_revert(n, yul):
    if yul:
        return bool(n.body) and n.body[-1].k == 'yexpr' and n.body[-1].e.k == 'ycall' and n.body[-1].e.f == 'revert' and \
            all(s.k in ('ylet', 'yexpr') for s in n.body)
    if n.k == 'block':
        return len(n.body) == 1 and ends_in_revert(n.body[0], False)
    return n.k == 'expr' and n.e.k == 'call' and n.e.f.k == 'id' and n.e.f.name == 'revert'


def _addmod(a, b, m):
    return (a + b) % m if m else 0


def _mulmod(a, b, m):
    return (a * b) % m if m else 0


def _byte(i, x):
    return (x >> (8 * (31 - i))) & 0xff if i < 32 else 0


COP = {
    'add': lambda a, b: (a + b) & M, 'sub': lambda a, b: (a - b) & M, 'mul': lambda a, b: (a * b) & M,
    'div': lambda a, b: a // b if b else 0, 'mod': lambda a, b: a % b if b else 0,
    'addmod': _addmod, 'mulmod': _mulmod, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
    'not': lambda a: a ^ M, 'shl': lambda s, a: (a << s) & M if s < 256 else 0, 'shr': lambda s, a: a >> s if s < 256 else 0,
    'sar': lambda s, a: (signed(a) >> min(s, 256)) & M,
    'lt': lambda a, b: int(a < b), 'gt': lambda a, b: int(a > b), 'slt': lambda a, b: int(signed(a) < signed(b)),
    'sgt': lambda a, b: int(signed(a) > signed(b)), 'eq': lambda a, b: int(a == b), 'iszero': lambda a: int(a == 0), 'byte': _byte,
    'exp': lambda a, b: pow(a, b, 1 << 256),
    'sdiv': lambda a, b: 0 if b == 0 else (abs(signed(a)) // abs(signed(b)) * (1 if (signed(a) < 0) == (signed(b) < 0) else -1)) & M,
}

try:
    from Crypto.Hash import keccak as _k

    def keccak256(data):
        return _k.new(digest_bits=256, data=data).digest()
except ImportError:
    import sys
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'oracle'))

    def keccak256(data):
        import keccak as ok
        return bytes(ok.keccak256(data))


# ---------------------------------------------------------------------------------------------- paths
class Path:
    def __init__(self, ex, out, end):
        self.ex = ex
        self.out = out
        self.end = end          # 'return', 'revert', 'stop'


def paths(make, limit=20000):
    """make(decisions) -> (executor, thunk); runs all feasible paths"""
    work = [[]]
    out = []
    while work:
        d = work.pop()
        ex, thunk = make(d)
        try:
            r = Path(ex, thunk(), 'return')
        except Revert as e:
            r = Path(ex, e, 'revert')
        except StopPath as e:
            r = Path(ex, e, 'stop')
        except Infeasible:
            r = None
        work.extend(ex.pending)
        if r is not None:
            out.append(r)
            yield r
        if len(out) > limit:
            raise Unsupported('more than %d paths' % limit)
