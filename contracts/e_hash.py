"""Contracts of the Solidity hash layer: Keccak-f[1600], the SHAKE256 sponge, the three hash-to-point functions."""
import anf
import bv

from e_common import *
import keccak as spec
from solex import Dom
import e_loop
from e_loop import Window, Role, fit, prove_goal, as_num, eqz
from soldom import lin, mul

SHAKE = SRC + 'ZKNOX_shake.sol'
H2P = SRC + 'ZKNOX_HashToPoint.sol'
M = (1 << 256) - 1
M64 = (1 << 64) - 1
RATE = 136
KQ = 61445


# ------------------------------------------------------------------ 64-bit words as polynomials over GF(2)
class W64(Dom):
    __slots__ = ('p', 'dirty')
    N = None

    def __init__(self, p, dirty=False):
        c = W64.N.cuts.get(p[0]) if p[0] else None
        self.p = (c[0][0], c[0][1] ^ c[1] ^ p[1]) if c is not None else p
        self.dirty = dirty

    def interval(self):
        return None if self.dirty else (0, M64)

    def yop(self, name, a, ex):
        if name in ('xor', 'or', 'and'):
            x, y = a
            if name == 'and':
                for u, v in ((x, y), (y, x)):
                    if type(u) is int and isinstance(v, W64):
                        if u & M64 == M64 and (u == M64 or not v.dirty):
                            return W64(v.p)
                        if u & M64 == M64:
                            return v
            w = []
            for v in (x, y):
                if type(v) is int:
                    if v >> 64 and name != 'and':
                        return NotImplemented
                    v = W64((frozenset(), v & M64))
                if not isinstance(v, W64):
                    return NotImplemented
                w.append(v)
            f = {'xor': anf.xor, 'or': anf.or_, 'and': anf.and_}[name]
            d = (w[0].dirty and w[1].dirty) if name == 'and' else (w[0].dirty or w[1].dirty)
            return W64(f(w[0].p, w[1].p), d)
        if name == 'not':
            return W64(anf.inv(self.p), True)
        if name in ('shl', 'shr') and type(a[0]) is int:
            if a[0] == 0:
                return self
            if self.dirty and name == 'shr':
                return NotImplemented
            if a[0] >= 64 and name == 'shr':
                return 0
            return Half(self.p, a[0], name == 'shl')
        return NotImplemented


class Half(Dom):
    """x << s or x >> s of a 64-bit word, before the other half is added (bits 64 and up are whatever the shift left there)"""

    def __init__(self, p, s, left):
        self.p, self.s, self.left = p, s, left

    def yop(self, name, a, ex):
        if name in ('xor', 'or', 'add') and all(isinstance(x, Half) for x in a):
            x, y = a
            if x.left != y.left and x.p == y.p and x.s + y.s == 64:
                return W64(anf.rot(x.p, x.s if x.left else y.s), True)
        return NotImplemented


def f1600_unit():
    R = UnitResult()
    name = 'f1600'
    N = W64.N = anf.ANF()
    A = [N.new() for _ in range(25)]
    ex = Ex(prog(SHAKE))
    st = ex.alloc('state', 25 * 32)
    for i in range(25):
        st.cells[32 * i] = W64(A[i])
    for r in range(24):
        A = anf.keccak_round(N, A, spec.RC[r], spec.RHO)
    out = straight(R, name, ex, lambda: ex.call('f1600', [Ptr(st, 0)]))
    if out is not None:
        R.check(name + ': in place', isinstance(out[0], Ptr) and out[0].r is st and out[0].o == 0)
        for i in range(25):
            x = st.cells.get(32 * i)
            R.check(name + ': lane %d after 24 rounds' % i, isinstance(x, W64) and not x.dirty and x.p == A[i], backend='anf')
        R.check(name + ': nothing else of the array is written', set(st.cells) == {32 * i for i in range(25)})
    ex = Ex(prog(SHAKE))
    for s in range(64):
        a = N.new()
        o = ex.call('rol64', [W64(a), s])[0]
        R.check('rol64: rotation by %d' % s, isinstance(o, W64) and not o.dirty and o.p == W64(anf.rot(a, s)).p)
    R.functions |= ex.touched
    return R


# ------------------------------------------------------------------ bytes as XORs of atoms
ZERO = (frozenset(), 0)


class BW(Dom):
    """a word as 32 bytes (least significant first), each an XOR of byte atoms and a constant"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = tuple(b)

    def interval(self):
        n = max((i + 1 for i, x in enumerate(self.b) if x != ZERO), default=0)
        return 0, (1 << (8 * n)) - 1

    def key(self):
        return self.b

    def __eq__(self, o):
        return isinstance(o, BW) and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return 'BW' + repr([(sorted(s), c) for s, c in self.b if (s or c)][:4])

    def yop(self, name, a, ex):
        if name in ('xor', 'or', 'add'):
            x, y = bw(a[0]), bw(a[1])
            if x is None or y is None:
                return NotImplemented
            out = []
            for u, v in zip(x.b, y.b):
                if name == 'xor' or u == ZERO or v == ZERO:
                    out.append((u[0] ^ v[0], u[1] ^ v[1]))
                elif name == 'or' and not u[0] and not v[0]:
                    out.append((frozenset(), u[1] | v[1]))
                else:
                    return NotImplemented
            return norm(out)
        if name == 'and':
            x, m = (a[0], a[1]) if isinstance(a[0], BW) else (a[1], a[0])
            if type(m) is not int:
                return NotImplemented
            out = []
            for i, u in enumerate(x.b):
                k = m >> (8 * i) & 255
                if k == 255 or u == ZERO:
                    out.append(u)
                elif k == 0:
                    out.append(ZERO)
                elif not u[0]:
                    out.append((frozenset(), u[1] & k))
                else:
                    return NotImplemented
            return norm(out)
        if name in ('shl', 'shr') and type(a[0]) is int and a[0] % 8 == 0:
            k = a[0] // 8
            if k >= 32:
                return 0
            return norm((ZERO,) * k + self.b[:32 - k] if name == 'shl' else self.b[k:] + (ZERO,) * k)
        if name == 'mul':
            x, m = (a[0], a[1]) if isinstance(a[0], BW) else (a[1], a[0])
            if type(m) is int and m and m & (m - 1) == 0 and (m.bit_length() - 1) % 8 == 0:
                return self.yop('shl', [m.bit_length() - 1, x], ex)
            return NotImplemented
        if name == 'byte' and type(a[0]) is int:
            return norm([self.b[31 - a[0]]] + [ZERO] * 31) if a[0] < 32 else 0
        if name == 'not':
            return norm([(s, c ^ 255) for s, c in self.b])
        if name == 'overflow':
            op, x, y, w, s = a
            if op == 'add':
                r = self.yop('add', [x, y], ex)
                if r is not NotImplemented and (type(r) is int or all(v == ZERO for v in r.b[w // 8:])):
                    return False
            return NotImplemented
        return NotImplemented


def bw(x):
    if isinstance(x, BW):
        return x
    if type(x) is int:
        return BW([(frozenset(), x >> (8 * i) & 255) for i in range(32)])
    return None


def norm(b):
    b = tuple(b)
    if all(not s for s, c in b):
        return sum(c << (8 * i) for i, (s, c) in enumerate(b))
    return BW(b)


def lane(name, n=8):
    return BW([(frozenset(['%s.%d' % (name, k)]), 0) for k in range(n)] + [ZERO] * (32 - n))


def byte(name):
    return lane(name, 1)


def byte_of(x, k):
    x = bw(x)
    return x.b[k]


def sumb(u, v):
    return (u[0] ^ v[0], u[1] ^ v[1])


class Perm:
    """f1600 as a function of the 25 lanes' content"""

    def __init__(self):
        self.memo = {}

    def apply(self, lanes):
        k = tuple(bw(x).b for x in lanes)
        if k not in self.memo:
            i = len(self.memo)
            self.memo[k] = [lane('F%d[%d]' % (i, j)) for j in range(25)]
        return list(self.memo[k])

    def f1600(self, ex, fn, args):
        r, o = args[0].r, args[0].o
        lanes = [r.load(ex, o + 32 * i) for i in range(25)]
        for i, x in enumerate(self.apply(lanes)):
            r.store(ex, o + 32 * i, x)
        return args[0], ('array', ('elem', 'uint64'), 25)

    def permute(self, buf, lanes):
        """shakePermute on contents: lanes after the buffer is added and the permutation applied"""
        add = []
        for i in range(25):
            v = bw(lanes[i]).b
            b = [sumb(v[k], byte_of(buf[8 * i + k], 0)) for k in range(8)]
            add.append(norm(b + [ZERO] * 24))
        return self.apply(add)

    def stub(self, ex, fn, args):
        b, s = args
        buf = [b.r.load(ex, b.o + 32 * i) for i in range(200)]
        lanes = [s.r.load(ex, s.o + 32 * i) for i in range(25)]
        new = self.permute(buf, lanes)
        for i, x in enumerate(new):
            s.r.store(ex, s.o + 32 * i, x)
        return (fixed(ex, [0] * 200, 'zeros', 'uint8'), s), (('array', ('elem', 'uint8'), 200), ('array', ('elem', 'uint64'), 25))


def fixed(ex, vals, name, ty):
    r = ex.alloc(name, 32 * len(vals), ('array', ('elem', ty), len(vals)))
    for i, v in enumerate(vals):
        r.cells[32 * i] = v
    return Ptr(r, 0)


def content(ex, p, n):
    return [p.r.load(ex, p.o + 32 * i) for i in range(n)]


def eqc(a, b):
    return len(a) == len(b) and all((type(x) is int and type(y) is int and x == y) or (isinstance(x, BW) and x == y) for x, y in zip(a, b))


def permute_unit():
    R = UnitResult()
    name = 'shakePermute'
    P = Perm()
    ex = Ex(prog(SHAKE), stubs={'f1600': P.f1600})
    bs = [byte('b%d' % i) for i in range(200)]
    ls = [lane('s%d' % i) for i in range(25)]
    b, s = fixed(ex, bs, 'buf', 'uint8'), fixed(ex, ls, 'state', 'uint64')
    out = straight(R, name, ex, lambda: ex.call('shakePermute', [b, s]))
    if out is not None:
        (nb, nstate), _ = out
        R.check(name + ': the state is the permutation of state xor buffer', eqc(content(ex, nstate, 25), P.permute(bs, ls)))
        R.check(name + ': the permutation is applied once', len(P.memo) == 1)
        R.check(name + ': the buffer returned is empty', content(ex, nb, 200) == [0] * 200 and nb.r is not nstate.r)
    return R


# ------------------------------------------------------------------ absorb
def absorb_ghost(i0, length, k, perbyte):
    """bytes absorbed before iteration k of the loop"""
    if perbyte:
        return k
    return 0 if k == 0 else min(length, RATE - i0 + RATE * (k - 1))


def absorb_roles(R):
    samples = {}
    shape = set()
    P = Perm()
    for i0, length in ((0, 300), (5, 131), (5, 200), (135, 1), (135, 138), (100, 410), (77, 0)):
        rec = []

        def rule(L):
            if rec and rec[0] != L.node:
                return False
            if not rec:
                rec.append(L.node)
            elif len(rec) > 1:
                return False
            while True:
                rec.append({a: d[a][0] for a, d in L.vars().items()})
                if not L.cond():
                    return True
                if L.body() == 'break':
                    return True
                L.post()
        ex = Ex(prog(SHAKE), 'run', loops={'shakeAbsorb': rule}, stubs={'shakePermute': P.stub, 'f1600': P.f1600})
        b, s = fixed(ex, [0] * 200, 'buf', 'uint8'), fixed(ex, [0] * 25, 'state', 'uint64')
        ex.call('shakeAbsorb', [i0, b, s, ex.new_bytes(bytes(length))])
        it = len(rec) - 2
        if it == length and it > 4:
            shape.add(True)
        elif it == (length + i0 - 1) // RATE + 1 if length else it == 0:
            if it != length:
                shape.add(False)
        else:
            shape.add(None)
        for k, vals in enumerate(rec[1:]):
            for a, v in vals.items():
                samples.setdefault(a, []).append((v, k, i0, length))
    if len(shape) != 1 or None in shape:
        return None, None
    pb = shape.pop()
    roles = {}
    for a, s in samples.items():
        fs = []
        for v, k, i0, length in s:
            d = absorb_ghost(i0, length, k, pb)
            fs.append((v, {'done': d, 'pos': (i0 + d) % RATE, 'len': length}))
        f = fit(fs, ['done', 'pos', 'len']) if not isinstance(fs[0][0], Ptr) else None
        roles[a] = Role(f[0], f[1]) if f is not None else ('ptr', fs[0][0].r.size) if isinstance(fs[0][0], Ptr) else None
    return roles, pb


def absorb_unit(positions):
    def unit():
        R = UnitResult()
        name = 'shakeAbsorb'
        roles, pb = absorb_roles(R)
        if not R.check(name + ': one loop that absorbs block by block (or byte by byte)', roles is not None):
            return R
        for i0 in positions:
            for kind in ('start', 'exit') if i0 % 17 == 0 else ('exit',):
                absorb_case(R, name, roles, pb, i0, kind)
            for w in range(1, RATE - i0 + 1) if not pb else (1,):
                absorb_case(R, name, roles, pb, i0, 'step', w, pb or w == RATE - i0)
        return R
    return unit


def absorb_case(R, name, roles, pb, i0, kind, take=0, last=False):
    sp = Space()
    P = Perm()
    if kind == 'step':
        done = sp.sym('done', 0, 1 << 64)
        L = lin(sp, done, take if not last else sp.sym('left', take, 1 << 64), 1)
    else:
        L = sp.sym('len', 0, 1 << 64)
        done = 0 if kind == 'start' else L
    F = {'done': done, 'pos': i0, 'len': L}
    bs = [byte('b%d' % i) for i in range(200)]
    ls = [lane('s%d' % i) for i in range(25)]
    box = {}

    def rule(Lr):
        if box.get('in'):
            return False
        ex = Lr.ex
        vs = Lr.vars()
        if kind == 'start':
            box['final'] = {a: d[a][0] for a, d in vs.items()}
            box['env'] = Lr.env.flat()
            raise StopPath('start')
        for a, d in vs.items():
            r = roles.get(a)
            if isinstance(r, Role):
                d[a][0] = r.value(sp, F)
            elif isinstance(r, tuple):
                d[a][0] = box['buf'] if r[1] == 6400 else box['state'] if r[1] == 800 else ex.fresh(a)
            else:
                d[a][0] = ex.fresh(a)
        box['in'] = True
        if kind == 'exit':
            if Lr.cond():
                box['bad'] = 'the loop goes on after the last byte'
                raise StopPath('exit')
            return True
        if not Lr.cond():
            box['bad'] = 'the loop stops before the last byte'
            raise StopPath('cond')
        if Lr.body() == 'break':
            box['bad'] = 'the loop breaks off'
            raise StopPath('break')
        Lr.post()
        box['final'] = {a: d[a][0] for a, d in vs.items()}
        raise StopPath('step')

    def make(dec):
        box.clear()
        ex = Ex(prog(SHAKE), decisions=dec, loops={'shakeAbsorb': rule}, stubs={'shakePermute': P.stub, 'f1600': P.f1600})
        ex._facts = {}
        for t in (L, done):
            if isinstance(t, V):
                for f in sp.facts(t.z()):
                    ex.solver.add(f)
        box['buf'], box['state'] = fixed(ex, bs, 'buf', 'uint8'), fixed(ex, ls, 'state', 'uint64')
        w = Window('input', None, cells={0: L}, ro=True)
        w.setup(lin(sp, done, 32, 1), word=lambda d: BW([(frozenset(['x%d' % (d + 31 - k)]), 0) for k in range(32)]))
        return ex, lambda: ex.call('shakeAbsorb', [i0, box['buf'], box['state'], Ptr(w, 0)])
    nm = '%s at position %d' % (name, i0)
    n = 0
    for p in paths(make):
        ex = p.ex
        R.functions |= ex.touched
        if ex.problems or ex.reverts or box.get('bad') or p.end == 'revert':
            R.check(nm + ': runs without error', False, '%s %s %s %s' % (ex.problems[:2], ex.reverts[:1], box.get('bad'), p.out))
            continue
        n += 1
        if kind == 'start':
            for a, r in roles.items():
                if isinstance(r, Role):
                    prove_goal(R, nm + ': initially %s has its meaning' % a, r.holds(sp, F, box['final'][a]), ex.pc, sp)
                elif isinstance(r, tuple) and r[1] in (6400, 800):
                    v = box['final'][a]
                    R.check(nm + ': initially %s holds the argument' % a, isinstance(v, Ptr) and eqc(content(ex, v, r[1] // 32), bs if r[1] == 6400 else ls))
            continue
        if kind == 'exit':
            if R.check(nm + ': returns', p.end == 'return'):
                (io, bo, so), _ = p.out
                if R.check(nm + ': the results are a position and two arrays', isinstance(bo, Ptr) and isinstance(so, Ptr)):
                    R.check(nm + ': position, buffer and state are returned', io == i0 and eqc(content(ex, bo, 200), bs) and eqc(content(ex, so, 25), ls))
            continue
        fin = box['final']
        w = take
        pn = '%s, %d bytes' % (nm, w)
        buf2 = list(bs)
        for j in range(w):
            x = byte_of(buf2[i0 + j], 0)
            buf2[i0 + j] = norm([sumb(x, (frozenset(['x%d' % j]), 0))] + [ZERO] * 31)
        st2 = ls
        pos2 = i0 + w
        if pos2 == RATE:
            st2 = P.permute(buf2, ls)
            buf2 = [0] * 200
            pos2 = 0
        F2 = {'done': lin(sp, done, w, 1), 'pos': pos2, 'len': L}
        for a, r in roles.items():
            if isinstance(r, Role):
                prove_goal(R, pn + ': %s keeps its meaning' % a, r.holds(sp, F2, fin[a]), ex.pc, sp)
            elif isinstance(r, tuple) and r[1] in (6400, 800):
                v = fin[a]
                R.check(pn + ': %s is the sponge after these bytes' % a, isinstance(v, Ptr) and eqc(content(ex, v, r[1] // 32), buf2 if r[1] == 6400 else st2))
        # arrays not carried in variables are updated in place
        tys = [r[1] for r in roles.values() if isinstance(r, tuple)]
        if 6400 not in tys:
            R.check(pn + ': the buffer', eqc(content(ex, box['buf'], 200), buf2))
        if 800 not in tys:
            R.check(pn + ': the state', eqc(content(ex, box['state'], 25), st2))
    R.check('%s: %s is reached' % (nm, {'start': 'the loop', 'exit': 'the end', 'step': 'the end of an iteration on %d bytes' % take}[kind]), n >= 1)


# ------------------------------------------------------------------ squeeze
def ctx_struct(ex, i, buf, state, direction):
    r = ex.alloc('ctx', 128, ('struct', 'CtxShake'))
    names = [fn for ft, fn in ex.prog.structs['CtxShake'].fields]
    vals = {'state': state, 'buff': buf, 'i': i, 'direction': direction}
    for k, nme in enumerate(names):
        r.cells[32 * k] = vals[nme]
    return Ptr(r, 0)


def ctx_get(ex, p, field):
    names = [fn for ft, fn in ex.prog.structs['CtxShake'].fields]
    return p.r.load(ex, p.o + 32 * names.index(field))


def ctx_set(ex, p, field, v):
    names = [fn for ft, fn in ex.prog.structs['CtxShake'].fields]
    p.r.cells[p.o + 32 * names.index(field)] = v


def squeeze_roles():
    samples = {}
    P = Perm()
    shape = set()
    for i0, length in ((0, 300), (5, 131), (5, 200), (135, 1), (135, 138), (100, 410), (77, 0)):
        rec = []

        def rule(L):
            if rec and rec[0] != L.node:
                return False
            if not rec:
                rec.append(L.node)
            elif len(rec) > 1:
                return False
            while True:
                vals = {a: d[a][0] for a, d in L.vars().items()}
                vals['ctx.i'] = ctx_get(L.ex, c, 'i')
                rec.append(vals)
                if not L.cond():
                    return True
                if L.body() == 'break':
                    return True
                L.post()
        ex = Ex(prog(SHAKE), 'run', loops={'shakeSqueeze': rule}, stubs={'shakePermute': P.stub, 'f1600': P.f1600})
        c = ctx_struct(ex, i0, fixed(ex, [0] * 200, 'buf', 'uint8'), fixed(ex, [0] * 25, 'state', 'uint64'), 1)
        ex.call('shakeSqueeze', [c, length])
        it = len(rec) - 2
        if it == length and it > 4:
            shape.add(True)
        elif (it == (length + i0 - 1) // RATE + 1) if length else it == 0:
            if it != length:
                shape.add(False)
        else:
            shape.add(None)
        for k, vals in enumerate(rec[1:]):
            for a, v in vals.items():
                samples.setdefault(a, []).append((v, k, i0, length))
    if len(shape) != 1 or None in shape:
        return None, None
    pb = shape.pop()
    roles = {}
    for a, s in samples.items():
        fs = []
        for v, k, i0, length in s:
            d = absorb_ghost(i0, length, k, pb)
            fs.append((v, {'done': d, 'pos': (i0 + d) % RATE, 'len': length}))
        f = fit(fs, ['done', 'pos', 'len']) if not isinstance(fs[0][0], Ptr) else None
        roles[a] = Role(f[0], f[1]) if f is not None else None
    return roles, pb


class OutWindow(Window):
    def setup(self, at, **k):
        super().setup(at, **k)
        self.bytes = {}
        return self

    def sym_put(self, ex, off, i, v):
        o = ex.op('add', [ex.op('add', [off, 32]), i])
        self.bytes[self._d(o)] = ex.op('shr', [248, v])

    def put_byte(self, ex, i, v):
        self.bytes[self._d(32 + i)] = v

    def get_byte(self, ex, i):
        raise Unsupported('the output is read')


def squeeze_unit(positions):
    def unit():
        R = UnitResult()
        name = 'shakeSqueeze'
        roles, pb = squeeze_roles()
        if not R.check(name + ': one loop that squeezes block by block (or byte by byte)', roles is not None):
            return R
        for i0 in positions:
            for kind in ('start', 'exit') if i0 % 17 == 0 else ('exit',):
                squeeze_case(R, name, roles, pb, i0, kind)
            for w in range(1, RATE - i0 + 1) if not pb else (1,):
                squeeze_case(R, name, roles, pb, i0, 'step', w, pb or w == RATE - i0)
        return R
    return unit


def squeeze_case(R, name, roles, pb, i0, kind, take=0, last=False):
    sp = Space()
    P = Perm()
    if kind == 'step':
        done = sp.sym('done', 0, 1 << 40)
        L = lin(sp, done, take if not last else sp.sym('left', take, 1 << 40), 1)
    else:
        L = sp.sym('len', 0, 1 << 40)
        done = 0 if kind == 'start' else L
    F = {'done': done, 'pos': i0, 'len': L}
    ls = [lane('s%d' % i) for i in range(25)]
    box = {}

    def new(ex, ty, ln):
        if not (isinstance(ln, V) and ln.key() == L.key()):
            return NotImplemented
        w = OutWindow('output', None, cells={0: L})
        w.setup(lin(sp, done, 32, 1))
        box.setdefault('outs', []).append(w)
        return Ptr(w, 0)

    def rule(Lr):
        if box.get('in'):
            return False
        ex = Lr.ex
        vs = Lr.vars()
        box['in'] = True
        if kind == 'start':
            box['final'] = {a: d[a][0] for a, d in vs.items()}
            box['final']['ctx.i'] = ctx_get(ex, box['ctx'], 'i')
            raise StopPath('start')
        for a, d in vs.items():
            r = roles.get(a)
            cur = d[a][0]
            if isinstance(r, Role):
                d[a][0] = r.value(sp, F)
            elif not isinstance(cur, Ptr):
                d[a][0] = ex.fresh(a)
        r = roles.get('ctx.i')
        ctx_set(ex, box['ctx'], 'i', r.value(sp, F) if isinstance(r, Role) else ex.fresh('ctx.i'))
        if kind == 'exit':
            if Lr.cond():
                box['bad'] = 'the loop goes on after the last byte'
                raise StopPath('exit')
            return True
        if not Lr.cond():
            box['bad'] = 'the loop stops before the last byte'
            raise StopPath('cond')
        if Lr.body() == 'break':
            box['bad'] = 'the loop breaks off'
            raise StopPath('break')
        Lr.post()
        box['final'] = {a: d[a][0] for a, d in vs.items()}
        box['final']['ctx.i'] = ctx_get(ex, box['ctx'], 'i')
        raise StopPath('step')

    def make(dec):
        box.clear()
        ex = Ex(prog(SHAKE), decisions=dec, loops={'shakeSqueeze': rule}, stubs={'shakePermute': P.stub, 'f1600': P.f1600, 'new': new})
        ex._facts = {}
        for t in (L, done):
            if isinstance(t, V):
                for f in sp.facts(t.z()):
                    ex.solver.add(f)
        box['ctx'] = ctx_struct(ex, i0, fixed(ex, [0] * 200, 'buf', 'uint8'), fixed(ex, ls, 'state', 'uint64'), 1)
        return ex, lambda: ex.call('shakeSqueeze', [box['ctx'], L])
    nm = '%s at position %d' % (name, i0)
    n = 0
    for p in paths(make):
        ex = p.ex
        R.functions |= ex.touched
        if ex.problems or ex.reverts or box.get('bad') or p.end == 'revert':
            R.check(nm + ': runs without error', False, '%s %s %s %s' % (ex.problems[:2], ex.reverts[:1], box.get('bad'), p.out))
            continue
        n += 1
        c = box['ctx']
        if kind == 'start':
            for a, r in roles.items():
                if isinstance(r, Role):
                    prove_goal(R, nm + ': initially %s has its meaning' % a, r.holds(sp, F, box['final'][a]), ex.pc, sp)
            R.check(nm + ': the state is the argument\'s', eqc(content(ex, ctx_get(ex, c, 'state'), 25), ls))
            continue
        out = [w for w in box.get('outs', []) if w.bytes]
        if kind == 'exit':
            if R.check(nm + ': returns', p.end == 'return'):
                (co, bo), _ = p.out
                ok = isinstance(co, Ptr) and isinstance(bo, Ptr) and bo.r in box['outs']
                if R.check(nm + ': a context and the bytes are returned', ok):
                    R.check(nm + ': the context holds position and state', ctx_get(ex, co, 'i') == i0 and eqc(content(ex, ctx_get(ex, co, 'state'), 25), ls)
                            and eqc(content(ex, ctx_get(ex, co, 'buff'), 200), [0] * 200))
                    R.check(nm + ': the direction is kept', ctx_get(ex, co, 'direction') == 1)
                    R.check(nm + ': the bytes are not changed after the loop', not out)
            continue
        fin = box['final']
        w = take
        pn = '%s, %d bytes' % (nm, w)
        if R.check(pn + ': one output array is written', len(out) == 1, str(len(out))):
            want = {j: norm([byte_of(ls[(i0 + j) // 8], (i0 + j) % 8)] + [ZERO] * 31) for j in range(w)}
            got = out[0].bytes
            R.check(pn + ': output bytes are bytes of the state at this position', set(got) == set(want) and all(got[j] == want[j] for j in want) and not out[0].stores)
        pos2, st2 = i0 + w, ls
        if pos2 == RATE:
            pos2, st2 = 0, P.permute([0] * 200, ls)
        F2 = {'done': lin(sp, done, w, 1), 'pos': pos2, 'len': L}
        for a, r in roles.items():
            if isinstance(r, Role):
                prove_goal(R, pn + ': %s keeps its meaning' % a, r.holds(sp, F2, fin[a]), ex.pc, sp)
        R.check(pn + ': the state after these bytes', eqc(content(ex, ctx_get(ex, c, 'state'), 25), st2) and eqc(content(ex, ctx_get(ex, c, 'buff'), 200), [0] * 200))
    R.check('%s: %s is reached' % (nm, {'start': 'the loop', 'exit': 'the end', 'step': 'the end of an iteration on %d bytes' % take}[kind]), n >= 1)


# ------------------------------------------------------------------ init, update, pad, digest
def context_unit():
    R = UnitResult()
    P = Perm()
    ex = Ex(prog(SHAKE), stubs={'shakePermute': P.stub})
    out = straight(R, 'shakeInit', ex, lambda: ex.call('shakeInit', []))
    if out is not None:
        c = out[0]
        R.check('shakeInit: empty buffer, zero state, position 0, absorbing', content(ex, ctx_get(ex, c, 'state'), 25) == [0] * 25
                and content(ex, ctx_get(ex, c, 'buff'), 200) == [0] * 200 and ctx_get(ex, c, 'i') == 0 and ctx_get(ex, c, 'direction') == 0)
    bs = [byte('b%d' % i) for i in range(200)]
    ls = [lane('s%d' % i) for i in range(25)]

    def fresh_ctx(ex, i, d):
        return ctx_struct(ex, i, fixed(ex, bs, 'buf', 'uint8'), fixed(ex, ls, 'state', 'uint64'), d)

    def padded(i):
        b = list(bs)
        for k, m in ((i, 0x1f), (RATE - 1, 0x80)):
            b[k] = norm([sumb(byte_of(b[k], 0), (frozenset(), m))] + [ZERO] * 31)
        return b
    for i in range(RATE):
        P = Perm()
        ex = Ex(prog(SHAKE), stubs={'shakePermute': P.stub})
        out = straight(R, 'shakePad at %d' % i, ex, lambda: ex.call('shakePad', [fresh_ctx(ex, i, 0)]))
        if out is not None:
            c = out[0]
            R.check('shakePad at %d: domain and end bits are added and the state permuted' % i, eqc(content(ex, ctx_get(ex, c, 'state'), 25), P.permute(padded(i), ls))
                    and content(ex, ctx_get(ex, c, 'buff'), 200) == [0] * 200 and ctx_get(ex, c, 'i') == 0)
            R.check('shakePad at %d: the context is squeezing from now on' % i, ctx_get(ex, c, 'direction') == 1)
        # digest: pad if absorbing, then squeeze
        for d in (0, 1):
            P = Perm()
            sq = []

            def squeeze(ex, fn, args):
                c, n = args
                sq.append((n, ctx_get(ex, c, 'i'), content(ex, ctx_get(ex, c, 'buff'), 200), content(ex, ctx_get(ex, c, 'state'), 25), ctx_get(ex, c, 'direction')))
                return (c, Ptr(tok, 0)), (('struct', 'CtxShake'), BYTES)
            sp = Space()
            n = sp.sym('n', 0, 1 << 40)
            tok = Region('digest', None, cells={0: n})
            ex = Ex(prog(SHAKE), stubs={'shakePermute': P.stub, 'shakeSqueeze': squeeze, 'new': lambda ex, ty, ln: Ptr(Region('zeros', None, cells={0: ln}), 0)})
            nm = 'shakeDigest at %d, %s' % (i, 'squeezing' if d else 'absorbing')
            out = straight(R, nm, ex, lambda: ex.call('shakeDigest', [fresh_ctx(ex, i, d), n]))
            if out is not None:
                want = (i, bs, ls) if d else (0, [0] * 200, P.permute(padded(i), ls))
                ok = len(sq) == 1 and isinstance(sq[0][0], V) and sq[0][0].key() == n.key() and sq[0][1] == want[0] and eqc(sq[0][2], want[1]) and eqc(sq[0][3], want[2])
                R.check(nm + ': squeezes the requested bytes from the %s sponge' % ('current' if d else 'padded'), ok)
                R.check(nm + ': the context is squeezing from now on', len(sq) == 1 and sq[0][4] == 1)
                R.check(nm + ': and returns them', isinstance(out[0], Ptr) and out[0].r is tok)
            R.functions |= ex.touched
        # update
        for d in (0, 1):
            P = Perm()
            ab = []

            def absorb(ex, fn, args):
                k, b, s, x = args
                ab.append((k, content(ex, b, 200), content(ex, s, 25), x))
                return (res[0], fixed(ex, res[1], 'nb', 'uint8'), fixed(ex, res[2], 'ns', 'uint64')), (U256, ('array', ('elem', 'uint8'), 200), ('array', ('elem', 'uint64'), 25))
            res = (77, [byte('nb%d' % j) for j in range(200)], [lane('ns%d' % j) for j in range(25)])
            inp = Region('input', None, cells={0: 9})
            ex = Ex(prog(SHAKE), stubs={'shakePermute': P.stub, 'shakeAbsorb': absorb})
            nm = 'shakeUpdate at %d, %s' % (i, 'squeezing' if d else 'absorbing')
            out = straight(R, nm, ex, lambda: ex.call('shakeUpdate', [fresh_ctx(ex, i, d), Ptr(inp, 0)]))
            if out is not None and d == 0:
                c = out[0]
                R.check(nm + ': absorbs the input at the current position', len(ab) == 1 and ab[0][0] == i and eqc(ab[0][1], bs) and eqc(ab[0][2], ls) and isinstance(ab[0][3], Ptr) and ab[0][3].r is inp)
                R.check(nm + ': the context holds what absorbing returned, still absorbing', ctx_get(ex, c, 'i') == 77 and eqc(content(ex, ctx_get(ex, c, 'buff'), 200), res[1])
                        and eqc(content(ex, ctx_get(ex, c, 'state'), 25), res[2]) and ctx_get(ex, c, 'direction') == 0)
            R.functions |= ex.touched
    return R


def sponge_units():
    u = [('f1600', f1600_unit), ('shakePermute', permute_unit), ('context', context_unit)]
    # long cases first
    ch = [list(range(k, RATE, 16)) for k in range(16)]
    u += [('absorb %d' % i, absorb_unit(c)) for i, c in enumerate(ch)]
    u += [('squeeze %d' % i, squeeze_unit(c)) for i, c in enumerate(ch)]
    return u



# ------------------------------------------------------------------ hash to point: the first 512 candidates below 61445
class Draw:
    """one block of the candidate stream: words of 256 bits, two bytes per candidate"""

    def __init__(self, words, n):
        self.words = words
        self.n = n               # bytes

    def cand(self, c):
        w = self.words[2 * c // 32]
        sh = 240 - 16 * (c % 16)
        return (w >> sh) & 0xffff if type(w) is int else bv.and_(bv.lshr(w, sh, 256), 0xffff, 256)


def opaque(name, parts):
    r = Region(name, None)
    r.parts = parts
    return r


def parts_of(v, t):
    """content of a packed argument: list of opaque parts and words, or None"""
    if isinstance(v, Ptr) and hasattr(v.r, 'parts') and v.o == 0:
        return list(v.r.parts)
    return None


class Sampler:
    """fname samples the candidates of the blocks that `kind` of draws give:
    'shake': squeezing salt||message 136 bytes at a time; 'counter': keccak(keccak(salt||message)||counter);
    'iterate': keccak iterated from keccak(message||salt)"""

    def __init__(self, R, fname, kind, order):
        self.R, self.fname, self.kind, self.order = R, fname, kind, order
        self.nm = fname

    # ---------------------------------------------------------------- environment
    def executor(self, mode, dec=(), rule=None, rnd=None):
        ex = Ex(prog(H2P), mode, decisions=dec, loops={self.fname: rule}, stubs={}, keccak=self.keccak)
        ex.draws = []
        ex.blk = 0
        ex.rnd = rnd
        ex.prove_ = mode == 'prove'
        if mode == 'prove':
            ex.stubs['abi.encodePacked'] = self.packed
            ex.stubs['new'] = self.new
        if self.kind == 'shake':
            ex.stubs.update(shakeUpdate=self.update, shakePad=self.pad, shakeSqueeze=self.squeeze)
        ex.sponge = None
        ex.salt = Ptr(opaque('salt', ['salt']), 0) if mode == 'prove' else ex.new_bytes(b'salt')
        ex.msg = Ptr(opaque('msg', ['msg']), 0) if mode == 'prove' else ex.new_bytes(b'msg')
        ex.seed = None
        return ex

    def new(self, ex, ty, ln):
        if type(ln) is not int or ln != 512:
            return NotImplemented
        w = Window('output', None, cells={0: 512})
        w.setup(ex.at)
        ex.wins.append(w)
        return Ptr(w, 0)

    def packed(self, ex, vals):
        ps = []
        words = []
        for v, t in vals:
            p = parts_of(v, t)
            if p is not None:
                ps += p
                continue
            if t[0] != 'elem':
                return NotImplemented
            w = 8 if t == solex.BOOL else solex.bits_of(t)
            x = v
            if solex.is_fbytes(t):
                x = v if w == 256 else ex.op('shr', [256 - w, v])
            ps.append(('w', w, x))
        if any(isinstance(p, str) for p in ps):
            if all(isinstance(p, str) for p in ps):
                return Ptr(opaque('packed', ps), 0)
            raise Unsupported('packing of %r' % (ps,))
        n = sum(p[1] for p in ps)
        r = Ptr(ex.alloc('packed', 32 + (n // 8 + 31) // 32 * 32, solex.BYTES), 0)
        r.r.cells[0] = n // 8
        at = 0
        for k, w, x in ps:
            if at % 256 + w > 256:
                raise Unsupported('packing across words')
            o = 32 + at // 256 * 32
            s = ex.op('shl', [256 - at % 256 - w, x]) if 256 - at % 256 - w else x
            old = r.r.cells.get(o, 0)
            r.r.cells[o] = s if type(old) is int and old == 0 else ex.op('or', [old, s])
            at += w
        return r

    def draw(self, ex, nbytes):
        k = (nbytes + 31) // 32
        if ex.prove_:
            d = Draw([bv.sym('D%d_%d' % (len(ex.draws), i), 256) if hasattr(bv, 'sym') else ex.fresh('D%d_%d' % (len(ex.draws), i)) for i in range(k)], nbytes)
        else:
            d = Draw([ex.rnd.getrandbits(256) for i in range(k)], nbytes)
        ex.draws.append(d)
        return d

    def keccak(self, ex, v, t):
        if self.kind == 'shake':
            return NotImplemented
        # the content hashed
        if t[0] == 'mem':
            ln = t[1]
            if type(ln) is not int:
                raise Unsupported('keccak of %r bytes' % (ln,))
            ws = [ex.mload(ex.op('add', [v, i])) if i else ex.mload(v) for i in range(0, ln, 32)]
        elif isinstance(v, Ptr) and hasattr(v.r, 'parts'):
            ln, ws = None, v.r.parts
        elif isinstance(v, Ptr):
            ln = v.r.load(ex, v.o)
            ws = [v.r.load(ex, v.o + 32 + i) for i in range(0, ln, 32)]
        else:
            return NotImplemented
        if ex.seed is None:
            if ex.prove_:
                ok = ln is None and list(ws) == self.order
                if not ok:
                    ex.problem('the seed is not the hash of the two inputs in order', repr(ws))
                    raise StopPath('seed')
            if self.kind == 'iterate':
                ex.seed = True
                ex.blk = 1
                return self.draw(ex, 32).words[0]
            ex.seed = ex.fresh('seed') if ex.prove_ else ex.rnd.getrandbits(256)
            return ex.seed
        if ex.prove_:
            if self.kind == 'iterate':
                ok = ln == 32 and len(ws) == 1 and samew(ws[0], ex.draws[-1].words[0])
                what = 'a block is the hash of the previous block'
            else:
                c = ws[1] if ln == 40 and len(ws) == 2 else None
                want = mul(ex.sp, ex.blk, 1 << 192) if type(ex.blk) is not int else ex.blk << 192
                if c is not None and not isinstance(c, V) and type(c) is not int:
                    raise Unsupported('counter %r' % (c,))
                ok = c is not None and samew(ws[0], ex.seed) and eqz(c, want) is True
                what = 'a block is the hash of the seed and the 64-bit counter'
            if not ok:
                ex.problem('not: ' + what, repr(ws))
                raise StopPath('draw')
        d = self.draw(ex, 32)
        ex.blk = lin(ex.sp, ex.blk, 1, 1) if ex.prove_ and type(ex.blk) is not int else ex.blk + 1
        return d.words[0]

    def update(self, ex, fn, args):
        c, x = args
        ty = ('struct', 'CtxShake')
        if not ex.prove_:
            return c, ty
        st, bf = ctx_get(ex, c, 'state'), ctx_get(ex, c, 'buff')
        empty = content(ex, st, 25) == [0] * 25 and content(ex, bf, 200) == [0] * 200 and ctx_get(ex, c, 'i') == 0 and ctx_get(ex, c, 'direction') == 0
        p = parts_of(x, None)
        if p is None or ex.sponge not in (None,) and ex.sponge[0] is not c.r or (ex.sponge is None and not empty) or (ex.sponge and ex.sponge[1] != 'absorb'):
            ex.problem('the sponge absorbs something else', repr(x))
            raise StopPath('sponge')
        ex.sponge = [c.r, 'absorb', (ex.sponge[2] if ex.sponge else []) + p]
        return c, ty

    def pad(self, ex, fn, args):
        c, = args
        ty = ('struct', 'CtxShake')
        if ex.prove_:
            if not ex.sponge or ex.sponge[0] is not c.r or ex.sponge[1] != 'absorb' or ex.sponge[2] != self.order:
                ex.problem('the sponge is padded before salt and message are absorbed', '')
                raise StopPath('sponge')
            ex.sponge[1] = 'squeeze'
        return c, ty

    def squeeze(self, ex, fn, args):
        c, n = args
        if type(n) is not int or n % 2:
            raise Unsupported('squeezing %r bytes' % (n,))
        if ex.prove_ and (not ex.sponge or ex.sponge[0] is not c.r or ex.sponge[1] != 'squeeze'):
            ex.problem('squeezing a sponge that is not the padded one', '')
            raise StopPath('sponge')
        d = self.draw(ex, n)
        ex.blk = lin(ex.sp, ex.blk, 1, 1) if ex.prove_ and type(ex.blk) is not int else ex.blk + 1
        r = ex.alloc('block', 32 + (n + 31) // 32 * 32, solex.BYTES)
        r.cells[0] = n
        for i, w in enumerate(d.words):
            r.cells[32 + 32 * i] = w
        return (c, Ptr(r, 0)), (('struct', 'CtxShake'), solex.BYTES)

    # ---------------------------------------------------------------- roles from concrete runs
    def snapshot(self, L):
        out = {}
        for a, d in L.vars().items():
            v = d[a][0]
            out[(a,)] = v
        for a, (v, t) in L.env.flat().items():
            if isinstance(v, Ptr) and t[0] != 'struct' and v.r.size is not None and v.r.size <= 700 and v.o == 0 and v.r not in (L.ex.salt.r, L.ex.msg.r):
                for o in range(0, (v.r.size + 31) // 32 * 32, 32):
                    x = v.r.cells.get(o, 0)
                    out[(a, o)] = x
        return out

    def infer(self):
        import random
        events = []
        for seed in (1, 2, 3):
            st = []
            ev = []
            active = []

            def rule(L):
                active.append(L.node)
                for x in active[:-1]:
                    st.append((x, L.node))
                while True:
                    ev.append((L.node, self.snapshot(L), ex.blk, ex.draws[-1] if ex.draws else None, sum(1 for e in ev if e[-1])))
                    ev[-1] = ev[-1] + (False,)
                    if not L.cond():
                        break
                    ev[-1] = ev[-1][:-1] + (True,)
                    if L.body() == 'break':
                        break
                    L.post()
                active.pop()
                return True
            ex = self.executor('run', rule=rule, rnd=random.Random(seed))
            ex.sp = None
            ex.call(self.fname, [ex.salt, ex.msg])
            cnt = {}
            for e in ev:
                if e[-1]:
                    cnt[id(e[0])] = cnt.get(id(e[0]), 0) + 1
            inn = max(ev, key=lambda e: cnt.get(id(e[0]), 0))[0]
            outs = {id(o): o for o, i in st if i is inn}
            nodes = {id(e[0]) for e in ev}
            if len(outs) > 1 or nodes != {id(inn)} | set(outs):
                return None
            n = ex.draws[0].n
            if any(d.n != n for d in ex.draws):
                return None
            C = n // 2
            cands = [d.cand(c) for d in ex.draws for c in range(C)]
            k = 0
            for e in ev:
                acc = sum(1 for x in cands[:k] if x < KQ)
                events.append((e[0], e[1], e[2], k - C * (e[2] - 1), acc, e[3], seed))
                if e[0] is inn and e[-1]:
                    k += 1
        self.IN, self.OUT, self.C = inn, (list(outs.values()) or [None])[0], C
        self.roles = {}
        runs = {}
        for node in (self.IN, self.OUT):
            if node is None:
                continue
            keys = {}
            for nd, vals, blk, c, acc, d, run in events:
                if nd is node:
                    for kk, v in vals.items():
                        keys.setdefault(kk, []).append((v, blk, c, acc, d))
                        runs.setdefault((id(nd), kk, run), set()).add(v if type(v) is int else None)
            rr = {}
            for kk, ss in keys.items():
                rr[kk] = self.role(ss, node is self.IN)
                if rr[kk] is None and all(len(x) == 1 for (i, k2, run), x in runs.items() if i == id(node) and k2 == kk):
                    rr[kk] = 'keep'
            self.roles[id(node)] = rr
        return True

    def role(self, ss, inner):
        if any(isinstance(v, Ptr) for v, *_ in ss):
            f = fit([(v, {'acc': acc}) for v, blk, c, acc, d in ss], ['acc'])
            nm = as_num(ss[0][0])
            if f is not None and nm is not None and (f[1] or f[0]):
                return Role(f[0], f[1], nm[0])
            return 'ptr'
        feats = ['acc', 'c', 'blk'] if inner else ['acc', 'blk']
        f = fit([(v, {'acc': acc, 'c': c, 'blk': blk}) for v, blk, c, acc, d in ss], feats)
        if f is not None:
            return Role(f[0], f[1])
        if all(d is not None for *_, d in ss):
            d0 = ss[0][4]
            for k in range(len(d0.words)):
                if all(v == d.words[k] for v, blk, c, acc, d in ss):
                    return ('word', k)
            for k in range(d0.n // 2):
                if all(v == d.cand(k) for v, blk, c, acc, d in ss):
                    return ('cand', k)
        return None

    # ---------------------------------------------------------------- the invariant in a state
    def havoc(self, L, F, draw):
        ex = L.ex
        vs = L.vars()
        flat = L.env.flat()
        for kk, r in self.roles[id(L.node)].items():
            a = kk[0]
            if len(kk) == 1:
                if a not in vs:
                    continue
                cell = vs[a][a]
                if isinstance(r, Role):
                    cell[0] = r.value(ex.sp, F, cell[0] if isinstance(cell[0], Ptr) else None)
                elif r in ('ptr', 'keep'):
                    continue
                elif isinstance(r, tuple):
                    cell[0] = draw.words[r[1]] if r[0] == 'word' else draw.cand(r[1])
                else:
                    cell[0] = ex.fresh(a)
            else:
                v = flat[a][0]
                if isinstance(r, Role):
                    x = r.value(ex.sp, F)
                elif r == 'keep':
                    continue
                elif isinstance(r, tuple):
                    x = draw.words[r[1]] if r[0] == 'word' else draw.cand(r[1])
                else:
                    x = ex.fresh(a)
                v.r.cells[kk[1]] = x

    def check(self, nm, L, node, F, draw, snap, regions, entry=None):
        ex = L.ex
        for kk, r in sorted(self.roles[id(node)].items(), key=str):
            v = snap.get(kk, 0 if len(kk) == 2 else None)
            what = kk[0] if len(kk) == 1 else '%s[%d]' % kk
            if isinstance(r, Role):
                if isinstance(v, Ptr) and r.region is not None:
                    self.R.check('%s: %s points into the output' % (nm, what), v.r in ex.wins)
                prove_goal(self.R, '%s: %s' % (nm, what), r.holds(ex.sp, F, v), ex.pc, ex.sp)
            elif r == 'keep':
                if entry is not None:
                    self.R.check('%s: %s keeps its value' % (nm, what), samew(v, entry.get(kk, 0)))
            elif r == 'ptr':
                if not isinstance(v, Ptr):
                    self.R.check('%s: %s' % (nm, what), False)
                elif regions.get(kk[0]) is not None and (regions[kk[0]].ty or ('',))[0] == 'struct':
                    self.R.check('%s: %s is the same context' % (nm, what), v.r is regions[kk[0]])
            elif isinstance(r, tuple):
                w = draw.words[r[1]] if r[0] == 'word' else draw.cand(r[1])
                self.R.check('%s: %s holds the current block' % (nm, what), samew(v, w))

    # ---------------------------------------------------------------- proof
    def prove(self):
        R = self.R
        if not R.check(self.nm + ': a loop over the candidates, within at most one loop over the blocks', self.infer() is True):
            return R
        todo, done = ['start'], set()
        while todo:
            k = todo.pop()
            if k in done:
                continue
            done.add(k)
            for s in self.step(k):
                if s not in done:
                    todo.append(s)
        R.check(self.nm + ': every candidate of a block is reached', {c for k in done if k[0] == 'in' for c in [k[1]]} >= set(range(self.C)))
        R.check(self.nm + ': the end is reached', self.ended)
        return R

    ended = False

    def step(self, key):
        R, C = self.R, self.C
        succ = []
        sp = Space()
        full = key[-1] == 512
        acc = 0 if key == 'start' else 512 if full else sp.sym('acc', 0, 511)
        blk = sp.sym('blk', 0, 1 << 40)
        box = {}
        kind = key if key == 'start' else key[0]
        c = key[1] if kind == 'in' else None

        def stop(L, node):
            box['at'] = node
            box['snap'] = self.snapshot(L)
            box['L'] = L
            raise StopPath('head')

        def rule(L):
            ex = L.ex
            if kind == 'start':
                box['regions'] = {}
                stop(L, L.node)
            box.setdefault('regions', {}).update({a: v.r for a, (v, t) in L.env.flat().items() if isinstance(v, Ptr)})
            box['entry', id(L.node)] = self.snapshot(L)
            if L.node is self.OUT:
                ex.blk = blk
                d0 = self.draw(ex, 2 * C) if any(isinstance(r, tuple) for r in self.roles[id(L.node)].values()) or self.kind == 'iterate' else None
                self.havoc(L, {'acc': acc if kind == 'out' else sp.sym('acc0', 0, 511), 'blk': blk}, d0)
                box['draw'] = d0
                box['from'] = len(ex.draws)
            else:
                if kind == 'out':
                    stop(L, L.node)
                if self.OUT is None:
                    ex.blk = blk
                    box['draw'] = self.draw(ex, 2 * C)
                else:
                    box['draw'] = ex.draws[-1] if ex.draws else None
                box['from'] = len(ex.draws)
                self.havoc(L, {'acc': acc, 'c': c, 'blk': ex.blk}, box['draw'])
            box['in'] = True
            n = 0
            while True:
                if n:
                    stop(L, L.node)
                if not L.cond():
                    return True
                if L.body() == 'break':
                    return True
                L.post()
                n += 1

        def make(dec):
            box.clear()
            ex = self.executor('prove', dec, rule)
            ex.sp = sp
            ex.wins = []
            ex.at = lin(sp, 32, mul(sp, acc, 32), 1)
            if type(ex.at) is int:
                ex.at = V(sp, {}, ex.at)
            ex._facts = {}
            for t in (acc, blk):
                if isinstance(t, V):
                    for f in sp.facts(t.z()):
                        ex.solver.add(f)
            return ex, lambda: ex.call(self.fname, [ex.salt, ex.msg])
        nm0 = '%s: %s' % (self.nm, 'before the loop' if kind == 'start' else 'candidate %s%s' % (c, ', all found' if full else '') if kind == 'in' else 'new block' + (', all found' if full else ''))
        paths_ = 0
        for p in paths(make):
            ex = p.ex
            R.functions |= ex.touched
            if ex.problems or ex.reverts or p.end == 'revert':
                R.check(nm0 + ': runs without error', False, '%s %s %s' % (ex.problems[:2], ex.reverts[:1], p.out))
                continue
            paths_ += 1
            nm = '%s, path %d' % (nm0, paths_)
            wins = [w for w in ex.wins if w.stores]
            at = box.get('at')
            if kind == 'start':
                if not R.check(nm + ': the loop is reached', at is not None):
                    continue
                R.check(nm + ': nothing is written', not wins)
                d = ex.draws[-1] if ex.draws else None
                c1 = C if ex.blk == 0 else 0
                self.check(nm, box['L'], at, {'acc': 0, 'c': c1, 'blk': ex.blk}, d, box['snap'], {})
                succ.append(('in', c1, 'lt') if at is self.IN else ('out', 'lt'))
                continue
            if kind == 'out' and at is self.IN:
                if not R.check(nm + ': one block is drawn', len(ex.draws) == box['from'] + 1 and not wins):
                    continue
                self.check(nm, box['L'], at, {'acc': acc, 'c': 0, 'blk': ex.blk}, ex.draws[-1], box['snap'], box['regions'], box.get(('entry', id(at))))
                succ.append(('in', 0, key[-1]))
                continue
            # which candidate this step was about
            drawn = len(ex.draws) - box['from']
            if not R.check(nm + ': a block is drawn only when the last one is used up', drawn == 0 or (drawn == 1 and c == C and kind == 'in')):
                continue
            cur = ex.draws[-1] if ex.draws else None
            idx = 0 if drawn else c
            acc2, used = acc, 0
            if wins:
                if not R.check(nm + ': one coefficient is written', len(wins) == 1 and list(wins[0].stores) == [0] and idx is not None and idx < C and not full):
                    continue
                x = wins[0].stores[0]
                cd = cur.cand(idx)
                prove_goal(R, nm + ': only a candidate below 61445 is taken', z3.ULT(bv.z(cd, 256), KQ), ex.pc, sp)
                g = bv.icmp('eq', x, bv.urem(cd, 12289, 256), 256)
                prove_goal(R, nm + ': the coefficient is the candidate modulo q', g, ex.pc, sp)
                acc2, used = lin(sp, acc, 1, 1), 1
            elif at is self.IN or (kind == 'in' and not full and idx is not None and idx < C):
                if not R.check(nm + ': a candidate is looked at', idx is not None and idx < C and not full):
                    continue
                prove_goal(R, nm + ': only a candidate from 61445 on is passed over', z3.UGE(bv.z(cur.cand(idx), 256), KQ), ex.pc, sp)
                used = 1
            if at is None:
                w = p.out[0] if isinstance(p.out, tuple) else p.out
                prove_goal(R, nm + ': returns with 512 coefficients', eqz(acc2, 512), ex.pc, sp)
                if R.check(nm + ': returns the coefficients', p.end == 'return' and isinstance(w, Ptr) and w.r in ex.wins and w.o == 0 and (not wins or w.r is wins[0])):
                    self.ended = True
                continue
            F = {'acc': acc2, 'c': (idx or 0) + used, 'blk': ex.blk}
            if at is self.OUT:
                if kind == 'in' and idx + used != C:
                    prove_goal(R, nm + ': the block is left only when it is used up or all are found', eqz(acc2, 512), ex.pc, sp)
                elif kind == 'out':
                    R.check(nm + ': a block is drawn', False)
            self.check(nm, box['L'], at, F, cur, box['snap'], box['regions'], box.get(('entry', id(at))))
            # where the next step starts
            for w in ('lt', 512):
                g = acc2 if type(acc2) is int else acc2.z()
                g = (g == 512) if w == 512 else (g < 512)
                if type(g) is bool:
                    ok = g
                else:
                    ok = prove(z3.Not(g), sp.facts(g, *ex.pc) + list(ex.pc))[0] != 'proved'
                if ok:
                    succ.append(('in', F['c'], w) if at is self.IN else ('out', w))
        R.check(nm0 + ': some path goes through', paths_ > 0)
        return succ


def samew(x, y):
    if type(x) is int or type(y) is int:
        return type(x) is int and type(y) is int and x == y
    if x is y:
        return True
    if isinstance(x, bv.BV) and isinstance(y, bv.BV):
        g = bv.icmp('eq', x, y, 256)
        return g is True or (not isinstance(g, bool) and z3.is_true(z3.simplify(g)))
    if isinstance(x, V) and isinstance(y, V):
        return x.key() == y.key()
    return False


def sampler_unit(fname, kind, order):
    def unit():
        return Sampler(UnitResult(), fname, kind, order).prove()
    return unit


def split_unit():
    R = UnitResult()
    ex = Ex(prog(H2P))
    w = ex.fresh('x')
    out = straight(R, 'splitToHex', ex, lambda: ex.call('splitToHex', [w]))
    if out is not None:
        r = out[0]
        for i in range(16):
            R.check('splitToHex: entry %d is bits %d..%d' % (i, 240 - 16 * i, 255 - 16 * i), samew(r.r.load(ex, r.o + 32 * i), Draw([w], 32).cand(i)))
    R.functions |= ex.touched
    return R


def units():
    return sponge_units() + [('hashToPointNIST', sampler_unit('hashToPointNIST', 'shake', ['salt', 'msg'])),
                             ('hashToPointEVM', sampler_unit('hashToPointEVM', 'counter', ['salt', 'msg'])),
                             ('hashToPointTETRATION', sampler_unit('hashToPointTETRATION', 'iterate', ['msg', 'salt'])), ('splitToHex', split_unit)]
