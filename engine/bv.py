"""Bit-vector values: Python ints for constants, BV objects otherwise.

A BV carries a z3 term and, where useful, a per-bit provenance list (constant 0/1 or "bit i of term k",
possibly negated).  Shifts by constants, masks, concatenations and disjoint additions are exact on the bit
list, which keeps the terms of bit-packing code small; everything else becomes a z3 term.
"""
import z3

_REG = []          # key -> z3 term
_REGID = {}        # z3 ast id -> key
FULL = {}


def full(w):
    return (1 << w) - 1


def _key(e):
    i = e.get_id()
    k = _REGID.get(i)
    if k is None:
        k = len(_REG)
        _REG.append(e)
        _REGID[i] = k
    return k


class BV:
    __slots__ = ('w', '_e', '_bits', '_kn')

    def __init__(self, w, e=None, bits=None):
        self.w = w
        self._e = e
        self._bits = bits
        self._kn = None

    @property
    def e(self):
        if self._e is None:
            self._e = _build(self._bits)
        return self._e

    @property
    def bits(self):
        if self._bits is None:
            k = _key(self._e) << 10
            self._bits = tuple([k | (i << 2) | 2 for i in range(self.w)])
        return self._bits

    def known(self):
        """(mask of known bits, their values)"""
        if self._kn is None:
            if self._bits is None:
                self._kn = (0, 0)
            else:
                m = v = 0
                for i, b in enumerate(self._bits):
                    if b < 2:
                        m |= 1 << i
                        v |= b << i
                self._kn = (m, v)
        return self._kn

    def __repr__(self):
        return 'BV%d(%s)' % (self.w, self.e)


def _build(bits):
    parts = []
    i, n = 0, len(bits)
    while i < n:
        b = bits[i]
        j = i + 1
        if b < 2:
            v = b
            while j < n and bits[j] < 2:
                v |= bits[j] << (j - i)
                j += 1
            parts.append(z3.BitVecVal(v, j - i))
        else:
            while j < n and bits[j] == b + 4 * (j - i):
                j += 1
            t = _REG[b >> 10]
            lo = (b >> 2) & 255
            hi = lo + (j - i) - 1
            x = t if (lo == 0 and hi == t.size() - 1) else z3.Extract(hi, lo, t)
            if b & 1:
                x = ~x
            parts.append(x)
        i = j
    parts.reverse()
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def mk(w, e):
    """wrap a z3 bit-vector term"""
    if z3.is_bv_value(e):
        return e.as_long()
    return BV(w, e)


def fresh(name, w):
    return BV(w, z3.FreshConst(z3.BitVecSort(w), name))


def var(name, w):
    return BV(w, z3.BitVec(name, w))


def frombits(bits):
    v = 0
    for i, b in enumerate(bits):
        if b >= 2:
            return BV(len(bits), None, tuple(bits))
        v |= b << i
    return v


def tobits(x, w):
    if isinstance(x, int):
        return tuple([(x >> i) & 1 for i in range(w)])
    return x.bits


def z(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    return x.e


def kn(x, w):
    if isinstance(x, int):
        return full(w), x
    return x.known()


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def umin(x, w):
    m, v = kn(x, w)
    return v


def umax(x, w):
    m, v = kn(x, w)
    return v | (full(w) & ~m)


def add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & full(w)
    if a == 0 and isinstance(a, int):
        return b
    if b == 0 and isinstance(b, int):
        return a
    if (umax(a, w) & umax(b, w)) == 0:
        return or_(a, b, w)
    ka, va = kn(a, w)
    kb, vb = kn(b, w)
    if (ka and kb) or ka == full(w) or kb == full(w):
        # ripple over partially known bits
        out, c = [], 0
        for x, y in zip(tobits(a, w), tobits(b, w)):
            if x < 2 and y < 2:
                t = x + y + c
                out.append(t & 1)
                c = t >> 1
            elif x < 2 or y < 2:
                k, v = (x, y) if x < 2 else (y, x)
                t = k + c
                if t == 1:
                    out = None
                    break
                out.append(v)
                c = t >> 1
            else:
                out = None
                break
        if out is not None:
            return frombits(out)
    return mk(w, z(a, w) + z(b, w))


def sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & full(w)
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(b, BV) and isinstance(a, BV) and (a is b or a.e.eq(b.e)):
        return 0
    return mk(w, z(a, w) - z(b, w))


def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & full(w)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x == 0:
                return 0
            if x == 1:
                return y
            if x & (x - 1) == 0:
                return shl(y, x.bit_length() - 1, w)
    return mk(w, z(a, w) * z(b, w))


def _segments(ba, bb, bitop, wordop):
    out = []
    i, n = 0, len(ba)
    while i < n:
        r = bitop(ba[i], bb[i])
        if r is not None:
            out.append(r)
            i += 1
            continue
        j = i + 1
        while j < n and bitop(ba[j], bb[j]) is None:
            j += 1
        t = BV(j - i, wordop(_build(ba[i:j]), _build(bb[i:j])))
        out.extend(t.bits)
        i = j
    return frombits(out)


def and_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    ka, va = kn(a, w)
    kb, vb = kn(b, w)
    f = full(w)
    if (ka | kb) == f:
        return frombits([(0 if (x == 0 or y == 0) else (y if x == 1 else x)) for x, y in zip(tobits(a, w), tobits(b, w))])
    if isinstance(a, BV) and isinstance(b, BV) and (a is b or a.e.eq(b.e)):
        return a
    if ka == 0 and kb == 0:
        return mk(w, z(a, w) & z(b, w))
    return _segments(tobits(a, w), tobits(b, w), lambda x, y: 0 if (x == 0 or y == 0) else (y if x == 1 else (x if (y == 1 or x == y) else None)), lambda x, y: x & y)


def or_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    ka, va = kn(a, w)
    kb, vb = kn(b, w)
    f = full(w)
    if (ka | kb) == f:
        return frombits([(1 if (x == 1 or y == 1) else (y if x == 0 else x)) for x, y in zip(tobits(a, w), tobits(b, w))])
    if isinstance(a, BV) and isinstance(b, BV) and (a is b or a.e.eq(b.e)):
        return a
    if ka == 0 and kb == 0:
        return mk(w, z(a, w) | z(b, w))
    return _segments(tobits(a, w), tobits(b, w), lambda x, y: 1 if (x == 1 or y == 1) else (y if x == 0 else (x if (y == 0 or x == y) else None)), lambda x, y: x | y)


def xor(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    ka, va = kn(a, w)
    kb, vb = kn(b, w)
    f = full(w)
    if (ka | kb) == f:
        return frombits([(x ^ y) if (x < 2 and y < 2) else (y ^ x if x < 2 else x ^ y) for x, y in zip(tobits(a, w), tobits(b, w))])
    if isinstance(a, BV) and isinstance(b, BV) and (a is b or a.e.eq(b.e)):
        return 0
    if ka == 0 and kb == 0:
        return mk(w, z(a, w) ^ z(b, w))
    return _segments(tobits(a, w), tobits(b, w), lambda x, y: (x ^ y) if (x < 2 or y < 2) else (0 if x == y else None), lambda x, y: x ^ y)


def shl(a, b, w):
    if isinstance(b, int):
        if b >= w:
            return 0
        if isinstance(a, int):
            return (a << b) & full(w)
        if b == 0:
            return a
        return frombits((0,) * b + a.bits[:w - b])
    return mk(w, z(a, w) << z(b, w))


def lshr(a, b, w):
    if isinstance(b, int):
        if b >= w:
            return 0
        if isinstance(a, int):
            return a >> b
        if b == 0:
            return a
        return frombits(a.bits[b:] + (0,) * b)
    return mk(w, z3.LShR(z(a, w), z(b, w)))


def ashr(a, b, w):
    if isinstance(b, int):
        if isinstance(a, int):
            return (sgn(a, w) >> min(b, w - 1)) & full(w)
        if b == 0:
            return a
        b = min(b, w - 1)
        return frombits(a.bits[b:] + (a.bits[-1],) * b)
    return mk(w, z(a, w) >> z(b, w))


def udiv(a, b, w):
    if isinstance(a, int) and isinstance(b, int) and b:
        return a // b
    if isinstance(b, int) and b and b & (b - 1) == 0:
        return lshr(a, b.bit_length() - 1, w)
    return mk(w, z3.UDiv(z(a, w), z(b, w)))


def urem(a, b, w):
    if isinstance(a, int) and isinstance(b, int) and b:
        return a % b
    if isinstance(b, int) and b and b & (b - 1) == 0:
        return and_(a, b - 1, w)
    return mk(w, z3.URem(z(a, w), z(b, w)))


def sdiv(a, b, w):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & full(w)
    return mk(w, z(a, w) / z(b, w))


def srem(a, b, w):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & full(w)
    return mk(w, z3.SRem(z(a, w), z(b, w)))


BINOPS = dict(add=add, sub=sub, mul=mul, and_=and_, or_=or_, xor=xor, shl=shl, lshr=lshr, ashr=ashr, udiv=udiv,
              urem=urem, sdiv=sdiv, srem=srem)
BINOPS['and'] = and_
BINOPS['or'] = or_


def zext(a, w, w2):
    if isinstance(a, int) or w == w2:
        return a
    return BV(w2, None, a.bits + (0,) * (w2 - w))


def sext(a, w, w2):
    if w == w2:
        return a
    if isinstance(a, int):
        return sgn(a, w) & full(w2)
    return frombits(a.bits + (a.bits[-1],) * (w2 - w))


def trunc(a, w, w2):
    if isinstance(a, int):
        return a & full(w2)
    if w == w2:
        return a
    return frombits(a.bits[:w2])


def extract(a, lo, n, w):
    if isinstance(a, int):
        return (a >> lo) & full(n)
    return frombits(a.bits[lo:lo + n])


def concat(parts):
    """parts: list of (value, width), least significant first"""
    bits = []
    for v, w in parts:
        bits.extend(tobits(v, w))
    r = frombits(bits)
    return r


# ------------------------------------------------------------ booleans: Python bool or z3 BoolRef
def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def bnot(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def fast_and(cs):
    n = len(cs)
    arr = (z3.Ast * n)()
    for i in range(n):
        arr[i] = cs[i].as_ast()
    ctx = cs[0].ctx
    return z3.BoolRef(z3.Z3_mk_and(ctx.ref(), n, arr), ctx)


def fast_or(cs):
    n = len(cs)
    arr = (z3.Ast * n)()
    for i in range(n):
        arr[i] = cs[i].as_ast()
    ctx = cs[0].ctx
    return z3.BoolRef(z3.Z3_mk_or(ctx.ref(), n, arr), ctx)


def band(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else fast_and(out)


def bor(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else fast_or(out)


def b2bv(c, w):
    if isinstance(c, bool):
        return int(c)
    bit = BV(1, z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
    return BV(w, None, bit.bits + (0,) * (w - 1))


def bv2b(x):
    """i1 value stored as BV -> bool"""
    if isinstance(x, int):
        return bool(x & 1)
    e = x.e
    if z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() == 1 and e.arg(2).as_long() == 0:
        return e.arg(0)
    return e == z3.BitVecVal(1, e.size())


def icmp(pred, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if pred in ('slt', 'sle', 'sgt', 'sge'):
            a, b = sgn(a, w), sgn(b, w)
        return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]
    if pred == 'ne':
        return bnot(icmp('eq', a, b, w))
    if pred == 'eq':
        ka, va = kn(a, w)
        kb, vb = kn(b, w)
        if (va ^ vb) & ka & kb:
            return False
        ba, bb = tobits(a, w), tobits(b, w)
        if ba == bb:
            return True
        # compare only the undecided bits when a single one remains
        rest = [(x, y) for x, y in zip(ba, bb) if x != y]
        if len(rest) == 1:
            x, y = rest[0]
            if x < 2:
                x, y = y, x
            if y < 2:
                # if the bit is the bit-image of a boolean, recover it
                t = _REG[x >> 10]
                c = None
                if t.size() == 1:
                    c = bv2b(BV(1, t))
                    if x & 1:
                        c = bnot(c)
                    return c if y == 1 else bnot(c)
        if len(rest) < w:
            x = frombits([p for p, _ in rest])
            y = frombits([p for _, p in rest])
            return z(x, len(rest)) == z(y, len(rest))
        return z(a, w) == z(b, w)
    if pred in ('ult', 'ule', 'ugt', 'uge'):
        if pred in ('ugt', 'uge'):
            a, b = b, a
            pred = 'ult' if pred == 'ugt' else 'ule'
        if pred == 'ult':
            if umax(a, w) < umin(b, w):
                return True
            if umin(a, w) >= umax(b, w):
                return False
            return z3.ULT(z(a, w), z(b, w))
        if umax(a, w) <= umin(b, w):
            return True
        if umin(a, w) > umax(b, w):
            return False
        return z3.ULE(z(a, w), z(b, w))
    ma, mb = umax(a, w) >> (w - 1), umax(b, w) >> (w - 1)
    if ma == 0 and mb == 0:
        return icmp('u' + pred[1:], a, b, w)
    za, zb_ = z(a, w), z(b, w)
    if pred == 'slt':
        return za < zb_
    if pred == 'sle':
        return za <= zb_
    if pred == 'sgt':
        return za > zb_
    return za >= zb_


def ite(c, a, b, w):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
    elif isinstance(a, BV) and isinstance(b, BV):
        if a is b or (a._bits is None and b._bits is None and a.e.eq(b.e)):
            return a
    ba, bb = tobits(a, w), tobits(b, w)
    if ba == bb:
        return a
    # factor common bits out
    k = [i for i in range(w) if ba[i] != bb[i]]
    if len(k) < w:
        lo, hi = k[0], k[-1]
        if all(ba[i] == bb[i] for i in range(w) if i < lo or i > hi) and (lo > 0 or hi < w - 1):
            n = hi - lo + 1
            m = BV(n, z3.If(c, z(extract(a, lo, n, w), n), z(extract(b, lo, n, w), n)))
            return frombits(ba[:lo] + m.bits + ba[hi + 1:])
    return BV(w, z3.If(c, z(a, w), z(b, w)))
