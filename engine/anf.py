"""Decision of equality of 64-bit words built from XOR/AND/OR/NOT/rotations: polynomial normal forms over GF(2).

A word is (set of monomials, constant mask); a monomial is a frozenset of (atom, rotation).  Rotations commute with
all operations, so a word is determined by the polynomial of its bit 0 and the constant.  Words whose polynomial
equals a named intermediate value of the specification are replaced by a new atom (equality is exact), which keeps the
polynomials of iterated rounds small."""
import z3
from symex import Unsupported

M = (1 << 64) - 1


def rotc(c, r):
    return ((c << r) | (c >> (64 - r))) & M if r else c


def rot(p, r):
    r %= 64
    if r == 0:
        return p
    return (frozenset(frozenset((a, (k + r) % 64) for a, k in m) for m in p[0]), rotc(p[1], r))


def xor(p, q):
    return (p[0] ^ q[0], p[1] ^ q[1])


def inv(p):
    return (p[0], p[1] ^ M)


def scale(p, c):
    if c == 0:
        return (frozenset(), 0)
    if c == M:
        return p
    if not p[0]:
        return (frozenset(), p[1] & c)
    raise Unsupported('masking of a symbolic word')


def and_(p, q):
    if not p[0]:
        return scale(q, p[1])
    if not q[0]:
        return scale(p, q[1])
    if p[1] not in (0, M) or q[1] not in (0, M):
        raise Unsupported('product with a mixed constant')
    a, b = p[0], q[0]
    if len(a) * len(b) > 40000:
        raise Unsupported('polynomial too large')
    acc = set()
    for m in a:
        for k in b:
            acc ^= {m | k}
    if p[1]:
        acc ^= b
    if q[1]:
        acc ^= a
    return (frozenset(acc), M if p[1] and q[1] else 0)


def or_(p, q):
    return xor(xor(p, q), and_(p, q))


def atom(i):
    return (frozenset([frozenset([(i, 0)])]), 0)


class ANF:
    def __init__(self):
        self.memo = {}
        self.keep = []
        self.atoms = {}            # declaration name -> polynomial
        self.cuts = {}             # polynomial -> (atom polynomial, constant)
        self.n = 0

    def new(self):
        self.n += 1
        return atom(self.n)

    def name(self, p):
        """give the value p a name: later values equal to it (up to a constant) use the new atom"""
        a = self.new()
        self.cuts[p[0]] = (a, p[1])
        return a

    def word(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._word(e)
            c = self.cuts.get(r[0])
            if c is not None:
                r = (c[0][0], c[0][1] ^ c[1] ^ r[1])
            self.memo[k] = r
            self.keep.append(e)
        return r

    def _word(self, e):
        if e.size() != 64:
            raise Unsupported('word of %d bits' % e.size())
        if z3.is_bv_value(e):
            return (frozenset(), e.as_long())
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            p = self.atoms.get(str(e))
            if p is None:
                raise Unsupported('unknown word %s' % e)
            return p
        ch = e.children()
        if k in (z3.Z3_OP_BXOR, z3.Z3_OP_BAND, z3.Z3_OP_BOR):
            f = {z3.Z3_OP_BXOR: xor, z3.Z3_OP_BAND: and_, z3.Z3_OP_BOR: or_}[k]
            r = self.word(ch[0])
            for c in ch[1:]:
                r = f(r, self.word(c))
            return r
        if k == z3.Z3_OP_BNOT:
            return inv(self.word(ch[0]))
        if k == z3.Z3_OP_CONCAT:
            return self._concat(e)
        if k == z3.Z3_OP_EXTRACT:
            return self.word(ch[0])
        raise Unsupported('operation %s' % e.decl())

    def _concat(self, e):
        """pieces of one word, in cyclic order, possibly complemented"""
        parts = []

        def flat(x, neg):
            k = x.decl().kind()
            if k == z3.Z3_OP_CONCAT:
                for c in x.children():
                    flat(c, neg)
            elif k == z3.Z3_OP_BNOT:
                flat(x.arg(0), not neg)
            else:
                parts.append((x, neg))
        flat(e, False)
        pos = 0
        base = shift = None
        const = 0
        for x, neg in reversed(parts):
            n = x.size()
            if x.decl().kind() == z3.Z3_OP_EXTRACT:
                hi, lo = x.params()
                y = x.arg(0)
            else:
                y, lo = x, 0
            if y.size() != 64:
                raise Unsupported('concatenation of narrow words')
            if base is None:
                base, shift = y, (pos - lo) % 64
            if not base.eq(y) or (pos - lo) % 64 != shift:
                raise Unsupported('concatenation that is not a rotation')
            if neg:
                const |= ((1 << n) - 1) << pos
            pos += n
        r = rot(self.word(base), shift)
        return (r[0], r[1] ^ const)


def keccak_round(anf, A, rc, RHO):
    """one Keccak-f round on 25 polynomials; the outputs get names"""
    C = []
    for x in range(5):
        c = A[x]
        for k in range(1, 5):
            c = xor(c, A[x + 5 * k])
        C.append(c)
    D = [xor(C[(x + 4) % 5], rot(C[(x + 1) % 5], 1)) for x in range(5)]
    A = [xor(A[i], D[i % 5]) for i in range(25)]
    B = [None] * 25
    for x in range(5):
        for y in range(5):
            B[y + 5 * ((2 * x + 3 * y) % 5)] = rot(A[x + 5 * y], RHO[x + 5 * y])
    out = []
    for i in range(25):
        y5 = 5 * (i // 5)
        p = xor(B[i], and_(inv(B[(i + 1) % 5 + y5]), B[(i + 2) % 5 + y5]))
        if i == 0:
            p = (p[0], p[1] ^ rc)
        out.append(anf.name(p))
    return out
