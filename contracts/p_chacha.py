"""Contracts of rng.py: the seeded generator is Falcon's ChaCha20 stream, for every seed and every history of requests."""
import z3

import bv
import chacha
import pysym as P
from pysym import Seq, ZInt, zt, zint, ns

M = 0xffffffff


class Text:
    """hexadecimal text of a byte sequence of any length"""
    __hash__ = None

    def __init__(self, seq):
        self.seq = seq

    def _slen(self):
        return self.seq._slen() * 2

    def half(self, x):
        if x is None:
            return None
        if isinstance(x, int):
            if x % 2:
                raise P.Unsupported('slice of hexadecimal text')
            return x // 2
        t = z3.simplify(x.t / 2)
        if not P.CTX.E.valid(x.t % 2 == 0):
            raise P.Unsupported('slice of hexadecimal text')
        return zint(t)

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise P.Unsupported('slice of hexadecimal text')
        return Text(self.seq[self.half(i.start):self.half(i.stop)])

    def __eq__(self, o):
        if isinstance(o, str) and not o:
            return self.seq._slen() == 0
        raise P.Unsupported('comparison of text')

    def __ne__(self, o):
        return P.s_not(self == o)

    def __bool__(self):
        return bool(self.seq._slen() != 0)

    def _hextext(self):
        return P.VHex(list(self.seq))

    def _fromhex(self):
        return self.seq


def engine(name, *fns):
    E = P.Engine(name)
    E.res.functions |= {'pythonref/rng.py:ChaCha20.' + f for f in fns}
    return E


def seeded(m):
    src = P.VBytes([P.var('seed%d' % i, 8) for i in range(56)])
    return src, m._g['ChaCha20'](src), [P.s_int.from_bytes(src[4 * i:4 * i + 4], 'little') for i in range(14)]


def same(E, name, a, b):
    """equal words"""
    ok = isinstance(a, P.SInt) and a.w <= 32 and not a.s and bv.z(P.term(a, 32), 32).eq(bv.z(P.term(b, 32), 32))
    E.prove(name, ok or P.ieq(a, b))


def init_unit():
    E = engine('ChaCha20.__init__', '__init__')
    m = P.load('rng')

    def run():
        return seeded(m)

    def post(r):
        src, c, w = r
        E.prove('ChaCha20: fourteen little-endian words', len(c.s) == 14)
        for i in range(14):
            E.prove('ChaCha20: the seed as little-endian words', P.ieq(c.s[i], w[i]))
        E.prove('ChaCha20: the counter is words 12 and 13', P.ieq(c.ctr, w[12] | w[13] << 32))
        E.prove('ChaCha20: nothing is buffered', len(c.hexbytes) == 0)
    return E.run(run, post)


def round_unit():
    """quarter round of RFC 7539 on any words at any places"""
    E = engine('ChaCha20.qround', 'qround')
    E.res.functions.add('pythonref/rng.py:roll')
    m = P.load('rng')
    cols = [(i, i + 4, i + 8, i + 12) for i in range(4)] + [(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4) for i in range(4)]

    def run():
        src, c, w = seeded(m)
        out = []
        for q in cols:
            c.state = [P.var('x%d' % i, 32) for i in range(16)]
            old = list(c.state)
            c.qround(*q)
            out.append((q, old, c.state))
        return out

    def post(r):
        for q, old, new in r:
            x = [bv.z(y.t, 32) for y in old]
            a, b, c, d = q
            for p, s, t, k in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
                x[p] = x[p] + x[s]
                x[t] = z3.RotateLeft(x[t] ^ x[p], k)
            for i in range(16):
                if i in q:
                    E.prove('qround: quarter round', bv.z(P.term(new[i], 32), 32) == x[i] if E.valid(P.zb(new[i] >= 0)) and E.valid(P.zb(new[i] <= M)) else False)
                else:
                    E.prove('qround: the other words are left alone', new[i] is old[i])
    return E.run(run, post)


def update_unit():
    """one block for any seed and counter, then the next counter"""
    E = engine('ChaCha20.update', 'update', 'qround')
    m = P.load('rng')

    def run():
        src, c, w = seeded(m)
        ctr = P.var('ctr', 64)
        c.ctr = ctr
        s = list(c.s)
        st = c.update()
        E.prove('update: the seed words are kept', len(c.s) == 14 and all(x is y for x, y in zip(c.s, s)))
        return st, chacha.block(w, ctr), c, ctr

    def post(r):
        st, sp, c, ctr = r
        E.prove('update: sixteen words', len(st) == 16)
        for i, (a, b) in enumerate(zip(st, sp)):
            same(E, 'update: word %d of the ChaCha20 block of the counter' % i, a, b)
        E.prove('update: the counter is incremented', P.ieq(c.ctr, ctr + 1))
    return E.run(run, post)


def chunk_unit():
    """eight blocks, word i of block j at place 8 i + j"""
    E = engine('ChaCha20.block_update', 'block_update')
    m = P.load('rng')
    g = ns()

    def run():
        src, c, w = seeded(m)
        g.n = 0

        def update():
            j, g.n = g.n, g.n + 1
            return [P.var('w%d_%d' % (j, i), 32) for i in range(16)]
        c.update = update
        return c.block_update()

    def post(r):
        E.prove('block_update: eight blocks', g.n == 8)
        E.prove('block_update: 512 bytes of text', isinstance(r, P.VHex) and len(r) == 1024)
        want = [(i, j) for i in range(16) for j in range(8)]
        for p, (i, j) in enumerate(want):
            t = P.var('w%d_%d' % (j, i), 32)
            for b in range(4):
                E.prove('block_update: the blocks are interleaved by words, little-endian', P.ieq(r.l[4 * p + b], (t >> (8 * b)) & 255))
    return E.run(run, post)


def bytes_unit(ks):
    """any buffer, requests of k bytes: the next k bytes; a buffer that is too short is replaced"""
    def unit():
        E = engine('ChaCha20.randombytes(%d..%d)' % (ks[0], ks[-1]), 'randombytes')
        m = P.load('rng')
        g = ns()

        def one(k):
            def run():
                src, c, w = seeded(m)
                B = z3.Function('buffer', z3.IntSort(), P.BV8)
                C = z3.Function('fresh', z3.IntSort(), P.BV8)
                g.B, g.C = B, C
                g.L = P.zvar('buffered', 0, 512)
                c.hexbytes = Text(Seq(g.L, lambda i: B(i), 'bytes'))
                g.fresh = 0

                def chunk():
                    g.fresh += 1
                    return Text(Seq(512, lambda i: C(i), 'bytes'))
                c.block_update = chunk
                return c.randombytes(k), c

            def post(r):
                out, c = r
                E.prove('randombytes: a new buffer only when fewer bytes are left than requested', z3.Implies(z3.BoolVal(g.fresh == 0), g.L.t >= k) if g.fresh <= 1 else False)
                E.prove('randombytes: a new buffer only when fewer bytes are left than requested', z3.Implies(z3.BoolVal(g.fresh == 1), g.L.t < k))
                f = g.C if g.fresh else g.B
                n = zt(512 if g.fresh else g.L)
                o = P.to_seq(out, 'bytes')
                E.prove('randombytes: the requested number of bytes', zt(o._slen()) == k)
                bad = [i for i in range(k) if not z3.simplify(o.at(i)).eq(f(z3.IntVal(i))) and not E.valid(o.at(i) == f(i))]
                E.prove('randombytes: the next bytes of the buffer in order', not bad, note=str(bad[:4]))
                rest = c.hexbytes
                rest = rest.seq if isinstance(rest, Text) else P.to_seq(P.VBytes(rest.l) if isinstance(rest, P.VHex) else b'', 'bytes')
                E.prove('randombytes: the rest stays buffered', rest.nt() == n - k)
                i = z3.Int('i')
                P.CTX.assume(z3.And(i >= 0, i < n - k))
                E.prove('randombytes: the rest stays buffered in order', rest.at(i) == f(i + k))
            return run, post
        for k in ks:
            E.run(*one(k))
        return E.res
    return unit


def units():
    u = [('__init__', init_unit), ('qround', round_unit), ('update', update_unit), ('block_update', chunk_unit)]
    return u + [('randombytes %d' % a, bytes_unit(list(range(a, min(a + 64, 513))))) for a in range(0, 513, 64)]
