"""Contracts of pythonref/encoding.py: compress, decompress (any list of integers, any byte string, any lengths)."""
import z3

import pysym as P
from pysym import Seq, zt, zint, ZInt


def bitof(x, i):
    """bit i (from the least significant) of a non-negative Int term"""
    return (x / (1 << i)) % 2 == 1


def zabs(t):
    return z3.If(t < 0, -t, t)


class CodeLoop:
    """for coef in v: u is the concatenation of the codes of the coefficients seen"""

    def __init__(self, g):
        self.g = g

    def head(self, c, env, visit, names, itx):
        g, E = self.g, c.E
        u = P.to_seq(env['u'], 'bits')
        if visit == 0:
            E.prove('compress: nothing is written before the first coefficient', P.zb(u._slen() == 0))
            k = z3.Int('k')
            c.assume(z3.And(k >= 0, k <= g.n.t, g.POS(k) >= 0))
            c.notes['k'] = k
            h = {x: None for x in names}
            h.update({itx[1]: ZInt(k), 'u': Seq(ZInt(g.POS(k)), lambda j: g.U(j), 'bits')})
            h.pop('coef', None)
            return h
        k = c.notes['k']
        co = g.V(k)
        h = zabs(co) / 128
        c.assume(g.POS(k + 1) == g.POS(k) + 9 + h)
        E.prove('compress: the next coefficient is taken', zt(env[itx[1]]) == k + 1)
        E.prove('compress: a coefficient takes 9 + high bits', u.nt() == g.POS(k + 1))
        j = z3.Int('j')
        r = j - g.POS(k)
        c.assume(z3.And(j >= 0, j < g.POS(k + 1)))
        low = zabs(co) % 128
        c.assume(z3.Implies(r >= 0, g.U(j) == z3.If(r == 0, co < 0, z3.If(
            r <= 7, z3.Or([z3.And(r == i, bitof(low, 7 - i)) for i in range(1, 8)]), r == 8 + h))))
        E.prove('compress: sign, low and unary bits of a coefficient', u.at(j) == g.U(j))
        raise P.Infeasible()


def compress_unit():
    E = P.Engine('encoding.compress')
    g = P.ns()
    m = P.load('encoding', cuts={'compress': ['codes']}, loops={'codes': CodeLoop(g)})

    def run():
        E.int_bits = False
        g.n = P.zvar('n', 0)
        g.slen = P.zvar('slen', 0)
        g.V = z3.Function('v', z3.IntSort(), z3.IntSort())
        g.POS = z3.Function('pos', z3.IntSort(), z3.IntSort())
        g.U = z3.Function('code_bits', z3.IntSort(), z3.BoolSort())
        P.CTX.assume(g.POS(z3.IntVal(0)) == 0)
        return m.compress(Seq(g.n, lambda k: g.V(k), 'ints'), g.slen)

    def post(r):
        total = g.POS(g.n.t)
        if r is False:
            E.prove('compress: False only when the codes do not fit', total > 8 * g.slen.t)
            return
        if not isinstance(r, (Seq, bytes)):
            E.prove('compress: a byte string or False is returned', False)
            return
        r = P.to_seq(r, 'bytes')
        E.prove('compress: False when the codes do not fit', total <= 8 * g.slen.t)
        E.prove('compress: slen bytes are returned', r.nt() == g.slen.t)
        i = z3.Int('byte')
        P.CTX.assume(z3.And(i >= 0, i < g.slen.t))
        e = r.at(i)
        for b in range(8):
            want = z3.And(8 * i + b < total, g.U(8 * i + b))
            E.prove('compress: bit %d of a byte' % (7 - b), (z3.Extract(7 - b, 7 - b, e) == 1) == want)
    return E.run(run, post)


class BitsLoop:
    """for elt in w: u is the text of the bits of the bytes seen"""

    def __init__(self, g):
        self.g = g

    def head(self, c, env, visit, names, itx):
        g, E = self.g, c.E
        u = P.to_seq(env['u'], 'bits')
        if visit == 0:
            E.prove('decompress: no bit before the first byte', P.zb(u._slen() == 0))
            k = z3.Int('bk')
            c.assume(z3.And(k >= 0, k <= g.len.t))
            c.notes['bk'] = k
            return {itx[1]: ZInt(k), 'u': Seq(ZInt(8 * k), lambda j: g.B(j), 'bits')}
        k = c.notes['bk']
        E.prove('decompress: the next byte is taken', zt(env[itx[1]]) == k + 1)
        E.prove('decompress: eight bits per byte', u.nt() == 8 * (k + 1))
        j = z3.Int('bj')
        c.assume(z3.And(j >= 0, j < 8 * (k + 1)))
        # definition of the bits of x, most significant first
        for i in range(8):
            c.assume(z3.Implies(j == 8 * k + i, g.B(j) == (z3.Extract(7 - i, 7 - i, g.X(k)) == 1)))
        E.prove('decompress: bits of a byte, most significant first', u.at(j) == g.B(j))
        raise P.Infeasible()


class StripLoop:
    """while u[-1] == "0": the bits removed are zeros"""

    def __init__(self, g):
        self.g = g

    def inv(self, c, u, L, pre):
        g, E = self.g, c.E
        j = z3.Int(c.name('sj'))
        E.prove('decompress: only trailing bits are removed (%s)' % pre, z3.And(L >= 0, L <= g.total))
        E.prove('decompress: the bits removed are zeros (%s)' % pre, z3.Implies(z3.And(L <= g.Z, g.Z < g.total), z3.Not(g.B(g.Z))))
        E.prove('decompress: the other bits are kept (%s)' % pre, z3.Implies(z3.And(j >= 0, j < L), u.at(j) == g.B(j)))

    def head(self, c, env, visit, names, itx):
        g = self.g
        u = P.to_seq(env['u'], 'bits')
        self.inv(c, u, u.nt(), 'before' if visit == 0 else 'step')
        if visit == 0:
            L = g.L = z3.Int('L')
            c.assume(z3.And(L >= 0, L <= g.total, z3.Implies(z3.And(L <= g.Z, g.Z < g.total), z3.Not(g.B(g.Z)))))
            return {'u': Seq(ZInt(L), lambda j: g.B(j), 'bits')}
        raise P.Infeasible()


class CoefLoop:
    """while (u != "") and (len(v) < n)"""

    def __init__(self, g):
        self.g = g

    def head(self, c, env, visit, names, itx):
        g, E = self.g, c.E
        u, v = P.to_seq(env['u'], 'bits'), P.to_seq(env['v'], 'ints')
        J = z3.Int('vj')
        if visit == 0:
            E.prove('decompress: no coefficient at first', P.zb(v._slen() == 0))
            E.prove('decompress: parsing starts at the first bit', u.nt() == g.L)
            j = z3.Int('pj')
            E.prove('decompress: parsing starts with the bits of x', z3.Implies(z3.And(j >= 0, j < g.L), u.at(j) == g.B(j)))
            k = g.k = z3.Int('ck')
            c.assume(z3.And(k >= 0, k <= g.n.t, g.POS(k) >= 0, g.POS(k) <= g.L))
            at = g.POS(k)
            h = {x: None for x in names if x not in ('u', 'v')}
            h = {}
            h['u'] = Seq(ZInt(g.L - at), lambda j: g.B(at + j), 'bits')
            h['v'] = Seq(ZInt(k), lambda j: g.V(j), 'ints')
            return h
        k = g.k
        at = g.POS(k)
        co = v.at(k)
        E.prove('decompress: one coefficient is added', v.nt() == k + 1)
        E.prove('decompress: the coefficients read before are kept', z3.Implies(z3.And(J >= 0, J < k), v.at(J) == g.V(J)))
        end = g.L - u.nt()
        hi = zabs(co) / 128
        # the code of co is exactly the bits at..end
        E.prove('decompress: sign bit', z3.Implies(co != 0, g.B(at) == (co < 0)))
        E.prove('decompress: zero has a positive sign', z3.Implies(co == 0, z3.Not(g.B(at))))
        E.prove('decompress: the seven low bits',
                zabs(co) % 128 == z3.Sum([z3.If(g.B(at + 7 - i), z3.IntVal(1 << i), z3.IntVal(0)) for i in range(7)]))
        E.prove('decompress: the high bits are the zeros that follow',
                z3.Implies(z3.And(g.Z >= at + 8, g.Z < at + 8 + hi), z3.Not(g.B(g.Z))))
        E.prove('decompress: the unary part ends with a one', z3.And(g.B(at + 8 + hi), end == at + 9 + hi))
        E.prove('decompress: parsing goes on after the code', z3.And(end <= g.L, end > at))
        E.prove('decompress: no more than n coefficients', k + 1 <= g.n.t)
        j = z3.Int('pj')
        E.prove('decompress: the rest of the bits is kept', z3.Implies(z3.And(j >= 0, j < u.nt()), u.at(j) == g.B(end + j)))
        raise P.Infeasible()


class UnaryLoop:
    def __init__(self, g):
        self.g = g

    def head(self, c, env, visit, names, itx):
        g, E = self.g, c.E
        i, hi = zt(env['i']), zt(env['high'])
        at = g.POS(g.k)
        inv = lambda i, hi: z3.And(i == 8 + hi, hi >= 0, z3.Implies(z3.And(g.Z >= at + 8, g.Z < at + i), z3.Not(g.B(g.Z))))
        E.prove('decompress: zeros of the unary part (%s)' % ('before' if visit == 0 else 'step'), inv(i, hi))
        if visit == 0:
            hi = z3.Int('high')
            i = 8 + hi
            c.assume(inv(i, hi))
            # the unary part never leaves the stripped text without an IndexError: checked at the access itself
            c.assume(z3.Implies(hi > 0, at + i <= g.L))
            return {'i': ZInt(i), 'high': ZInt(hi)}
        E.prove('decompress: the unary part stays inside the text', z3.Implies(hi > 0, at + i <= g.L))
        raise P.Infeasible()


def decompress_unit():
    E = P.Engine('encoding.decompress')
    E.int_bits = True
    g = P.ns()
    m = P.load('encoding', cuts={'decompress': ['bits', 'strip', 'coefs', 'unary']},
               loops={'bits': BitsLoop(g), 'strip': StripLoop(g), 'coefs': CoefLoop(g), 'unary': UnaryLoop(g)},
               extra_builtins={'list': lambda x=(): x if isinstance(x, Seq) else list(x)})

    def run():
        g.__dict__.clear()
        g.len = P.zvar('len', 0)
        g.slen = P.zvar('slen', 0)
        g.n = P.zvar('n', 0)
        g.X = z3.Function('x', z3.IntSort(), P.BV8)
        g.B = z3.Function('bits_of_x', z3.IntSort(), z3.BoolSort())
        g.POS = z3.Function('pos', z3.IntSort(), z3.IntSort())
        g.V = z3.Function('coef', z3.IntSort(), z3.IntSort())
        g.Z = z3.Int('Z')           # an arbitrary bit position
        g.total = 8 * g.len.t
        g.k = g.L = None
        P.CTX.assume(g.POS(z3.IntVal(0)) == 0)
        return m.decompress(Seq(g.len, lambda k: g.X(k), 'bytes'), g.slen, g.n)

    def post(r):
        if g.k is None and r is False:
            # nothing parsed: only for an over-long input
            E.prove('decompress: rejected before parsing only when longer than slen', g.len.t > g.slen.t)
            return
        k = g.k
        at = g.POS(k)
        if r is False:
            # the bits at `at` start no code, or k != n and nothing is left, or something is left after n codes
            neg0 = z3.And(at + 9 <= g.L, g.B(at), z3.Not(z3.Or([g.B(at + i) for i in range(1, 8)])), at + 8 < g.L)
            unterminated = z3.And(k < g.n.t, z3.Implies(z3.And(g.Z >= at + 8, g.Z < g.total), z3.Not(g.B(g.Z))))
            leftover = z3.And(k == g.n.t, g.L > at, g.B(g.L - 1))
            E.prove('decompress: rejected only a text that is not n codes followed by zeros', z3.Or(neg0, unterminated, leftover))
            return
        r = P.to_seq(r, 'ints')
        J = z3.Int('vj')
        E.prove('decompress: n coefficients are returned', z3.And(k == g.n.t, r.nt() == g.n.t))
        E.prove('decompress: the coefficients parsed are returned', z3.Implies(z3.And(J >= 0, J < k), r.at(J) == g.V(J)))
        E.prove('decompress: only zeros follow the last code', z3.Implies(z3.And(g.Z >= at, g.Z < g.total), z3.Not(g.B(g.Z))))
        E.prove('decompress: not longer than slen', g.len.t <= g.slen.t)
    return E.run(run, post)


def units():
    return [('compress', compress_unit), ('decompress', decompress_unit)]
