"""Contracts of the Solidity ring arithmetic: number-theoretic transforms, pointwise operations, products.

FW(a)_j = a(x_j) with x_j = 49^((512/n)(2 brv(j)+1)), the n roots of X^n + 1 in F_q; INV(A)_k = nm1 * sum_j A_j x_j^-k.
Lemma (evaluated): INV is the inverse of FW when nm1 = 1/n, hence INV(FW(a).FW(b)) = a.b mod (X^n + 1, q)."""
import copy
import numpy as np
import solparse
from e_common import *

FALC = SRC + 'ZKNOX_NTT_falcon.sol'
NTT = SRC + 'ZKNOX_NTT.sol'
REC = EXT + 'NTT_Recursive.sol'


def lin_poly(vs, coefs):
    r = {}
    for v, c in zip(vs, coefs):
        r = padd_in(r, v.f, c)
    return r


def padd_in(r, f, c):
    for m, k in f.items():
        x = (r.get(m, 0) + k * c) % Q
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def fw_spec(vs, xs):
    out = []
    for x in xs:
        p, cs = 1, []
        for _ in vs:
            cs.append(p)
            p = p * x % Q
        out.append(lin_poly(vs, cs))
    return out


def inv_spec(vs, xs, nm1):
    out = []
    ys = [pow(x, -1, Q) for x in xs]
    cur = [nm1] * len(xs)
    for _ in vs:
        out.append(lin_poly(vs, cur))
        cur = [c * y % Q for c, y in zip(cur, ys)]
    return out


def lemma(R, name, xs, nm1):
    n = len(xs)
    R.check(name + ': the %d points are the roots of X^%d + 1' % (n, n), len(set(xs)) == n and all(pow(x, n, Q) == Q - 1 for x in xs))
    Vm = np.array([[pow(x, k, Q) for k in range(n)] for x in xs], dtype=np.int64)
    Im = np.array([[nm1 * pow(x, (-k) % (Q - 1), Q) % Q for x in xs] for k in range(n)], dtype=np.int64)
    R.check(name + ': the inverse transform undoes the forward one', bool(((Im @ Vm) % Q == np.eye(n, dtype=np.int64)).all()))


def run_transform(R, name, ex, sp, p, vs, thunk, spec, snaps=()):
    n = len(vs)
    out = straight(R, name, ex, thunk)
    if out is None:
        return
    out = out[0]
    if not R.check(name + ': the result is an array of %d words' % n, isarr(ex, out, n)):
        return
    res = ex.get_array(out)
    bad = [j for j in range(n) if fcls(res[j]) != spec[j]]
    R.check(name + ': every output word is the specified linear form mod q', not bad, 'words %s' % bad[:5])
    R.check(name + ': every output word is below q', all(reduced(x) for x in res))
    R.check(name + ': no other array is changed', unchanged(snaps))
    return out


def falcon_fw(n=N):
    def unit():
        R = UnitResult()
        xs = [root(j) for j in range(N)]
        lemma(R, 'transform', xs, pow(N, -1, Q))
        sp = Space()
        ex = Ex(prog(FALC))
        p, vs = symarr(ex, sp, 'a', N, 0, 65535)
        out = run_transform(R, '_ZKNOX_NTTFW_vectorized', ex, sp, p, vs, lambda: ex.call('_ZKNOX_NTTFW_vectorized', [p]), fw_spec(vs, xs))
        if out is not None:
            R.check('_ZKNOX_NTTFW_vectorized: in place', out.r is p.r)
        return R
    return unit


def falcon_inv():
    R = UnitResult()
    xs = [root(j) for j in range(N)]
    sp = Space()
    ex = Ex(prog(FALC))
    p, vs = symarr(ex, sp, 'a', N)
    out = run_transform(R, '_ZKNOX_NTTINV_vectorized', ex, sp, p, vs, lambda: ex.call('_ZKNOX_NTTINV_vectorized', [p]), inv_spec(vs, xs, pow(N, -1, Q)))
    if out is not None:
        R.check('_ZKNOX_NTTINV_vectorized: in place', out.r is p.r)
    return R


def pointwise(R, name, path, fname, f, hi=(1 << 256) - 1, hib=None, extra=(), contract=None, n=N, red=True):
    sp = Space()
    ex = Ex(prog(path))
    c = contract(ex) if contract else None
    a, av = symarr(ex, sp, 'a', n, 0, hi)
    b, bw = symarr(ex, sp, 'b', n, 0, hi if hib is None else hib)
    sn = snapshot(a, b)
    args = [a, b] + list(extra)
    out = straight(R, name, ex, lambda: ex.call(fname, args, c))
    if out is None:
        return
    out = out[0]
    if not R.check(name + ': the result is a new array of %d words' % n, isarr(ex, out, n) and out.r not in (a.r, b.r)):
        return
    res = ex.get_array(out)
    R.check(name + ': every word is the operation on the two words', all(fcls(r) == f(x.f, y.f) for r, x, y in zip(res, av, bw)))
    R.check(name + ': every word is below q', all(reduced(r) for r in res))
    R.check(name + ': the operands are not changed', unchanged(sn))


def falcon_mul():
    R = UnitResult()
    pointwise(R, '_ZKNOX_VECMULMOD', FALC, '_ZKNOX_VECMULMOD', pmul)
    return R


# ------------------------------------------------------------------ compositions: transforms as opaque functions
class Opaque:
    """callees by contract: FW and INV as functions of the array's content (in place or not)"""

    def __init__(self, sp):
        self.sp = sp
        self.memo = {}
        self.bad = []

    def fun(self, name, vals):
        k = (name,) + tuple(v.key() if isinstance(v, V) else v for v in vals)
        if k not in self.memo:
            i = len(self.memo)
            self.memo[k] = [self.sp.sym('%s%d[%d]' % (name, i, j)) for j in range(len(vals))]
        return self.memo[k]

    def transform(self, name, pre, inplace=True):
        def st(ex, fn, args):
            p = args[0]
            v = ex.get_array(p)
            if not pre(ex, v, args):
                self.bad.append(name)
            o = self.fun(name, v)
            if inplace:
                for i, x in enumerate(o):
                    p.r.store(ex, p.o + 32 + 32 * i, x)
                return p, ('array', U256, None)
            return ex.new_array(o, name), ('array', U256, None)
        return st

    def mul(self, pre=lambda ex, args: True):
        def st(ex, fn, args):
            a, b = ex.get_array(args[0]), ex.get_array(args[1])
            if not pre(ex, args) or len(a) != len(b):
                self.bad.append('mul')
            return ex.new_array([self.sp.red(pmul(fcls(x), fcls(y))) for x, y in zip(a, b)], 'mul'), ('array', U256, None)
        return st

    def codec(self, name, n):
        def st(ex, fn, args):
            v = ex.get_array(args[0])
            k = (name,) + tuple(x.key() if isinstance(x, V) else x for x in v)
            if k not in self.memo:
                i = len(self.memo)
                self.memo[k] = [self.sp.sym('%s%d[%d]' % (name, i, j), 0, 65535 if name == 'expand' else (1 << 256) - 1) for j in range(n)]
            return ex.new_array(self.memo[k], name), ('array', U256, None)
        return st

    def product(self, A, B):
        return self.fun('INV', [self.sp.red(pmul(fcls(x), fcls(y))) for x, y in zip(A, B)])


def all_red(v):
    return all(reduced(x) for x in v)


def finish(R, name, ex, O, out, want, sn=None):
    if out is None:
        return
    res = ex.get_array(out[0])
    R.check(name + ': the result is %s' % want[0], len(res) == len(want[1]) and all(same(x, y) for x, y in zip(res, want[1])))
    R.check(name + ': preconditions of the transforms hold at the calls', not O.bad, str(O.bad[:3]))
    if sn is not None:
        R.check(name + ': the operands are not changed', unchanged(sn))


def halfmul_compact():
    R = UnitResult()
    name = '_ZKNOX_NTT_HALFMUL_Compact'
    sp = Space()
    O = Opaque(sp)
    st = {'_ZKNOX_NTTFW_vectorized': O.transform('FW', lambda ex, v, a: len(v) == N),
          '_ZKNOX_NTTINV_vectorized': O.transform('INV', lambda ex, v, a: len(v) == N and all_red(v)),
          '_ZKNOX_VECMULMOD': O.mul(lambda ex, a: True),
          '_ZKNOX_NTT_Expand': O.codec('expand', N), '_ZKNOX_NTT_Compact': O.codec('compact', 32)}
    ex = Ex(prog(FALC), stubs=st)
    a, av = symarr(ex, sp, 'a', 32, 0, (1 << 256) - 1)
    b, bw = symarr(ex, sp, 'b', 32, 0, (1 << 256) - 1)
    sn = snapshot(a, b)
    out = straight(R, name, ex, lambda: ex.call(name, [a, b]))
    if out is not None:
        A = O.fun('FW', O.memo.get(('expand',) + tuple(x.key() for x in av), [0] * N))
        B = O.memo.get(('expand',) + tuple(x.key() for x in bw), [0] * N)
        c = O.product(A, B)
        w = O.memo.get(('compact',) + tuple(x.key() for x in c))
        finish(R, name, ex, O, out, ('Compact(INV(FW(Expand(a)) . Expand(b)))', w if w is not None else [None] * 32), sn)
    return R


# ------------------------------------------------------------------ contract ZKNOX_NTT
PSIREV, PSIINV = 0xA11CE, 0xB0B


def make_ntt(ex, n=N):
    return ex.new_contract('ZKNOX_NTT', [PSIREV, PSIINV, Q, pow(n, -1, Q)])


def table_code(bad):
    """the two external contracts hold the powers as 32-byte words (what update() is given)"""
    def st(ex, addr, dst, off, n):
        if addr not in (PSIREV, PSIINV) or n != 32 or type(off) is not int or off % 32 or off >= 512 * 32:
            bad.append((addr, off, n))
            return
        i = off // 32
        e = brv(i, 9)
        ex.mstore(dst, pow(PSI, e if addr == PSIREV else -e, Q))
    return st


def ntt_fw(n, variant):
    def unit():
        R = UnitResult()
        xs = [root(j, n) for j in range(n)]
        if variant == 'stateless':
            lemma(R, 'transform of length %d' % n, xs, pow(n, -1, Q))
        for d in ('FW', 'INV'):
            fname = ('_' if variant == 'underscore' else '') + 'ZKNOX_NTT' + d
            name = '%s(%s) n=%d' % (fname, 'q' if variant == 'stateless' else 'table', n)
            sp = Space()
            bad = []
            ex = Ex(prog(NTT), stubs={'extcodecopy': table_code(bad)})
            c = make_ntt(ex, n)
            p, vs = symarr(ex, sp, 'a', n, 0, (1 << 256) - 1 if d == 'FW' else Q - 1)
            args = [p, Q] if variant == 'stateless' else [p, PSIREV if d == 'FW' else PSIINV]
            ty = [('array', U256, None), U256 if variant == 'stateless' else ('elem', 'address')]
            spec = fw_spec(vs, xs) if d == 'FW' else inv_spec(vs, xs, pow(n, -1, Q))
            st0 = dict(c.storage)
            out = run_transform(R, name, ex, sp, p, vs, lambda: ex.call(fname, args, c, types=ty), spec)
            R.check(name + ': the tables are read inside their bounds', not bad, str(bad[:3]))
            R.check(name + ': storage is not changed', st0 == c.storage)
            if out is not None:
                R.check(name + ': in place', out.r is p.r)
        return R
    return unit


def ntt_ops():
    R = UnitResult()
    for n in (512, 2):
        for fn, f in (('ZKNOX_VECMULMOD', pmul), ('_ZKNOX_VECMULMOD', pmul), ('ZKNOX_VECADDMOD', padd)):
            pointwise(R, '%s n=%d' % (fn, n), NTT, fn, f, extra=[Q], contract=make_ntt, n=n)
        pointwise(R, 'ZKNOX_VECSUBMOD n=%d' % n, NTT, 'ZKNOX_VECSUBMOD', lambda x, y: padd(x, y, -1), hib=Q, extra=[Q], contract=make_ntt, n=n)
    for fn in ('ZKNOX_VECMULMOD', '_ZKNOX_VECMULMOD', 'ZKNOX_VECADDMOD', 'ZKNOX_VECSUBMOD'):
        sp = Space()
        ex = Ex(prog(NTT))
        c = make_ntt(ex)
        a, b = symarr(ex, sp, 'a', 4)[0], symarr(ex, sp, 'b', 5)[0]
        try:
            ex.call(fn, [a, b, Q], c)
            r = False
        except Revert:
            r = True
        R.check(fn + ': operands of different lengths are rejected', r)
    return R


def ntt_products():
    R = UnitResult()
    ty2 = [('array', U256, None)] * 2
    for fname, extra, wa, wb in (('ZKNOX_NTT_MUL', [], 1, 1), ('mul_NTTPoly', [Q], 1, 1), ('ZKNOX_NTT_HALFMUL', [], 1, 0), ('ZKNOX_NTT_HALFMUL', [Q], 1, 0)):
        sp = Space()
        O = Opaque(sp)
        stateful = not extra
        fwpre = lambda ex, v, a: len(v) == N and a[1] == (PSIREV if stateful else Q)
        inpre = lambda ex, v, a: len(v) == N and all_red(v) and a[1] == (PSIINV if stateful else Q)
        st = {'ZKNOX_NTTFW': O.transform('FW', fwpre), '_ZKNOX_NTTFW': O.transform('FW', fwpre), 'ZKNOX_NTTINV': O.transform('INV', inpre),
              '_ZKNOX_NTTINV': O.transform('INV', inpre), 'ZKNOX_VECMULMOD': O.mul(lambda ex, a: a[2] == Q), '_ZKNOX_VECMULMOD': O.mul(lambda ex, a: a[2] == Q)}
        ex = Ex(prog(NTT), stubs=st)
        c = make_ntt(ex)
        a, av = symarr(ex, sp, 'a', N, 0, (1 << 256) - 1)
        b, bw = symarr(ex, sp, 'b', N, 0, (1 << 256) - 1)
        name = '%s/%d' % (fname, 2 + len(extra))
        out = straight(R, name, ex, lambda: ex.call(fname, [a, b] + extra, c))
        A = O.fun('FW', av)
        B = O.fun('FW', bw) if wb else bw
        finish(R, name, ex, O, out, ('INV(FW(a) . %s)' % ('FW(b)' if wb else 'b'), O.product(A, B)))
    # packed operands
    sp = Space()
    O = Opaque(sp)
    st = {'_ZKNOX_NTTFW': O.transform('FW', lambda ex, v, a: len(v) == N and a[1] == PSIREV), '_ZKNOX_NTTINV': O.transform('INV', lambda ex, v, a: len(v) == N and all_red(v) and a[1] == PSIINV),
          'ZKNOX_NTTFW': O.transform('FW', lambda ex, v, a: len(v) == N and a[1] in (PSIREV, Q)), 'ZKNOX_NTTINV': O.transform('INV', lambda ex, v, a: len(v) == N and all_red(v) and a[1] in (PSIINV, Q)),
          '_ZKNOX_VECMULMOD': O.mul(lambda ex, a: a[2] == Q), 'ZKNOX_VECMULMOD': O.mul(lambda ex, a: a[2] == Q), 'ZKNOX_NTT_Expand': O.codec('expand', N), 'ZKNOX_NTT_Compact': O.codec('compact', 32)}
    ex = Ex(prog(NTT), stubs=st)
    c = make_ntt(ex)
    a, av = symarr(ex, sp, 'a', 32, 0, (1 << 256) - 1)
    b, bw = symarr(ex, sp, 'b', 32, 0, (1 << 256) - 1)
    name = 'ZKNOX_NTT_HALFMUL_Compact'
    out = straight(R, name, ex, lambda: ex.call(name, [a, b], c))
    if out is not None:
        A = O.fun('FW', O.memo.get(('expand',) + tuple(x.key() for x in av), [0] * N))
        B = O.memo.get(('expand',) + tuple(x.key() for x in bw), [0] * N)
        w = O.memo.get(('compact',) + tuple(x.key() for x in O.product(A, B)))
        finish(R, name, ex, O, out, ('Compact(INV(FW(Expand(a)) . Expand(b)))', w if w is not None else [None] * 32))
    return R


def nodes(n):
    if isinstance(n, solparse.N):
        yield n
        for k, v in n.__dict__.items():
            if k not in ('k', 'line'):
                yield from nodes(v)
    elif isinstance(n, (list, tuple)):
        for v in n:
            yield from nodes(v)


def base(n):
    while isinstance(n, solparse.N) and n.k in ('index', 'member', 'paren'):
        n = n.e
    return n.name if isinstance(n, solparse.N) and n.k == 'id' else None


def called(body):
    """names of what a body may call"""
    return {n.name for n in nodes(body) if n.k == 'id'} | {n.name for n in nodes(body) if n.k == 'member'}


def storage_writes(body, svars):
    w = [v for v in solex.assigned(body) if v in svars]
    for n in nodes(body):
        if n.k == 'assign':
            w += [v for v in [base(n.lhs)] if v in svars]
        elif n.k == 'incdec':
            w += [v for v in [base(n.e)] if v in svars]
        elif n.k == 'un' and n.op == 'delete':
            w += [v for v in [base(n.e)] if v in svars]
        elif n.k == 'member' and n.name in ('push', 'pop') and base(n) in svars:
            w.append(base(n))
        elif n.k == 'ycall' and n.fn == 'sstore':
            w.append('sstore')
        elif n.k == 'decl' and n.loc == 'storage':
            w.append('storage reference')
    return w


def ntt_fuse():
    """parameters: set by the constructor, changed by update() only before make_immutable() is called"""
    R = UnitResult()
    ex = Ex(prog(NTT))
    c = make_ntt(ex)
    given = [PSIREV, PSIINV, Q, pow(N, -1, Q)]
    where = [[k for k, v in c.storage.items() if type(v) is int and v == g] for g in given]
    if not R.check('constructor: the parameters are those given', all(len(w) == 1 for w in where), str(where)):
        return R
    names = [w[0] for w in where]
    tabs = {k: list(c.storage[k]) for k in ('psi_rev', 'psi_inv_rev')}
    R.check('psi_rev: powers of 49 in bit-reversed order', tabs['psi_rev'] == [pow(PSI, brv(i, 9), Q) for i in range(512)])
    R.check('psi_inv_rev: powers of 1/49 in bit-reversed order', tabs['psi_inv_rev'] == [pow(PSI, -brv(i, 9), Q) for i in range(512)])
    new = [0xC0FFEE, 0xD00D, 7681, 1234]
    rest = {k: copy.deepcopy(v) for k, v in c.storage.items() if k not in names}
    # before the fuse is blown
    ex.call('update', new, c)
    R.check('update: before make_immutable the parameters become those given', [c.storage[k] for k in names] == new)
    R.check('update: nothing else is changed', all(c.storage[k] == v for k, v in rest.items()) and set(c.storage) == set(rest) | set(names))
    ex.call('make_immutable', [], c)
    R.check('make_immutable: parameters and tables are kept', [c.storage[k] for k in names] == new and all(list(c.storage[k]) == v for k, v in tabs.items()))
    blown = {k: copy.deepcopy(v) for k, v in c.storage.items()}
    # after: for every argument
    sp = Space()
    args = [sp.sym('arg%d' % i, 0, (1 << (160 if i < 2 else 256)) - 1) for i in range(4)]
    try:
        ex.call('update', args, c)
    except Revert:
        pass
    R.check('update: after make_immutable no storage word changes, whatever the arguments', not ex.pending and c.storage == blown)
    ex.call('make_immutable', [], c)
    R.check('make_immutable: again changes nothing', c.storage == blown)
    # no other function that can be called from outside and is not view or pure assigns storage, itself or through what it calls
    writes = {}
    for nm, fs in c.funs.items():
        for f in fs:
            if nm in ('update', 'make_immutable', 'constructor') or {'view', 'pure'} & set(f.mods) or not {'public', 'external'} & set(f.mods):
                continue
            todo, seen = [nm], set()
            while todo:
                g = todo.pop()
                if g in seen:
                    continue
                seen.add(g)
                for h in c.funs.get(g, ()):
                    if h.body is None:
                        continue
                    w = storage_writes(h.body, c.vars)
                    if w:
                        writes[nm] = w
                    todo += [x for x in called(h.body) if x in c.funs]
    R.check('no other function writes storage', not writes, str(writes))
    R.functions |= ex.touched
    return R


# ------------------------------------------------------------------ external/NTT_Recursive.sol
def rec_transform(n):
    def unit():
        R = UnitResult()
        for fname in ('nTT', 'iNTT'):
            sp = Space()
            ex = Ex(prog(REC))
            c = ex.new_contract('NTT')
            xs = list(c.storage['w'][n])
            if fname == 'nTT':
                lemma(R, 'recursive transform of length %d' % n, xs, pow(n, -1, Q))
            p, vs = symarr(ex, sp, 'p', n)
            sn = snapshot(p)
            name = '%s n=%d' % (fname, n)
            out = run_transform(R, name, ex, sp, p, vs, lambda: ex.call(fname, [p], c),
                                fw_spec(vs, xs) if fname == 'nTT' else inv_spec(vs, xs, pow(n, -1, Q)), sn)
            if out is not None:
                R.check(name + ': the result is a new array', out.r is not p.r)
        return R
    return unit


def rec_ops():
    R = UnitResult()
    mk = lambda ex: ex.new_contract('NTT')
    pointwise(R, 'mulNTT', REC, 'mulNTT', pmul, contract=mk)
    pointwise(R, 'addZQ', REC, 'addZQ', padd, contract=mk)
    pointwise(R, 'subZQ', REC, 'subZQ', lambda x, y: padd(x, y, -1), hib=Q - 1, contract=mk)
    for fname, wb in (('mulZQ', 1), ('mulZQ_opt', 0)):
        sp = Space()
        O = Opaque(sp)
        ex = Ex(prog(REC), stubs={'nTT': O.transform('FW', lambda ex, v, a: len(v) == N and all_red(v), False),
                                  'iNTT': O.transform('INV', lambda ex, v, a: len(v) == N and all_red(v), False), 'mulNTT': O.mul()})
        c = ex.new_contract('NTT')
        a, av = symarr(ex, sp, 'a', N)
        b, bw = symarr(ex, sp, 'b', N)
        sn = snapshot(a, b)
        out = straight(R, fname, ex, lambda: ex.call(fname, [a, b], c))
        finish(R, fname, ex, O, out, ('iNTT(nTT(a) . %s)' % ('nTT(b)' if wb else 'b'), O.product(O.fun('FW', av), O.fun('FW', bw) if wb else bw)), sn)
    ex = Ex(prog(REC))
    c = mk(ex)
    inv = c.storage['inv_mod_q']
    R.check('inv_mod_q: entry i is the inverse of i', len(inv) == Q and all(inv[i] * i % Q == 1 for i in range(1, Q)))
    return R


def units():
    u = [('_ZKNOX_NTTFW_vectorized', falcon_fw()), ('_ZKNOX_NTTINV_vectorized', falcon_inv), ('_ZKNOX_VECMULMOD', falcon_mul), ('_ZKNOX_NTT_HALFMUL_Compact', halfmul_compact)]
    for v in ('stateless', 'stateful', 'underscore'):
        for n in ((512, 256, 128, 64, 32, 16, 8, 4, 2) if v == 'stateless' else (512, 64, 8, 2)):
            u.append(('ZKNOX_NTT %s n=%d' % (v, n), ntt_fw(n, v)))
    u += [('ZKNOX_NTT operations', ntt_ops), ('ZKNOX_NTT products', ntt_products), ('ZKNOX_NTT parameters', ntt_fuse)]
    for n in (512, 256, 128, 64, 32, 16, 8, 4, 2):
        u.append(('recursive transform n=%d' % n, rec_transform(n)))
    u.append(('recursive operations', rec_ops))
    return u
