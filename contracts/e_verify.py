"""Contracts of the Solidity verifiers: falcon_core / falcon_normalize, the verify functions of the two verifier contracts,
and the recover functions of the two Epervier contracts."""
from e_common import *
from solex import Dom
from e_loop import prove_goal
from soldom import lin, mul, lift
import bv

CORE = SRC + 'ZKNOX_falcon_core.sol'
BOUND = 34034726
QS1 = 6144
ARR = ('array', U256, None)


class Lanes(Dom):
    """a word holding 16-bit coefficients, least significant first"""

    def __init__(self, v):
        self.v = list(v)

    def key(self):
        return ('lanes',) + tuple(x if type(x) is int else x.key() for x in self.v)

    def interval(self):
        return 0, (1 << (16 * len(self.v))) - 1

    def yop(self, name, a, ex):
        if name == 'shr' and type(a[0]) is int and a[0] % 16 == 0:
            r = self.v[a[0] // 16:]
            return Lanes(r) if r else 0
        if name == 'div' and a[0] is self and type(a[1]) is int and a[1] and a[1] & (a[1] - 1) == 0 and (a[1].bit_length() - 1) % 16 == 0:
            return self.yop('shr', [a[1].bit_length() - 1, self], ex)
        if name == 'and':
            m = a[0] if type(a[0]) is int else a[1]
            if m == 0xffff:
                return self.v[0]
        return NotImplemented


def words(ex, vs, name, ro=False):
    """the compact array of 512 coefficients"""
    p = ex.new_array([Lanes(vs[16 * i:16 * i + 16]) for i in range(32)], name)
    return p


def coefs(ex, p):
    return [x for w in ex.get_array(p) for x in w.v]


def expand_stub(bad):
    def st(ex, fn, args):
        if not isarr(ex, args[0], 32) or not all(isinstance(w, Lanes) for w in ex.get_array(args[0])):
            bad.append('expand')
            raise StopPath('expand of something else')
        return ex.new_array(list(coefs(ex, args[0])), 'expanded'), ARR
    return st


def base_atoms(x):
    """the unknowns a value depends on, through definitions by cases"""
    out = {}
    todo = [x]
    while todo:
        v = todo.pop()
        for a in v.d:
            if a.kind and a.kind[0] in ('ite', 'cond'):
                todo.extend(a.kind[2:])
                for n in names(a.kind[1]):
                    b = v.sp.byz.get(n)
                    if b is not None:
                        out[b.name] = b
            else:
                out[a.name] = a
    return list(out.values())


def names(t):
    out, todo, seen = set(), [t], set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(u))
        todo.extend(u.children())
    return out


def centred(v):
    return z3.If(v > QS1, Q - v, v)


def norm_terms(R, nm, sp, terms, want):
    """terms: product atoms; want: {key of class or symbol: label}.  Each wanted value contributes exactly the square of its centred
    representative.  True when the sum of the terms is the squared norm"""
    left = dict(want)
    ok = True
    for t in terms:
        if not t.kind or t.kind[0] != 'prod':
            return R.check(nm + ': the norm is a sum of squares', False, t.name)
        x, y = t.kind[1], t.kind[2]
        b = base_atoms(x)
        if len(b) != 1:
            return R.check(nm + ': a term is the square of one coefficient', False, '%r' % (x,))
        v = b[0]
        k = sp.key(v.f) if v.f is not None else v.name
        if k not in left:
            return R.check(nm + ': every term is one of the coefficients of s1 or s2, counted once', False, '%s: %s' % (v.name, v.f))
        lab = left.pop(k)
        vz = v.z
        xz, yz = x.z(), y.z()
        g = z3.And(xz == yz, z3.Implies(vz < Q, z3.Or(xz == centred(vz), xz == -centred(vz))))
        if v.hi >= Q:
            m = vz % Q
            c = centred(m)
            g = z3.And(g, z3.Implies(vz >= Q, z3.Or(xz >= c, xz <= -c)))
        ok &= prove_goal(R, '%s: %s counts with the square of its centred value' % (nm, lab), g, (), sp)
    R.check(nm + ': every coefficient of s1 and s2 is counted', not left, 'not counted: %s' % list(left.values())[:4])
    return ok and not left


def threshold(R, nm, sp, c, want, sense=True):
    """c (a z3 condition or word over product atoms) holds iff the squared norm is at most the bound"""
    if not isinstance(c, z3.BoolRef):
        return R.check(nm + ': the result depends on the norm', False, '%r' % (c,))
    c = sp.expand(c)
    terms = [sp.byz[n] for n in sorted(names(c)) if n in sp.byz]
    if not norm_terms(R, nm, sp, terms, want):
        return False
    s = z3.Sum([t.z for t in terms])
    g = (c == (s <= BOUND)) if sense else (c == (s > BOUND))
    return prove_goal(R, nm + ': true exactly when the squared norm is at most 34034726', g, [t.z >= 0 for t in terms])


def truth(v):
    return v if isinstance(v, z3.BoolRef) else z3.BoolVal(bool(v)) if type(v) in (bool, int) else v.yop('truth', [v], Ex(prog(CORE)))


def core_unit():
    R = UnitResult()
    nm = 'falcon_core'
    sp = Space()
    bad = []
    s2 = [sp.sym('s2[%d]' % i, 0, 65535) for i in range(N)]
    pk = [sp.sym('pk[%d]' % i, 0, 65535) for i in range(N)]
    pr = [sp.sym('prod[%d]' % i) for i in range(N)]
    h = [sp.sym('h[%d]' % i) for i in range(N)]
    box = {}

    def half(ex, fn, args):
        box['call'] = (args[0].r is box['s2'].r and args[1].r is box['pk'].r and args[0].o == 0 and args[1].o == 0)
        return words(ex, pr, 'product'), ARR
    stubs = {'_ZKNOX_NTT_HALFMUL_Compact': half, '_ZKNOX_NTT_Expand': expand_stub(bad)}
    answers = []

    def make(dec):
        ex = Ex(prog(CORE), decisions=dec, stubs=stubs)
        box['s2'], box['pk'] = words(ex, s2, 's2'), words(ex, pk, 'ntth')
        hp = ex.new_array(list(h), 'hashed')
        box['sn'] = snapshot(box['s2'], box['pk'])
        return ex, lambda: ex.call(nm, [box['s2'], box['pk'], hp])
    for p in paths(make, 64):
        R.functions |= p.ex.touched
        no_problems(R, nm, p.ex)
        R.check(nm + ': returns, without a revert', p.end == 'return' and not p.ex.reverts, '%s %r' % (p.end, p.out))
        R.check(nm + ': the product is that of s2 and the public key', box.get('call') is True and not bad)
        R.check(nm + ': signature and key are not changed', unchanged(box['sn']))
        if p.end == 'return':
            answers.append((z3.And(p.ex.pc) if p.ex.pc else z3.BoolVal(True), p.out[0]))
    answer = answers[0][1] if len(answers) == 1 else z3.simplify(z3.Or([z3.And(g, truth(v)) for g, v in answers])) if answers else None
    want = {sp.key(padd(h[i].f, pr[i].f, -1)): 'coefficient %d of s1 = c - s2 h' % i for i in range(N)}
    want.update({sp.key(s2[i].f): 'coefficient %d of s2' % i for i in range(N)})
    threshold(R, nm, sp, answer, want)
    # other lengths
    for which in ('hashed', 's2'):
        sp = Space()
        L = sp.sym('length', 0, 1 << 64)
        n0 = 512 if which == 'hashed' else 32

        def make(dec):
            ex = Ex(prog(CORE), decisions=dec, stubs={'_ZKNOX_NTT_HALFMUL_Compact': stop, '_ZKNOX_NTT_Expand': stop, 'falcon_normalize': stop})
            for f in sp.facts(L.z()):
                ex.solver.add(f)
            ex.assume(L.z() != n0)
            r = Region(which, None, cells={0: L}, ro=True)
            a = Ptr(r, 0) if which == 's2' else words(ex, s2, 's2')
            b = Ptr(r, 0) if which == 'hashed' else ex.new_array(list(h), 'hashed')
            return ex, lambda: ex.call(nm, [a, words(ex, pk, 'ntth'), b])
        k = 0
        for p in paths(make):
            k += 1
            R.check('%s: %s of another length than %d: refused' % (nm, which, n0), p.end == 'return' and type(p.out[0]) in (int, bool) and not p.out[0] or p.end == 'revert', repr(p.out))
        R.check('%s: %s of another length: looked at' % (nm, which), k > 0)
    return R


def stop(ex, fn, args):
    ex.problem('the computation goes on', fn.name)
    raise StopPath('goes on')


# ------------------------------------------------------------------ verify with four arguments
VER = {'ZKNOX_falcon': 'hashToPointNIST', 'ZKNOX_ethfalcon': 'hashToPointEVM'}


def verify4(cname):
    def unit():
        R = UnitResult()
        P = prog(SRC + cname + '.sol')
        nm = cname + '.verify(h, salt, s2, ntth)'
        sp = Space()
        ls = {k: sp.sym('length of ' + k, 0, 1 << 64) for k in ('salt', 's2', 'ntth')}
        need = {'salt': 40, 's2': 32, 'ntth': 32}
        box = {}

        def hash_(ex, fn, args):
            box.setdefault('hash', []).append((fn.name, args))
            r = Region('hashed', None, cells={0: 512})
            box['hashed'] = r
            return Ptr(r, 0), ARR

        def core(ex, fn, args):
            box.setdefault('core', []).append(args)
            box['result'] = z3.Bool('core')
            return box['result'], solex.BOOL

        def make(dec):
            box.clear()
            ex = Ex(P, decisions=dec, stubs={'hashToPointNIST': hash_, 'hashToPointEVM': hash_, 'hashToPointTETRATION': hash_, 'falcon_core': core})
            for v in ls.values():
                for f in sp.facts(v.z()):
                    ex.solver.add(f)
            c = ex.new_contract(cname)
            a = {k: Ptr(Region(k, None, cells={0: v}, ro=True), 0) for k, v in ls.items()}
            a['h'] = Ptr(Region('h', None, cells={0: sp.sym('length of h', 0, 1 << 64)}, ro=True), 0)
            box['args'] = a
            f = [f for f in c.funs['verify'] if len(f.params) == 4]
            return ex, lambda: ex.invoke(f[0], [a['h'], a['salt'], a['s2'], a['ntth']], c)
        good = rej = 0
        for p in paths(make):
            ex = p.ex
            R.functions |= ex.touched
            R.check(nm + ': runs without error', not ex.problems, str(ex.problems[:2]))
            ok = z3.And(*[ls[k].z() == need[k] for k in need])
            for pc, c, data in ex.reverts:
                R.check(nm + ': a revert only for a wrong length', prove(z3.Not(ok), sp.facts(ok, c, *pc) + list(pc) + [c])[0] == 'proved')
                rej += 1
            if p.end == 'revert':
                prove_goal(R, nm + ': a revert only for a wrong length', z3.Not(ok), ex.pc, sp)
                rej += 1
                continue
            if p.end != 'return':
                R.check(nm + ': ends', False, p.end)
                continue
            res = p.out[0]
            if type(res) in (int, bool) and not res and 'core' not in box:
                prove_goal(R, nm + ': refuses only a wrong length', z3.Not(ok), ex.pc, sp)
                rej += 1
                continue
            good += 1
            prove_goal(R, nm + ': nothing is verified unless salt, s2 and key have 40 bytes, 32 words and 32 words', ok, ex.pc, sp)
            hs, cs, a = box.get('hash', []), box.get('core', []), box['args']
            R.check(nm + ': the message and the salt are hashed with %s' % VER[cname], len(hs) == 1 and hs[0][0] == VER[cname] and hs[0][1][0].r is a['salt'].r and hs[0][1][1].r is a['h'].r)
            R.check(nm + ': falcon_core is asked about s2, the key and the hash', len(cs) == 1 and cs[0][0].r is a['s2'].r and cs[0][1].r is a['ntth'].r and cs[0][2].r is box['hashed'])
            R.check(nm + ': its answer is the result', isinstance(res, z3.BoolRef) and z3.eq(z3.simplify(res), box['result']))
        R.check(nm + ': both outcomes are reached', good > 0 and rej > 0)
        return R
    return unit


# ------------------------------------------------------------------ verify with the key address, digest and packed signature
class SymCd(solex.Cd):
    """calldata bytes: the words at the offsets are unknowns, the length is an unknown too"""
    name = 'calldata'

    def __init__(self, ex, name, length):
        self.nm = name
        self.length = length
        self.mem = {}

    def word(self, ex, o):
        if o not in self.mem:
            self.mem[o] = bv.var('%s@%d' % (self.nm, o), 256)
        return self.mem[o]

    def load(self, ex, o):
        if o % 32:
            a, b = self.word(ex, o - o % 32), self.word(ex, o - o % 32 + 32)
            k = 8 * (o % 32)
            return ex.op('or', [ex.op('shl', [k, a]), ex.op('shr', [256 - k, b])])
        return self.word(ex, o)

    def to_memory(self, ex):
        r = MemCopy('copy of ' + self.nm, None, cells={0: self.length})
        r.src = self
        return Ptr(r, 0)


class MemCopy(Region):
    def get(self, ex, o):
        if o not in self.cells:
            self.cells[o] = self.src.word(ex, o - 32)
        return self.cells[o]


def verify3(cname):
    def unit():
        R = UnitResult()
        P = prog(SRC + cname + '.sol')
        nm = cname + '.verify(pubkey, digest, sig)'
        box = {}
        key = Region('stored key', None, cells={0: 1}, ro=True)
        dec_ = Region('decoded key', None, cells={0: 32}, ro=True)

        def read(ex, vals):
            box.setdefault('read', []).append(vals[0][0])
            return Ptr(key, 0), BYTES

        def decode(ex, v, ty):
            box.setdefault('decode', []).append(v)
            return (Ptr(dec_, 0), ARR)

        def inner(ex, c, vals):
            if len(vals) != 4:
                return NotImplemented
            h, salt, s2, ntth = [v for v, t in vals]
            ln = s2.r.load(ex, s2.o)
            box['n'] = ln
            box['calls'] = box.get('calls', 0) + 1
            # the callee reverts unless the lengths are right
            for v, k in ((ln, 32), (salt.r.load(ex, salt.o), 40)):
                c = ex.op('eq', [v, k])
                if not ex.truth(c):
                    raise Revert('length')
            box['h'] = (h.r.load(ex, h.o), h.r.load(ex, h.o + 32))
            box['salt'] = [salt.r.load(ex, salt.o + 32), ex.op('shr', [192, salt.r.load(ex, salt.o + 64)])]
            box['s2'] = [s2.r.load(ex, s2.o + 32 + 32 * i) for i in range(32)]
            box['ntth'] = ntth.r
            box['res'] = z3.Bool('verified')
            return box['res'], solex.BOOL

        def make(dec):
            box.clear()
            ex = Ex(P, decisions=dec, stubs={'ext:verify': inner, 'SSTORE2.read': read, 'abi.decode': decode, 'abi.encodePacked': pack})
            c = ex.new_contract(cname)
            box['sig'] = SymCd(ex, 'sig', bv.var('length of sig', 256))
            box['pk'] = SymCd(ex, 'pubkey', bv.var('length of pubkey', 256))
            box['digest'] = bv.var('digest', 256)
            f = [f for f in c.funs['verify'] if len(f.params) == 3]
            return ex, lambda: ex.invoke(f[0], [box['pk'], box['digest'], box['sig']], c)

        def pack(ex, vals):
            if len(vals) == 1 and isinstance(vals[0][0], bv.BV) and solex.is_fbytes(vals[0][1]) and solex.bits_of(vals[0][1]) == 256:
                r = ex.alloc('packed', 64, BYTES)
                r.cells[0], r.cells[32] = 32, vals[0][0]
                return Ptr(r, 0)
            return NotImplemented

        def eq(a, b):
            if type(a) is int or type(b) is int:
                return type(a) is int and type(b) is int and a == b
            g = bv.icmp('eq', a, b, 256)
            return g is True or (not isinstance(g, bool) and prove(g, [])[0] == 'proved')
        outs = {}
        for p in paths(make):
            ex = p.ex
            R.functions |= ex.touched
            R.check(nm + ': runs without error', not ex.problems, str(ex.problems[:2]))
            if p.end == 'revert':
                outs['revert'] = outs.get('revert', 0) + 1
                L = bv.z(box['sig'].length, 256)
                # a well-formed signature is not turned away
                st, m, _ = prove(L != 40 + 32 * 32, list(ex.pc))
                R.check(nm + ': a signature of 1064 bytes is not turned away', st == 'proved', m)
                continue
            if not R.check(nm + ': the verification is called once', p.end == 'return' and box.get('calls') == 1):
                continue
            sig, pk = box['sig'], box['pk']
            L = bv.z(sig.length, 256)
            st, m, _ = prove(z3.And(z3.UGE(L, 1064), z3.ULT(L, 1096)), list(ex.pc))
            R.check(nm + ': what is verified has a salt of 40 bytes and 32 words', st == 'proved', m)
            R.check(nm + ': the key is read from the address in the first 20 bytes', len(box.get('read', [])) == 1 and eq(box['read'][0], bv.lshr(pk.word(ex, 0), 96, 256))
                    and len(box.get('decode', [])) == 1 and isinstance(box['decode'][0], Ptr) and box['decode'][0].r is key and box.get('ntth') is dec_)
            R.check(nm + ': the message is the digest', box['h'][0] == 32 and eq(box['h'][1], box['digest']))
            R.check(nm + ': the salt is the first 40 bytes', eq(box['salt'][0], sig.word(ex, 0)) and eq(box['salt'][1], bv.lshr(sig.word(ex, 32), 192, 256)))
            R.check(nm + ': s2 is the 32 words after the salt', all(eq(box['s2'][i], sig.load(ex, 40 + 32 * i)) for i in range(32)))
            v = p.out[0]
            res = [k for k in (True, False) if prove(box['res'] == z3.BoolVal(not k), list(ex.pc))[0] != 'proved']
            outs[tuple(res)] = outs.get(tuple(res), 0) + 1
            if res == [True]:
                R.check(nm + ': the selector is returned when the signature verifies', v == solex.SELECTOR)
            elif res == [False]:
                R.check(nm + ': 0xffffffff is returned when it does not', v == 0xffffffff << 224 or v == 0xffffffff)
            else:
                c = v if isinstance(v, z3.BoolRef) else None
                R.check(nm + ': the answer decides the value returned', False, repr(v))
        R.check(nm + ': accepted, refused and turned away signatures are reached', outs.get((True,)) and outs.get((False,)) and outs.get('revert'), str(outs))
        return R
    return unit


# ------------------------------------------------------------------ Epervier: public key recovery
EPE = {'ZKNOX_epervier': 'hashToPointNIST', 'ZKNOX_ethepervier': 'hashToPointEVM'}


def recover_unit(cname):
    def unit():
        R = UnitResult()
        nm = cname + '.recover'
        P = prog(SRC + cname + '.sol')
        sp = Space()
        bad = []
        s1 = [sp.sym('s1[%d]' % i, 0, 65535) for i in range(N)]
        s2 = [sp.sym('s2[%d]' % i, 0, 65535) for i in range(N)]
        hint = sp.sym('hint', 0, (1 << 256) - 1)
        h = [sp.sym('h[%d]' % i) for i in range(N)]
        F = {}
        box = {}

        def fw(ex, fn, args):
            v = ex.get_array(args[0])
            if len(v) != N:
                bad.append('transform of %d coefficients' % len(v))
            k = tuple(sp.key(fcls(x)) for x in v)
            if k not in F:
                i = len(F)
                F[k] = [sp.sym('NTT%d[%d]' % (i, j)) for j in range(N)]
            if not all(0 <= (x.lo if isinstance(x, V) else x) and (x.hi if isinstance(x, V) else x) <= 65535 for x in v):
                bad.append('transform of words above 65535')
            for j, x in enumerate(F[k]):
                args[0].r.store(ex, args[0].o + 32 + 32 * j, x)
            return args[0], ARR

        def vmul(ex, fn, args):
            x, y = ex.get_array(args[0]), ex.get_array(args[1])
            if len(x) != len(y):
                bad.append('product of unequal lengths')
            return ex.new_array([sp.red(pmul(fcls(u), fcls(v))) for u, v in zip(x, y)], 'product'), ARR

        def hash_(ex, fn, args):
            box.setdefault('hash', []).append((fn.name, args))
            return ex.new_array(list(h), 'hashed'), ARR

        def pack(ex, vals):
            if len(vals) == 1 and isinstance(vals[0][0], Ptr) and vals[0][1] == ARR:
                r = Region('packed', None)
                r.content = ex.get_array(vals[0][0])
                return Ptr(r, 0)
            return NotImplemented

        def keccak(ex, v, t):
            if isinstance(v, Ptr) and hasattr(v.r, 'content') and t[0] != 'mem':
                box.setdefault('hashed', []).append(v.r.content)
                box['K'] = ex.fresh('K')
                return box['K']
            return NotImplemented
        stubs = {'_ZKNOX_NTT_Expand': expand_stub(bad), '_ZKNOX_NTTFW_vectorized': fw, '_ZKNOX_VECMULMOD': vmul, 'hashToPointNIST': hash_, 'hashToPointEVM': hash_,
                 'hashToPointTETRATION': hash_, 'abi.encodePacked': pack}
        ex = Ex(P, stubs=stubs, keccak=keccak)
        c = ex.new_contract(cname)
        msg = Ptr(Region('msgs', None, cells={0: sp.sym('length of msgs', 0, 1 << 64)}, ro=True), 0)
        salt = Ptr(Region('salt', None, cells={0: 40}, ro=True), 0)
        a1, a2 = words(ex, s1, 'cs1'), words(ex, s2, 'cs2')
        try:
            out = ex.invoke(c.funs['recover'][0], [msg, salt, a1, a2, hint], c)
        except (Revert, StopPath) as e:
            out = None
            R.check(nm + ': returns for some input', False, '%r %s' % (e, ex.problems[:2]))
        R.functions |= ex.touched
        no_problems(R, nm, ex)
        R.check(nm + ': preconditions of the transforms hold at the calls', not bad, str(bad[:3]))
        if out is not None and R.check(nm + ': a single path', not ex.pending):
            R.check(nm + ': the message and the salt are hashed with %s' % EPE[cname], len(box.get('hash', [])) == 1 and box['hash'][0][0] == EPE[cname]
                    and box['hash'][0][1][0].r is salt.r and box['hash'][0][1][1].r is msg.r)
            # the two reverts: norm, hint
            rv = [(cnd, [sp.byz[n] for n in sorted(names(cnd)) if n in sp.byz]) for cnd in [sp.expand(c) for pc, c, data in ex.reverts if isinstance(c, z3.BoolRef)]]
            norm = [(cnd, t) for cnd, t in rv if any(x.kind and x.kind[0] == 'prod' for x in t)]
            oth = [(cnd, t) for cnd, t in rv if not any(x.kind and x.kind[0] == 'prod' for x in t)]
            want = {sp.key(x.f): '%s coefficient %d' % (l, i) for l, v in (('s1', s1), ('s2', s2)) for i, x in enumerate(v)}
            if R.check(nm + ': exactly one revert depends on the norm', len(norm) == 1, str(len(norm))):
                threshold(R, nm + ': not reverting', sp, z3.Not(norm[0][0]), want)
            S = F.get(tuple(sp.key(x.f) for x in s2))
            if R.check(nm + ': s2 is transformed', S is not None):
                allp = hint.f
                for x in S:
                    allp = pmul(allp, x.f)
                pre = [None] * N
                ok = R.check(nm + ': exactly one revert depends on the hint', len(oth) == 1 and len(oth[0][1]) == 1 and oth[0][1][0].f is not None, str(len(oth)))
                if ok:
                    x = oth[0][1][0]
                    R.check(nm + ': the hint times the product of the transformed s2 is what is tested', sp.key(x.f) == sp.key(allp))
                    prove_goal(R, nm + ': reverts unless it is 1', oth[0][0] == (x.z != 1), [x.z >= 0, x.z < Q])
                H = F.get(tuple(sp.key(padd(h[i].f, s1[i].f, -1)) for i in range(N)))
                if R.check(nm + ': hash minus s1 is transformed', H is not None) and R.check(nm + ': one array is hashed', len(box.get('hashed', [])) == 1):
                    got = box['hashed'][0]
                    left = [None] * (N + 1)
                    left[0] = hint.f
                    for i in range(N):
                        left[i + 1] = pmul(left[i], S[i].f)
                    right = {(): 1}
                    good = len(got) == N
                    for i in range(N - 1, -1, -1):
                        w = pmul(pmul(left[i], right), H[i].f)
                        good = good and reduced(got[i]) and sp.key(fcls(got[i])) == sp.key(w)
                        right = pmul(right, S[i].f)
                    R.check(nm + ': what is hashed are the 512 values NTT(hash - s1)_i / NTT(s2)_i in [0, q)', good)
                    v = out[0]
                    K = box['K']
                    R.check(nm + ': the result is the low 160 bits of the hash', isinstance(v, bv.BV) and prove(bv.icmp('eq', v, bv.and_(K, (1 << 160) - 1, 256), 256), [])[0] == 'proved'
                            if not isinstance(bv.icmp('eq', v, bv.and_(K, (1 << 160) - 1, 256), 256), bool) else bv.icmp('eq', v, bv.and_(K, (1 << 160) - 1, 256), 256))
        # lengths
        for which, n0 in (('salt', 40), ('cs1', 32), ('cs2', 32)):
            L = sp.sym('length of %s' % which, 0, 1 << 64)

            def make(dec):
                ex = Ex(P, decisions=dec, stubs={k: (stop if k != 'abi.encodePacked' else v) for k, v in stubs.items()}, keccak=keccak)
                for f in sp.facts(L.z()):
                    ex.solver.add(f)
                ex.assume(L.z() != n0)
                c = ex.new_contract(cname)
                w = Ptr(Region(which, None, cells={0: L}, ro=True), 0)
                return ex, lambda: ex.invoke(c.funs['recover'][0], [msg, w if which == 'salt' else salt, w if which == 'cs1' else words(ex, s1, 'cs1'), w if which == 'cs2' else words(ex, s2, 'cs2'), hint], c)
            k = 0
            for p in paths(make):
                k += 1
                dead = p.end == 'revert' or prove(z3.BoolVal(False), sp.facts(L.z()) + list(p.ex.pc))[0] == 'proved'
                R.check('%s: reverts for %s of another length than %d' % (nm, which, n0), dead, '%s %r' % (p.end, p.out))
            R.check('%s: another length of %s is looked at' % (nm, which), k > 0)
        return R
    return unit


def units():
    u = [('falcon_core', core_unit)]
    for c in VER:
        u.append((c + ' verify4', verify4(c)))
        u.append((c + ' verify3', verify3(c)))
    return u


def recover_units():
    return [(c, recover_unit(c)) for c in EPE]
