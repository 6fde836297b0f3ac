"""Contracts of SecretKey.__init__, sample_preimage and sign (Falcon, recovery mode, Epervier), for every degree, key, message,
sampler result and source of randomness; and the lemma that what sign returns is accepted by verify (recovered by recover).

Floating-point arithmetic is treated as mathematical: fft / ifft enter as mutually inverse ring isomorphisms between
R[x]/(x^n+1) and the FFT domain, so vectors of the FFT domain are polynomial expressions (rational coefficients) in the
polynomials of the program.
"""
from fractions import Fraction

import z3

import pysym as P
from pysym import Seq, MSeq, ZInt, zt, zint, ns
import p_verify as V
from p_verify import Q, K, inr, sq, center, INT


# ------------------------------------------------------------------------------------- expressions over R[x]/(x^n+1)
class RR:
    """registry of the integer polynomials of one path"""

    def __init__(self, g):
        self.g = g
        self.known = []             # (normal form, coefficients)
        self.atoms = 0
        self.names = {}

    def atom(self, get, name):
        self.atoms += 1
        nf = {(self.atoms,): Fraction(1)}
        self.names[self.atoms] = name
        self.known.append((nf, get))
        return nf

    def of(self, seq):
        E = P.CTX.E
        E.prove('polynomials have n coefficients', seq.nt() == self.g.n.t)
        for nf, get in self.known:
            if E.valid(z3.Implies(inr(K, self.g.n.t), seq.at(K) == get(K))):
                return nf
        return self.atom(seq.get, 'poly')

    def coeffs(self, nf):
        """coefficients (integers) of an expression with integer coefficients"""
        for x, get in self.known:
            if x == nf:
                return get
        parts = []
        for m, c in sorted(nf.items()):
            if c.denominator != 1:
                return None
            get = next((gt for x, gt in self.known if x == {m: 1}), None)
            if get is None:
                f = z3.Function('rprod_' + '.'.join(map(str, m)), INT, INT)
                get = (lambda f: lambda k: f(k))(f)
                self.known.append(({m: Fraction(1)}, get))
            parts.append((int(c), get))
        r = lambda k: z3.Sum([c * gt(k) for c, gt in parts]) if parts else z3.IntVal(0)
        self.known.append((nf, r))
        return r


def add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            k = tuple(sorted(m + m2))
            r[k] = r.get(k, 0) + c * c2
    return {k: c for k, c in r.items() if c}


def scal(c):
    return {(): Fraction(c)} if c else {}


def rewrite(nf, mono, by, mod=None):
    """normal form modulo the relation mono = by"""
    while True:
        for m, c in nf.items():
            l = list(m)
            try:
                for x in mono:
                    l.remove(x)
            except ValueError:
                continue
            rest = {tuple(l): c}
            nf = add(add(nf, {m: c}, -1), mul(rest, by))
            break
        else:
            return {m: c for m, c in nf.items() if mod is None or c % mod}


class FV:
    """vector of the FFT domain"""

    def __init__(self, g, nf):
        self.g, self.nf = g, nf

    def _slen(self):
        return self.g.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            if (i.start, i.stop, i.step) == (None, None, None):
                return FV(self.g, self.nf)
            raise P.Unsupported('slice of an FFT vector')
        return FE(self.g, self.nf, i)

    def _item(self, k):
        return FE(self.g, self.nf, ZInt(k))

    def __iter__(self):
        raise P.Unsupported('iteration over an FFT vector')


class FE:
    """one value of a vector of the FFT domain"""

    def __init__(self, g, nf, i):
        self.g, self.nf, self.i = g, nf, i

    def _of(self, o):
        if isinstance(o, FE):
            P.CTX.E.prove('FFT values are combined at equal positions', zt(o.i) == zt(self.i))
            return o.nf
        if isinstance(o, bool):
            return None
        if isinstance(o, (int, float)):
            return scal(Fraction(o))
        return None

    def _vx_vec(self, n, k):
        P.CTX.E.prove('FFT vectors keep positions', z3.And(zt(self.i) == k, zt(n) == self.g.n.t))
        return FV(self.g, self.nf)


def _op(f):
    def op(a, b):
        o = a._of(b)
        return NotImplemented if o is None else FE(a.g, f(a.nf, o), a.i)

    def rop(a, b):
        o = a._of(b)
        return NotImplemented if o is None else FE(a.g, f(o, a.nf), a.i)
    return op, rop


for _n, _f in (('add', add), ('sub', lambda a, b: add(a, b, -1)), ('mul', mul)):
    a_, b_ = _op(_f)
    setattr(FE, '__%s__' % _n, a_)
    setattr(FE, '__r%s__' % _n, b_)
FE.__neg__ = lambda a: FE(a.g, add({}, a.nf, -1), a.i)


def _div(a, b):
    if isinstance(b, (int, float)) and b:
        return FE(a.g, mul(a.nf, scal(Fraction(1) / Fraction(b))), a.i)
    raise P.Unsupported('division in the FFT domain')


FE.__truediv__ = _div


class Rounded(ZInt):
    """coefficient that is an integer in exact arithmetic; floating point needs the rounding"""
    __slots__ = ()

    def __round__(self):
        return ZInt(self.t)

    def _no(self, *a):
        raise P.Unsupported('a floating-point coefficient is used without rounding')
    __int__ = __float__ = __index__ = __floor__ = __trunc__ = _no
    for _x in ('add sub mul mod floordiv truediv neg lt le gt ge eq ne'.split()):
        locals()['__%s__' % _x] = _no
        locals()['__r%s__' % _x] = _no
    __hash__ = None


class Floats:
    """list of floating-point coefficients"""

    def __init__(self, g, get):
        self.g, self.get = g, get

    def _slen(self):
        return self.g.n

    def _item(self, k):
        return Rounded(self.get(k))

    def __getitem__(self, i):
        return Rounded(self.get(zt(i)))

    def __iter__(self):
        raise P.Unsupported('iteration')


class Tree(list):
    """LDL tree"""


class Retry(P.LoopCut):
    """the signing loop: nothing is carried from one attempt to the next"""

    def __init__(self, g):
        self.g = g

    def head(self, ctx, env, v, names, itx):
        g = self.g
        keep = {a: b for a, b in env.items() if isinstance(b, MSeq) and a not in names}
        if v:
            for a, b in keep.items():
                old = g.kept.get(a)
                ok = old is not None and old[0] is b
                ctx.E.prove('attempt: %s is the same in every attempt' % a,
                            z3.And(b.nt() == old[1].nt(), z3.Implies(inr(K, b.nt()), b.at(K) == old[1].at(K))) if ok else False)
            raise P.Infeasible()
        g.kept = {a: (b, b.snap()) for a, b in keep.items()}
        return keep


def setup_modules(g, name):
    """modules with the FFT-domain contracts"""
    def fft(x):
        if isinstance(x, FV):
            P.CTX.E.prove('fft applies to coefficients', False)
        if isinstance(x, Tok):
            return Tok('fft', x)
        s = P.to_seq(x.snap() if isinstance(x, MSeq) else x, 'ints')
        return FV(g, g.RR.of(s))

    def ifft(x):
        if not isinstance(x, FV):
            P.CTX.E.prove('ifft applies to FFT values', False)
        get = g.RR.coeffs(x.nf)
        if get is None:
            raise P.Unsupported('ifft of a vector without integer coefficients')
        return Floats(g, get)

    class Tok:
        def __init__(self, *a):
            self.a = a

    def lst(x):
        return P.to_seq(x.snap() if isinstance(x, MSeq) else x, 'ints')

    def gram(B):
        E = P.CTX.E
        want = [[(g.poly['g'], 1), (g.poly['f'], -1)], [(g.poly['G'], 1), (g.poly['F'], -1)]]
        for i in range(2):
            for j in range(2):
                p, s = want[i][j]
                E.prove('the basis is ((g, -f), (G, -F))', z3.Implies(inr(K, g.n.t), lst(B[i][j]).at(K) == s * p(K)))
        return [[Tok('gram', i, j) for j in range(2)] for i in range(2)]

    def ffldl_fft(G):
        E = P.CTX.E
        ok = all(isinstance(G[i][j], Tok) and G[i][j].a[0] == 'fft' and G[i][j].a[1].a == ('gram', i, j) for i in range(2) for j in range(2))
        E.prove('the tree is that of the Gram matrix of the basis', ok)
        g.tree = Tree([4.0, 0.0])
        return g.tree

    def ffsampling_fft(t, T, sigmin, randombytes):
        E = P.CTX.E
        f, gg, F, G = (g.nf[x] for x in ('f', 'g', 'F', 'G'))
        E.prove('the sampler gets two FFT vectors', len(t) == 2 and all(isinstance(x, FV) for x in t))
        t0, t1 = t[0].nf, t[1].nf
        # (t0, t1) B = (hash, 0) modulo f G - g F = q
        rel = lambda x: rewrite(x, *g.ntru)
        E.prove('the target is hash * B^-1: first coordinate', rel(add(mul(t0, gg), mul(t1, G))) == g.nf['c'])
        E.prove('the target is hash * B^-1: second coordinate', rel(add(mul(t0, f), mul(t1, F))) == {})
        E.prove('the sampler uses the normalised tree and sigmin of the degree',
                T is g.tree and T[0] == g.params['sigma'] / 2.0 and T[1] == 0 and sigmin is g.params['sigmin'])
        g.sampler_rand.append(randombytes)
        i = len(g.samples)
        g.samples.append(i)
        z = [z3.Function('z%d_%d' % (i, j), INT, INT) for j in range(2)]
        zs = [g.RR.atom((lambda h: lambda k: h(k))(h), 'z') for h in z]
        g.z = zs
        return [FV(g, x) for x in zs]

    def ntru_gen(n, randombytes=None, **kw):
        E = P.CTX.E
        E.prove('the key is generated at this degree', P.zb(n == g.n) if not kw else False)
        g.gen_rand = randombytes
        return tuple(MSeq(g.n, g.poly[x], 'ints') for x in 'fgFG')

    F = P.load('fft', stubs={'common': P.load('common'), 'fft_constants': ns(roots_dict={})})
    more = {k: getattr(F, k) for k in ('add', 'sub', 'neg', 'add_fft', 'sub_fft', 'mul_fft')}
    g.more = {'fft': ns(fft=fft, ifft=ifft, **more), 'ffsampling': ns(gram=gram, ffldl_fft=ffldl_fft, ffsampling_fft=ffsampling_fft),
              'ntrugen': ns(ntru_gen=ntru_gen)}
    g.cuts = {k: {'*while': 'retry'} for k in ('falcon', 'falcon_recovery', 'falcon_epervier')}
    g.loops = {'retry': Retry(g)}
    return V.module(g, name)


def key(E, g, m, cls, given=True):
    """a secret key built by the constructor from arbitrary f, g, F, G of length n"""
    V.common_setup(E, g, m)
    g.params.update(sigma=165.5, sigmin=1.25)
    g.logn_v = P.zvar('logn', 1, 10)
    g.RR = RR(g)
    g.rand, g.sampler_rand, g.samples, g.compressed = [], [], [], []
    g.poly, g.nf = {}, {}
    for x in 'fgFG':
        h = z3.Function('poly_' + x, INT, INT)
        g.poly[x] = (lambda h: lambda k: h(k))(h)
        g.nf[x] = g.RR.atom(g.poly[x], x)
    for x in 'fF':
        g.RR.coeffs(add({}, g.nf[x], -1))
    g.nf['c'] = g.RR.atom(g.hash_get, 'c')
    one = lambda nf: list(nf)[0][0]
    # f G = q + g F
    g.ntru = (tuple(sorted((one(g.nf['f']), one(g.nf['G'])))), add(scal(Q), mul(g.nf['g'], g.nf['F'])))
    g.qf, g.qg = g.R.atom(g.poly['f']), g.R.atom(g.poly['g'])
    C = m.__dict__[cls]
    lists = [MSeq(g.n, g.poly[x], 'ints') for x in 'fgFG']
    return C(g.n, lists) if given else C(g.n)


def pk_of(g, cls):
    """the value sign's key must carry as public address"""
    return None


NAMES = {'falcon': ('SecretKey', 'PublicKey'), 'falcon_recovery': ('RecoveryModeSecretKey', 'RecoveryModePublicKey'),
         'falcon_epervier': ('EpervierSecretKey', 'EpervierPublicKey')}


class Fresh:
    """a source of random bytes"""

    def __init__(self, g, name):
        self.g, self.name = g, name

    def __call__(self, k):
        return self.g.random(self.name, k)


def sources(E, g):
    def random(src, k):
        i = len(g.rand)
        f = z3.Function('RND%d' % i, INT, P.BV8)
        s = Seq(k, (lambda f: lambda j: f(j))(f), 'bytes')
        g.rand.append((src, k, s))
        return s
    g.random = random

    def shake_read(sh, k):
        s = random(('shake', sh.data, sh.flipped), k)
        return s
    g.shake_read = shake_read


def init_unit(mod, given):
    cls = NAMES[mod][0]

    def unit():
        E = P.Engine('%s.__init__ (%s)' % (cls, 'given polynomials' if given else 'generated'))
        E.res.functions |= {'pythonref/falcon.py:SecretKey.__init__', 'pythonref/falcon.py:normalize_tree'} | (
            {'pythonref/%s.py:%s.__init__' % (mod, cls)} if mod != 'falcon' else set())
        g = ns()
        m = setup_modules(g, mod)

        def run():
            sources(E, g)
            return key(E, g, m, cls, given)

        def post(sk):
            E.prove('public key: the quotient g / f is formed once', len(g.quotients) == 1)
            a, b, r = g.quotients[0]
            E.prove('public key: h = g / f mod q', a == g.qg and b == g.qf)
            h = P.to_seq(sk.h, 'ints')
            get = g.R.coeffs(r)
            E.prove('public key: the coefficients of h', z3.And(h.nt() == g.n.t, z3.Implies(inr(K, g.n.t), h.at(K) == get(K))))
            for x in 'fgFG':
                s = P.to_seq(getattr(sk, x), 'ints')
                E.prove('the key keeps ' + x, z3.And(s.nt() == g.n.t, z3.Implies(inr(K, g.n.t), s.at(K) == g.poly[x](K))))
            B = sk.B0_fft
            neg = lambda nf: add({}, nf, -1)
            E.prove('the FFT basis is ((g, -f), (G, -F))', [[x.nf for x in row] for row in B] == [[g.nf['g'], neg(g.nf['f'])], [g.nf['G'], neg(g.nf['F'])]])
            E.prove('the tree is normalised by sigma', sk.T_fft is g.tree and g.tree == [g.params['sigma'] / 2.0, 0])
            if not given:
                E.prove('key generation uses the system randomness', g.gen_rand is g.urandom)
            if mod != 'falcon':
                v = Seq(g.n, get if mod == 'falcon_recovery' else g.R.ev(r), 'ints')
                ok = len(g.addresses) == 1
                E.prove('address: one Keccak-256 hash', ok)
                s, a = g.addresses[0]
                E.prove('address: of the packed public key', z3.And(s.nt() == v.nt(), z3.Implies(inr(K, g.n.t), s.at(K) == v.at(K))))
                E.prove('address: the low 20 bytes', zt(sk.pk) == a)
        return E.run(run, post)
    return unit


def sign_setup(E, g, m, mod, system, xof):
    cls = NAMES[mod][0]
    sources(E, g)
    sk = key(E, g, m, cls)
    g.sk = sk
    g.logn_value = zt(sk_logn(g))
    g.hashed = []

    def hash_(n, message, salt, x):
        E.prove('the message is hashed at this degree', P.zb(n == g.n))
        E.prove('the message given is hashed', message is g.message)
        E.prove('the hash function given is used', x is xof)
        g.hashed.append(salt)
        return MSeq(g.n, g.hash_get, 'ints')
    g.hash = hash_
    two = 1 if mod == 'falcon' else 2
    g.enc = []

    def compress(v, slen):
        s = P.to_seq(v.snap() if isinstance(v, MSeq) else v, 'ints')
        ok = z3.Bool('fits%d' % len(g.enc))
        c = Seq(slen, (lambda f: lambda k: f(k))(z3.Function('ENC%d' % len(g.enc), INT, P.BV8)), 'bytes')
        g.enc.append((s, slen, ok, c))
        return c if bool(P.SBool(ok)) else False
    g.compress = compress
    return sk


def sk_logn(g):
    return g.logn.value if isinstance(g.logn, V.Table) else g.logn


def sign_unit(mod, system):
    cls = NAMES[mod][0]
    size = 1 if mod == 'falcon' else 2

    def unit():
        E = P.Engine('%s.sign (%s)' % (cls, 'system randomness' if system else 'given randomness'))
        E.res.functions |= {'pythonref/%s.py:%s.sign' % (mod, cls), 'pythonref/falcon.py:SecretKey.sample_preimage',
                            'pythonref/falcon.py:SecretKey.sample_preimage_with_prng', 'pythonref/falcon.py:SecretKey.__init__'}
        g = ns()
        m = setup_modules(g, mod)

        def run():
            lg = P.zvar('logn', 1, 10)
            g.lg = lg
            m._g['logn'].value = lg
            xof = object()
            sk = sign_setup(E, g, m, mod, system, xof)
            g.src = g.urandom if system else Fresh(g, 'given')
            return sk.sign(g.message, xof=xof) if system else sk.sign(g.message, randombytes=g.src, xof=xof)

        def post(r):
            n = g.n.t
            name = 'urandom' if system else 'given'
            E.prove('salt: the first 40 bytes of the source', len(g.rand) >= 1 and g.rand[0][0] == name and g.rand[0][1] == 40)
            salt = g.rand[0][2]
            E.prove('hash: one hash of the salt and the message', len(g.hashed) == 1)
            hs = P.to_seq(g.hashed[0], 'bytes')
            E.prove('hash: the salt of the signature', z3.And(hs.nt() == 40, z3.Implies(inr(K, z3.IntVal(40)), hs.at(K) == salt.at(K))))
            # randomness of the sampler
            E.prove('attempt: one run of the sampler', len(g.samples) == 1)
            src = g.sampler_rand[0]
            rest = g.rand[1:]
            if system:
                E.prove('attempt: the sampler draws from the system randomness', src is g.urandom and not rest)
            elif mod == 'falcon':
                ok = (len(rest) == 2 and rest[0][:2] == ('given', 48) and rest[1][1] == 56 and rest[1][0][0] == 'shake' and rest[1][0][2]
                      and same(E, rest[1][0][1], rest[0][2]) and getattr(src, '__self__', None).__class__ is g.ChaCha
                      and same(E, src.__self__.seed, rest[1][2]) and getattr(src, '__name__', '') == 'randombytes')
                E.prove('attempt: the sampler draws from ChaCha20 keyed by 56 bytes of SHAKE256 of a 48-byte seed', ok)
            else:
                sh = getattr(src, '__self__', None)
                ok = (len(rest) == 1 and rest[0][:2] == ('given', 48) and sh.__class__ is g.Shake and sh.flipped
                      and same(E, sh.data, rest[0][2]) and getattr(src, '__name__', '') == 'read')
                E.prove('attempt: the sampler draws from SHAKE256 of a fresh 48-byte seed', ok)
            # the vector
            z0, z1 = g.z
            s0 = g.RR.coeffs(add(g.nf['c'], add(mul(z0, g.nf['g']), mul(z1, g.nf['G'])), -1))
            s1 = g.RR.coeffs(add(mul(z0, g.nf['f']), mul(z1, g.nf['F'])))
            E.prove('code: one encoding per attempt', len(g.enc) == 1)
            v, slen, ok, c = g.enc[0]
            if size == 1:
                E.prove('code: the second vector s1 = z0 f + z1 F', z3.And(v.nt() == n, z3.Implies(inr(K, n), v.at(K) == s1(K))))
            else:
                E.prove('code: both vectors', z3.And(v.nt() == 2 * n, z3.Implies(inr(K, n), z3.And(v.at(K) == s0(K), v.at(K + n) == s1(K)))))
            E.prove('code: the length of the format', zt(slen) == size * g.sbl.t - 41)
            E.prove('code: it fits', ok)
            # sums the code formed
            nz = z3.Sum(V.sums(g, sq(s0), sq(s1)))
            for k_, get, zz in P.CTX.notes['sums'][:-2]:
                for j, sp in enumerate((sq(s0), sq(s1))):
                    if E.valid(z3.Implies(inr(K, n), get(K) == sp(K))):
                        P.CTX.assume(z3.Int('spec_sum_%d' % j) == zz)
            E.prove('norm: ||(s0, s1)||^2 is within the bound', nz <= g.bound.t)
            # the bytes
            b = P.to_seq(r, 'bytes')
            tail = 3 * n if size == 2 else z3.IntVal(0)
            E.prove('signature: length', b.nt() == 41 + c.nt() + tail)
            hd = (0x20 if size == 1 else 0x30) + g.lg.t
            E.prove('signature: header', z3.BV2Int(b.at(0)) == hd)
            E.prove('signature: salt', z3.Implies(inr(K, z3.IntVal(40)), b.at(K + 1) == salt.at(K)))
            E.prove('signature: code', z3.Implies(inr(K, c.nt()), b.at(K + 41) == c.at(K)))
            if size == 2:
                ev = g.R.ev(g.R.of(Seq(g.n, s1, 'ints')))
                E.prove('hint: s1 is invertible', z3.Implies(inr(K, n), ev(K) != 0))
                E.prove('hint: one inverse', len(g.inverses) == 1 and g.inverses[0][0] == g.R.of(Seq(g.n, s1, 'ints')))
                iv = g.R.ev(g.inverses[0][1])
                o = 41 + c.nt() + 3 * K
                w = 65536 * z3.BV2Int(b.at(o)) + 256 * z3.BV2Int(b.at(o + 1)) + z3.BV2Int(b.at(o + 2))
                E.prove('hint: the values of 1 / s1 as three bytes each', z3.Implies(inr(K, n), w == iv(K)))
        return E.run(run, post)
    return unit


def same(E, a, b):
    a, b = P.to_seq(a, 'bytes'), P.to_seq(b, 'bytes')
    return E.valid(z3.And(a.nt() == b.nt(), z3.Implies(inr(K, a.nt()), a.at(K) == b.at(K))))


# ------------------------------------------------------------------------------------- what sign returns is accepted
def lattice_lemma():
    """s0 + s1 h = hash mod q for the vector of the contract of sign, from h f = g and f G - g F = q (f invertible):
    with s0 = c - z0 g - z1 G, s1 = z0 f + z1 F, the difference d = s0 + s1 h - c satisfies f d = 0 mod q"""
    r = P.Engine('lemma').res
    name = 'lemma: the sampled vector solves s0 + s1 h = hash'
    c, z0, z1, f, g, F, G, h = ({(i,): Fraction(1)} for i in range(1, 9))
    s0 = add(c, add(mul(z0, g), mul(z1, G)), -1)
    s1 = add(mul(z0, f), mul(z1, F))
    d = mul(f, add(add(s0, mul(s1, h)), c, -1))
    d = rewrite(d, (4, 8), g)                                   # f h = g (mod q)
    d = rewrite(d, (4, 7), add(scal(Q), mul(g, F)))             # f G = q + g F
    d = {m: x for m, x in d.items() if x % Q}
    r.check(name + ': f (s0 + s1 h - c) is a multiple of q', d == {}, str(d))
    return r


def sum_lemma():
    """sums of n terms are monotone in the terms; centering does not increase the square"""
    E = P.Engine('lemma: norm after centering')

    def run():
        return None

    def post(r):
        A, B, a, b = z3.Ints('A B a b')
        E.prove('sum: empty', z3.IntVal(0) <= 0)
        E.prove('sum: one more term', z3.Implies(z3.And(A <= B, a <= b), A + a <= B + b))
        x, y = z3.Ints('x y')
        E.prove('square: grows with the absolute value', z3.Implies(z3.And(0 <= x, x <= y), x * x <= y * y))
        s = z3.Int('s')
        ab = lambda t: z3.If(t < 0, -t, t)
        E.prove('center: does not increase the absolute value', z3.Implies((x - s) % Q == 0, ab(V.center(x)) <= ab(s)))
    return E.run(run, post)


def roundtrip_unit(mod):
    """verify / recover on a signature as the contract of sign describes it, with decompress(compress(v)) = v (P01)"""
    pub = NAMES[mod][1]
    size = 1 if mod == 'falcon' else 2

    def unit():
        E = P.Engine('%s: a signature of sign is accepted' % pub)
        E.res.functions |= {'pythonref/%s.py:%s.%s' % (mod, pub, 'verify' if size == 1 else 'recover')}
        g = ns()
        m = V.module(g, mod)

        def run():
            V.common_setup(E, g, m)
            n = g.n.t
            S0, S1, H = (z3.Function(x, INT, INT) for x in ('S0', 'S1', 'H'))
            f0, f1, fh = (lambda k: S0(k)), (lambda k: S1(k)), (lambda k: H(k) % Q)
            R = g.R
            clen = size * g.sbl.t - 41
            P.CTX.assume(clen >= 0)
            SIG = z3.Function('SIG', INT, P.BV8)
            L = 41 + clen + (3 * n if size == 2 else 0)
            sig = Seq(zint(L), lambda k: SIG(k), 'bytes')

            def decompress(x, slen, k):
                x = P.to_seq(x, 'bytes')
                E.prove('the code of sign is decoded', z3.And(x.nt() == clen, z3.Implies(inr(K, clen), x.at(K) == SIG(K + 41))))
                E.prove('with its length and number of coefficients', z3.And(zt(slen) == clen, zt(k) == size * n))
                if size == 1:
                    return MSeq(g.n, f1, 'ints')
                return MSeq(zint(2 * n), lambda k: z3.If(k < n, S0(k), S1(k - n)), 'ints')
            g.decompress = decompress

            def hash_(k, message, salt, xof):
                s = P.to_seq(salt, 'bytes')
                E.prove('the salt of sign is hashed with the message', z3.And(s.nt() == 40, z3.Implies(inr(K, z3.IntVal(40)), s.at(K) == SIG(K + 1)),
                                                                              zt(k) == n) if message is g.message else False)
                return MSeq(g.n, g.hash_get, 'ints')
            g.hash = hash_
            s0, s1, h, c = R.atom(f0), R.atom(f1), R.atom(fh), R.atom(g.hash_get)
            zs = V.sums(g, sq(f0), sq(f1))
            P.CTX.assume(z3.Sum(zs) <= g.bound.t)
            kq = z3.Int('kq')
            if size == 1:
                # contract of sign with the lattice lemma: hash - s1 h and s0 agree mod q; norm lemma
                e = R.coeffs(R.lin(c, R.mul(s1, h), -1))
                P.CTX.assume(z3.ForAll([kq], z3.Implies(inr(kq, n), (e(kq) - S0(kq)) % Q == 0)))
                zc = z3.Int('norm_centered')
                P.CTX.notes['sums'].append((g.n.t, sq(lambda k: V.center(e(k))), zc))
                P.CTX.assume(zc <= zs[0])
                pk = m.PublicKey(g.n, MSeq(g.n, fh, 'ints'))
                return pk.verify(g.message, sig)
            # the hint: values of 1 / s1
            ev1, evh = R.ev(s1), R.ev(h)
            num = R.ev(R.lin(c, s0, -1))
            inv = z3.Function('INV', INT, INT)
            b = lambda k, j: z3.BV2Int(SIG(41 + clen + 3 * k + j))
            word = lambda k: z3.simplify(65536 * b(k, 0) + 256 * b(k, 1) + b(k, 2))
            P.CTX.assume(z3.ForAll([kq], z3.Implies(inr(kq, n), z3.And(V.mulq(word(kq), ev1(kq)) == 1))))
            # c - s0 = s1 h, so its values times those of 1 / s1 are the values of h
            P.CTX.assume(z3.ForAll([kq], z3.Implies(inr(kq, n), V.mulq(num(kq), word(kq)) == evh(kq))))
            addr = z3.Int('address_of_key')
            P.CTX.assume(z3.And(addr >= 0, addr < (1 << 160)))
            g.addr = addr
            g.addresses.append((Seq(g.n, fh if mod == 'falcon_recovery' else evh, 'ints'), addr))
            pk = m.__dict__[pub](g.n, ZInt(addr))
            return pk.recover(g.message, sig)

        def post(r):
            if size == 1:
                E.prove('verify: the signature is accepted', r is True or (isinstance(r, P.SBool) and r.c))
            else:
                E.prove('recover: the address of the key is recovered', zt(r) == g.addr if r is not False else False)
        return E.run(run, post)
    return unit


def sign_units():
    u = [('lattice lemma', lattice_lemma), ('norm lemma', sum_lemma)]
    for mod in NAMES:
        for given in (True, False):
            u.append(('%s init %s' % (mod, given), init_unit(mod, given)))
        for system in (True, False):
            u.append(('%s sign %s' % (mod, 'system' if system else 'given'), sign_unit(mod, system)))
        u.append((mod + ' roundtrip', roundtrip_unit(mod)))
    return u


units = sign_units
