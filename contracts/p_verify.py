"""Contracts of falcon.PublicKey.verify, falcon_recovery / falcon_epervier recover and verify, SecretKey.sign (three variants) and
the public-key part of SecretKey.__init__: for every degree n, signature, message and key.

The ring Z_q[X]/(X^n + 1) (package polyntt, not part of the repository) enters by contract: its elements are linear
combinations over F_q of monomials in the polynomials given to it, evaluation is a ring homomorphism applied pointwise.
"""
import z3

import pysym as P
from pysym import Seq, MSeq, ZInt, zt, zint, ns

Q = 12289
I = z3.IntVal
INT = z3.IntSort()
MULQ = z3.Function('MULQ', INT, INT, INT)
K = z3.Int('vk')


def mulq(a, b):
    """(a * b) mod q"""
    a, b = a % Q, b % Q
    return MULQ(z3.If(a < b, a, b), z3.If(a < b, b, a)) % Q


def center(c):
    """representative in -(q-1)/2 .. (q-1)/2"""
    c = c % Q
    return z3.If(c > Q // 2, c - Q, c)


def inr(k, n):
    return z3.And(k >= 0, k < n)


class Ring:
    """registry of the polynomials of one path"""

    def __init__(self, g):
        self.g = g
        self.known = []         # (normal form, coefficients)
        self.atoms = 0
        self.evs = []           # (normal form, evaluation)
        self.intts = []

    def fn(self, name):
        f = z3.Function(name, INT, INT)
        return lambda k: f(k)

    def atom(self, get):
        self.atoms += 1
        nf = {(self.atoms,): 1}
        self.known.append((nf, get))
        return nf

    def of(self, seq):
        """the element with these coefficients (an integer list of length n)"""
        E = P.CTX.E
        E.prove('polynomials have n coefficients', seq.nt() == self.g.n.t)
        for nf, get in self.known:
            if E.valid(z3.Implies(inr(K, self.g.n.t), (seq.at(K) - get(K)) % Q == 0)):
                return nf
        return self.atom(seq.get)

    def lin(self, a, b, s):
        r = dict(a)
        for m, c in b.items():
            r[m] = (r.get(m, 0) + s * c) % Q
            if not r[m]:
                del r[m]
        return r

    def mul(self, a, b):
        r = {}
        for m, c in a.items():
            for m2, c2 in b.items():
                k = tuple(sorted(m + m2))
                r[k] = (r.get(k, 0) + c * c2) % Q
        return {k: c for k, c in r.items() if c}

    def key(self, nf):
        return '_'.join('%dx%s' % (c, '.'.join(map(str, m))) for m, c in sorted(nf.items()))

    def coeffs(self, nf):
        for x, get in self.known:
            if x == nf:
                return lambda k: get(k) % Q
        parts = []
        for m, c in nf.items():
            if len(m) == 1:
                get = next(gt for x, gt in self.known if x == {m: 1})
            else:
                get = self.fn('prod_' + '.'.join(map(str, m)))
            parts.append((c if c <= Q // 2 else c - Q, get))
        r = lambda k: z3.Sum([c * gt(k) for c, gt in parts]) % Q if parts else I(0)
        self.known.append((nf, r))
        return r

    def ev(self, nf):
        for x, get in self.evs:
            if x == nf:
                return get
        f = self.fn('eval_' + self.key(nf))
        r = lambda k: f(k) % Q
        self.evs.append((nf, r))
        return r

    def intt(self, seq):
        E = P.CTX.E
        E.prove('polynomials have n values', seq.nt() == self.g.n.t)
        same = lambda get: E.valid(z3.Implies(inr(K, self.g.n.t), (seq.at(K) - get(K)) % Q == 0))
        for nf, get in self.evs:
            if same(get):
                return self.coeffs(nf)
        for get, r in self.intts:
            if same(get):
                return r
        f = self.fn('intt_%d' % len(self.intts))
        r = lambda k: f(k) % Q
        self.intts.append((seq.get, r))
        return r


def stubs(g):
    """polyntt: contracts"""
    if hasattr(g, 'st'):
        return dict(g.st)
    def lst(x):
        return P.to_seq(x.snap() if isinstance(x, MSeq) else x, 'ints')

    class NTT:
        def __init__(self, q):
            P.CTX.E.prove('the modulus is q', P.zb(q == Q) if not isinstance(q, int) else q == Q)

        def ntt(self, l):
            return MSeq(g.n, g.R.ev(g.R.of(lst(l))), 'ints')

        def intt(self, l):
            return MSeq(g.n, g.R.intt(lst(l)), 'ints')

        def _vec(f):
            def op(self, a, b):
                a, b = lst(a), lst(b)
                P.CTX.E.prove('vectors of equal length', a.nt() == b.nt())
                return MSeq(a.n, lambda k: f(a.at(k), b.at(k)), 'ints')
            return op
        vec_mul = _vec(mulq)
        vec_add = _vec(lambda a, b: (a + b) % Q)
        vec_sub = _vec(lambda a, b: (a - b) % Q)

    class Poly:
        def __init__(self, coeffs, q=Q, ntt=None, nf=None):
            self.NTT = NTT(q)
            self.q = q
            if nf is None:
                self.coeffs = coeffs
                nf = g.R.of(lst(coeffs))
            else:
                self.coeffs = MSeq(g.n, g.R.coeffs(nf), 'ints')
            self.nf = nf

        def __add__(self, o):
            return Poly(None, nf=g.R.lin(self.nf, o.nf, 1))

        def __sub__(self, o):
            return Poly(None, nf=g.R.lin(self.nf, o.nf, -1))

        def __neg__(self):
            return Poly(None, nf=g.R.lin({}, self.nf, -1))

        def __mul__(self, o):
            return Poly(None, nf=g.R.mul(self.nf, o.nf))

        def ntt(self):
            return MSeq(g.n, g.R.ev(self.nf), 'ints')

        def inverse(self):
            P.CTX.E.prove('only invertible polynomials are inverted', z3.Implies(inr(K, g.n.t), g.R.ev(self.nf)(K) != 0))
            for nf, inv in g.inverses:
                if nf == self.nf:
                    return Poly(None, nf=inv)
            inv = g.R.atom(g.R.fn('inverse_%d' % len(g.inverses)))
            g.inverses.append((self.nf, inv))
            return Poly(None, nf=inv)

        def __truediv__(self, o):
            for a, b, r in g.quotients:
                if a == self.nf and b == o.nf:
                    return Poly(None, nf=r)
            r = g.R.atom(g.R.fn('quotient_%d' % len(g.quotients)))
            g.quotients.append((self.nf, o.nf, r))
            return Poly(None, nf=r)

    class Packed:
        def __init__(self, seq):
            self.seq = seq

    def encode_packed(types, values):
        E = P.CTX.E
        v = lst(values)
        E.prove('one type per value', types.nt() == v.nt() if isinstance(types, P.Rep) else False)
        E.prove('values are packed as uint256', isinstance(types, P.Rep) and types.x == 'uint256')
        E.prove('packed values fit', z3.Implies(inr(K, v.nt()), z3.And(v.at(K) >= 0, v.at(K) < (1 << 256))))
        return Packed(v)

    class Digest:
        def __init__(self, seq):
            self.seq = seq

        def __getitem__(self, s):
            P.CTX.E.prove('the address is the last 20 bytes of the digest',
                          isinstance(s, slice) and (s.start, s.stop, s.step) in ((-20, None, None), (12, None, None), (12, 32, None)))
            return Last20(self.seq)

    class Last20:
        def __init__(self, seq):
            self.seq = seq

        def _from_bytes(self, order):
            E = P.CTX.E
            E.prove('the address is read big-endian', order == 'big')
            for s, a in g.addresses:
                if E.valid(s.nt() == self.seq.nt()) and E.valid(z3.Implies(inr(K, s.nt()), s.at(K) == self.seq.at(K))):
                    return ZInt(a)
            a = z3.Int('address_%d' % len(g.addresses))
            P.CTX.assume(z3.And(a >= 0, a < (1 << 160)))
            g.addresses.append((self.seq, a))
            return ZInt(a)

    class KeccakHash:
        def __init__(self, b=b'', rate=None, dsbyte=None):
            P.CTX.E.prove('addresses are Keccak-256: rate 136, domain byte 1', rate == 136 and dsbyte == 1)
            self.log = []
            if isinstance(b, Packed):
                self.absorb(b)

        def absorb(self, x):
            self.log.append('absorb')
            self.data = x

        update = absorb

        def pad(self):
            self.log.append('pad')

        def squeeze(self, k):
            P.CTX.E.prove('one 32-byte digest of the packed key', k == 32 and self.log == ['absorb', 'pad'] and isinstance(self.data, Packed))
            return Digest(self.data.seq)

    class Xof:
        @classmethod
        def new(cls, *a):
            return cls()

    class Keccak(Xof):
        pass

    class Blake(Xof):
        pass

    class Shake(Xof):
        def __init__(self, data=b''):
            self.data, self.flipped = data, False

        @classmethod
        def new(cls, data=b''):
            return cls(data)

        def flip(self):
            self.flipped = True

        def read(self, k):
            return g.shake_read(self, k)

    class ChaCha:
        def __init__(self, seed):
            self.seed = seed

        def randombytes(self, k):
            raise P.Unsupported('randomness outside the sampler')

    def decompress(x, slen, n):
        return g.decompress(x, slen, n)

    def compress(v, slen):
        return g.compress(v, slen)

    pm, pn = ns(Poly=Poly), ns(NTTIterative=NTT)
    g.Keccak, g.Blake, g.Shake, g.ChaCha, g.NTT = Keccak, Blake, Shake, ChaCha, NTT
    g.urandom = lambda k: g.random('urandom', k)
    X = lambda *a, **k: Opaque()
    st = {'polyntt': ns(Poly=Poly, NTTIterative=NTT), 'polyntt.poly': pm, 'polyntt.ntt_iterative': pn, 'encoding': ns(decompress=decompress, compress=compress),
          'keccak_prng': ns(KeccakPRNG=Keccak), 'blake2s_prng': ns(Blake2sPRNG=Blake), 'shake': ns(SHAKE=Shake), 'keccak': ns(KeccakHash=KeccakHash),
          'eth_abi.packed': ns(encode_packed=encode_packed), 'eth_abi': ns(packed=ns(encode_packed=encode_packed)), 'common': P.load('common', rewrite=True),
          'hashlib': ns(blake2s=X), 'os': ns(urandom=g.urandom), 'rng': ns(ChaCha20=ChaCha), 'numpy': ns(set_printoptions=X)}
    for k in ('fft', 'ffsampling', 'ntrugen'):
        st[k] = ns(**{x: X for x in ('fft', 'ifft', 'sub', 'neg', 'add_fft', 'mul_fft', 'gram', 'ffldl_fft', 'ffsampling_fft', 'ntru_gen')})
    st.update(getattr(g, 'more', {}))
    g.st = st
    return dict(st)


class Opaque:
    """floating-point data: never looked at"""

    def __iter__(self):
        return iter(())

    def __getitem__(self, i):
        return Opaque()

    def __len__(self):
        return 0


class Table:
    """Params, logn: by degree"""

    def __init__(self, g, value):
        self.g, self.value = g, value

    def __getitem__(self, n):
        P.CTX.E.prove('the parameters are those of the degree', P.zb(n == self.g.n))
        return self.value


def falcon_module(g):
    m = P.load('falcon', stubs=stubs(g), rewrite=True, cuts=g.cuts.get('falcon'), loops=g.loops)
    patch(m, g)
    return m


def patch(m, g):
    def hash_to_point(n, message, salt, xof=g.Keccak):
        return g.hash(n, message, salt, xof)
    m._g['hash_to_point'] = hash_to_point
    m.hash_to_point = hash_to_point
    m._g['Params'] = m.Params = Table(g, g.params)
    if 'logn' in m._g:
        m._g['logn'] = m.logn = Table(g, g.logn)


def module(g, name):
    """falcon, falcon_recovery or falcon_epervier"""
    g.cuts = getattr(g, 'cuts', {})
    g.loops = getattr(g, 'loops', None)
    g.params, g.logn = {}, 0
    fm = falcon_module(g)
    if name == 'falcon':
        return fm
    st = stubs(g)
    fm.logn = g.logn
    st['falcon'] = fm
    m = P.load(name, stubs=st, rewrite=True, cuts=g.cuts.get(name), loops=g.loops)
    patch(m, g)
    return m


def common_setup(E, g, m):
    """an arbitrary degree, bound, signature length, message"""
    E.int_bytes = True
    E.square_uf = True
    g.R = Ring(g)
    g.inverses, g.quotients, g.addresses = [], [], []
    g.n = P.zvar('n', 1)
    g.bound = P.zvar('sig_bound', 0)
    g.sbl = P.zvar('sig_bytelen', 41)
    g.params.clear()
    g.params.update(n=g.n, sigma=None, sigmin=None, sig_bound=g.bound, sig_bytelen=g.sbl)
    g.message = object()
    g.HASH = z3.Function('HASH', INT, INT)
    g.hash_get = lambda k: g.HASH(k) % Q


def kind(x, g):
    x = x if isinstance(x, type) else type(x)
    return {g.Keccak: 'keccak', g.Blake: 'blake2s', g.Shake: 'shake'}.get(x, x)


def sums(g, *gets):
    """registers the sums the specification speaks about"""
    reg = P.CTX.notes.setdefault('sums', [])
    out = []
    for i, get in enumerate(gets):
        z = z3.Int('spec_sum_%d' % i)
        reg.append((g.n.t, get, z))
        out.append(z)
    return out


def sq(get):
    def f(k):
        t = get(k)
        return P.SQ(z3.If(t < 0, -t, t))
    return f


def salt_is(E, g, salt, L, S):
    s = P.to_seq(salt, 'bytes')
    E.prove('the salt is the 40 bytes after the header', z3.Implies(L >= 41, s.nt() == 40))
    E.prove('the salt is hashed as it is in the signature', z3.Implies(inr(K, s.nt()), z3.And(s.at(K) == S(K + 1), K + 1 < L)))


def open_setup(E, g, m, xk, tail, cnt):
    """signature of any length; tail: length of the part after the code; cnt: number of coefficients"""
    common_setup(E, g, m)
    S = z3.Function('SIG', INT, P.BV8)
    L = P.zvar('sig_len', 0)
    g.L, g.S = L.t, S
    g.sig = Seq(L, lambda k: S(k), 'bytes')
    tl, cn = tail(g.n.t), cnt(g.n.t)
    end = z3.If(L.t - tl > 0, L.t - tl, I(0))
    encl = z3.If(end > 41, end - 41, I(0))
    g.ok = z3.Bool('code_is_valid')
    D = z3.Function('D', INT, INT)
    P.CTX.assume(z3.Implies(g.ok, 8 * encl >= 9 * cn))

    def decompress(x, slen, n):
        x = P.to_seq(x, 'bytes')
        E.prove('the code is what lies between the salt and the rest', z3.And(x.nt() == encl, z3.Implies(inr(K, encl), x.at(K) == S(K + 41))))
        E.prove('length limit of the code', zt(slen) == g.sbl.t * (2 if tl is not None and cnt is two else 1) - 41)
        E.prove('number of coefficients', zt(n) == cn)
        if not bool(P.SBool(g.ok)):
            return False
        return MSeq(zint(cn), lambda k: D(k), 'ints')
    g.decompress = decompress
    g.D = D

    def hash_(n, message, salt, xof):
        E.prove('the message is hashed at this degree', P.zb(n == g.n))
        E.prove('the message given is hashed', message is g.message)
        E.prove('the hash function given is used', kind(xof, g) == xk)
        salt_is(E, g, salt, g.L, S)
        return MSeq(g.n, g.hash_get, 'ints')
    g.hash = hash_


one = lambda n: n
two = lambda n: 2 * n
none = lambda n: I(0)


def truth(r):
    return r if isinstance(r, bool) else zt(r) if not isinstance(r, P.SBool) else r.c


def verify_unit(xk):
    def unit():
        E = P.Engine('PublicKey.verify (%s)' % (xk or 'default'))
        E.res.functions |= {'pythonref/falcon.py:PublicKey.verify', 'pythonref/falcon.py:PublicKey.__init__'}
        g = ns()
        m = module(g, 'falcon')

        def run():
            open_setup(E, g, m, xk or 'keccak', none, one)
            H = z3.Function('PK', INT, INT)
            P.CTX.assume(z3.And(*[]) if False else z3.BoolVal(True))
            pk = m.PublicKey(g.n, MSeq(g.n, lambda k: H(k) % Q, 'ints'))
            R = g.R
            s1, h, c = R.atom(lambda k: g.D(k)), R.atom(lambda k: H(k) % Q), R.atom(g.hash_get)
            s0 = R.coeffs(R.lin(c, R.mul(s1, h), -1))
            g.norm = z3.Sum(sums(g, sq(lambda k: center(s0(k))), sq(lambda k: g.D(k))))
            x = {'keccak': g.Keccak, 'blake2s': g.Blake, 'shake': g.Shake, None: None}[xk]
            return pk.verify(g.message, g.sig, xof=x) if x else pk.verify(g.message, g.sig)

        def post(r):
            want = z3.And(g.ok, g.norm <= g.bound.t)
            if not isinstance(r, (bool, P.SBool)):
                E.prove('verify: returns True or False', False, note=repr(r))
                return
            E.prove('verify: accepts exactly valid codes with ||(hash - s1 h, s1)||^2 within the bound', P.zb(P.SBool(z3.BoolVal(r)).c if isinstance(r, bool) else r.c) == want)
        return E.run(run, post)
    return unit


def recover_unit(mod, xk):
    cls = {'falcon_recovery': 'RecoveryModePublicKey', 'falcon_epervier': 'EpervierPublicKey'}[mod]

    def unit():
        E = P.Engine('%s.recover (%s)' % (cls, xk or 'default'))
        E.res.functions |= {'pythonref/%s.py:%s.recover' % (mod, cls), 'pythonref/%s.py:%s.__init__' % (mod, cls)}
        g = ns()
        m = module(g, mod)

        def run():
            open_setup(E, g, m, xk or 'keccak', lambda n: 3 * n, two)
            R, D, n = g.R, g.D, g.n.t
            s0, s1, c = R.atom(lambda k: D(k)), R.atom(lambda k: D(n + k)), R.atom(g.hash_get)
            g.norm = z3.Sum(sums(g, sq(lambda k: D(k)), sq(lambda k: D(n + k))))
            # the hint: n words of three bytes, most significant first, at the end of the signature
            b = lambda k, j: z3.BV2Int(g.S(g.L - 3 * n + 3 * k + j))
            g.word = lambda k: z3.simplify(65536 * b(k, 0) + 256 * b(k, 1) + b(k, 2))
            g.ev1 = R.ev(s1)
            R.coeffs(R.lin(c, s0, -1))
            num = R.ev(R.lin(c, s0, -1))
            hn = Seq(g.n, lambda k: mulq(num(k), g.word(k)), 'ints')
            if mod == 'falcon_recovery':
                f = R.intt(hn)
                hn = Seq(g.n, f, 'ints')
            g.addr = z3.Int('address')
            P.CTX.assume(z3.And(g.addr >= 0, g.addr < (1 << 160)))
            g.addresses.append((hn, g.addr))
            pk = m.__dict__[cls](g.n, 0)
            x = {'keccak': g.Keccak, 'blake2s': g.Blake, 'shake': g.Shake, None: None}[xk]
            return pk.recover(g.message, g.sig, xof=x) if x else pk.recover(g.message, g.sig)

        def post(r):
            j = z3.Int('inv_j')
            n = g.n.t
            inv = lambda k: mulq(g.word(k), g.ev1(k)) == 1
            if r is False:
                E.prove('recover: refuses only invalid codes, hints that are not the inverse, or long vectors',
                        z3.Or(z3.Not(g.ok), g.norm > g.bound.t, z3.Exists([j], z3.And(inr(j, n), z3.Not(inv(j))))))
                return
            if isinstance(r, bool) or zt(r) is None:
                E.prove('recover: returns an address or False', False, note=repr(r))
                return
            E.prove('recover: the code is valid', g.ok)
            E.prove('recover: the vector is short', g.norm <= g.bound.t)
            E.prove('recover: the hint is the inverse of s1 at every point', z3.Implies(inr(j, n), inv(j)))
            E.prove('recover: the address of (hash - s0) / s1', zt(r) == g.addr)
        return E.run(run, post)
    return unit


def recverify_unit(mod):
    cls = {'falcon_recovery': 'RecoveryModePublicKey', 'falcon_epervier': 'EpervierPublicKey'}[mod]

    def unit():
        E = P.Engine(cls + '.verify')
        E.res.functions.add('pythonref/%s.py:%s.verify' % (mod, cls))
        g = ns()
        m = module(g, mod)

        def run():
            common_setup(E, g, m)
            g.pkv = P.zvar('pk', 0, (1 << 160) - 1)
            pk = m.__dict__[cls](g.n, g.pkv)
            g.rec = z3.Bool('recovered')
            g.addr = P.zvar('address', 0, (1 << 160) - 1)
            sig, x, T = object(), object(), object()

            def recover(*a, **k):
                d = dict(zip(('message', 'signature', 'ntt', 'xof'), a), **k)
                E.prove('verify: message, signature, transform and hash function are passed on',
                        d.get('message') is g.message and d.get('signature') is sig and d.get('ntt') is T and d.get('xof') is x)
                return g.addr if bool(P.SBool(g.rec)) else False
            pk.recover = recover
            return pk.verify(g.message, sig, ntt=T, xof=x)

        def post(r):
            c = z3.BoolVal(r) if isinstance(r, bool) else r.c if isinstance(r, P.SBool) else None
            if c is None:
                E.prove('verify: returns True or False', False)
                return
            E.prove('verify: accepts exactly when the recovered address is the key', c == z3.And(g.rec, g.addr.t == g.pkv.t))
        return E.run(run, post)
    return unit


def params_unit():
    """the table of parameters, and the constants of the format"""
    E = P.Engine('falcon.Params')
    E.res.functions.add('pythonref/falcon.py:Params')
    import p_codec
    m = P.load('falcon', stubs=p_codec.falcon_stubs())
    # squared norm bounds and signature lengths of the specification (Table 3.3 and the reference implementation)
    bounds = [101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242]
    lengths = [44, 47, 52, 63, 82, 122, 200, 356, 666, 1280]
    E.res.check(E.name + ': degrees 2^1..2^10', sorted(m.Params) == [2 << i for i in range(10)])
    for i in range(10):
        n = 2 << i
        p = m.Params.get(n, {})
        E.res.check('%s: squared norm bound at degree %d' % (E.name, n), p.get('sig_bound') == bounds[i], str(p))
        E.res.check('%s: signature length at degree %d' % (E.name, n), p.get('sig_bytelen') == lengths[i] and p.get('n') == n, str(p))
        E.res.check('%s: log of degree %d' % (E.name, n), m.logn.get(n) == i + 1)
    E.res.check(E.name + ': header, salt and seed lengths, modulus', (m.HEAD_LEN, m.SALT_LEN, m.SEED_LEN, m.q) == (1, 40, 48, Q))
    return E.res


def verify_units():
    u = [('parameters', params_unit)]
    u += [('verify ' + str(x), verify_unit(x)) for x in (None, 'keccak', 'blake2s', 'shake')]
    for mod in ('falcon_recovery', 'falcon_epervier'):
        u += [('%s recover %s' % (mod, x), recover_unit(mod, x)) for x in (None, 'keccak', 'blake2s', 'shake')]
        u.append((mod + ' verify', recverify_unit(mod)))
    return u


units = verify_units
