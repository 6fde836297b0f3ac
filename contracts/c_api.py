"""Contracts of the signed-message layer (NIST API, EVM format, Epervier) over the contracts of codecs, hash and verification."""
import z3
import bv
import csrc
from symex import Engine, State, Ptr, NULL, LoopSpec, Unsupported, BV64, select
from runner import UnitResult

PFX = 'falcon_inner_'
B8, B16 = z3.BitVecSort(8), z3.BitVecSort(16)
A8, A16 = z3.ArraySort(BV64, B8), z3.ArraySort(BV64, B16)
Q = 12289
NONCE = 40


def c64(x):
    return z3.BitVecVal(x, 64)


def byte_at(E, st, p, k):
    """byte k of the memory at p"""
    o = st.mem[p.obj]
    if o.arr is None:
        o = st.wobj(p.obj)
        E.make_arr(o, 1)
    if o.elem != 1:
        raise Unsupported('byte view of ' + o.name)
    return select(o.arr, bv.z(p.off(), 64) + k)


def put(E, st, p, n, term, what):
    """p points to n bytes that become the 16-bit array term"""
    E.sym_bounds(st, p, n, what)
    o = st.wobj(p.obj)
    if not p.concrete() or p.k or (isinstance(o.size, int) and o.size != n):
        raise Unsupported(what + ': part of an object')
    o.arr, o.elem, o.cells, o.lazy = term, 2, {}, None


def content(E, st, p):
    o = st.mem[p.obj]
    if not p.concrete() or p.k or o.arr is None or o.elem != 2:
        raise Unsupported('vector argument is not a whole vector')
    return o.arr


def same_vec(E, st, what, got, want):
    if got.eq(want):
        E.trivial += 1
        return
    E.prove(what, st, got == want)


def same_obj(p, q):
    return p.obj == q.obj and p.concrete() and p.k == q.k


class Msg:
    """ghost streams of hashed bytes, one per context: length, byte J, stage (0 absorbing, 1 finalised)"""

    def __init__(self, E, J, keccak):
        self.E, self.J = E, J
        self.keccak = keccak
        self.h2p = 'keccak_hash_to_point_vartime' if keccak else 'hash_to_point_vartime'
        for kind, kc in (('i_shake256_', False), ('i_keccak256_', True)):
            for f in ('init', 'inject', 'flip'):
                E.contracts[PFX + kind + f] = self.bind(getattr(self, f), kc)

    @staticmethod
    def bind(f, kc):
        return lambda E, st, a, fr: f(E, st, a, fr, kc)

    def init(self, E, st, a, fr, kc):
        i = a[0].obj
        st.ghost['ctx%d' % i] = (a[0].k, 0, kc)
        st.ghost['hl%d' % i] = 0
        st.ghost['hb%d' % i] = bv.var('hb0', 8)
        return 0

    def stage(self, st, p, want, what, kc):
        ok = st.ghost.get('ctx%d' % p.obj) == (p.k, want, kc)
        self.E.prove(what, st, ok)
        return ok

    def length(self, st, p):
        return bv.z(st.ghost['hl%d' % p.obj], 64)

    def byte(self, st, p):
        return bv.z(st.ghost['hb%d' % p.obj], 8)

    def inject(self, E, st, a, fr, kc):
        if not self.stage(st, a[0], 0, 'hash: injection into an initialised context', kc):
            return 0
        n = bv.z(a[2], 64)
        E.sym_bounds(st, a[1], a[2], 'hash: injected bytes')
        hl, hb0 = self.length(st, a[0]), self.byte(st, a[0])
        d = self.J - hl
        b = byte_at(E, st, a[1], d) if a[1].obj is not None else z3.BitVecVal(0, 8)
        hb = z3.If(z3.ULT(d, n), b, hb0)
        i = a[0].obj
        if not kc:
            st.ghost['hb%d' % i], st.ghost['hl%d' % i] = bv.mk(8, hb), bv.mk(64, hl + n)
            return None
        E.prove('hash: injected data is not null', st, a[1].obj is not None)
        fits = z3.And(z3.ULE(n, 4096), z3.ULE(hl + n, 4096))
        st.ghost['hb%d' % i] = bv.mk(8, z3.If(fits, hb, hb0))
        st.ghost['hl%d' % i] = bv.mk(64, z3.If(fits, hl + n, hl))
        E.prove('hash: total length', st, z3.ULT(hl, 1 << 62))
        return bv.mk(32, z3.If(fits, z3.BitVecVal(0, 32), z3.BitVecVal(0xFFFFFFFD, 32)))

    def flip(self, E, st, a, fr, kc):
        if self.stage(st, a[0], 0, 'hash: finalised once', kc):
            st.ghost['ctx%d' % a[0].obj] = (a[0].k, 1, kc)
        return 0 if kc else None


class Open:
    """one of the opening functions"""

    def __init__(self, cfile, fn, keccak=False, wide=False, epervier=False):
        self.cfile, self.fn, self.keccak, self.wide, self.ep = cfile, fn, keccak, wide, epervier
        self.label = fn + (' (ETHFALCON)' if keccak else '')

    def run(self):
        E = Engine([csrc.module(self.cfile, ('ETHFALCON=1',) if self.keccak else ())], timeout=60000)
        E.merge_ret = False
        st = State()
        self.E = E
        J = self.J = z3.BitVec('any_index', 64)
        smlen = z3.BitVec('smlen', 64)
        st.assume(z3.ULT(smlen, 1 << 48))
        SM, PK = z3.Const('SM', A8), z3.Const('PK', A8)
        sm = E.new_obj(st, 'sm', bv.mk(64, smlen), writable=False)
        E.make_arr(sm, 1, SM)
        pklen = 1025 if self.wide else 897
        pk = E.new_obj(st, 'pk', pklen, writable=False)
        E.make_arr(pk, 1, PK)
        # the frame, from the format: length (2), nonce (40), message, signature
        siglen = z3.ZeroExt(48, z3.Concat(z3.Select(SM, c64(0)), z3.Select(SM, c64(1))))
        framed = z3.And(z3.UGE(smlen, 2 + NONCE), z3.ULE(siglen, smlen - 2 - NONCE))
        msglen = smlen - 2 - NONCE - siglen
        m = E.new_obj(st, 'm', bv.mk(64, z3.If(framed, msglen, c64(0))))
        M0 = z3.Const('M0', A8)
        E.make_arr(m, 1, M0)
        ml = E.new_obj(st, 'mlen', 8)
        ml.cells[0] = (8, bv.var('mlen0', 64))
        self.sm, self.pk = sm, pk
        body = 2 + NONCE + msglen + 1          # first byte of the signature body
        HPK, HM, H2 = z3.Const('DECODED_PK', A16), z3.Const('HASHED', A16), z3.Const('RECOVERED', A16)
        NTT = z3.Function('ntt_form', A16, A16)
        DEC = z3.Function('DECODED_SIG', BV64, BV64, A16)
        CNT = z3.Function('CONSUMED', BV64, BV64, BV64)
        rpk = z3.BitVec('pk_bytes_used', 64)
        V = z3.BitVec('verified', 32)
        st.assume(z3.Or(V == 0, V == 1))
        st.assume(z3.Or(rpk == 0, rpk == pklen - 1))
        hz = lambda f, c: E.contracts.__setitem__(PFX + f if f != 'to_monty' else f, c)

        def modq(E, s, a, fr):
            p = a[2]
            E.prove('public key: degree 512', s, bv.icmp('eq', a[1], 9, 32))
            E.sym_bounds(s, p, a[3], 'public key bytes')
            if p.obj != pk.id:
                raise Unsupported('public key decoded from elsewhere')
            E.prove('public key: the body of the key is decoded', s, z3.And(bv.z(p.off(), 64) == 1, bv.z(a[3], 64) == pklen - 1))
            put(E, s, a[0], 1024, HPK, 'decoded public key')
            return bv.mk(64, rpk)

        def to_ntt(E, s, a, fr):
            o = content(E, s, a[0])
            E.prove('public key: transform of the decoded key', s, z3.And(o == HPK, bv.zb(bv.icmp('eq', a[1], 9, 32))))
            put(E, s, a[0], 1024, NTT(HPK), 'transformed public key')

        def comp(E, s, a, fr):
            p, n = a[2], bv.z(a[3], 64)
            E.prove('signature: degree 512', s, bv.icmp('eq', a[1], 9, 32))
            E.sym_bounds(s, p, a[3], 'signature bytes')
            if p.obj != sm.id:
                raise Unsupported('signature decoded from elsewhere')
            off = bv.z(p.off(), 64)
            r = CNT(off, n)
            s.assume(z3.Or(r == 0, r == 1024) if self.wide else z3.ULE(r, n))
            s.assume(z3.Implies(z3.ULT(n, 1024) if self.wide else n == 0, r == 0))
            put(E, s, a[0], 1024, z3.If(r != 0, DEC(off, n), z3.FreshConst(A16, 'undefined')), 'decoded signature')
            return bv.mk(64, r)

        msg = Msg(E, J, self.keccak)

        def h2p(E, s, a, fr):
            msg.stage(s, a[0], 1, 'hash: output of a finalised context', self.keccak)
            E.prove('hash: degree 512', s, bv.icmp('eq', a[2], 9, 32))
            hl = msg.length(s, a[0])
            E.prove('hash: nonce and message hashed (length)', s, hl == NONCE + msglen)
            E.prove('hash: byte J of nonce and message', s, z3.Implies(z3.ULT(J, hl), msg.byte(s, a[0]) == z3.Select(SM, J + 2)))
            put(E, s, a[1], 1024, HM, 'hashed point')

        def args(E, s, ps, wants):
            for (what, w), p in zip(wants, ps):
                same_vec(E, s, 'verification: ' + what, content(E, s, p), w)

        def vraw(E, s, a, fr):
            args(E, s, a[:3], [('hashed point', HM), ('signature vector', DEC(body, siglen - 1)), ('public key', NTT(HPK))])
            E.prove('verification: degree 512', s, bv.icmp('eq', a[3], 9, 32))
            E.sym_bounds(s, a[4], 1024, 'verification scratch')
            s.ghost['asked'] = 1
            return bv.mk(32, V)

        def vrec(E, s, a, fr):
            args(E, s, a[1:4], [('hashed point', HM), ('first vector', DEC(body, c64(1024))), ('second vector', DEC(body + 1025, c64(1024)))])
            E.prove('verification: degree 512', s, bv.icmp('eq', a[4], 9, 32))
            E.sym_bounds(s, a[5], 1024, 'verification scratch')
            put(E, s, a[0], 1024, H2, 'recovered key')
            s.ghost['asked'] = 1
            return bv.mk(32, V)

        hz('modq_decode16' if self.wide else 'modq_decode', modq)
        hz('to_monty' if self.wide else 'to_ntt_monty', to_ntt)
        hz('comp_decode16' if self.wide else 'comp_decode', comp)
        hz(msg.h2p, h2p)
        hz('verify_raw', vraw)
        hz('verify_recover_epervier', vrec)
        conds = [z3.Select(PK, c64(0)) == 9, rpk == pklen - 1, framed, V == 1]
        if self.ep:
            conds += [siglen == 2052, z3.Select(SM, body - 1) == 0x29, z3.Select(SM, body + 1024) == 0x29,
                      CNT(body, c64(1024)) == 1024, CNT(body + 1025, c64(1024)) == 1024]
            conds += [z3.Select(HPK, c64(i)) == z3.Select(H2, c64(i)) for i in range(512)]
        else:
            conds += [z3.UGE(siglen, 1), z3.Select(SM, body - 1) == 0x29, CNT(body, siglen - 1) == siglen - 1, CNT(body, siglen - 1) != 0]
        if self.keccak:
            conds += [z3.ULE(NONCE + msglen, 4096)]
        n = 0
        L = self.label
        for s, r in E.call(self.fn, [Ptr(m.id), Ptr(ml.id), Ptr(sm.id), bv.mk(64, smlen), Ptr(pk.id)], st):
            rz = bv.z(r, 32)
            o = s.mem[m.id]
            mlv = bv.z(s.mem[ml.id].cells[0][1], 64)
            if isinstance(r, int):
                if r == 0:
                    for i, c in enumerate(conds):
                        E.prove('%s: acceptance implies condition %d' % (L, i), s, c)
                    E.prove(L + ': acceptance only after verification', s, s.ghost.get('asked') == 1)
                    E.prove(L + ': message length', s, mlv == msglen)
                    E.prove(L + ': message byte J', s, z3.Implies(z3.ULT(J, msglen), select(o.arr, J) == z3.Select(SM, 2 + NONCE + J)))
                else:
                    E.prove(L + ': rejection implies a failed condition', s, z3.Not(z3.And(*conds)))
                    E.prove(L + ': rejection writes nothing', s, z3.And(mlv == z3.BitVec('mlen0', 64), select(o.arr, J) == select(M0, J)))
            else:
                E.prove(L + ': accepts exactly when every condition holds', s, (rz == 0) == z3.And(*conds))
                E.prove(L + ': message', s, z3.If(rz == 0, z3.And(mlv == msglen, z3.Implies(z3.ULT(J, msglen), select(o.arr, J) == z3.Select(SM, 2 + NONCE + J))),
                                                  z3.And(mlv == z3.BitVec('mlen0', 64), select(o.arr, J) == select(M0, J))))
            n += 1
        R = UnitResult()
        R.check(L + ': both outcomes reached', n >= 2)
        return R.from_engine(E)


def to_monty_unit():
    """to_monty: multiplication of every coefficient by 2^16 modulo q"""
    E = Engine([csrc.module('nist16.c')], timeout=60000)
    st = State()
    h = E.new_obj(st, 'h', 1024)
    for i in range(512):
        v = bv.var('h%d' % i, 16)
        st.assume(z3.ULT(v.e, Q))
        h.cells[2 * i] = (2, v)
    R = UnitResult()
    h0 = z3.BitVec('h0', 16)
    (s, r), = E.call('to_monty', [Ptr(h.id), 9], st)
    first = None
    for i in range(512):
        t = bv.z(E._cells_load(s.mem[h.id], 2 * i, 2), 16)
        t0 = z3.simplify(z3.substitute(t, (z3.BitVec('h%d' % i, 16), h0)))
        if first is None:
            first = t0
            bad = [x for x in range(Q) if z3.simplify(z3.substitute(first, (h0, z3.BitVecVal(x, 16)))).as_long() != x * 65536 % Q]
            R.check('to_monty: coefficient is multiplied by 2^16 modulo q, all 12289 values', not bad, backend='exhaustive evaluation', note=bad and 'x = %d' % bad[0])
        if t0.eq(first):
            R.check('to_monty: coefficient %d' % i, True, backend='same term as coefficient 0')
        else:
            E.prove('to_monty: coefficient %d' % i, s, t0 == first)
    return R.from_engine(E)


def open_units():
    return [(o.label, o.run) for o in (
        Open('nist.c', 'crypto_sign_open'), Open('nist.c', 'crypto_sign_open', keccak=True),
        Open('nist16.c', 'zknox_crypto_sign_open', wide=True), Open('nist16.c', 'zknox_crypto_sign_open', keccak=True, wide=True),
        Open('epervier16.c', 'zknox_crypto_sign_open_epervier', wide=True, epervier=True))] + [('to_monty', to_monty_unit)]


# ------------------------------------------------------------------ keys and signing
SKLEN = 1281
SKPARTS = [('f', 1, 384), ('g', 385, 384), ('F', 769, 512)]
B8V = z3.ArraySort(BV64, B8)


def put8(E, st, p, n, term, what):
    """p points to a whole object of n bytes that becomes the byte array term"""
    E.sym_bounds(st, p, n, what)
    o = st.wobj(p.obj)
    if not p.concrete() or p.k or (isinstance(o.size, int) and o.size != n):
        raise Unsupported(what + ': part of an object')
    o.arr, o.elem, o.cells, o.lazy = term, 1, {}, None


def content8(E, st, p):
    o = st.mem[p.obj]
    if not p.concrete() or p.k or o.arr is None or o.elem != 1:
        raise Unsupported('byte vector argument is not a whole vector')
    return o.arr


class Randomness:
    """randombytes: every call returns fresh bytes"""

    def __init__(self, E):
        E.contracts['randombytes'] = self.call

    def call(self, E, st, a, fr):
        n = a[1]
        if not isinstance(n, int):
            raise Unsupported('random bytes of symbolic length')
        k = st.ghost.get('rnd', 0)
        st.ghost['rnd'] = k + 1
        T = z3.Const('RANDOM_%d_%d' % (n, k), B8V)
        st.ghost['rnd_%d' % n] = k + 100 * (st.ghost.get('rnd_%d' % n, 0) != 0)
        E.sym_bounds(st, a[0], n, 'random bytes')
        o = st.wobj(a[0].obj)
        if not a[0].concrete() or a[0].k or o.size != n:
            raise Unsupported('random bytes into part of an object')
        o.arr, o.elem, o.cells, o.lazy = T, 1, {}, None
        st.ghost['T%d' % n] = T
        return 0


class Sign:
    def __init__(self, cfile, fn, keccak=False, wide=False, epervier=False):
        self.cfile, self.fn, self.keccak, self.wide, self.ep = cfile, fn, keccak, wide, epervier
        self.label = fn + (' (ETHFALCON)' if keccak else '')

    def run(self):
        d = ('ETHFALCON=1',) if self.keccak else ()
        E = Engine([csrc.module(self.cfile, d), csrc.module('codec.c', d)], timeout=60000)
        E.merge_ret = False
        st = State()
        J = z3.BitVec('any_index', 64)
        L = self.label
        mlen = z3.BitVec('mlen', 64)
        st.assume(z3.ULT(mlen, 1 << 48))
        Mc, SK = z3.Const('M', B8V), z3.Const('SK', B8V)
        m = E.new_obj(st, 'm', bv.mk(64, mlen), writable=False)
        E.make_arr(m, 1, Mc)
        sk = E.new_obj(st, 'sk', SKLEN, writable=False)
        E.make_arr(sk, 1, SK)
        extra = 2094 if self.ep else 1067 if self.wide else 690
        sm = E.new_obj(st, 'sm', bv.mk(64, mlen + extra))
        S0 = z3.Const('SM0', B8V)
        E.make_arr(sm, 1, S0)
        sl = E.new_obj(st, 'smlen', 8)
        sl.cells[0] = (8, bv.var('smlen0', 64))
        vec = {k: z3.Const('DECODED_' + k, B8V) for k, _, _ in SKPARTS}
        used = {k: z3.BitVec('used_' + k, 64) for k, _, _ in SKPARTS}
        for k, _, n in SKPARTS:
            st.assume(z3.Or(used[k] == 0, used[k] == n))
        GG = z3.Const('COMPLETED_G', B8V)
        okG = z3.BitVec('completed', 32)
        st.assume(z3.Or(okG == 0, okG == 1))
        HM = z3.Const('HASHED', A16)
        ENC = z3.Function('ENCODED', A16, BV64, B8)
        ELEN = z3.Function('ENCODED_LEN', A16, BV64)
        INV = z3.Function('INVERTIBLE', A16, z3.BoolSort())
        HINT = z3.Function('HINT', A16, B16)
        hz = lambda f, c: E.contracts.__setitem__(PFX + f, c)
        deg = lambda s, x: E.prove('degree 512', s, bv.icmp('eq', x, 9, 32))

        def trim(E, s, a, fr):
            x, logn, bits, p, n = a
            deg(s, logn)
            E.sym_bounds(s, p, n, 'private key bytes')
            if p.obj != sk.id:
                raise Unsupported('private key decoded from elsewhere')
            k = s.ghost.get('trim', 0)
            s.ghost['trim'] = k + 1
            E.prove('private key: three parts', s, k < 3)
            name, off, ln = SKPARTS[min(k, 2)]
            E.prove('private key: part %s at its place, with its width' % name, s,
                    z3.And(bv.z(p.off(), 64) == off, bv.z(bits, 32) == ln // 64, z3.UGE(bv.z(n, 64), ln)))
            put8(E, s, x, 512, vec[name], 'decoded part')
            return bv.mk(64, used[name])

        def complete(E, s, a, fr):
            G, f, g, F, logn, tmp = a
            deg(s, logn)
            for nm, p in (('f', f), ('g', g), ('F', F)):
                same_vec(E, s, 'completion from ' + nm, content8(E, s, p), vec[nm])
            E.sym_bounds(s, tmp, 4 * 512, 'completion scratch')
            put8(E, s, G, 512, GG, 'completed G')
            s.ghost['completed'] = 1
            return bv.mk(32, okG)

        rnd = Randomness(E)
        msg = Msg(E, J, self.keccak)

        def h2p(E, s, a, fr):
            msg.stage(s, a[0], 1, 'hash: output of a finalised context', self.keccak)
            deg(s, a[2])
            hl = msg.length(s, a[0])
            if 'T40' not in s.ghost:
                E.prove('hash: nonce drawn before hashing', s, False)
                return
            T = s.ghost['T40']
            E.prove('hash: nonce and message hashed (length)', s, hl == NONCE + mlen)
            E.prove('hash: byte J of nonce and message', s, z3.Implies(z3.ULT(J, hl), msg.byte(s, a[0]) == z3.If(z3.ULT(J, NONCE), z3.Select(T, J), z3.Select(Mc, J - NONCE))))
            put(E, s, a[1], 1024, HM, 'hashed point')
            s.ghost['hashed'] = 1

        def sign(E, s, a, fr):
            sig, rng, f, g, F, G, hm, logn, tmp = a
            deg(s, logn)
            for nm, p in (('f', f), ('g', g), ('F', F)):
                same_vec(E, s, 'signing with ' + nm, content8(E, s, p), vec[nm])
            same_vec(E, s, 'signing with G', content8(E, s, G), GG)
            same_vec(E, s, 'signing the hashed point', content(E, s, hm), HM)
            if s.ghost.get('ctx%d' % rng.obj) != 'used':
                msg.stage(s, rng, 1, 'signing: finalised generator', False)
                hl = msg.length(s, rng)
                T = s.ghost.get('T48')
                E.prove('signing: generator seeded with 48 fresh random bytes', s,
                        z3.And(T is not None and hl == 48, T is not None and z3.Implies(z3.ULT(J, 48), msg.byte(s, rng) == z3.Select(T, J))))
                s.ghost['ctx%d' % rng.obj] = 'used'
            E.sym_bounds(s, tmp, 72 * 512, 'signing scratch')
            S2 = z3.FreshConst(A16, 'SIG')
            put(E, s, sig, 1024, S2, 'signature vector')
            o = s.wobj(tmp.obj)
            o.arr, o.elem, o.cells, o.lazy = z3.FreshConst(A16, 'SCRATCH'), 2, {}, None
            s.ghost['S2'], s.ghost['S1'] = S2, o.arr

        def encode(E, s, a, fr):
            out, mx, x, logn = a
            deg(s, logn)
            v = content(E, s, x)
            E.sym_bounds(s, out, mx, 'signature encoding')
            n, mxz = ELEN(v), bv.z(mx, 64)
            k = s.ghost.get('nenc', 0)
            s.ghost['nenc'] = k + 1
            s.ghost['E%d' % k] = v
            if 'S2' not in s.ghost:
                raise Unsupported('encoding before signing')
            src = s.ghost['S1'] if self.ep and k == 0 else s.ghost['S2']
            E.prove('encoding: element J of the signature vector', s, select(v, J & 511) == select(src, J & 511))
            if self.wide:
                s.assume(z3.Or(n == 0, n == 1024))
            r = z3.If(z3.ULE(n, mxz), n, c64(0))
            o = s.wobj(out.obj)
            if o.arr is None:
                E.make_arr(o, 1)
            i = z3.FreshConst(BV64, 'i')
            d = i - bv.z(out.off(), 64)
            H = z3.FreshConst(B8V, 'clobbered')
            o.arr = z3.Lambda([i], z3.If(z3.ULT(d, r), ENC(v, d), z3.If(z3.ULT(d, mxz), z3.Select(H, i), z3.Select(o.arr, i))))
            return bv.mk(64, r)

        def invertible(E, s, a, fr):
            deg(s, a[1])
            v = content(E, s, a[0])
            E.sym_bounds(s, a[2], 1024, 'scratch')
            o = s.wobj(a[2].obj)
            o.arr = z3.FreshConst(A16, 'SCRATCH')
            return bv.mk(32, z3.If(INV(v), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))

        def hint(E, s, a, fr):
            deg(s, a[1])
            v = content(E, s, a[0])
            h = HINT(v)
            s.assume(z3.ULT(h, Q))
            return bv.mk(16, h)

        for f, c in (('trim_i8_decode', trim), ('complete_private', complete), (msg.h2p, h2p), ('sign_dyn', sign),
                     ('comp_encode16' if self.wide else 'comp_encode', encode), ('is_invertible', invertible), ('hint_epervier', hint)):
            hz(f, c)
        if self.ep:
            E.loop_specs = [Resample(self.fn)]
        keyok = [z3.Select(SK, c64(0)) == 0x59] + [used[k] == n for k, _, n in SKPARTS] + [okG == 1]
        nret = 0
        for s, r in E.call(self.fn, [Ptr(sm.id), Ptr(sl.id), Ptr(m.id), bv.mk(64, mlen), Ptr(sk.id)], st):
            nret += 1
            slv = bv.z(s.mem[sl.id].cells[0][1], 64)
            A = s.mem[sm.id].arr
            if not isinstance(r, int):
                raise Unsupported('symbolic result')
            cap = 2094 - 42 if self.ep else 1067 - 42 if self.wide else 690 - 42
            if r != 0:
                g = s.ghost
                enc = []
                if 'S2' in g:
                    v = g.get('E0', g['S2'])
                    if self.ep:
                        enc = [ELEN(g['E%d' % k]) == 1024 for k in range(g.get('nenc', 0))]
                    else:
                        enc = [z3.And(ELEN(v) != 0, z3.ULE(ELEN(v), cap - 1))]
                fit = [z3.ULE(NONCE + mlen, 4096)] if self.keccak else []
                E.prove(L + ': fails only for an invalid private key, an unencodable signature or a message that does not fit the hash', s, z3.Not(z3.And(*(keyok + enc + fit))))
                E.prove(L + ': failure writes nothing', s, z3.And(slv == z3.BitVec('smlen0', 64), select(A, J) == select(S0, J)))
                continue
            for i, c in enumerate(keyok):
                E.prove('%s: signs only with a valid private key (%d)' % (L, i), s, c)
            g = s.ghost
            E.prove(L + ': hash computed and signature made', s, g.get('hashed') == 1 and 'S2' in g and g.get('completed') == 1 and g.get('trim') == 3)
            T, v = g['T40'], g['S2']
            E.prove(L + ': number of encoded vectors', s, g.get('nenc') == (2 if self.ep else 1))
            if self.ep:
                n = c64(2052)
                E.prove(L + ': the second vector is invertible', s, INV(v))
                w = select(z3.Const('unused', B8V), J)
                d = J - (2 + NONCE + mlen)
                h = HINT(v)
                body = z3.If(d == 0, z3.BitVecVal(0x29, 8), z3.If(z3.ULT(d, 1025), ENC(g['E0'], d - 1), z3.If(d == 1025, z3.BitVecVal(0x29, 8), z3.If(
                    z3.ULT(d, 2050), ENC(g['E1'], d - 1026), z3.If(d == 2050, z3.Extract(15, 8, h), z3.Extract(7, 0, h))))))
            else:
                n = ELEN(g['E0']) + 1
                E.prove(L + ': signature encodable in the fixed maximal length', s, z3.And(ELEN(g['E0']) != 0, z3.ULE(ELEN(g['E0']), cap - 1)))
                d = J - (2 + NONCE + mlen)
                body = z3.If(d == 0, z3.BitVecVal(0x29, 8), ENC(g['E0'], d - 1))
            E.prove(L + ': total length', s, slv == 2 + NONCE + mlen + n)
            want = z3.If(J == 0, z3.Extract(15, 8, n), z3.If(J == 1, z3.Extract(7, 0, n), z3.If(z3.ULT(J, 42), z3.Select(T, J - 2), z3.If(
                z3.ULT(J, 42 + mlen), z3.Select(Mc, J - 42), body))))
            E.prove(L + ': byte J of length, nonce, message, signature', s, z3.Implies(z3.ULT(J, slv), select(A, J) == want))
            E.prove(L + ': nothing written beyond the signed message', s, z3.Implies(z3.UGE(J, slv), select(A, J) == select(S0, J)))
            E.prove(L + ': nonce and seed are different random bytes', s, 'T40' in g and 'T48' in g and g['rnd'] == 2)
        R = UnitResult()
        R.check(L + ': both outcomes reached', nret >= 2)
        return R.from_engine(E)


class Resample(LoopSpec):
    """Epervier signing repeats until the second vector is invertible (partial correctness)"""
    ghost = ('S1', 'S2')

    def __init__(self, fn):
        LoopSpec.__init__(self, fn, 0, name='resample')

    def invariants(self, E, L):
        return []


def sign_units():
    return [(o.label, o.run) for o in (
        Sign('nist.c', 'crypto_sign'), Sign('nist.c', 'crypto_sign', keccak=True),
        Sign('nist16.c', 'zknox_crypto_sign', wide=True), Sign('nist16.c', 'zknox_crypto_sign', keccak=True, wide=True),
        Sign('epervier16.c', 'zknox_crypto_sign_epervier', wide=True, epervier=True))]


class Keypair:
    def __init__(self, cfile, fn, wide, seeded):
        self.cfile, self.fn, self.wide, self.seeded = cfile, fn, wide, seeded
        self.label = fn

    def run(self):
        E = Engine([csrc.module(self.cfile), csrc.module('codec.c')], timeout=60000)
        E.merge_ret = False
        st = State()
        J = z3.BitVec('any_index', 64)
        L = self.label
        plen = 1025 if self.wide else 897
        pk, sk = E.new_obj(st, 'pk', plen), E.new_obj(st, 'sk', SKLEN)
        E.make_arr(pk, 1, z3.Const('PK0', B8V))
        E.make_arr(sk, 1, z3.Const('SK0', B8V))
        slen = z3.BitVec('seedlen', 64)
        st.assume(z3.ULT(slen, 1 << 48))
        SEED = z3.Const('SEED', B8V)
        sd = E.new_obj(st, 'seed_in', bv.mk(64, slen), writable=False)
        E.make_arr(sd, 1, SEED)
        vec = {k: z3.Const('GENERATED_' + k, B8V) for k in 'fgF'}
        H = z3.Const('GENERATED_h', A16)
        NTT = z3.Function('ntt_form', A16, A16)
        EN8 = z3.Function('ENCODED_8', B8V, B16, BV64, B8)
        OK8 = z3.Function('ENCODABLE_8', B8V, B16, z3.BoolSort())
        ENH = z3.Function('ENCODED_pk', A16, BV64, B8)
        OKH = z3.Function('ENCODABLE_pk', A16, z3.BoolSort())
        deg = lambda s, x: E.prove('degree 512', s, bv.icmp('eq', x, 9, 32))
        Randomness(E)
        msg = Msg(E, J, False)

        def keygen(E, s, a, fr):
            rng, f, g, F, G, h, logn, tmp = a
            deg(s, logn)
            msg.stage(s, rng, 1, 'key generation: finalised generator', False)
            hl = msg.length(s, rng)
            if self.seeded:
                n, T = slen, SEED
            else:
                n, T = c64(48), s.ghost.get('T48')
                if T is None:
                    E.prove('key generation: random seed', s, False)
                    T = SEED
            E.prove('key generation: the whole seed is absorbed (length)', s, hl == n)
            E.prove('key generation: seed byte J', s, z3.Implies(z3.ULT(J, n), msg.byte(s, rng) == z3.Select(T, J)))
            E.sym_bounds(s, tmp, 28 * 512, 'key generation scratch')
            for p, k in ((f, 'f'), (g, 'g'), (F, 'F')):
                put8(E, s, p, 512, vec[k], 'generated ' + k)
            if G.obj is not None:
                put8(E, s, G, 512, z3.Const('GENERATED_G', B8V), 'generated G')
            put(E, s, h, 1024, H, 'generated public key')
            s.ghost['gen'] = s.ghost.get('gen', 0) + 1

        def to_ntt(E, s, a, fr):
            deg(s, a[1])
            v = content(E, s, a[0])
            put(E, s, a[0], 1024, NTT(v), 'transformed key')

        def emit(E, s, out, mx, need, byte, ok):
            E.sym_bounds(s, out, mx, 'encoding')
            r = z3.If(z3.And(ok, z3.UGE(bv.z(mx, 64), need)), c64(need), c64(0))
            o = s.wobj(out.obj)
            i = z3.FreshConst(BV64, 'i')
            d = i - bv.z(out.off(), 64)
            o.arr = z3.Lambda([i], z3.If(z3.ULT(d, r), byte(d), z3.Select(o.arr, i)))
            return bv.mk(64, r)

        def trim(E, s, a, fr):
            out, mx, x, logn, bits = a
            deg(s, logn)
            if not isinstance(bits, int):
                raise Unsupported('symbolic width')
            v = content8(E, s, x)
            b = z3.BitVecVal(bits, 16)
            return emit(E, s, out, mx, 64 * bits, lambda d: EN8(v, b, d), OK8(v, b))

        def modq(E, s, a, fr):
            out, mx, x, logn = a
            deg(s, logn)
            v = content(E, s, x)
            return emit(E, s, out, mx, plen - 1, lambda d: ENH(v, d), OKH(v))

        for f, c in (('keygen', keygen), ('to_ntt', to_ntt), ('trim_i8_encode', trim), ('modq_encode16' if self.wide else 'modq_encode', modq)):
            E.contracts[PFX + f] = c
        h = NTT(H) if self.wide else H
        six, eight = z3.BitVecVal(6, 16), z3.BitVecVal(8, 16)
        conds = [OK8(vec['f'], six), OK8(vec['g'], six), OK8(vec['F'], eight), OKH(h)]
        if self.seeded:
            conds.append(z3.UGE(slen, 32))
        args = [Ptr(pk.id), Ptr(sk.id)] + ([Ptr(sd.id), bv.mk(64, slen)] if self.seeded else [])
        nret = 0
        for s, r in E.call(self.fn, args, st):
            nret += 1
            if not isinstance(r, int):
                raise Unsupported('symbolic result')
            if r != 0:
                E.prove(L + ': fails only for a short seed or an unencodable key', s, z3.Not(z3.And(*conds)))
                continue
            for i, c in enumerate(conds):
                E.prove('%s: success implies condition %d' % (L, i), s, c)
            E.prove(L + ': one key generated', s, s.ghost.get('gen') == 1)
            A = s.mem[sk.id].arr
            want = z3.If(J == 0, z3.BitVecVal(0x59, 8), z3.If(z3.ULT(J, 385), EN8(vec['f'], six, J - 1), z3.If(z3.ULT(J, 769), EN8(vec['g'], six, J - 385), EN8(vec['F'], eight, J - 769))))
            E.prove(L + ': private key byte J', s, z3.Implies(z3.ULT(J, SKLEN), select(A, J) == want))
            A = s.mem[pk.id].arr
            E.prove(L + ': public key byte J', s, z3.Implies(z3.ULT(J, plen), select(A, J) == z3.If(J == 0, z3.BitVecVal(9, 8), ENH(h, J - 1))))
        R = UnitResult()
        R.check(L + ': both outcomes reached', nret >= 2)
        return R.from_engine(E)


def pk_epervier_unit():
    E = Engine([csrc.module('epervier16.c')], timeout=60000)
    E.merge_ret = False
    st = State()
    J = z3.BitVec('any_index', 64)
    PK = z3.Const('PK', B8V)
    pk = E.new_obj(st, 'pk', 1025)
    E.make_arr(pk, 1, PK)
    H = z3.Const('DECODED_PK', A16)
    r0 = z3.BitVec('pk_bytes_used', 64)
    st.assume(z3.Or(r0 == 0, r0 == 1024))

    def dec(E, s, a, fr):
        E.prove('degree 512', s, bv.icmp('eq', a[1], 9, 32))
        E.prove('pk_epervier: the body is decoded', s, z3.And(a[2].obj == pk.id, bv.z(a[2].off(), 64) == 1, bv.z(a[3], 64) == 1024))
        put(E, s, a[0], 1024, H, 'decoded key')
        return bv.mk(64, r0)

    def enc(E, s, a, fr):
        E.prove('degree 512', s, bv.icmp('eq', a[3], 9, 32))
        E.sym_bounds(s, a[0], a[1], 'encoding')
        same_vec(E, s, 'pk_epervier: the decoded key is encoded', content(E, s, a[2]), H)
        # C02: encoding the decoded vector gives back the bytes it came from
        ok = z3.And(r0 == 1024, z3.UGE(bv.z(a[1], 64), 1024))
        o = s.wobj(a[0].obj)
        i = z3.FreshConst(BV64, 'i')
        d = i - bv.z(a[0].off(), 64)
        o.arr = z3.Lambda([i], z3.If(z3.And(ok, z3.ULT(d, 1024)), z3.Select(PK, d + 1), z3.Select(o.arr, i)))
        return bv.mk(64, z3.If(ok, c64(1024), c64(0)))
    E.contracts[PFX + 'modq_decode16'] = dec
    E.contracts[PFX + 'modq_encode16'] = enc
    for s, r in E.call('zknox_pk_epervier', [Ptr(pk.id)], st):
        ok = z3.And(z3.Select(PK, c64(0)) == 9, r0 == 1024)
        E.prove('pk_epervier: succeeds exactly for a valid key', s, bv.zb(bv.icmp('eq', r, 0, 32)) == ok)
        E.prove('pk_epervier: the key is left as it is', s, z3.Implies(z3.ULT(J, 1025), select(s.mem[pk.id].arr, J) == z3.Select(PK, J)))
    return UnitResult().from_engine(E)


def key_units():
    return [(k.label, k.run) for k in (
        Keypair('nist.c', 'crypto_sign_keypair', False, False), Keypair('nist.c', 'crypto_sign_keypair_from_seed', False, True),
        Keypair('nist16.c', 'zknox_crypto_sign_keypair', True, False), Keypair('nist16.c', 'zknox_crypto_sign_keypair_from_seed', True, True))] + [
        ('zknox_pk_epervier', pk_epervier_unit)]
