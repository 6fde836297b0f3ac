"""Concrete search for violations of the ring, norm and verification contracts on the real C code."""
import ctypes
import random
import csrc
import native
import ring
from native import Guard, i8, i16, u16, un16

Q = 12289
P = 'falcon_inner_'

MQ = r'''
int vx_mq(unsigned *rx, unsigned *ry)
{
	unsigned x, y;
	for (x = 0; x < 12289; x ++) {
		*rx = x; *ry = 0;
		if (mq_rshift1(x) != (x & 1 ? (x + 12289) / 2 : x / 2)) return 1;
		for (y = 0; y < 12289; y ++) {
			unsigned m;
			*ry = y;
			if (mq_add(x, y) != (x + y) % 12289) return 2;
			if (mq_sub(x, y) != (x + 12289 - y) % 12289) return 3;
			m = mq_montymul(x, y);
			if (m >= 12289 || ((unsigned long long)m * 65536) % 12289 != (x * y) % 12289) return 4;
		}
	}
	return 0;
}
int vx_div(unsigned *rx, unsigned *ry)
{
	unsigned x, y;
	for (y = 0; y < 12289; y ++) {
		unsigned xs[6] = {0, 1, 12288, 1 + y * 7919 % 12288, 2, 1 + y * 31 % 12288}, i;
		for (i = 0; i < 6; i ++) {
			x = xs[i];
			*rx = x; *ry = y;
			m: ;
			{ unsigned d = mq_div_12289(x, y);
			if (y == 0 ? d != 0 : (d >= 12289 || (d * y) % 12289 != x)) return 5; }
		}
	}
	return 0;
}
int vx_conv(unsigned *rx, unsigned *ry)
{
	int x;
	for (x = -6144; x <= 6144; x ++) { *rx = (unsigned)x; *ry = 0;
		if (mq_conv_small(x) != (uint32_t)((x + 12289) % 12289)) return 6; }
	return 0;
}
'''
NAMES = {1: 'mq_rshift1', 2: 'mq_add', 3: 'mq_sub', 4: 'mq_montymul', 5: 'mq_div_12289', 6: 'mq_conv_small'}


def lib():
    return ctypes.CDLL(csrc.shared(csrc.CORE, name='ring'))


def mod_search():
    """exhaustive over all operand pairs"""
    try:
        L = ctypes.CDLL(csrc.shared(csrc.CORE, name='mq', wrap={'vrfy.c': MQ}, extra=('-O2',)))
    except csrc.BuildError:
        return None
    for f in ('vx_conv', 'vx_mq', 'vx_div'):
        x, y = ctypes.c_uint(), ctypes.c_uint()
        r = getattr(L, f)(ctypes.byref(x), ctypes.byref(y))
        if r:
            return dict(input=dict(function=NAMES[r], x=x.value, y=y.value), observed='%s(%d, %d) is wrong' % (NAMES[r], x.value, y.value))
    return None


def pick_logn(rng):
    return rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9, 10])


def small_poly(rng, n, b):
    k = rng.randrange(5)
    if k == 0:
        return [rng.choice([-b, b, 0]) for _ in range(n)]
    if k == 1:
        p = [0] * n
        p[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice([1, -1, b, -b])
        return p
    if k == 2:
        return [rng.randrange(-b, b + 1) for _ in range(n)]
    return [rng.randrange(-min(b, 6), min(b, 6) + 1) for _ in range(n)]


# ------------------------------------------------------------------ C04
def ring_cases(seed):
    rng = random.Random(seed)
    while True:
        logn = pick_logn(rng)
        n = 1 << logn
        f = ring.noninvertible(rng, logn) if rng.random() < .25 else small_poly(rng, n, rng.choice([1, 5, 127]))
        g = small_poly(rng, n, rng.choice([1, 5, 127]))
        yield dict(f='pub', logn=logn, fp=f, g=g)
        yield dict(f='inv', logn=logn, s=[rng.choice([1, -1]) * rng.randrange(6145) for _ in range(n)] if rng.random() < .4 else f)
        # private completion: choose f, G small, then F = (q + f G)/g needs divisibility; mod q: g F = f G
        k = rng.randrange(3)
        G = small_poly(rng, n, rng.choice([5, 127]))
        if k == 0:
            F = small_poly(rng, n, 127)
        else:
            f2 = [1] + [0] * (n - 1) if k == 1 else f
            f = f2
            g = [1] + [0] * (n - 1)
            F = None
            gF = [ring.center(x) for x in ring.mul(f, G)]
            if max(map(abs, gF)) <= 127:
                F = gF
            else:
                f, F = [1] + [0] * (n - 1), G
            if rng.random() < .3:
                F = list(F)
                g = [rng.choice([1, 2, -2])] + [0] * (n - 1)
        yield dict(f='priv', logn=logn, fp=f, g=g, F=F)
        h = [rng.choice([0, 1, Q - 1, rng.randrange(Q)]) for _ in range(n)] if rng.random() < .5 else [rng.randrange(Q) for _ in range(n)]
        if rng.random() < .2:
            h = [0] * n
            h[rng.randrange(n)] = rng.choice([1, Q - 1])
        yield dict(f='ntt', logn=logn, h=h)


def ring_test(L):
    base = {}

    def order(logn):
        """which root each output of to_ntt evaluates at (from the transform of X)"""
        if logn not in base:
            n = 1 << logn
            p = [0] * n
            p[1 if n > 1 else 0] = 1
            g = Guard(2 * n, u16(p), align=2)
            getattr(L, P + 'to_ntt')(g.ptr(), ctypes.c_uint(logn))
            base[logn] = un16(g.bytes())
            g.free()
        return base[logn]

    def test(c):
        logn = c['logn']
        n = 1 << logn
        U = ctypes.c_uint(logn)
        if c['f'] == 'pub':
            h, f, g, t = Guard(2 * n, align=2), Guard(n, i8(c['fp'])), Guard(n, i8(c['g'])), Guard(2 * n, align=2)
            r = getattr(L, P + 'compute_public')(h.ptr(), f.ptr(), g.ptr(), U, t.ptr())
            got = un16(h.bytes())
            ok = all(x.ok() for x in (h, f, g, t)) and f.bytes() == i8(c['fp']) and g.bytes() == i8(c['g'])
            for x in (h, f, g, t):
                x.free()
            if not ok:
                return 'compute_public wrote outside its output'
            fi = ring.inverse(c['fp'], logn)
            if fi is None:
                return None if r == 0 else 'compute_public accepted a non-invertible f'
            if r != 1:
                return 'compute_public returned %d for an invertible f' % r
            want = ring.mul(fi, c['g'])
            return None if got == want else 'compute_public: h is not g/f'
        if c['f'] == 'inv':
            s, t = Guard(2 * n, i16(c['s']), align=2), Guard(2 * n, align=2)
            r = getattr(L, P + 'is_invertible')(s.ptr(), U, t.ptr())
            ok = s.ok() and t.ok()
            s.free(), t.free()
            if not ok:
                return 'is_invertible wrote outside its buffers'
            want = 0 not in ring.evals(c['s'], logn)
            return None if r == int(want) else 'is_invertible returned %d, expected %d' % (r, want)
        if c['f'] == 'priv':
            G, t = Guard(n), Guard(4 * n, align=2)
            f, g, F = (Guard(n, i8(c[k])) for k in ('fp', 'g', 'F'))
            r = getattr(L, P + 'complete_private')(G.ptr(), f.ptr(), g.ptr(), F.ptr(), U, t.ptr())
            got = [x - 256 if x > 127 else x for x in G.bytes()]
            ok = all(x.ok() for x in (G, t, f, g, F))
            for x in (G, t, f, g, F):
                x.free()
            if not ok:
                return 'complete_private wrote outside its buffers'
            fi = ring.inverse(c['fp'], logn)
            if fi is None:
                return None if r == 0 else 'complete_private accepted a non-invertible f'
            want = [ring.center(x) for x in ring.mul(fi, ring.mul(c['g'], c['F']))]
            if max(map(abs, want)) > 127:
                return None if r == 0 else 'complete_private accepted a key whose G is out of range'
            if r != 1:
                return 'complete_private returned %d on a valid key' % r
            return None if got == want else 'complete_private: G is not g F / f'
        h = Guard(2 * n, u16(c['h']), align=2)
        getattr(L, P + 'to_ntt')(h.ptr(), U)
        a = un16(h.bytes())
        ok = h.ok()
        h.free()
        h = Guard(2 * n, u16(c['h']), align=2)
        getattr(L, P + 'to_ntt_monty')(h.ptr(), U)
        b = un16(h.bytes())
        ok = ok and h.ok()
        h.free()
        if not ok:
            return 'transform wrote outside its buffer'
        r = order(logn)
        if sorted(r) != sorted(ring.roots(logn)[0]):
            return 'to_ntt does not evaluate X at the n distinct roots of X^n+1'
        ev = dict(zip(ring.roots(logn)[0], ring.evals(c['h'], logn)))
        for i in range(n):
            if a[i] != ev[r[i]]:
                return 'to_ntt: coefficient %d is %d, expected %d' % (i, a[i], ev[r[i]])
            if b[i] != ev[r[i]] * 65536 % Q:
                return 'to_ntt_monty: coefficient %d is %d, expected %d' % (i, b[i], ev[r[i]] * 65536 % Q)
        return None
    return test


def search_ring(failed, seed, budget):
    return mod_search() or native.run_cases(ring_cases(seed), ring_test(lib()), budget)


# ------------------------------------------------------------------ C05
def to_norm(rng, v, target, lim):
    """changes the first entries of v (ints) so that the squared norm of v is exactly target (4 squares), or None"""
    v = list(v)
    k = rng.sample(range(len(v)), min(4, len(v)))
    for i in k:
        v[i] = 0
    rest = target - sum(x * x for x in v)
    if rest < 0:
        return None
    for _ in range(400):
        left = rest
        out = []
        for _ in k[:-2]:
            m = min(lim, int(left ** .5))
            x = rng.randrange(max(0, m - 60), m + 1) if rng.random() < .5 else rng.randrange(0, m + 1)
            out.append(x)
            left -= x * x
        m = int(left ** .5) + 1
        for a in range(m, max(-1, m - 3000), -1):
            b2 = left - a * a
            if b2 < 0:
                continue
            b = int(round(b2 ** .5))
            if b * b == b2 and a <= lim and b <= lim:
                for i, x in zip(k, out + [a, b]):
                    v[i] = x * rng.choice([1, -1])
                return v
    return None


def norm_vectors(rng, logn, lim=6144):
    """(s1, s2) of chosen squared norm, mostly next to the bound"""
    n = 1 << logn
    B = ring.BOUNDS[logn]
    while True:
        mode = rng.randrange(6)
        if mode == 5:
            amp = rng.choice([lim, lim // 2, int((B / (2 * n)) ** .5) + 1])
            v = [rng.randrange(-min(amp, lim), min(amp, lim) + 1) for _ in range(2 * n)]
            return v[:n], v[n:]
        t = B + rng.choice([0, 0, 1, 1, -1, 2, -2, 100, -100, 65536, rng.randrange(-B, 4 * B)])
        a = rng.choice([0, 0, int((B / (2 * n)) ** .5 * rng.choice([.3, .9, .98])), int((B / n) ** .5 * .7)])
        half = rng.randrange(3)
        v = [rng.randrange(-a, a + 1) if a else 0 for _ in range(2 * n)]
        if half == 1:
            v = v[:n] + [0] * n
        elif half == 2:
            v = [0] * n + v[n:]
        if rng.random() < .4:
            # all the weight on the last, or the first, entries of a half
            v = [0] * (2 * n)
            pos = rng.sample([0, n - 1, n, 2 * n - 1, 1, n + 1], 3) if n > 2 else [0, 1, 2]
            if rng.random() < .5:
                pos = [rng.choice([0, n - 1, n, 2 * n - 1])]
            r = int((t / len(pos)) ** .5) if t > 0 else 0
            for p in pos:
                v[p] = min(lim, r + rng.choice([-1, 0, 1, 2])) * rng.choice([1, -1])
            return v[:n], v[n:]
        w = to_norm(rng, v, t, lim) if t > 0 else None
        if w:
            return w[:n], w[n:]


def verify_cases(seed):
    rng = random.Random(seed)
    while True:
        logn = pick_logn(rng)
        n = 1 << logn
        s1, s2 = norm_vectors(rng, logn)
        h = [rng.randrange(Q) for _ in range(n)]
        if rng.random() < .2:
            h = [rng.choice([0, 1, Q - 1]) for _ in range(n)]
        yield dict(f='verify', logn=logn, s1=s1, s2=s2, h=h)
        if rng.random() < .5:
            s1, s2 = norm_vectors(rng, logn, 32767)
        if rng.random() < .2:
            s1 = [rng.choice([-32768, 32767, 0]) if rng.random() < rng.choice([.001, .1, 1]) else x for x in s1]
        if rng.random() < .2:
            s2 = [rng.choice([-32768, 32767, 0]) if rng.random() < rng.choice([.001, .1, 1]) else x for x in s2]
        if logn >= 2 and rng.random() < .1:
            s1, s2 = [0] * n, [0] * n              # sum of squares exactly 2^32, or 2^31
            for x, k in ((s1, rng.choice([1, 2, 0])), (s2, rng.choice([1, 2]))):
                for i in rng.sample(range(n), k):
                    x[i] = -32768
        yield dict(f='short', logn=logn, s1=s1, s2=s2)
        sq = sum(x * x for x in s1)
        sq = sq if sq < 1 << 31 else rng.choice([1 << 31, 0xFFFFFFFF])
        if rng.random() < .1:
            sq = rng.choice([0, ring.BOUNDS[logn], ring.BOUNDS[logn] + 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF])
        yield dict(f='half', logn=logn, sq=sq, s2=s2)


def verify_test(L):
    def test(c):
        logn = c['logn']
        n = 1 << logn
        U = ctypes.c_uint(logn)
        B = ring.BOUNDS[logn]
        if c['f'] == 'verify':
            c0 = [(a + b) % Q for a, b in zip(c['s1'], ring.mul(c['s2'], c['h']))]
            hm = Guard(2 * n, u16(c['h']), align=2)
            getattr(L, P + 'to_ntt_monty')(hm.ptr(), U)
            a, s2, t = Guard(2 * n, u16(c0), align=2), Guard(2 * n, i16(c['s2']), align=2), Guard(2 * n, align=2)
            r = getattr(L, P + 'verify_raw')(a.ptr(), s2.ptr(), hm.ptr(), U, t.ptr())
            ok = all(x.ok() for x in (hm, a, s2, t)) and s2.bytes() == i16(c['s2']) and a.bytes() == u16(c0)
            for x in (hm, a, s2, t):
                x.free()
            if not ok:
                return 'verify_raw wrote outside its scratch buffer'
            nrm = sum(x * x for x in c['s1'] + c['s2'])
            want = int(nrm <= B)
            return None if r == want else 'verify_raw returned %d for a signature of squared norm %d (bound %d)' % (r, nrm, B)
        s2 = Guard(2 * n, i16(c['s2']), align=2)
        if c['f'] == 'short':
            s1 = Guard(2 * n, i16(c['s1']), align=2)
            r = getattr(L, P + 'is_short')(s1.ptr(), s2.ptr(), U)
            s1.free(), s2.free()
            nrm = sum(x * x for x in c['s1'] + c['s2'])
        else:
            r = getattr(L, P + 'is_short_half')(ctypes.c_uint32(c['sq']), s2.ptr(), U)
            s2.free()
            nrm = (c['sq'] if c['sq'] < 1 << 31 else 1 << 40) + sum(x * x for x in c['s2'])
        want = int(nrm <= B)
        return None if r == want else 'norm test returned %d for squared norm %d (bound %d)' % (r, nrm, B)
    return test


def search_verify(failed, seed, budget):
    return native.run_cases(verify_cases(seed), verify_test(lib()), budget)


# ------------------------------------------------------------------ C12
def recover_cases(seed):
    rng = random.Random(seed)
    while True:
        logn = pick_logn(rng)
        n = 1 << logn
        s1, s2 = norm_vectors(rng, logn)
        if rng.random() < .3:
            s2 = ring.noninvertible(rng, logn)
            if rng.random() < .5:
                s1 = [x // 8 for x in s1]
        if rng.random() < .1:
            s2 = [0] * n
        h = [rng.randrange(Q) for _ in range(n)]
        if rng.random() < .2:
            h = [rng.choice([0, 1, Q - 1]) for _ in range(n)]
        yield dict(f='recover', logn=logn, s1=s1, s2=s2, h=h)
        yield dict(f='recover_ep', logn=logn, s1=s1, s2=s2, h=h)
        if logn <= 9:
            yield dict(f='hint', logn=logn, s2=s2)


def recover_test(L):
    getattr(L, P + 'hint_epervier').restype = ctypes.c_uint16

    def test(c):
        logn = c['logn']
        n = 1 << logn
        U = ctypes.c_uint(logn)
        ev = ring.evals(c['s2'], logn)
        s2 = Guard(2 * n, i16(c['s2']), align=2)
        if c['f'] == 'hint':
            r = getattr(L, P + 'hint_epervier')(s2.ptr(), U)
            ok = s2.ok()
            s2.free()
            if not ok:
                return 'hint_epervier wrote outside its buffers'
            p = 1
            for x in ev:
                p = p * x % Q
            want = pow(p, -1, Q) if p else 0
            return None if r == want else 'hint_epervier returned %d, expected %d' % (r, want)
        c0 = [(a + b) % Q for a, b in zip(c['s1'], ring.mul(c['s2'], c['h']))]
        h, a, s1, t = Guard(2 * n, align=2), Guard(2 * n, u16(c0), align=2), Guard(2 * n, i16(c['s1']), align=2), Guard(2 * n, align=2)
        r = getattr(L, P + ('verify_recover' if c['f'] == 'recover' else 'verify_recover_epervier'))(h.ptr(), a.ptr(), s1.ptr(), s2.ptr(), U, t.ptr())
        got = un16(h.bytes())
        ok = all(x.ok() for x in (h, a, s1, s2, t)) and s1.bytes() == i16(c['s1']) and s2.bytes() == i16(c['s2'])
        for x in (h, a, s1, s2, t):
            x.free()
        if not ok:
            return '%s wrote outside its buffers' % c['f']
        nrm = sum(x * x for x in c['s1'] + c['s2'])
        want = int(nrm <= ring.BOUNDS[logn] and 0 not in ev)
        if r != want:
            return '%s returned %d, expected %d (squared norm %d, bound %d, s2 %sinvertible)' % (c['f'], r, want, nrm, ring.BOUNDS[logn], 'not ' if 0 in ev else '')
        if not want:
            return None
        hw = c['h']
        if c['f'] == 'recover_ep':
            g = Guard(2 * n, u16(c['h']), align=2)
            getattr(L, P + 'to_ntt')(g.ptr(), U)
            hw = un16(g.bytes())
            g.free()
        return None if got == hw else '%s: recovered key differs from (c0 - s1)/s2' % c['f']
    return test


def search_recover(failed, seed, budget):
    return native.run_cases(recover_cases(seed), recover_test(lib()), budget)
