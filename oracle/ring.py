"""Z_q[X]/(X^n+1), independently of the code under test (schoolbook products, Fermat inverses)."""
import numpy as np

Q = 12289
BOUNDS = [0, 101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242]


def mul(a, b):
    n = len(a)
    a = np.array(a, dtype=np.int64) % Q
    b = np.array(b, dtype=np.int64) % Q
    full = np.zeros(2 * n, dtype=np.int64)
    for i in range(n):
        if a[i]:
            full[i:i + n] += a[i] * b % Q
    return ((full[:n] - full[n:]) % Q).tolist()


_R = {}


def roots(logn):
    """the n roots of X^n + 1"""
    if logn not in _R:
        n = 1 << logn
        g = pow(11, (Q - 1) // (2 * n), Q)        # 11 generates Z_q^*
        assert pow(g, n, Q) == Q - 1
        r = [pow(g, 2 * i + 1, Q) for i in range(n)]
        W = np.ones((n, n), dtype=np.int64)
        for i in range(1, n):
            W[:, i] = W[:, i - 1] * np.array(r) % Q
        _R[logn] = (r, W)
    return _R[logn]


def evals(a, logn):
    r, W = roots(logn)
    return [int(x) for x in (W @ (np.array(a, dtype=np.int64) % Q)) % Q]


def interp(v, logn):
    """inverse of evals"""
    n = 1 << logn
    r, W = roots(logn)
    ni = pow(n, -1, Q)
    ri = np.array([pow(x, -1, Q) for x in r], dtype=np.int64)
    out = []
    p = np.array(v, dtype=np.int64) * ni % Q
    for i in range(n):
        out.append(int(p.sum() % Q))
        p = p * ri % Q
    return out


def inverse(a, logn):
    v = evals(a, logn)
    if 0 in v:
        return None
    return interp([pow(x, -1, Q) for x in v], logn)


def center(x):
    x %= Q
    return x - Q if x > Q // 2 else x


def noninvertible(rng, logn, bound=40):
    """a short polynomial with a zero in its transform"""
    n = 1 << logn
    r, _ = roots(logn)
    while True:
        a = [rng.randrange(-bound, bound + 1) for _ in range(n)]
        x = rng.choice(r)
        i, j = (0, 1) if n == 2 or rng.random() < .5 else rng.sample(range(n), 2)
        a[i] = a[j] = 0
        v = sum(c * pow(x, k, Q) for k, c in enumerate(a)) % Q
        xi, xj = pow(x, i, Q), pow(x, j, Q)
        ii = pow(xi, -1, Q)
        for aj in range(-127, 128):
            ai = center(-(v + aj * xj) * ii)
            if -127 <= ai <= 127:
                a[i], a[j] = ai, aj
                return a
