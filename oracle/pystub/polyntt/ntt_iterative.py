"""Exact transforms over Z_q: evaluation at the roots of X^n + 1 (bit-reversed order), numpy."""
import numpy as np


def _root(n, q):
    """a primitive 2n-th root of unity"""
    for g in range(2, q):
        w = pow(g, (q - 1) // (2 * n), q)
        if pow(w, n, q) == q - 1:
            return w
    raise ValueError(n)


_TAB = {}


def _tables(n, q):
    if (n, q) not in _TAB:
        w = _root(n, q)
        lg = n.bit_length() - 1
        br = [int(format(i, '0%db' % lg)[::-1], 2) if lg else 0 for i in range(n)]
        pts = [pow(w, 2 * b + 1, q) for b in br]
        V = np.ones((n, n), dtype=np.int64)
        p = np.array(pts, dtype=np.int64)
        for i in range(1, n):
            V[:, i] = V[:, i - 1] * p % q
        _TAB[n, q] = (pts, V)
    return _TAB[n, q]


class NTTIterative:
    def __init__(self, q):
        self.q = q

    def ntt(self, f):
        n = len(f)
        if n == 1:
            return [f[0] % self.q]
        _, V = _tables(n, self.q)
        v = np.array([x % self.q for x in f], dtype=np.int64)
        return [int(x) for x in (V * v % self.q).sum(axis=1) % self.q]

    def intt(self, f):
        n = len(f)
        if n == 1:
            return [f[0] % self.q]
        pts, V = _tables(n, self.q)
        v = np.array([x % self.q for x in f], dtype=np.int64)
        # sum_k f_k pts_k^-i / n ; pts_k^-i = -pts_k^(n-i)
        r = (V * v[:, None] % self.q).sum(axis=0) % self.q
        ni = pow(n, -1, self.q)
        out = [int(r[0]) * ni % self.q] + [(-int(r[n - i])) * ni % self.q for i in range(1, n)]
        return out

    def vec_add(self, a, b):
        return [(x + y) % self.q for x, y in zip(a, b)]

    def vec_sub(self, a, b):
        return [(x - y) % self.q for x, y in zip(a, b)]

    def vec_mul(self, a, b):
        return [(x * y) % self.q for x, y in zip(a, b)]

    def vec_inv(self, a):
        return [pow(x, -1, self.q) for x in a]
