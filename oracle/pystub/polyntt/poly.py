from polyntt.ntt_iterative import NTTIterative


class Poly:
    def __init__(self, coeffs, q, ntt=NTTIterative):
        self.coeffs = coeffs
        self.q = q
        self.NTT = (ntt if isinstance(ntt, type) else NTTIterative)(q)

    def _mk(self, c):
        return Poly(c, self.q, type(self.NTT))

    def __add__(self, o):
        return self._mk(self.NTT.vec_add(self.coeffs, o.coeffs))

    def __sub__(self, o):
        return self._mk(self.NTT.vec_sub(self.coeffs, o.coeffs))

    def __neg__(self):
        return self._mk([-x % self.q for x in self.coeffs])

    def __mul__(self, o):
        T = self.NTT
        return self._mk(T.intt(T.vec_mul(T.ntt(self.coeffs), T.ntt(o.coeffs))))

    def inverse(self):
        T = self.NTT
        return self._mk(T.intt(T.vec_inv(T.ntt(self.coeffs))))

    def __truediv__(self, o):
        return self * o.inverse()

    def __eq__(self, o):
        return [x % self.q for x in self.coeffs] == [x % self.q for x in o.coeffs]

    def ntt(self):
        return self.NTT.ntt(self.coeffs)

    def intt(self):
        return self.NTT.intt(self.coeffs)
