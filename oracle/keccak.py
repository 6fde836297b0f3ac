"""FIPS 202 Keccak-f[1600], SHAKE256, Keccak-256 (original padding) and the Keccak PRNG, from the standard."""


def rc():
    """round constants from the LFSR of the standard"""
    out, r = [], 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if r & 1:
                c |= 1 << ((1 << j) - 1)
            r <<= 1
            if r & 0x100:
                r ^= 0x171
        out.append(c)
    return out


def rho():
    """rotation offsets: rho()[x + 5 y]"""
    R = [0] * 25
    x, y = 1, 0
    for t in range(24):
        R[x + 5 * y] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    return R


RC, RHO = rc(), rho()
M = (1 << 64) - 1


def rot(x, n):
    return ((x << n) | (x >> (64 - n))) & M if n else x


def f1600(A):
    A = list(A)
    for r in range(24):
        C = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
        D = [C[(x + 4) % 5] ^ rot(C[(x + 1) % 5], 1) for x in range(5)]
        A = [A[i] ^ D[i % 5] for i in range(25)]
        B = [0] * 25
        for x in range(5):
            for y in range(5):
                B[y + 5 * ((2 * x + 3 * y) % 5)] = rot(A[x + 5 * y], RHO[x + 5 * y])
        A = [B[i] ^ (~B[(i % 5 + 1) % 5 + 5 * (i // 5)] & M & B[(i % 5 + 2) % 5 + 5 * (i // 5)]) for i in range(25)]
        A[0] ^= RC[r]
    return A


class Sponge:
    def __init__(self, rate, pad):
        self.A, self.rate, self.pad, self.pos = [0] * 25, rate, pad, 0
        self.out = False

    def absorb(self, data):
        for b in data:
            self.A[self.pos >> 3] ^= b << (8 * (self.pos & 7))
            self.pos += 1
            if self.pos == self.rate:
                self.A = f1600(self.A)
                self.pos = 0
        return self

    def finish(self):
        self.A[self.pos >> 3] ^= self.pad << (8 * (self.pos & 7))
        p = self.rate - 1
        self.A[p >> 3] ^= 0x80 << (8 * (p & 7))
        self.pos = self.rate
        return self

    def squeeze(self, n):
        o = bytearray()
        while len(o) < n:
            if self.pos == self.rate:
                self.A = f1600(self.A)
                self.pos = 0
            o.append(self.A[self.pos >> 3] >> (8 * (self.pos & 7)) & 255)
            self.pos += 1
        return bytes(o)


def keccak256(data):
    return Sponge(136, 1).absorb(data).finish().squeeze(32)


def keccak_stream(data):
    """the Keccak PRNG: state = H(data), block i = H(state || i big-endian)"""
    s = keccak256(data)
    i = 0
    while True:
        for b in keccak256(s + i.to_bytes(8, 'big')):
            yield b
        i += 1


def hash_to_point(stream, n, q=12289):
    """stream: iterator of bytes"""
    out = []
    while len(out) < n:
        w = next(stream) << 8
        w |= next(stream)
        if w < 5 * q:
            out.append(w % q)
    return out


def shake_stream(data):
    import hashlib
    k = 4096
    d = hashlib.shake_256(data).digest(k)
    i = 0
    while True:
        if i == len(d):
            k *= 2
            d = hashlib.shake_256(data).digest(k)
        yield d[i]
        i += 1
