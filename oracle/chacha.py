"""Falcon's ChaCha20 generator: 56-byte seed, 8 blocks at a time, words interleaved"""
M = 0xffffffff


def rotl(x, n):
    return ((x << n) | (x >> (32 - n))) & M


def block(words, ctr):
    """words: the first 12 seed words (the last two of them enter the counter words)"""
    init = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(words[:10]) + [words[10] ^ (ctr & M), words[11] ^ (ctr >> 32)]
    x = list(init)

    def q(a, b, c, d):
        x[a] = (x[a] + x[b]) & M
        x[d] = rotl(x[d] ^ x[a], 16)
        x[c] = (x[c] + x[d]) & M
        x[b] = rotl(x[b] ^ x[c], 12)
        x[a] = (x[a] + x[b]) & M
        x[d] = rotl(x[d] ^ x[a], 8)
        x[c] = (x[c] + x[d]) & M
        x[b] = rotl(x[b] ^ x[c], 7)
    for _ in range(10):
        for i in range(4):
            q(i, i + 4, i + 8, i + 12)
        for i in range(4):
            q(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
    return [(a + b) & M for a, b in zip(x, init)]


def chunks(seed):
    """successive 512-byte buffers"""
    w = [int.from_bytes(seed[4 * i:4 * i + 4], 'little') for i in range(14)]
    ctr = w[12] | w[13] << 32
    while True:
        bl = []
        for _ in range(8):
            bl.append(block(w, ctr))
            ctr = (ctr + 1) % (1 << 64)
        yield b''.join(bl[j][i].to_bytes(4, 'little') for i in range(16) for j in range(8))


class Gen:
    """requests of at most 512 bytes; what is left of a buffer too short for the request is dropped"""

    def __init__(self, seed):
        self.c = chunks(seed)
        self.b = b''

    def read(self, k):
        if k > len(self.b):
            self.b = next(self.c)
        r, self.b = self.b[:k], self.b[k:]
        return r
