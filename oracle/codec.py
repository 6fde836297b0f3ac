"""Independent statement of the codecs (used only to judge concrete inputs on the real code)."""
Q = 12289


def bits_of(v, n):
    return [(v >> (n - 1 - i)) & 1 for i in range(n)]


def pack(bits):
    bits = bits + [0] * (-len(bits) % 8)
    return bytes(int(''.join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8))


def unpack(b):
    return [(x >> (7 - i)) & 1 for x in b for i in range(8)]


def num(bits):
    v = 0
    for b in bits:
        v = 2 * v + b
    return v


def fixed_encode(x, B, ok, code):
    if not all(ok(v) for v in x):
        return None
    return pack([b for v in x for b in bits_of(code(v), B)])


def fixed_decode(data, n, B, ok, value):
    ln = (n * B + 7) // 8
    if len(data) < ln:
        return None
    bits = unpack(data[:ln])
    ws = [num(bits[B * u:B * u + B]) for u in range(n)]
    if any(bits[B * n:]) or not all(ok(w) for w in ws):
        return None
    return [value(w) for w in ws]


def comp_encode(x):
    """Falcon compressed format; None if an element is outside -2047..2047"""
    bits = []
    for v in x:
        if not -2047 <= v <= 2047:
            return None
        m = abs(v)
        bits += [1 if v < 0 else 0] + bits_of(m & 127, 7) + [0] * (m >> 7) + [1]
    return pack(bits)


def comp_decode(data, n):
    """-> (elements, bytes consumed) or None"""
    bits = unpack(data)
    p = 0
    out = []
    for _ in range(n):
        if p + 8 > len(bits):
            return None
        s = bits[p]
        m = num(bits[p + 1:p + 8])
        p += 8
        while True:
            if p >= len(bits):
                return None
            b = bits[p]
            p += 1
            if b:
                break
            m += 128
            if m > 2047:
                return None
        if s and m == 0:
            return None
        out.append(-m if s else m)
    used = (p + 7) // 8
    if any(bits[p:8 * used]):
        return None
    return out, used
