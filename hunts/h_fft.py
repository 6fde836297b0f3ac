"""fft.py, ffsampling.py, split and merge against direct evaluation"""
import cmath
import copy
import random

import pyhunt
import common
import fft as T
import ffsampling as S

N = [2, 4, 8, 16, 32, 64, 128, 256, 512, 1024]


def rts(n):
    """roots of x^n + 1 in the order of the transform"""
    if n == 2:
        return [1j, -1j]
    r = []
    for z in rts(n // 2):
        w = cmath.sqrt(z)
        t = T.roots_dict[n][len(r)]
        w = w if abs(w - t) < abs(w + t) else -w
        r += [w, -w]
    return r


ROOT = {n: rts(n) for n in N}


def ev(f, z):
    r = 0
    for c in reversed(f):
        r = r * z + c
    return r


def values(f):
    return [ev(f, z) for z in ROOT[len(f)]]


def mul(a, b):
    n = len(a)
    r = [0] * n
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            if i + j < n:
                r[i + j] += x * y
            else:
                r[i + j - n] -= x * y
    return r


def adj(a):
    return [a[0]] + [-x for x in a[:0:-1]]


def close(a, b, eps=1e-6):
    return len(a) == len(b) and all(abs(x - y) <= eps * (1 + abs(x) + abs(y)) for x, y in zip(a, b))


def cases(seed):
    r = random.Random(seed)
    i = 0
    while True:
        for f in ('fft', 'ops', 'split', 'ldl', 'tree', 'samp', 'coef'):
            big = i % 4 == 3
            yield dict(f=f, n=r.choice(N if big else N[:6]), seed=r.getrandbits(30))
        i += 1


def poly(r, n, s=50):
    return [r.uniform(-s, s) for _ in range(n)]


def vec(r, n):
    return [complex(r.uniform(-9, 9), r.uniform(-9, 9)) for _ in range(n)]


def matrix(r, n):
    a, b, c, d = (poly(r, n) for _ in range(4))
    return [[a, b], [c, d]]


def t_fft(n, r):
    f = poly(r, n)
    v = T.fft(list(f))
    if not close(v, values(f), 1e-7):
        return 'fft is not the vector of values at the roots of x^n + 1'
    if not close(T.ifft(v), f):
        return 'ifft(fft(f)) is not f'


def t_ops(n, r):
    n = min(n, 128)
    f, g = poly(r, n), poly(r, n)
    c = copy.deepcopy((f, g))
    if not close(T.add(f, g), [x + y for x, y in zip(f, g)]) or not close(T.sub(f, g), [x - y for x, y in zip(f, g)]) or not close(T.neg(f), [-x for x in f]):
        return 'add, sub or neg'
    if not close(T.mul(f, g), mul(f, g), 1e-5):
        return 'mul is not the product modulo x^n + 1'
    if not close(T.adj(f), adj(f)):
        return 'adj is not the adjoint'
    h = T.div(mul(f, g), g)
    if min(abs(z) for z in values(g)) > 0.5 and not close(h, f, 1e-4):
        return 'div does not undo mul'
    F, G = vec(r, n), vec(r, n)
    for nm, a, b in (('add_fft', T.add_fft(F, G), [x + y for x, y in zip(F, G)]), ('sub_fft', T.sub_fft(F, G), [x - y for x, y in zip(F, G)]),
                     ('mul_fft', T.mul_fft(F, G), [x * y for x, y in zip(F, G)]), ('div_fft', T.div_fft(F, G), [x / y for x, y in zip(F, G)]),
                     ('adj_fft', T.adj_fft(F), [x.conjugate() for x in F])):
        if not close(a, b):
            return nm
    if (f, g) != c:
        return 'an operand is changed'


def t_split(n, r):
    f = poly(r, n)
    if [list(x) for x in common.split(f)] != [f[0::2], f[1::2]]:
        return 'split'
    if common.merge([f[0::2], f[1::2]]) != f:
        return 'merge'
    F = vec(r, n)
    a, b = T.split_fft(F)
    w = ROOT[n]
    if not close(a, [(F[i] + F[i + 1]) / 2 for i in range(0, n, 2)]) or not close(b, [(F[i] - F[i + 1]) / 2 / w[i] for i in range(0, n, 2)]):
        return 'split_fft'
    if not close(T.merge_fft([a, b]), F):
        return 'merge_fft does not invert split_fft'


def fgram(B):
    B = [[values(x) for x in row] for row in B]
    n = len(B[0][0])
    return [[[sum(B[i][k][l] * B[j][k][l].conjugate() for k in range(2)) for l in range(n)] for j in range(2)] for i in range(2)]


def t_ldl(n, r):
    n = min(n, 128)
    G = fgram(matrix(r, n))
    c = copy.deepcopy(G)
    L, D = S.ldl_fft(G)
    l, d0, d1 = L[1][0], D[0][0], D[1][1]
    if not close(d0, G[0][0]) or not close([x * y for x, y in zip(l, d0)], G[1][0]) or not close([x * x.conjugate() * y + z for x, y, z in zip(l, d0, d1)], G[1][1], 1e-4):
        return 'ldl_fft: L D L* is not G'
    if G != c:
        return 'ldl_fft changes G'


def tree(G):
    n = len(G[0][0])
    l = [x / y for x, y in zip(G[1][0], G[0][0])]
    d0 = list(G[0][0])
    d1 = [z - x * x.conjugate() * y for x, y, z in zip(l, d0, G[1][1])]
    if n == 2:
        return [l, d0, d1]
    w = ROOT[n]
    out = [l]
    for d in (d0, d1):
        a = [(d[i] + d[i + 1]) / 2 for i in range(0, n, 2)]
        b = [(d[i] - d[i + 1]) / 2 / w[i] for i in range(0, n, 2)]
        out.append(tree([[a, b], [[x.conjugate() for x in b], a]]))
    return out


def same_tree(a, b, eps=1e-3):
    if len(a) != len(b):
        return False
    if len(a) == 3:
        return close(a[0], b[0], eps) and same_tree(a[1], b[1]) and same_tree(a[2], b[2])
    return close(a, b, eps)


def t_tree(n, r):
    n = min(n, 64)
    B = matrix(r, n)
    G = fgram(B)
    c = copy.deepcopy(G)
    t = S.ffldl_fft(G)
    if not same_tree(t, tree(c)):
        return 'ffldl_fft: another tree'
    if G != c:
        return 'ffldl_fft changes G'


def ref_samp(t, tr, draw):
    n = len(t[0])
    if n == 1:
        a = draw(t[0][0].real, tr[0])
        return [[a], [draw(t[1][0].real, tr[0])]]
    w = ROOT[n]
    sp = lambda d: [[(d[i] + d[i + 1]) / 2 for i in range(0, n, 2)], [(d[i] - d[i + 1]) / 2 / w[i] for i in range(0, n, 2)]]

    def mg(p):
        o = []
        for i, (a, b) in enumerate(zip(*p)):
            o += [a + w[2 * i] * b, a - w[2 * i] * b]
        return o
    z1 = mg(ref_samp(sp(t[1]), tr[2], draw))
    t0 = [a + (b - c) * l for a, b, c, l in zip(t[0], t[1], z1, tr[0])]
    return [mg(ref_samp(sp(t0), tr[1], draw)), z1]


def t_samp(n, r):
    n = min(n, 64)
    t = tree(fgram(matrix(r, n)))
    tg = [vec(r, n), vec(r, n)]
    c = copy.deepcopy(tg)

    def leaves(t):
        if len(t) == 3:
            leaves(t[1])
            leaves(t[2])
        else:
            t[0] = r.uniform(1.3, 1.8)
            t[1] = 0
    leaves(t)
    got, want = [], []
    rnd = lambda k: b''

    def sampler(log):
        def s(mu, sg, sm=None, rb=None):
            log.append((mu, sg, sm, rb))
            return round(mu) + len(log) % 3
        return s
    S.samplerz = sampler(got)
    z = S.ffsampling_fft(tg, t, 1.25, rnd)
    w = ref_samp(c, t, sampler(want))
    if len(got) != len(want) or any(abs(a[0] - b[0]) > 1e-6 or a[1] != b[1] for a, b in zip(got, want)):
        return 'ffsampling_fft: other centers, deviations or order of samples'
    if any(a[2] != 1.25 or a[3] is not rnd for a in got):
        return 'ffsampling_fft: sigmin or the random source is not passed on'
    if not all(close(a, b) for a, b in zip(z, w)):
        return 'ffsampling_fft: another vector'
    if tg != c:
        return 'ffsampling_fft changes the target'
    z = S.ffnp_fft(tg, t)
    w = ref_samp(c, t, lambda mu, sg: round(mu))
    if not all(close(a, b) for a, b in zip(z, w)):
        return 'ffnp_fft: another vector'


def t_coef(n, r):
    n = min(n, 32)
    B = matrix(r, n)
    G = S.gram(B)
    for i in range(2):
        for j in range(2):
            w = T.add(mul(B[i][0], adj(B[j][0])), mul(B[i][1], adj(B[j][1])))
            if not close(G[i][j], w, 1e-4):
                return 'gram is not B B*'
    c = copy.deepcopy(G)
    L, D = S.ldl(G)
    l, d0, d1 = L[1][0], D[0][0], D[1][1]
    if not close(d0, G[0][0]) or not close(mul(l, d0), G[1][0], 1e-3) or not close(T.add(mul(mul(l, adj(l)), d0), d1), G[1][1], 1e-3):
        return 'ldl: L D L* is not G'
    t = S.ffldl(G)
    if G != c:
        return 'ffldl changes G'

    def down(t):
        # tree in the other representation
        if len(t) == 3:
            return [values(t[0]), down(t[1]), down(t[2])]
        return values(t)
    if not same_tree(down(t), tree([[values(x) for x in row] for row in G])):
        return 'ffldl: another tree'
    tg = [poly(r, n), poly(r, n)]
    z = S.ffnp(tg, t)
    if any(x != int(x) for y in z for x in y):
        return 'ffnp: not integers'
    w = ref_samp([values(x) for x in tg], down_leaf(down(t)), lambda mu, sg: round(mu))
    if not all(close(values(a), b, 1e-4) for a, b in zip(z, w)):
        return 'ffnp: another vector'


def down_leaf(t):
    return t


def test(c):
    return globals()['t_' + c['f']](c['n'], random.Random(c['seed']))


if __name__ == '__main__':
    pyhunt.worker(cases, test)
