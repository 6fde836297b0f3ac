"""Solidity ring arithmetic against schoolbook arithmetic"""
import random
from solhunt import *
R = oracle('ring')
Q = 12289
PSI = 49


def brv(i, k):
    return int(format(i, '0%db' % k)[::-1], 2) if k else 0


def root(j, n):
    return pow(PSI, (512 // n) * (2 * brv(j, n.bit_length() - 1) + 1), Q)


def fw(a, n):
    return [sum(c * pow(x, k, Q) for k, c in enumerate(a)) % Q for x in (root(j, n) for j in range(n))]


def table(ex, addr, dst, off, n):
    e = brv(off // 32, 9)
    ex.mstore(dst, pow(PSI, e if addr == 1 else -e, Q))


def vec(r, n, hi=Q):
    k = r.randrange(6)
    if k == 0:
        return [hi - 1] * n
    if k == 1:
        return [r.choice([0, 1, hi - 1, hi // 2, min(hi - 1, Q - 1), min(hi - 1, Q - 2)]) for _ in range(n)]
    if k == 2:
        a = [0] * n
        a[r.randrange(n)] = r.randrange(hi)
        return a
    return [r.randrange(hi) for _ in range(n)]


FNS = ['fw', 'inv', 'mulmod', 'half', 'ctr', 'ops', 'prod', 'packed', 'rec', 'fuse', 'tables']


def cases(seed):
    r = random.Random(seed)
    while True:
        f = r.choice(FNS)
        n = 512 if f in ('fw', 'inv', 'half', 'prod', 'packed', 'mulmod') else r.choice([2, 4, 8, 16, 64, 128, 512] if f == 'rec' else [2, 4, 8, 32, 512])
        big = r.random() < .5
        yield dict(f=f, n=n, a=vec(r, n, 65536 if f in ('fw', 'half', 'packed') and big else Q), b=vec(r, n, Q), k=r.randrange(1 << 30))


def ntt(n=512):
    return Sol('ZKNOX_NTT', 'ZKNOX_NTT', [1, 2, Q, pow(n, -1, Q)], stubs={'extcodecopy': table})


A = ('array', solex.U256, None)


def test(c):
    f, n, a, b, k = c['f'], c['n'], c['a'], c['b'], c['k']
    if f == 'fw':
        s = Sol('ZKNOX_NTT_falcon')
        if s.arr(s.call('_ZKNOX_NTTFW_vectorized', a)) != fw(a, n):
            return '_ZKNOX_NTTFW_vectorized is not the vector of values at the roots'
    elif f == 'inv':
        s = Sol('ZKNOX_NTT_falcon')
        if s.arr(s.call('_ZKNOX_NTTINV_vectorized', fw(a, n))) != a:
            return '_ZKNOX_NTTINV_vectorized does not undo the transform'
    elif f == 'mulmod':
        s = Sol('ZKNOX_NTT_falcon')
        if s.arr(s.call('_ZKNOX_VECMULMOD', a, b)) != [x * y % Q for x, y in zip(a, b)]:
            return '_ZKNOX_VECMULMOD is not the product'
    elif f in ('half', 'packed'):
        s = Sol('ZKNOX_NTT_falcon') if f == 'half' else ntt()
        nm = '_ZKNOX_NTT_HALFMUL_Compact' if f == 'half' else 'ZKNOX_NTT_HALFMUL_Compact'
        out = coefs(s.arr(s.call(nm, words(a), words(fw(b, n)))))
        if out != R.mul([x % Q for x in a], b):
            return nm + ' is not the product in the ring'
        if s.arr(s.args[0]) != words(a) or s.arr(s.args[1]) != words(fw(b, n)):
            return nm + ' changes its operands'
    elif f == 'ctr':
        want = fw(a, n)
        for pre in ('', '_'):
            for fn, x, ad in (('NTTFW', a, 1), ('NTTINV', want, 2)):
                s = ntt(n)
                if s.arr(s.call(pre + 'ZKNOX_' + fn, x, ad, types=[A, ('elem', 'address')])) != (want if fn == 'NTTFW' else a):
                    return '%sZKNOX_%s with tables is not the transform' % (pre, fn)
        for fn, x in (('NTTFW', a), ('NTTINV', want)):
            s = ntt(n)
            if s.arr(s.call('ZKNOX_' + fn, x, Q, types=[A, solex.U256])) != (want if fn == 'NTTFW' else a):
                return 'ZKNOX_%s with its own tables is not the transform' % fn
    elif f == 'ops':
        for nm, op in (('ZKNOX_VECMULMOD', lambda x, y: x * y), ('_ZKNOX_VECMULMOD', lambda x, y: x * y), ('ZKNOX_VECADDMOD', lambda x, y: x + y), ('ZKNOX_VECSUBMOD', lambda x, y: x - y)):
            s = ntt()
            if s.arr(s.call(nm, a, b, Q)) != [op(x, y) % Q for x, y in zip(a, b)]:
                return nm + ' is wrong'
            try:
                ntt().call(nm, a, b + [0], Q)
                return nm + ' accepts operands of different lengths'
            except Reverted:
                pass
    elif f == 'prod':
        m = R.mul(a, b)
        w = k % 4
        s = ntt()
        if w == 0:
            o = s.call('ZKNOX_NTT_MUL', a, b)
        elif w == 1:
            o = s.call('mul_NTTPoly', a, b, Q)
        else:
            o = s.call('ZKNOX_NTT_HALFMUL', *([a, fw(b, n)] + [Q] * (w - 2)))
        if s.arr(o) != m:
            return 'product %d is wrong' % w
    elif f == 'rec':
        s = Sol('NTT_Recursive', 'NTT')
        t = s.arr(s.call('nTT', a))
        from collections import Counter
        if Counter(t) != Counter(fw(a, n)):
            return 'nTT is not the vector of values at the roots'
        if s.arr(s.call('iNTT', t)) != a:
            return 'iNTT does not undo nTT'
        u = s.arr(s.call('nTT', b))
        if s.arr(s.call('mulZQ', a, b)) != R.mul(a, b) or s.arr(s.call('mulZQ_opt', a, u)) != R.mul(a, b):
            return 'mulZQ is not the product'
        if s.arr(s.call('addZQ', a, b)) != [(x + y) % Q for x, y in zip(a, b)] or s.arr(s.call('subZQ', a, b)) != [(x - y) % Q for x, y in zip(a, b)]:
            return 'addZQ or subZQ is wrong'
    elif f == 'fuse':
        s = ntt(n)
        x = list(a)
        if k & 1:
            s.call('make_immutable')
        s.call('update', 1, 2, Q if k & 2 else 7681, pow(n, -1, Q) + (k >> 2) % 5 + 1)
        if k & 1:
            if s.arr(s.call('ZKNOX_NTTINV', fw(a, n), 2, types=[A, ('elem', 'address')])) != a:
                return 'update has an effect after make_immutable'
        else:
            s.call('update', 1, 2, Q, pow(n, -1, Q))
            if s.arr(s.call('ZKNOX_NTTINV', fw(a, n), 2, types=[A, ('elem', 'address')])) != a:
                return 'update does not set the parameters'
    elif f == 'tables':
        s = Sol('ZKNOX_falcon_deploy')
        x, y = s.call('Deploy', k)
        w = b''.join(pow(PSI, brv(i, 9), Q).to_bytes(2, 'big') for i in range(512))
        v = b''.join(pow(PSI, -brv(i, 9), Q).to_bytes(2, 'big') for i in range(512))
        if s.ex.codes[x] != w or s.ex.codes[y] != v:
            return 'Deploy does not store the powers of psi'


worker(cases, test)
