"""Contracts of the Solidity codecs: packing, key and signature decompression, range check."""
from e_common import *
import bv
import e_loop
from e_loop import Window, Role, fit, prove_goal, as_num, eqz
from soldom import lin

UTILS = SRC + 'ZKNOX_falcon_utils.sol'
CORE = SRC + 'ZKNOX_falcon_core.sol'
ENC = SRC + 'ZKNOX_falcon_encodings.sol'
COMMON = SRC + 'ZKNOX_common.sol'
NTT = SRC + 'ZKNOX_NTT.sol'
DEPLOY = SRC + 'ZKNOX_falcon_deploy.sol'
ALL = (1 << 256) - 1


def bits(x, w=256):
    return bv.tobits(x, w)


def var16(name):
    return bv.zext(bv.var(name, 16), 16, 256)


def same_bits(x, y):
    return bits(x) == bits(y)


def compact_unit(path, fname, contract=None, swap=False):
    def unit():
        R = UnitResult()
        name = '%s (%s)' % (fname, os.path.basename(path))
        ex = Ex(prog(path))
        c = ex.new_contract(contract, [1, 2, Q, 12265]) if contract else None
        vs = [var16('a%d' % i) for i in range(512)]
        a = ex.new_array(vs, 'a')
        sn = snapshot(a)
        out = straight(R, name, ex, lambda: ex.call(fname, [a], c))
        if out is None:
            return R
        if R.check(name + ': 32 words', isarr(ex, out[0], 32)):
            w = ex.get_array(out[0])
            for i in range(32):
                js = range(16) if not swap else range(15, -1, -1)
                want = sum((bits(vs[16 * i + j])[:16] for j in js), ())
                R.check(name + ': word %d holds coefficients %d..%d%s' % (i, 16 * i, 16 * i + 15, ', first one on top' if swap else ''), bits(w[i]) == want)
            R.check(name + ': the argument is not changed', unchanged(sn))
        return R
    return unit


def expand_unit(path, fname, contract=None):
    def unit():
        R = UnitResult()
        name = '%s (%s)' % (fname, os.path.basename(path))
        ex = Ex(prog(path))
        c = ex.new_contract(contract, [1, 2, Q, 12265]) if contract else None
        vs = [bv.var('w%d' % i, 256) for i in range(32)]
        a = ex.new_array(vs, 'a')
        sn = snapshot(a)
        out = straight(R, name, ex, lambda: ex.call(fname, [a], c))
        if out is None:
            return R
        if R.check(name + ': 512 words', isarr(ex, out[0], 512)):
            w = ex.get_array(out[0])
            R.check(name + ': coefficient 16 i + j is bits 16 j .. 16 j + 15 of word i',
                    all(bits(w[16 * i + j]) == bits(vs[i])[16 * j:16 * j + 16] + (0,) * 240 for i in range(32) for j in range(16)))
            R.check(name + ': the argument is not changed', unchanged(sn))
        return R
    return unit


def swap_unit():
    R = UnitResult()
    ex = Ex(prog(UTILS))
    vs = [bv.var('a%d' % i, 256) for i in range(512)]
    a = ex.new_array(vs, 'a')
    sn = snapshot(a)
    out = straight(R, 'Swap', ex, lambda: ex.call('Swap', [a]))
    if out is not None and R.check('Swap: 512 words', isarr(ex, out[0], 512)):
        w = ex.get_array(out[0])
        R.check('Swap: word i is word 511 - i of the argument', all(same_bits(w[i], vs[511 - i]) for i in range(512)))
        R.check('Swap: the argument is not changed', unchanged(sn))
    ex = Ex(prog(DEPLOY))
    x = bv.var('x', 256)
    out = straight(R, '_Swap16', ex, lambda: ex.call('_Swap16', [x]))
    if out is not None:
        R.check('_Swap16: 16-bit group i becomes group 15 - i', bits(out[0]) == sum((bits(x)[16 * (15 - i):16 * (16 - i)] for i in range(16)), ()))
    # fixed array to dynamic array, and to bytes
    ex = Ex(prog(COMMON))
    vs = [bv.var('a%d' % i, 256) for i in range(32)]

    def fixed():
        r = ex.alloc('src', 1024)
        for i, v in enumerate(vs):
            r.cells[32 * i] = v
        return Ptr(r, 0)
    src = fixed()
    sn = snapshot(src)
    out = straight(R, 'ZKNOX_memcpy32', ex, lambda: ex.call('ZKNOX_memcpy32', [src]))
    if out is not None and R.check('ZKNOX_memcpy32: 32 words', isarr(ex, out[0], 32)):
        R.check('ZKNOX_memcpy32: a copy', all(same_bits(x, y) for x, y in zip(ex.get_array(out[0]), vs)) and unchanged(sn))
    out = straight(R, '_packUint256Array', ex, lambda: ex.call('_packUint256Array', [src]))
    if out is not None and R.check('_packUint256Array: 1024 bytes', isarr(ex, out[0], 1024)):
        R.check('_packUint256Array: the 32 words, big-endian', all(same_bits(out[0].r.load(ex, 32 + 32 * i), vs[i]) for i in range(32)) and unchanged(sn))
    salt = ex.alloc('salt', 32 + 40)
    salt.cells[0] = 40
    sv = [bv.var('salt0', 256), bv.var('salt1', 256)]
    salt.cells[32], salt.cells[64] = sv
    out = straight(R, '_packSignature', ex, lambda: ex.call('_packSignature', [Ptr(salt, 0), src]))
    if out is not None and R.check('_packSignature: 1064 bytes', isarr(ex, out[0], 1064)):
        by = [bits(ex.op('byte', [i % 32, out[0].r.load(ex, 32 + i - i % 32)]))[:8] for i in range(1064)]
        want = [bits(ex.op('byte', [i % 32, sv[i // 32]]))[:8] for i in range(40)] + [bits(ex.op('byte', [i % 32, vs[i // 32]]))[:8] for i in range(1024)]
        R.check('_packSignature: the salt followed by the 32 words, big-endian', by == want)
        R.check('_packSignature: the arguments are not changed', unchanged(sn))
    R.functions |= ex.touched
    return R


# ------------------------------------------------------------------ range check
def range_roles(hi):
    """roles of the loop variables while no bad coefficient has been met ('A') and after one ('B')"""
    samples = {'A': {}, 'B': {}}
    cnt = []
    for length, bad in ((7, None), (12, None), (9, 4), (12, 2), (12, 7)):
        vals = [Q + 1 if i == bad else i for i in range(length)]

        def rule(L):
            k = 0
            while True:
                st = 'A' if bad is None or k <= bad else 'B'
                if st == 'A' or k < length:
                    for a, d in L.vars().items():
                        samples[st].setdefault(a, []).append((d[a][0], {'k': k, 'len': length}))
                if not L.cond():
                    if st == 'B':
                        # the loop may have been left: such samples describe no iteration
                        for a, d in L.vars().items():
                            if samples['B'].get(a) and samples['B'][a][-1][1] == {'k': k, 'len': length}:
                                samples['B'][a].pop()
                    break
                if L.body() == 'break':
                    break
                L.post()
                k += 1
            cnt.append(k)
            return True
        ex = Ex(prog(CORE), 'run', loops={'falcon_checkPolynomialRange': rule})
        ex.call('falcon_checkPolynomialRange', [ex.new_array(vals, 'a'), True])
    out = {}
    for st in 'AB':
        roles = {}
        for a, s in samples[st].items():
            if not s:
                continue
            f = fit([(int(v) if type(v) is bool else v, F) for v, F in s], ['k', 'len'])
            roles[a] = Role(f[0], f[1], as_num(s[0][0])[0] if type(s[0][0]) is not bool else None) if f is not None else None
        out[st] = roles
    return out, cnt


def range_unit(length, compact):
    def unit():
        R = UnitResult()
        hi = ALL if compact else 65535
        name = 'falcon_checkPolynomialRange(%s)' % ('words' if compact else 'packed')
        roles, cnt = range_roles(hi)
        if not R.check(name + ': a loop over the coefficients', cnt[:2] == [7, 12], str(cnt)):
            return R
        hasB = bool(roles['B'])

        def case(kind, state):
            """kind: 'start', 'step', 'exit'"""
            sp = Space()
            ln = sp.sym('len', 0, 1 << 24) if compact else length
            c = sp.sym('c', 0, hi)
            k = sp.sym('k', 0, (1 << 24) - 1) if kind == 'step' else 0 if kind == 'start' else ln
            env = dict(sp=sp, c=c, k=k, len=ln, seen=None, final=None)

            def rule(L):
                ex = L.ex
                vs = L.vars()
                if kind == 'start':
                    env['seen'] = {a: d[a][0] for a, d in vs.items()}
                    raise StopPath('start')
                F = {'k': k, 'len': ln}
                for a, d in vs.items():
                    r = roles[state].get(a)
                    cur = d[a][0]
                    d[a][0] = r.value(sp, F, cur if isinstance(cur, Ptr) else None) if r is not None else ex.fresh(a)
                if kind == 'step':
                    ex.assume(lin(sp, k, ln, -1).z() < 0)
                    if not L.cond():
                        env['final'] = 'stopped'
                        return True
                    if L.body() == 'break':
                        env['final'] = 'stopped'
                        return True
                    L.post()
                    env['final'] = {a: d[a][0] for a, d in vs.items()}
                    env['pc'] = list(ex.pc)
                    if L.cond():
                        env['go'] = True
                        raise StopPath('step')
                    env['go'] = False
                    return True
                if L.cond():
                    env['final'] = 'goes on'
                    raise StopPath('exit')
                return True

            def arr(ex, nm):
                w = Window(nm, None, cells={0: ln})
                w.setup(lin(sp, soldom.mul(sp, k, 32), 32, 1), word=lambda d: c if d == 0 else sp.sym('other%d' % d, 0, hi))
                return Ptr(w, 0)

            def expand(ex, fn, args):
                if not (isinstance(args[0], Ptr) and args[0].r is env['arg'].r):
                    raise Unsupported('another array is expanded')
                return arr(ex, 'expanded'), ('array', U256, None)

            def make(dec):
                ex = Ex(prog(CORE), decisions=dec, stubs={'_ZKNOX_NTT_Expand': expand}, loops={'falcon_checkPolynomialRange': rule})
                ex._facts = {}
                for t in (ln, k, c):
                    if isinstance(t, V):
                        for f in sp.facts(t.z()):
                            ex.solver.add(f)
                a = arr(ex, 'a') if compact else ex.new_array([0] * 32, 'a')
                env['arg'] = a
                env['final'] = env['seen'] = None
                return ex, lambda: ex.call('falcon_checkPolynomialRange', [a, compact])
            return env, make

        def holds(nm, env, F, vals, pc, state):
            for a, r in roles[state].items():
                if r is not None:
                    v = vals.get(a)
                    prove_goal(R, nm + ': %s keeps its meaning' % a, r.holds(env['sp'], F, int(v) if type(v) is bool else v), pc, env['sp'])

        def truth(r):
            if isinstance(r, V):
                return r.z() != 0
            return z3.BoolVal(bool(r)) if type(r) in (int, bool) else r

        def clean(ex, env):
            ok = not ex.problems and not ex.reverts
            w = env['arg'].r
            return ok and (not isinstance(w, Window) or not w.stores)
        env, make = case('start', 'A')
        for p in paths(make):
            if R.check(name + ': the loop is reached', env['seen'] is not None):
                holds(name + ': initially', env, {'k': 0, 'len': env['len']}, env['seen'], p.ex.pc, 'A')
        for st in ('A', 'B') if hasB else ('A',):
            env, make = case('step', st)
            sp = env['sp']
            n = 0
            for p in paths(make):
                n += 1
                ex = p.ex
                R.functions |= ex.touched
                nm = name + ': iteration %d%s' % (n, ' after a bad coefficient' if st == 'B' else '')
                R.check(nm + ': reads in bounds, writes nothing', clean(ex, env), str(ex.problems[:2]))
                good = env['c'].z() < Q
                pc = list(ex.pc)
                if p.end == 'stop' and isinstance(env['final'], dict):
                    F = {'k': lin(sp, env['k'], 1, 1), 'len': env['len']}
                    isgood = st == 'A' and prove(good, pc + sp.facts(good, *pc))[0] == 'proved'
                    if not isgood and not hasB:
                        prove_goal(R, nm + ': only a coefficient below q lets the loop go on', good, pc, sp)
                    holds(nm, env, F, env['final'], pc, 'A' if isgood else 'B')
                elif p.end == 'return':
                    if isinstance(env['final'], dict):
                        # the loop ended by its condition right after this iteration: either the last coefficient or a break
                        isgood = st == 'A' and prove(good, pc + sp.facts(good, *pc))[0] == 'proved'
                        if isgood:
                            last = lin(sp, lin(sp, env['k'], 1, 1), env['len'], -1)
                            prove_goal(R, nm + ': a coefficient below q ends the loop only at the end', last.z() == 0, pc, sp)
                    res = truth(p.out[0])
                    if st == 'A':
                        prove_goal(R, nm + ': a result of the loop is the range condition', res == good, pc, sp)
                    else:
                        prove_goal(R, nm + ': the result is false', z3.Not(res), pc, sp)
                else:
                    R.check(nm + ': no other end', False, '%s %s' % (p.end, p.out))
            R.check(name + ': an iteration is possible', n >= 1)
            env, make = case('exit', st)
            for p in paths(make):
                nm = name + ': end%s' % (' after a bad coefficient' if st == 'B' else '')
                if R.check(nm + ': returns', p.end == 'return', '%s' % (env['final'],)):
                    res = truth(p.out[0])
                    prove_goal(R, nm + ': %s' % ('true' if st == 'A' else 'false'), res if st == 'A' else z3.Not(res), p.ex.pc, env['sp'])
                    R.check(nm + ': reads in bounds, writes nothing', clean(p.ex, env), str(p.ex.problems[:2]))
        return R
    return unit


# ------------------------------------------------------------------ public key (14 bits per coefficient)
def key_unit(offset):
    def unit():
        R = UnitResult()
        name = '_ZKNOX_NTT_Decompress(offset %d)' % offset
        total = 512 * 14 // 8
        for length in (offset + total, offset + total + 1, offset + total + 37):
            ex = Ex(prog(UTILS))
            nm = name + ' on %d bytes' % length
            bs = [bv.var('b%d' % i, 8) for i in range(length)]
            r = ex.alloc('buf', 32 + length)
            r.cells[0] = length
            for i in range(0, length, 32):
                ch = bs[i:i + 32]
                r.cells[32 + i] = bv.frombits(sum((bv.tobits(x, 8) for x in reversed(ch + [0] * (32 - len(ch)))), ()))
            sn = snapshot(Ptr(r, 0))
            try:
                out = ex.call('_ZKNOX_NTT_Decompress', [Ptr(r, 0), offset])
            except Revert as e:
                R.check(nm + ': valid encodings are accepted', False, str(e.data))
                continue
            stream = sum((tuple(reversed(bv.tobits(b, 8))) for b in bs[offset:]), ())
            co = [bv.frombits(tuple(reversed(stream[14 * i:14 * i + 14]))) for i in range(512)]
            w = ex.get_array(out[0])
            R.check(nm + ': coefficient i is bits 14 i .. 14 i + 13 of the data',
                    len(w) == 512 and all(bits(x) == bv.tobits(c, 14) + (0,) * 242 for x, c in zip(w, co)))
            R.check(nm + ': one path', not ex.pending)
            # reverts: exactly the coefficients >= q
            sol = z3.Solver()
            good = [z3.ULT(c.e, Q) for c in co]
            for i, (pc, c, d) in enumerate(ex.reverts):
                # a revert implies some coefficient out of range
                st, m, dt = prove(z3.Not(z3.And(good[:i + 1])), [c])
                R.add(nm + ': revert %d only on a coefficient that is not below q' % i, st, dt, 'z3', None, m)
            pc = z3.And(ex.pc) if ex.pc else z3.BoolVal(True)
            for i in range(512):
                # the path condition implies each coefficient in range
                cs = [x for x in ex.pc if True]
                j = min(i, len(cs) - 1)
                st, m, dt = prove(good[i], cs[j:j + 1] if len(cs) == 512 else cs)
                R.add(nm + ': a result implies coefficient %d below q' % i, st, dt, 'z3', None, m)
            no_problems(R, nm, ex)
            R.check(nm + ': the buffer is not changed', unchanged(sn))
            R.functions |= ex.touched
        # short buffers are rejected
        bad = []
        for length in list(range(0, offset + 3)) + [offset + total // 2, offset + total - 1]:
            ex = Ex(prog(UTILS))
            b = ex.new_bytes(b'\0' * length)
            try:
                ex.call('_ZKNOX_NTT_Decompress', [b, offset])
                bad.append(length)
            except Revert:
                pass
        R.check(name + ': buffers that are too short are rejected', not bad, str(bad))
        return R
    return unit


# ------------------------------------------------------------------ signature: step lemma over the bit stream
def sig_stream(coefs):
    """encode (sign, magnitude) pairs"""
    b = ''
    for s, m in coefs:
        b += '%d' % s + format(m & 127, '07b') + '0' * (m >> 7) + '1'
    n = len(b)
    b += '0' * (-n % 8)
    return bytes(int(b[i:i + 8], 2) for i in range(0, len(b), 8)), n


def positions(coefs):
    p, out = 0, [0]
    for s, m in coefs:
        p += 8 + (m >> 7) + 1
        out.append(p)
    return out


def infer_sig(R):
    """roles of the variables of the loop over coefficients"""
    import random
    rng = random.Random(5)
    samples = {}
    nloop = []
    for t in range(3):
        # five runs whose degree is 512: mixed magnitudes
        coefs = [(rng.randrange(2), rng.choice([1, 5, 100, 127, 128, 200, 300, 700])) for _ in range(512)]
        coefs = [(s, m if i % (3 + t) else 1) for i, (s, m) in enumerate(coefs)]
        while sum(9 + (m >> 7) for s, m in coefs) > 8 * 660:
            coefs = [(s, m % 256 or 1) for s, m in coefs]
        data, nb = sig_stream(coefs)
        off = (7, 0, 42)[t]
        pos = positions(coefs)
        stream = ''.join(format(x, '08b') for x in data)
        depth = [0]

        def rule(L):
            depth[0] += 1
            if depth[0] > 1:
                depth[0] -= 1
                return False
            k = 0
            while True:
                p = pos[min(k, 512)]
                nby = (p + 7) // 8
                F = {'u': k, 'bytes': nby, 'rem': nby * 8 - p, 'offset': off}
                for a, d in L.vars().items():
                    samples.setdefault(a, []).append((d[a][0], F, stream[p:nby * 8]))
                if not L.cond():
                    break
                if L.body() == 'break':
                    raise Unsupported('the loop over coefficients ends by a break')
                L.post()
                k += 1
            nloop.append(k)
            depth[0] -= 1
            return True
        ex = Ex(prog(ENC), 'run', loops={'_decompress_sig': rule})
        ex.call('_decompress_sig', [ex.new_bytes(bytes(off) + data + bytes(3)), off])
    if not R.check('_decompress_sig: a loop over the 512 coefficients', nloop == [512] * 3, str(nloop)):
        return None
    roles = {}
    for a, s in samples.items():
        f = fit([(v, F) for v, F, _ in s], ['u', 'bytes', 'rem', 'offset'])
        if f is not None:
            reg = as_num(s[0][0])[0]
            roles[a] = Role(f[0], f[1], reg)
        elif all(type(v) is int and (v & ((1 << F['rem']) - 1)) == int(b or '0', 2) for v, F, b in s):
            roles[a] = 'acc'
        else:
            roles[a] = None
    return roles


class SigCase:
    """one arbitrary iteration ('step', rem), the start, or the end ('exit', rem)"""

    def __init__(self, roles, kind, rem=0):
        self.roles, self.kind, self.rem = roles, kind, rem
        sp = self.sp = Space()
        self.L = sp.sym('length', 0, 1 << 32)
        self.off = sp.sym('offset', 0, 1 << 32)
        self.u = sp.sym('u', 0, 511) if kind == 'step' else 512 if kind == 'exit' else 0
        self.by = sp.sym('bytes', 0, 1 << 20) if kind != 'start' else 0
        self.v = lin(sp, self.off, self.by, 1)
        self.B = [bv.var('B%d' % j, 8) for j in range(40)]
        self.A = bv.var('A', 8)
        self.acc0 = bv.frombits(bv.tobits(self.A, 8)[:rem] + bv.tobits(bv.var('dirt', 256), 256)[rem:]) if rem else bv.var('dirt', 256)
        self.reached = None
        self.final = None
        # the data from the current position on, first bit first
        self.stream = tuple(reversed(bv.tobits(self.A, 8)[:rem])) + sum((tuple(reversed(bv.tobits(b, 8))) for b in self.B[:6]), ())

    def features(self, du=0, by=None, rem=None):
        return {'u': lin(self.sp, self.u, du, 1) if du else self.u, 'bytes': self.by if by is None else by, 'rem': self.rem if rem is None else rem, 'offset': self.off}

    def word(self, d):
        if not 0 <= d < 8:
            raise Unsupported('the buffer is read %d bytes from the current position' % d)
        bs = (self.B + [0] * 40)[d:d + 32]
        return bv.frombits(sum((bv.tobits(b, 8) for b in reversed(bs)), ()))

    def make(self, dec):
        sp = self.sp
        case = self
        state = {'in': False}

        def rule(L):
            if state['in']:
                return False
            ex = L.ex
            vs = L.vars()
            if case.kind == 'start':
                case.reached = {a: d[a][0] for a, d in vs.items()}
                case.reached_env = L.env
                raise StopPath('start')
            for a, d in vs.items():
                r = case.roles.get(a)
                cur = d[a][0]
                if isinstance(r, Role):
                    d[a][0] = r.value(sp, case.features(), cur if isinstance(cur, Ptr) else None)
                elif r == 'acc':
                    d[a][0] = case.acc0
                else:
                    d[a][0] = ex.fresh(a)
            # the coefficients are written around word u
            for nm, cell in list(L.env.flat().items()):
                if isinstance(cell, list) and isinstance(cell[0], Ptr) and type(cell[0].o) is int and cell[0].r.size == 32 + 512 * 32:
                    r = cell[0].r
                    case.x = r
                    if case.kind == 'step':
                        r.__class__ = Window
                        r.setup(lin(sp, soldom.mul(sp, case.u, 32), 32, 1))
            if case.kind == 'exit':
                case.xcells = dict(case.x.cells)
                if L.cond():
                    raise Unsupported('the loop goes on after 512 coefficients')
                return True
            state['in'] = True
            if not L.cond():
                ex.problem('the loop stops before 512 coefficients')
                raise StopPath('cond')
            if L.body() == 'break':
                ex.problem('the loop over coefficients breaks off')
                raise StopPath('break')
            L.post()
            case.final = {a: d[a][0] for a, d in vs.items()}
            raise StopPath('step')
        ex = Ex(prog(ENC), decisions=dec, loops={'_decompress_sig': rule})
        ex._facts = {}
        r = Window('buf', None, cells={0: self.L}, ro=True)
        r.setup(lin(sp, self.v, 32, 1), word=self.word)
        ex.next_base = 0x100000
        for t in (self.L, self.off, self.v):
            if isinstance(t, V):
                for f in sp.facts(t.z()):
                    ex.solver.add(f)
                    ex._facts[f.get_id()] = f
        if isinstance(self.u, V):
            for f in sp.facts(self.u.z()):
                ex.solver.add(f)
        if self.kind != 'start':
            # the bytes consumed so far lie in the buffer
            ex.assume(self.v.z() <= self.L.z())
        self.final = None
        return ex, lambda: ex.call('_decompress_sig', [Ptr(r, 0), self.off])


def bz(b):
    """condition: stream bit is 1"""
    return bv.icmp('eq', bv.frombits((b,)), 1, 1)


def zbit(b, val):
    c = bv.icmp('eq', bv.frombits((b,)), val, 1)
    return z3.BoolVal(c) if type(c) is bool else c


def coef_spec(case):
    """(k -> condition that the unary part has k zeroes and a one), magnitude term, sign bit"""
    st = case.stream
    conds = []
    for k in range(16):
        conds.append(z3.And([zbit(st[8 + i], 0) for i in range(k)] + [zbit(st[8 + k], 1)]))
    return conds


def sig_step(rem, roles):
    def unit():
        R = UnitResult()
        name = '_decompress_sig: coefficient with %d bits buffered' % rem
        case = SigCase(roles, 'step', rem)
        sp = case.sp
        st = case.stream
        conds = coef_spec(case)
        low7 = bv.frombits(tuple(reversed(st[1:8])))
        sign = zbit(st[0], 1)
        minus0 = z3.And(sign, zbit(st[8], 1), *[zbit(b, 0) for b in st[1:8]])
        too_big = z3.And([zbit(b, 0) for b in st[8:24]])
        left = (case.L.z() - case.v.z())          # bytes left
        # not complete within t more bytes
        def incomplete(t):
            have = rem + 8 * t
            return z3.Not(z3.Or([conds[k] for k in range(16) if 8 + k + 1 <= have] + [z3.BoolVal(False)]))
        short = z3.Or([z3.And(left == t, incomplete(t)) for t in range(0, 4)])
        facts = sp.facts(left)
        invalid = z3.Or(minus0, too_big, short)
        nret = 0
        for p in paths(case.make):
            ex = p.ex
            R.functions |= ex.touched
            for i, (pc, c, d) in enumerate(ex.reverts):
                prove_goal(R, name + ': a revert (%s) only on data that is no coefficient' % (d,), invalid, facts + list(pc) + [c])
            if p.end == 'revert':
                prove_goal(R, name + ': a revert (%s) only on data that is no coefficient' % (p.out.data,), invalid, facts + list(ex.pc))
                continue
            if p.end != 'stop' or case.final is None or ex.problems:
                R.check(name + ': the body runs to its end', False, '%s %s %s' % (p.end, p.out, ex.problems[:2]))
                continue
            nret += 1
            fin = case.final
            pc = facts + list(ex.pc)
            # which unary length is it, and the position reached
            ks = [k for k in range(16) if prove(conds[k], pc)[0] == 'proved']
            if not R.check(name + ': path %d: the data holds one coefficient' % nret, len(ks) == 1, str(ks)):
                continue
            k = ks[0]
            nm = name + ': %d zeroes' % k
            used = 8 + k + 1
            nby = max(0, (used - rem + 7) // 8)
            rem2 = rem + 8 * nby - used
            by2 = lin(sp, case.by, nby, 1)
            F = case.features(1, by2, rem2)
            prove_goal(R, nm + ': "-0" is rejected', z3.Not(minus0), pc)
            prove_goal(R, nm + ': the bytes read lie in the buffer', (lin(sp, case.v, nby, 1)).z() <= case.L.z(), pc, sp)
            m = bv.add(bv.zext(low7, 7, 256) if not isinstance(low7, int) else low7, 128 * k, 256)
            want = z3.If(sign, z3.BitVecVal(Q, 256) - bv.z(m, 256), bv.z(m, 256))
            got = case.x.stores
            if R.check(nm + ': exactly word u of the result is written', set(got) == {0}, str(sorted(got))):
                prove_goal(R, nm + ': the word is m, or q - m with the sign bit', bv.z(got[0], 256) == want, pc)
            for a, r in roles.items():
                if isinstance(r, Role):
                    prove_goal(R, nm + ': %s keeps its meaning' % a, r.holds(sp, F, fin[a]), pc, sp)
                elif r == 'acc' and rem2:
                    v = fin[a]
                    tail = tuple(reversed(st[used:used + rem2]))
                    prove_goal(R, nm + ': %s ends with the bits not yet consumed' % a, bv.z(bv.frombits(bits(v)[:rem2]), rem2) == bv.z(bv.frombits(tail), rem2) if not isinstance(v, V) else False, pc)
            no_problems(R, nm, ex)
        R.check(name + ': coefficients with 0 to 15 zeroes are parsed', nret >= 16, str(nret))
        return R
    return unit


def sig_ends(roles):
    def unit():
        R = UnitResult()
        name = '_decompress_sig'
        case = SigCase(roles, 'start')
        ex, th = case.make([])
        try:
            th()
        except StopPath:
            pass
        if R.check(name + ': the loop is reached', case.reached is not None):
            for a, r in roles.items():
                if isinstance(r, Role):
                    prove_goal(R, name + ': initially %s has its meaning' % a, r.holds(case.sp, case.features(), case.reached[a]), ex.pc, case.sp)
            xs = [c[0] for c in case.reached_env.flat().values() if isinstance(c, list) and isinstance(c[0], Ptr) and c[0].r.size == 32 + 512 * 32]
            R.check(name + ': a result of 512 words is allocated', len({p.r for p in xs}) == 1 and xs[0].r.cells.get(0) == 512)
        R.check(name + ': nothing reverts before the loop', not ex.reverts)
        for rem in range(8):
            case = SigCase(roles, 'exit', rem)
            sp = case.sp
            nm = name + ': end with %d bits left' % rem
            clean = z3.And([zbit(b, 0) for b in case.stream[:rem]] + [z3.BoolVal(True)])
            long = case.by.z() >= 666
            n = 0
            for p in paths(case.make):
                ex = p.ex
                R.functions |= ex.touched
                f = sp.facts(long, *ex.pc)
                for pc, c, d in ex.reverts:
                    prove_goal(R, nm + ': a revert only on dirty padding or 666 bytes or more', z3.Or(z3.Not(clean), long), sp.facts(long, c, *pc) + list(pc) + [c])
                if p.end == 'revert':
                    prove_goal(R, nm + ': a revert only on dirty padding or 666 bytes or more', z3.Or(z3.Not(clean), long), f + list(ex.pc))
                    continue
                if p.end != 'return':
                    R.check(nm + ': returns', False, str(ex.problems[:2]))
                    continue
                n += 1
                prove_goal(R, nm + ': a result implies the padding bits are zero', clean, f + list(ex.pc))
                prove_goal(R, nm + ': a result implies fewer than 666 bytes', z3.Not(long), f + list(ex.pc))
                R.check(nm + ': the array filled by the loop is returned as it is', isinstance(p.out[0], Ptr) and p.out[0].r is case.x and p.out[0].o == 0 and case.x.cells == case.xcells)
                no_problems(R, nm, ex)
            R.check(nm + ': a result is possible', n >= 1)
        return R
    return unit


def sig_units():
    R0 = UnitResult()
    roles = infer_sig(R0)

    def base():
        R = UnitResult()
        infer_sig(R)
        R.check('_decompress_sig: the loop state is described', roles is not None and any(isinstance(r, Role) for r in roles.values()), str(roles))
        return R
    u = [('_decompress_sig roles', base)]
    if roles:
        u += [('_decompress_sig step %d' % r, sig_step(r, roles)) for r in range(8)]
        u.append(('_decompress_sig ends', sig_ends(roles)))
    return u


# ------------------------------------------------------------------ KAT container
def kat_unit(mlen):
    def unit():
        R = UnitResult()
        name = 'decompress_KAT, message of %d bytes' % mlen
        H, S = object(), object()
        calls = []

        def hk(ex, fn, args):
            calls.append(('key', args))
            return ex.new_array([0] * 512, 'h'), ('array', U256, None)

        def hs(ex, fn, args):
            calls.append(('sig', args))
            return ex.new_array([0] * 512, 's2'), ('array', U256, None)
        total = 2 + 40 + mlen + 1 + 30
        nret = [0]

        def make(dec):
            del calls[:]
            ex = Ex(prog(ENC), decisions=dec, stubs={'_ZKNOX_NTT_Decompress': hk, '_decompress_sig': hs})
            pk = ex.alloc('pk', 32 + 897)
            pk.cells[0] = 897
            for i in range(29):
                pk.cells[32 + 32 * i] = bv.var('pk%d' % i, 256)
            sm = ex.alloc('sm', 32 + total)
            sm.cells[0] = total
            for i in range(0, total, 32):
                sm.cells[32 + i] = bv.var('sm%d' % i, 256)
            ex.pk, ex.sm = pk, sm
            return ex, lambda: ex.call('decompress_KAT', [Ptr(pk, 0), Ptr(sm, 0), mlen])

        def byte(ex, r, i):
            return ex.op('byte', [i % 32, r.cells[32 + i - i % 32]])
        for p in paths(make):
            ex = p.ex
            R.functions |= ex.touched
            hdr = bv.icmp('eq', byte(ex, ex.pk, 0), 9, 256)
            shd = bv.icmp('eq', byte(ex, ex.sm, 42 + mlen), 0x29, 256)
            for pc, c, d in ex.reverts:
                prove_goal(R, name + ': a revert only on a wrong header', z3.Not(z3.And(hdr, shd)), list(pc) + [c])
            if p.end == 'revert':
                prove_goal(R, name + ': a revert only on a wrong header', z3.Not(z3.And(hdr, shd)), list(ex.pc))
                continue
            if not R.check(name + ': returns', p.end == 'return', str(ex.problems[:2])):
                continue
            nret[0] += 1
            prove_goal(R, name + ': a result implies both headers', z3.And(hdr, shd), list(ex.pc))
            (h, s2, salt, msg), _ = p.out
            R.check(name + ': the key is decoded from offset 1, the signature from offset 43 + mlen',
                    [(k, a[0].r.name, a[1]) for k, a in calls] == [('key', ex.pk.name, 1), ('sig', ex.sm.name, 43 + mlen)]
                    or [(k, a[0].r.name, a[1]) for k, a in calls] == [('sig', ex.sm.name, 43 + mlen), ('key', ex.pk.name, 1)])
            R.check(name + ': they are returned', h.r.name.startswith('h#') and s2.r.name.startswith('s2#'))
            ok = salt.r.cells[0] == 40 and msg.r.cells[0] == mlen
            ok = ok and all(bits(byte(ex, salt.r, i)) == bits(byte(ex, ex.sm, 2 + i)) for i in range(40))
            ok = ok and all(bits(byte(ex, msg.r, i)) == bits(byte(ex, ex.sm, 42 + i)) for i in range(mlen))
            R.check(name + ': salt and message are copied from bytes 2..41 and 42..41+mlen', ok)
            no_problems(R, name, ex)
        R.check(name + ': a result is possible', nret[0] >= 1)
        R.bounded.append(name)
        return R
    return unit


def units():
    u = [('compact', compact_unit(UTILS, '_ZKNOX_NTT_Compact')), ('compact, contract', compact_unit(NTT, 'ZKNOX_NTT_Compact', 'ZKNOX_NTT')), ('compact, deploy', compact_unit(DEPLOY, '_Compact', swap=True)),
         ('expand', expand_unit(UTILS, '_ZKNOX_NTT_Expand')), ('expand, contract', expand_unit(NTT, 'ZKNOX_NTT_Expand', 'ZKNOX_NTT')),
         ('copies', swap_unit), ('range words', range_unit(512, True)), ('range packed', range_unit(512, False)), ('key', key_unit(1))]
    u += sig_units()
    u += [('kat %d' % m, kat_unit(m)) for m in (0, 1, 33, 100)]
    return u
