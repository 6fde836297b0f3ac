"""Contracts of the C codecs (falcon/nistfalcon/src/codec.c): fixed-width codecs."""
import z3
import bv
import csrc
from symex import Engine, State, Ptr, NULL
from runner import UnitResult

Q = 12289
PFX = 'falcon_inner_'


def engine(files=('codec.c',), **kw):
    E = Engine(csrc.modules(files), **kw)
    E.merge_ret = False
    return E


def expect_bits(E, st, name, got, want, w):
    """got/want: values of width w"""
    if bv.tobits(got, w) == bv.tobits(want, w):
        E.trivial += 1
        return True
    return E.prove(name, st, bv.icmp('eq', got, want, w))


def stream_byte(bits, i):
    """byte i of the msb-first bit stream"""
    chunk = bits[8 * i:8 * i + 8]
    chunk = chunk + [0] * (8 - len(chunk))
    return bv.frombits(list(reversed(chunk)))


def enc_unit(fn, logn, B, inw, ok_range, code, has_bits):
    """encoder contract.
    ok_range(x) -> Bool: element encodable;  code(x) -> B bits value"""
    def run():
        n = 1 << logn
        out_len = (n * B + 7) // 8
        R = UnitResult()
        for mode in ('write', 'null'):
            E = engine()
            st = State()
            xin = E.new_obj(st, 'x', n * inw // 8, writable=False)
            xs = [bv.var('x%d' % i, inw) for i in range(n)]
            for i in range(n):
                xin.cells[i * inw // 8] = (inw // 8, xs[i])
            maxl = bv.var('max_out_len', 64)
            if mode == 'write':
                # the output object really has max_out_len bytes (when at least out_len) - writes beyond out_len fail
                out = E.new_obj(st, 'out', out_len)
                po = Ptr(out.id)
            else:
                po = NULL
            args = [po, maxl, Ptr(xin.id), logn] + ([B] if has_bits else [])
            res = E.call(PFX + fn, args, st)
            nok = 0
            allok = bv.band(*[ok_range(x) for x in xs])
            for s, r in res:
                if isinstance(r, int) and r == 0:
                    if mode == 'write':
                        goal = bv.bor(bv.bnot(allok), bv.icmp('ult', maxl, out_len, 64))
                    else:
                        goal = bv.bnot(allok)
                    E.prove('%s(logn=%d,bits=%d): returns 0 only for an element out of range or a short buffer' % (fn, logn, B), s, goal)
                    continue
                nok += 1
                E.prove('%s(logn=%d,bits=%d): returned length' % (fn, logn, B), s, bv.icmp('eq', r, out_len, 64))
                E.prove('%s(logn=%d,bits=%d): success implies every element in range' % (fn, logn, B), s, allok)
                if mode == 'write':
                    E.prove('%s(logn=%d,bits=%d): success implies buffer large enough' % (fn, logn, B), s, bv.icmp('uge', maxl, out_len, 64))
                    bits = []
                    for x in xs:
                        c = bv.tobits(code(x, s), B)
                        bits.extend(reversed(c))
                    o = s.mem[out.id]
                    for i in range(out_len):
                        if i not in o.cells:
                            E.prove('%s(logn=%d,bits=%d): output byte %d is written' % (fn, logn, B, i), s, False)
                            continue
                        expect_bits(E, s, '%s(logn=%d,bits=%d): output byte %d' % (fn, logn, B, i), E._cells_load(o, i, 1), stream_byte(bits, i), 8)
            E.prove('%s(logn=%d): some input is encoded (vacuity guard)' % (fn, logn), State(), nok > 0)
            R.from_engine(E)
        return R
    return run


def dec_unit(fn, logn, B, outw, ok_code, value, has_bits):
    """decoder contract. ok_code(w) -> Bool on the B-bit word; value(w, st) -> outw-bit element"""
    def run():
        n = 1 << logn
        in_len = (n * B + 7) // 8
        E = engine()
        st = State()
        xout = E.new_obj(st, 'x', n * outw // 8)
        inp = E.new_obj(st, 'in', in_len, writable=False)
        bs = [bv.var('in%d' % i, 8) for i in range(in_len)]
        for i in range(in_len):
            inp.cells[i] = (1, bs[i])
        maxl = bv.var('max_in_len', 64)
        args = [Ptr(xout.id), logn] + ([B] if has_bits else []) + [Ptr(inp.id), maxl]
        res = E.call(PFX + fn, args, st)
        bits = []
        for b in bs:
            bits.extend(reversed(bv.tobits(b, 8)))
        words = [bv.frombits(list(reversed(bits[B * u:B * u + B]))) for u in range(n)]
        pad = bits[B * n:]
        okc = [ok_code(w) for w in words]
        okpad = True if not pad else bv.icmp('eq', bv.frombits(list(pad)), 0, len(pad))
        allok = bv.band(okpad, *okc)
        nok = 0
        for s, r in res:
            if isinstance(r, int) and r == 0:
                E.prove('%s(logn=%d,bits=%d): rejects only short, out-of-range or badly padded input' % (fn, logn, B), s,
                        bv.bor(bv.bnot(allok), bv.icmp('ult', maxl, in_len, 64)))
                continue
            nok += 1
            E.prove('%s(logn=%d,bits=%d): returned length' % (fn, logn, B), s, bv.icmp('eq', r, in_len, 64))
            E.prove('%s(logn=%d,bits=%d): accepts only canonical words and zero padding' % (fn, logn, B), s, allok)
            E.prove('%s(logn=%d,bits=%d): accepts only inputs of at least %d bytes' % (fn, logn, B, in_len), s, bv.icmp('uge', maxl, in_len, 64))
            o = s.mem[xout.id]
            for u in range(n):
                if u * outw // 8 not in o.cells:
                    E.prove('%s(logn=%d,bits=%d): element %d is written' % (fn, logn, B, u), s, False)
                    continue
                expect_bits(E, s, '%s(logn=%d,bits=%d): element %d' % (fn, logn, B, u), E._cells_load(o, u * outw // 8, outw // 8), value(words[u], s), outw)
        E.prove('%s(logn=%d): some input is decoded (vacuity guard)' % (fn, logn), State(), nok > 0)
        return UnitResult().from_engine(E)
    return run


# element specifications ------------------------------------------------------
def modq_ok(x):
    return bv.icmp('ult', x, Q, 16)


def modq14_units(logns):
    out = []
    for l in logns:
        out.append(('modq_encode logn=%d' % l, enc_unit('modq_encode', l, 14, 16, modq_ok, lambda x, s: _z(bv.trunc(x, 16, 14), s), False)))
        out.append(('modq_decode logn=%d' % l, dec_unit('modq_decode', l, 14, 16, lambda w: bv.icmp('ult', w, Q, 14), lambda w, s: bv.zext(w, 14, 16), False)))
    return out


def modq16_units(logns):
    out = []
    for l in logns:
        out.append(('modq_encode16 logn=%d' % l, enc_unit('modq_encode16', l, 16, 16, modq_ok, _z, False)))
        out.append(('modq_decode16 logn=%d' % l, dec_unit('modq_decode16', l, 16, 16, modq_ok, _z, False)))
    return out


def _z(v, s):
    from symex import reduce_zeros
    return reduce_zeros(v, s.zeros) if s.zeros else v


def srange(x, w, lo, hi):
    return bv.band(bv.icmp('sge', x, lo & bv.full(w), w), bv.icmp('sle', x, hi, w))


def comp16_units(logns):
    out = []

    def ok(x):
        return srange(x, 16, -6144, 6144)

    def code(x, s):
        return bv.ite(bv.icmp('slt', x, 0, 16), bv.add(x, Q, 16), x, 16)

    def value(w, s):
        return bv.ite(bv.icmp('ugt', w, 6144, 16), bv.sub(w, Q, 16), w, 16)
    for l in logns:
        out.append(('comp_encode16 logn=%d' % l, enc_unit('comp_encode16', l, 16, 16, ok, code, False)))
        out.append(('comp_decode16 logn=%d' % l, dec_unit('comp_decode16', l, 16, 16, modq_ok, value, False)))
    return out


def trim_units(which, logns, bitss):
    out = []
    w = 8 if which == 'i8' else 16
    for l in logns:
        for B in bitss:
            if B > w:
                continue
            M = (1 << (B - 1)) - 1
            out.append(('trim_%s_encode logn=%d bits=%d' % (which, l, B),
                        enc_unit('trim_%s_encode' % which, l, B, w, (lambda x, M=M: srange(x, w, -M, M)),
                                 (lambda x, s, B=B: bv.trunc(x, w, B)), True)))
            out.append(('trim_%s_decode logn=%d bits=%d' % (which, l, B),
                        dec_unit('trim_%s_decode' % which, l, B, w, (lambda v, B=B: bv.icmp('ne', v, 1 << (B - 1), B)),
                                 (lambda v, s, B=B: bv.sext(v, B, w)), True)))
    return out
