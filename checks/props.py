"""Property id -> proof units, concrete search, trusted base."""
import os
import runner
import csrc

C_TB = ['clang 18 front end: C to LLVM IR (-O0)', '/verif/engine IR parser and symbolic executor (VC generator)',
        'z3 4.x', 'sizes/alignments of x86-64 ABI']
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


def c_fixed_codecs():
    import c_codec
    import s_codec
    csrc.module('codec.c')
    l14 = range(1, 11)
    units = c_codec.modq14_units(l14)
    trims = [('i8', b) for b in range(2, 9)] + [('i16', b) for b in (10, 11, 12, 16)]
    if THOROUGH:
        units += c_codec.trim_units('i8', range(1, 11), range(2, 9))
        units += c_codec.trim_units('i16', range(1, 11), [9, 10, 11, 12, 13, 14, 15, 16])
    else:
        # the widths the key format uses at each degree, plus every width at small degree
        units += [u for l in range(1, 10) for u in c_codec.trim_units('i8', [l], sorted({[0, 8, 8, 8, 8, 8, 7, 7, 6, 6, 5][l], 8}))]
        units += c_codec.trim_units('i8', [10], [5])
        units += c_codec.trim_units('i8', [3], range(2, 9)) + c_codec.trim_units('i16', [2, 5], [10, 11, 12])
        units += c_codec.trim_units('i16', [9], [12])
    units.sort(key=lambda u: -int(u[0].split('logn=')[1].split()[0]))
    return dict(units=units, search=s_codec.search_fixed(['modq14'], trims), trusted=C_TB)


def c_codec16():
    import c_codec
    import s_codec
    csrc.module('codec.c')
    ls = range(1, 11)
    units = c_codec.modq16_units(ls) + c_codec.comp16_units(ls)
    units.sort(key=lambda u: -int(u[0].split('logn=')[1].split()[0]))
    return dict(units=units, search=s_codec.search_fixed(['modq16', 'comp16'], []), trusted=C_TB)


def c_comp():
    import c_comp
    import s_codec
    csrc.module('codec.c')
    return dict(units=c_comp.units(), search=s_codec.search_comp, trusted=C_TB)


def _sorted(units):
    """largest degree first"""
    return sorted(units, key=lambda u: -int(u[0].split('logn=')[1].split()[0]) if 'logn=' in u[0] else -99)


def c_ring():
    import c_ring as R
    import s_ring
    csrc.module('vrfy.c')
    u = [('modular functions', R.base_unit), ('mq_div', R.div_unit)]
    for l in range(1, 11):
        u.append(('transforms logn=%d' % l, R.transform_unit(l)))
        u.append(('to_ntt logn=%d' % l, R.to_ntt_unit(l)))
        u.append(('is_invertible logn=%d' % l, R.invertible_unit(l)))
        if l <= (10 if THOROUGH else 9):
            u.append(('compute_public logn=%d' % l, R.compute_public_unit(l)))
        if l <= (9 if THOROUGH else 8):
            u.append(('complete_private logn=%d' % l, R.complete_private_unit(l)))
    return dict(units=_sorted(u), search=s_ring.search_ring, trusted=C_TB + ['polynomial normal forms over F_q (contracts/c_ring.py)'])


def c_verify():
    import c_ring as R
    import s_ring
    csrc.modules(['vrfy.c', 'common.c'])
    u = [('is_short', R.norm_unit('is_short')), ('is_short_half', R.norm_unit('is_short_half'))]
    u += [('modular functions', R.base_unit), ('mq_div', R.div_unit)]
    for l in range(1, 11):
        u.append(('transforms logn=%d' % l, R.transform_unit(l)))
        u.append(('to_ntt logn=%d' % l, R.to_ntt_unit(l)))
        u.append(('verify_raw logn=%d' % l, R.verify_raw_unit(l)))
    return dict(units=_sorted(u), search=s_ring.search_verify, trusted=C_TB + ['polynomial normal forms over F_q (contracts/c_ring.py)'])


def c_recover():
    import c_ring as R
    import s_ring
    csrc.modules(['vrfy.c', 'common.c'])
    u = [('is_short', R.norm_unit('is_short')), ('modular functions', R.base_unit), ('mq_div', R.div_unit)]
    for l in range(1, 11):
        u.append(('transforms logn=%d' % l, R.transform_unit(l)))
        if l <= 9:
            u.append(('hint_epervier logn=%d' % l, R.hint_unit(l)))
        u.append(('verify_recover logn=%d' % l, R.recover_unit('verify_recover', l)))
        u.append(('verify_recover_epervier logn=%d' % l, R.recover_unit('verify_recover_epervier', l)))
    return dict(units=_sorted(u), search=s_ring.search_recover, trusted=C_TB + ['polynomial normal forms over F_q (contracts/c_ring.py)'])


def c_h2p():
    import c_hash as H
    import s_hash
    return dict(units=[('hash_to_point_vartime', H.h2p_shake_unit), ('keccak_hash_to_point_vartime', H.h2p_keccak_unit)], search=s_hash.search_h2p, trusted=C_TB)


def c_shake():
    import c_hash as H
    import s_hash
    csrc.module('shake.c')
    u = [('process_block', H.permutation_unit('shake.c', 'process_block')), ('inject', H.shake_inject_unit),
         ('init and flip', H.shake_flip_init_unit), ('extract', H.shake_extract_unit)]
    return dict(units=u, search=s_hash.search_shake, trusted=C_TB + ['GF(2) polynomial normal forms (engine/anf.py)'])


def c_keccak():
    import c_hash as H
    import s_hash
    csrc.modules(['keccak256.c', 'keccak_prng.c'])
    u = [('prng extract', H.prng_extract_unit), ('keccak_update', H.k256_update_unit), ('sha3_permutation', H.permutation_unit('keccak256.c', 'sha3_permutation')),
         ('process block and init', H.k256_block_unit), ('keccak_final', H.k256_final_unit), ('prng init', H.prng_init_unit),
         ('prng inject', H.prng_inject_unit), ('prng flip', H.prng_flip_unit)]
    return dict(units=u, search=s_hash.search_keccak, trusted=C_TB + ['GF(2) polynomial normal forms (engine/anf.py)'])


def c_open():
    import c_api as A
    import s_api
    return dict(units=A.open_units(), search=s_api.search_open, trusted=C_TB + ['contracts of the codecs (C01-C03), hash layer (C06-C08) and verification core (C05, C12)'])


def c_sign():
    import c_api as A
    import s_api
    return dict(units=A.sign_units(), search=s_api.search_sign,
                trusted=C_TB + ['contracts of the codecs (C01-C03), hash layer (C06-C08), private completion (C04)', 'sign_dyn (floating-point sampler) enters as an arbitrary pair of vectors', 'randombytes returns fresh bytes'])


def c_keys():
    import c_api as A
    import s_api
    return dict(units=A.key_units(), search=s_api.search_key,
                trusted=C_TB + ['contracts of the codecs (C01, C02), hash layer (C07), to_ntt (C04)', 'keygen enters as an arbitrary function of its generator', 'randombytes returns fresh bytes'])


PY_TB = ['the CPython interpreter executing the parsed source on symbolic values (/verif/engine/pysym.py)', 'z3 4.x',
         'models of the built-ins that accept symbolic values (len, int, bytes, bytearray, format, bin, sum, min, max, range)']


def _py(mod):
    import sys
    import importlib
    h = os.path.join(runner.VERIF, 'hunts')
    if h not in sys.path:
        sys.path.insert(0, h)
    import pyhunt
    return importlib.import_module(mod), pyhunt


def p_comp():
    m, H = _py('p_comp')
    return dict(units=m.units(), search=H.search('h_comp.py'), trusted=PY_TB)


def p_codec():
    m, H = _py('p_codec')
    return dict(units=m.units(THOROUGH), search=H.search('h_codec.py'), trusted=PY_TB)


def p_sponge():
    m, H = _py('p_hash')
    return dict(units=m.sponge_units(), search=H.search('h_sponge.py'), trusted=PY_TB + [
        'numpy arrays as byte sequences (frombuffer, view, ^=, tobytes)', 'GF(2) polynomial normal forms (engine/anf.py)'])


def p_prng():
    m, H = _py('p_hash')
    return dict(units=m.prng_units(), search=H.search('h_prng.py'), trusted=PY_TB + [
        'Crypto.Hash.keccak and hashlib.blake2s compute their hash functions'])


def p_point():
    m, H = _py('p_hash')
    return dict(units=m.point_units(), search=H.search('h_point.py'), trusted=PY_TB + [
        'the extendable-output function enters as an arbitrary stream (its own contracts: P03, P04)'])


def p_verify():
    m, H = _py('p_verify')
    return dict(units=m.verify_units(), search=H.search('h_verify.py'), trusted=PY_TB + [
        'polyntt (Poly, NTTIterative) is exact arithmetic in Z_q[X]/(X^n+1)', 'eth_abi.encode_packed packs uint256 words',
        'contracts of decompress (P01), hash_to_point (P05), KeccakHash (P03)'])


def p_sign():
    m, H = _py('p_sign')
    return dict(units=m.sign_units(), search=H.search('h_sign.py'), trusted=PY_TB + [
        'floating-point arithmetic is exact; fft and ifft are inverse ring isomorphisms', 'ffsampling_fft returns integer vectors; ntru_gen returns a key',
        'polyntt (Poly, NTTIterative) is exact arithmetic in Z_q[X]/(X^n+1)', 'contracts of compress (P01), hash_to_point (P05), SHAKE and KeccakHash (P03)'])


def p_ntru():
    m, H = _py('p_ntru')
    return dict(units=m.units(), search=H.search('h_ntru.py'), trusted=PY_TB + [
        'the rounded floating-point quotient in reduce is a vector of integers', 'fft operations in gs_norm and reduce are exact algebra',
        'polyntt NTT values are the evaluations at the 2n-th roots of unity'])


def p_sampler():
    m, H = _py('p_sampler')
    return dict(units=m.units(), search=H.search('h_sampler.py'), trusted=PY_TB + ['floating-point arithmetic is exact'])


def p_chacha():
    m, H = _py('p_chacha')
    return dict(units=m.units(), search=H.search('h_chacha.py'), trusted=PY_TB + ['/verif/oracle/chacha.py block function (reference)'])


def p_fft():
    m, H = _py('p_fft')
    return dict(units=m.units(), search=H.search('h_fft.py'), trusted=PY_TB + [
        'floating-point arithmetic is exact', 'a polynomial is determined by its values at the roots of x^n + 1 (ring isomorphism)'])


SOL_TB = ['the parser and executor of Solidity and Yul in /verif/engine (solparse.py, solex.py, soldom.py): no compiler or EVM is at hand',
          'z3 4.x', 'the EVM opcode keccak256', 'the executor in its concrete mode, for failing inputs']


def _sol(mod, script, *args):
    import sys
    m, H = _py(mod)
    return m, H.search(script, py=sys.executable, args=args)


def e_ring():
    m, s = _sol('e_ring', 'e_ring_h.py')
    return dict(units=m.units(), search=s, trusted=SOL_TB + ['polynomial normal forms over F_q (engine/soldom.py)'])


def e_codec():
    m, s = _sol('e_codec', 'e_codec_h.py')
    return dict(units=m.units(), search=s, trusted=SOL_TB)


def e_hash():
    m, s = _sol('e_hash', 'e_hash_h.py')
    return dict(units=m.units(), search=s, trusted=SOL_TB + ['GF(2) polynomial normal forms (engine/anf.py)'])


def e_verify():
    m, s = _sol('e_verify', 'e_verify_h.py', 'verify')
    return dict(units=m.units(), search=s, trusted=SOL_TB + ['contracts of the product (E01), packing (E02) and hash-to-point (E03)',
                'SSTORE2 returns the bytes written; ABI encoding and decoding of calls'])


def e_recover():
    m, s = _sol('e_verify', 'e_verify_h.py', 'recover')
    return dict(units=m.recover_units(), search=s, trusted=SOL_TB + ['contracts of the transform (E01), packing (E02) and hash-to-point (E03)'])


def c_fpr():
    import c_fpr as F
    import s_fpr
    csrc.module('fpr.c')
    csrc.module(F.WRAP)
    return dict(units=F.units(), search=s_fpr.search, trusted=C_TB + ['oracle/fpr_wrap.c: external names for the inline functions of fpr.h', 'mpmath for the values of the tables'])


def c_prng():
    import c_prng as P
    import s_prng
    csrc.module('rng.c')
    csrc.module('sign.c')
    return dict(units=P.units(), search=s_prng.search, trusted=C_TB + ['the floating-point operations enter the samplers by their contracts (C14)'])


def c_keygen():
    import c_keygen as P
    import s_keygen
    csrc.module('keygen.c')
    return dict(units=P.units(), search=s_keygen.search, trusted=C_TB + ['the intermediate levels of the NTRU solver, the FFT and the floating-point operations enter as arbitrary functions'])


PROPS = {
    'C15': c_keygen,
    'C13': c_prng,
    'C14': c_fpr,
    'E01': e_ring,
    'E02': e_codec,
    'E03': e_hash,
    'E04': e_verify,
    'E05': e_recover,
    'P11': p_fft,
    'P08': p_ntru,
    'P09': p_sampler,
    'P10': p_chacha,
    'P06': p_verify,
    'P07': p_sign,
    'P01': p_comp,
    'P02': p_codec,
    'P03': p_sponge,
    'P04': p_prng,
    'P05': p_point,
    'C10': c_sign,
    'C11': c_keys,
    'C09': c_open,
    'C06': c_h2p,
    'C07': c_shake,
    'C08': c_keccak,
    'C04': c_ring,
    'C05': c_verify,
    'C12': c_recover,
    'C01': c_fixed_codecs,
    'C02': c_codec16,
    'C03': c_comp,
}


def run(pid):
    d = PROPS[pid]()
    return runner.main(pid, d['units'], d.get('search'), assumptions=d.get('assumptions', ()), trusted=d.get('trusted', ()),
                       extra=d.get('extra'), search_budget=d.get('search_budget'))
