"""The properties: statements for properties.jsonl and claims for MANIFEST.json."""
NOTES = ('Contract-based deductive verification: /verif/engine generates verification conditions from the LLVM IR clang '
         'makes of the C sources in /repo, and from the syntax trees of the Python and Solidity sources in /repo, on every run.')
C = 'falcon/nistfalcon/src/'
PENDING = 'check not built yet'
VC_C = ('contracts on the real C functions; verification conditions generated from the LLVM IR of the current source; '
        'discharged by z3/cvc5')
N_C = ('For all inputs, every obligation generated from the current source. Trusted: clang C to LLVM IR, the VC generator in '
       '/verif/engine, z3/cvc5. Machine integers are exact bit-vectors. ')

Y = 'pythonref/'
VC_P = ('contracts on the real Python functions; the current source is parsed and executed on symbolic values along every path, '
        'loops cut by invariants; every obligation discharged by z3/cvc5')
N_P = ('For all inputs, every obligation generated from the current source. Trusted: CPython executing the parsed source on '
       'symbolic values, the built-in models of engine/pysym.py, z3/cvc5. ')

S = 'src/'
VC_S = ('contracts on the real Solidity functions; the current source is parsed and executed on symbolic values along every path, '
        'loops unrolled or cut by invariants; every obligation discharged by z3 or by polynomial normal forms')
N_S = ('For all inputs, every obligation generated from the current source. Trusted: the Solidity/Yul parser and executor in '
       '/verif/engine (no compiler or EVM here), z3, the EVM keccak256 opcode. Words are exact 256-bit integers. ')

CATALOG = [
 dict(id='C01', title='C fixed-width key codecs are canonical and inverse',
      statement='In the C library, encoding a polynomial of in-range coefficients (14 bits per coefficient mod q, or a fixed signed width) and decoding the result gives it back and uses exactly the announced number of bytes; an out-of-range coefficient or a too small output makes encoding return 0 without writing. Decoding accepts a byte string exactly when every value is in range (below q, or not the most negative one) and the padding bits are zero, so that each polynomial has exactly one accepted encoding; no call reads or writes outside its buffers.',
      over=['inputs'], text='every coefficient vector, every byte string and every buffer length, at each degree 2^1..2^10',
      why='The KAT programs decode 100 keys that the library itself generated; no test gives a malformed or boundary encoding.',
      files=[C + 'codec.c'], mech=[('range checks, bit accumulator and padding test', C + 'codec.c modq_encode/modq_decode/trim_i8_*/trim_i16_*')],
      technique=VC_C, note=N_C + 'Loops have concrete trip counts per degree and are unrolled completely.'),
 dict(id='C02', title='C 16-bit word codecs of the EVM format are canonical and inverse',
      statement='In the C library, the big-endian 16-bit-per-coefficient encodings (public key words in 0..q-1, signature words holding centered residues mod q) encode every in-range vector in exactly two bytes per coefficient and decode back to the same vector; out-of-range values or short buffers make encoding return 0. Decoding accepts a byte string exactly when every word is a canonical residue below q, so no second word string decodes to the same vector, and never touches memory outside its buffers.',
      over=['inputs'], text='every coefficient vector, every byte string and every buffer length, at each degree 2^1..2^10',
      why='The KAT programs only round-trip signatures the library produced, whose coefficients are far from the boundary.',
      files=[C + 'codec.c'], mech=[('word range checks and centering', C + 'codec.c modq_encode16/modq_decode16/comp_encode16/comp_decode16')],
      technique=VC_C, note=N_C + 'Loops have concrete trip counts per degree and are unrolled completely.'),

 dict(id='C03', title='C compressed signature codec is canonical and inverse',
      statement='In the C library, compressing a vector of coefficients within -2047..2047 yields exactly the Falcon code (sign bit, seven low bits, unary high part, one stop bit, zero padding), with its announced length, and returns 0 without writing past the output for any other coefficient or a too small buffer. Decompressing a byte string of any length accepts it exactly when it starts with the code of some in-range vector with no minus zero and only zero padding bits in its last byte; it then yields that vector and the number of bytes read, so that no two accepted strings of the same length decode to the same vector, and it never reads beyond the input.',
      over=['inputs'], text='every coefficient vector, every byte string and every buffer length, at every degree 2^1..2^10',
      why='The KAT programs only decompress signatures that the library itself compressed; the malleability and range checks never fire in them.',
      files=[C + 'codec.c'], mech=[('bit accumulator, range, minus-zero and padding checks', C + 'codec.c comp_encode/comp_decode')],
      technique=VC_C, note=N_C + 'Unbounded loops are cut by invariants over a ghost parse of the input.'),
 dict(id='C04', title='C ring arithmetic modulo q is exact',
      statement='In the C library, the transforms to the NTT domain evaluate any polynomial of Z_q[X]/(X^n+1) at the n distinct roots of X^n+1 exactly, and the public-key computation returns exactly g/f in that ring when f is invertible and fails exactly when it is not. Private-key completion returns exactly G = g F / f with coefficients within -127..127, and fails exactly when f is not invertible or such a G does not exist; the invertibility test answers exactly.',
      over=['inputs'], text='every polynomial with coefficients in the documented ranges, at each degree 2^1..2^10 (public key up to 2^9 and private completion up to 2^8 in the quick tier, one more in the thorough one)',
      why='The KATs exercise 100 generated keys of one degree; a carry or reduction that is wrong for rare operands is not reached by them.',
      files=[C + 'vrfy.c'], mech=[('modular add/sub/halve/Montgomery product/division', C + 'vrfy.c mq_*'), ('transforms', C + 'vrfy.c mq_NTT/mq_iNTT/to_ntt/to_ntt_monty'), ('key relations', C + 'vrfy.c compute_public/complete_private/is_invertible')],
      technique=VC_C, note=N_C + 'Callers are executed against the contracts of the modular functions and transforms; loops have concrete trip counts per degree and are unrolled completely.'),
 dict(id='C05', title='C signature verification equation accepts exactly the short vectors',
      statement='The C verification core accepts (c0, s2, h) exactly when the vector (c0 - s2 h reduced to -6144..6144, s2) has squared Euclidean norm at most the published bound of the degree; the bound is inclusive and no accumulator overflow can make a long vector pass. The two stand-alone norm tests answer exactly the same question for any 16-bit vectors.',
      over=['inputs'], text='every hashed point and public key with coefficients below q, every s2 with |coefficients| <= 6144 (every 16-bit vector for the norm tests), at each degree 2^1..2^10',
      why='Genuine signatures have norms well below the bound and never overflow; forged or boundary vectors are not in any test.',
      files=[C + 'vrfy.c', C + 'common.c'], mech=[('recomputation of s1 and centering', C + 'vrfy.c verify_raw'), ('saturating norm', C + 'common.c is_short/is_short_half')],
      technique=VC_C, note=N_C + 'Callers are executed against the contracts of the modular functions and transforms; the norm loops are cut by an invariant carrying the exact sum.'),
 dict(id='C12', title='C key recovery (Epervier) returns the unique key of a short signature',
      statement='The C recovery functions accept (c0, s1, s2) exactly when (s1, s2) has squared norm at most the published bound and s2 is invertible in Z_q[X]/(X^n+1), and they then return exactly the only key h with s1 + s2 h = c0 (in coefficient or NTT form respectively). The Epervier hint is exactly the inverse modulo q of the product of the transform coefficients of s2 (0 if s2 is not invertible).',
      over=['inputs'], text='every hashed point below q and every (s1, s2) with |coefficients| <= 6144, at each degree 2^1..2^10 (hint: up to 2^9)',
      why='The Epervier KAT recovers keys only from signatures it has just produced; non-invertible s2 or over-long s1 never occur there.',
      files=[C + 'vrfy.c', C + 'common.c'], mech=[('recovery', C + 'vrfy.c verify_recover/verify_recover_epervier'), ('hint', C + 'vrfy.c hint_epervier')],
      technique=VC_C, note=N_C + 'Callers are executed against the contracts of the modular functions and transforms; loops have concrete trip counts per degree and are unrolled completely.'),
 dict(id='C13', title='C generator and samplers draw as specified',
      statement='In the C library, the signing generator is Falcon\'s ChaCha20: seeded with 56 bytes of the given SHAKE256 context, each refill writes the next eight blocks (words interleaved) and advances the 64-bit block counter by eight. prng_get_bytes, prng_get_u64 and prng_get_u8 deliver the stream in order, each byte at most once, and never leave the buffer empty (get_u64 starts a new buffer when fewer than ten bytes are left). The half-Gaussian is the number of table thresholds above the next 72-bit integer; BerExp accepts exactly when the next random 64-bit integer (read lazily) is below the scaled probability, with the exponent saturated at 63; sampler draws half-Gaussian, sign bit and decision per attempt, with the exponent and scale of the specification, and returns only an accepted candidate plus the integer part of the centre. Every signing attempt runs the sampler with sigma_min of the degree on a generator seeded afresh from the given context, and sign_dyn and sign_tree end only with an attempt that succeeded.',
      over=['inputs', 'histories'], text='every key, counter and buffer position; every length below 2^62; every random byte string; every centre with integer part below 2^30 and every inverse deviation',
      why='A counter crossing 2^32, an exponent of 64 or more, a threshold hit exactly or the last bytes of a buffer are never reached by the known answers.',
      files=[C + 'rng.c', C + 'sign.c', C + 'inner.h'], mech=[('refill, init, get_bytes', C + 'rng.c'), ('get_u64, get_u8', C + 'inner.h'), ('gaussian0_sampler, BerExp, sampler, sign_dyn, sign_tree', C + 'sign.c')],
      technique=VC_C, note=N_C + 'The floating-point operations enter by their contracts as functions of their operands (C14). prng_get_bytes and the attempt loops are cut by invariants; termination of the rejection loops is probabilistic and not claimed. do_sign_dyn and do_sign_tree enter as an arbitrary attempt.'),
 dict(id='C14', title='C floating-point emulation is correctly rounded',
      statement='In the C library, fpr_add, fpr_sub, fpr_mul, fpr_sqr, fpr_div, fpr_inv, fpr_sqrt, fpr_of and fpr_scaled return the binary64 number nearest to the exact result, ties to even (results below 2^-1022 become a zero); fpr_rint, fpr_floor, fpr_trunc, fpr_neg, fpr_half, fpr_double and fpr_lt are exact. fpr_expm_p63 is the specified polynomial in 63-bit fixed point, within 2^-51 of the exponential on [0, log 2]. The tables of powers of two, roots of unity and named constants hold the nearest numbers; 1/sigma and sigma_min are within two units of the last place of the formulas.',
      over=['inputs'], text='every pair of operands that are zero or normal numbers and whose result does not overflow (quotient: divisor not zero; root: operand not negative; comparison: not two zeros; halving: not the smallest exponent; conversions: magnitude below 2^63; exponential: both operands in [0, 1))',
      why='Rounding errors show only for operands near a rounding boundary; the known answers would survive a wrong sticky bit in all but a tiny fraction of the operations.',
      files=[C + 'fpr.c', C + 'fpr.h'], mech=[('add, mul, div, sqrt, scaled, expm', C + 'fpr.c'), ('rounding, conversions, comparisons', C + 'fpr.h')],
      technique=VC_C, note=N_C + 'Addition is split by exponent difference, signs, order and leading bit; multiplication is checked over the exact product of the mantissa halves; division, square root and the polynomial carry an invariant through each iteration of their loops. oracle/fpr_wrap.c only gives the inline functions of fpr.h external names.'),
 dict(id='C15', title='C key generation returns only keys that satisfy their conditions',
      statement='In the C library, each coefficient of f and g is an independent sum of 2^(10-logn) draws from the Gaussian table (16 bytes of the generator each), drawn again outside -127..127 and, for the last one, until the sum of the coefficients is odd. keygen returns only f and g with every coefficient below 2^(max_fg_bits-1) in magnitude, squared norm below 16823, a squared orthogonalised norm (as computed in emulated floating point) below its bound, f invertible modulo q with h = g/f, and F and G with coefficients within -127..127 and f G - g F = q in Z[X]/(X^n + 1), whatever the solver computed on the way. With G not asked for, such a G exists.',
      over=['inputs', 'histories'], text='every output of the generator, at each degree 2^1..2^10, with and without h and G, every result of the intermediate solver levels and of the transforms (if keygen returns: termination is probabilistic and not claimed)',
      why='A test generates a few keys, nearly all of which satisfy the conditions without the tests that enforce them; a key that fails one of them is rare and still signs and verifies.',
      files=[C + 'keygen.c'], mech=[('drawing', C + 'keygen.c mkgauss/poly_small_mkgauss/poly_small_sqnorm'), ('final test of the solver', C + 'keygen.c solve_NTRU/poly_big_to_small/modp_NTT2'), ('conditions', C + 'keygen.c keygen')],
      technique=VC_C, note=N_C + 'The intermediate levels of the solver and the FFT operations enter as arbitrary results, so nothing is claimed of how often keygen succeeds. The final test modulo the prime 2147473409 decides the equation over the integers because both sides are smaller (a paper step from the proved ranges); the NTT is proved to be evaluation at the n distinct roots at every degree.'),
 dict(id='C06', title='C hash-to-point is the specified rejection sampling',
      statement='In the C library, both hash-to-point functions (SHAKE256 and Keccak PRNG) read the finalised hash stream as consecutive big-endian 16-bit words, reject exactly the words that are at least 5q = 61445 and output the first n accepted words reduced modulo q, each below q, in order. They write nothing besides these n coefficients.',
      over=['inputs'], text='every content of the hash stream, at each degree 2^1..2^10 (if the function returns: termination is probabilistic and not claimed)',
      why='A word equal to a rejection or reduction boundary appears with probability 2^-16 per sample; the known answers compare about a hundred points.',
      files=[C + 'common.c'], mech=[('rejection bound and reduction', C + 'common.c hash_to_point_vartime/keccak_hash_to_point_vartime')],
      technique=VC_C, note=N_C + 'The extraction functions enter by contract (an arbitrary byte stream). The sampling loop is cut by an invariant over the number of accepted words; termination is not claimed. hash_to_point_ct is called nowhere in the library and is not covered.'),
 dict(id='C07', title='C SHAKE256 sponge is exact for any split of input and output',
      statement='In the C library, initialising a SHAKE256 context, injecting data in any number of pieces of any length, finalising, and extracting output in any number of pieces of any length yields exactly the SHAKE256 output of the concatenated input. The permutation is Keccak-f[1600] and no call accesses memory outside the context and the given buffer.',
      over=['inputs', 'histories'], text='every input, every sequence of inject and extract calls and lengths (below 2^62 bytes per call)',
      why='The tests inject one or two pieces of a few fixed lengths; a fault at a block boundary in some split is not reached.',
      files=[C + 'shake.c'], mech=[('permutation', C + 'shake.c process_block'), ('absorbing, padding, squeezing', C + 'shake.c i_shake256_*')],
      technique=VC_C, note=N_C + 'The permutation is decided by GF(2) polynomial normal forms; the streaming loops are cut by invariants relating the context to a byte-wise reference sponge.'),
 dict(id='C08', title='C Keccak-256 and the Keccak PRNG are exact for any call sequence',
      statement='In the C library, Keccak-256 of data given in any pieces is the original-padding Keccak digest, and the Keccak PRNG outputs, for any split of the requests, exactly the stream H(s || 0) H(s || 1) ... with s = H(injected data) and big-endian 64-bit counters. Injecting after finalisation or beyond 4096 bytes in total, finalising twice, and extracting before finalisation are refused with a non-zero result and change no buffered data.',
      over=['inputs', 'histories'], text='every input, every sequence of update/inject/extract calls and lengths (update up to 65535 bytes, inject below 2^62, extract below 2^48 per call)',
      why='The known answers use one short input and sequential 2-byte reads; block-boundary, partial-read and misuse histories are not exercised.',
      files=[C + 'keccak256.c', C + 'keccak_prng.c'], mech=[('hash blocks and padding', C + 'keccak256.c keccak_update/keccak_final'), ('counter mode and buffer', C + 'keccak_prng.c i_keccak256_*')],
      technique=VC_C, note=N_C + 'The permutation is decided by GF(2) polynomial normal forms; loops are cut by invariants; the PRNG is executed against the contracts of Keccak-256.'),
 dict(id='C09', title='C signed-message opening accepts exactly the well-formed valid messages',
      statement='Each C opening function (Falcon, EVM format, both also with the Keccak hash, and Epervier) accepts a signed message exactly when its length field, headers, public key and signature encodings are all valid with no byte left over, the hashed nonce and message fit the hash, and the verification core accepts that exact hash, signature and key (for Epervier: recovers exactly that key). On acceptance it returns exactly the embedded message and its length; on rejection it writes nothing; and it never reads outside the given bytes.',
      over=['inputs'], text='every signed message of any length below 2^48, every public key byte string',
      why='The KAT programs open only messages they just signed; malformed frames, truncated or empty signatures never occur.',
      files=[C + 'nist.c', C + 'nist16.c', C + 'epervier16.c'], mech=[('frame parsing and acceptance', C + 'nist.c crypto_sign_open'), ('EVM format', C + 'nist16.c zknox_crypto_sign_open'), ('Epervier', C + 'epervier16.c zknox_crypto_sign_open_epervier')],
      technique=VC_C, note=N_C + 'Codecs, hash and verification core enter by the contracts that C01-C08 and C12 discharge. The Epervier hint bytes are, as documented in the code, not examined.'),
 dict(id='C10', title='C signing frames exactly the message, fresh nonce and encoded signature',
      statement='Each C signing function, on success, outputs exactly: the two-byte signature length, the 40 fresh random nonce bytes, the message, and the header and encoding of the vector(s) its sampler returned for that key and for the hash of nonce and message (for Epervier: both vectors, the second one invertible, and its hint); the length is exact and nothing is written beyond it or outside the buffers. The sampler is seeded with 48 other fresh random bytes. It fails, writing nothing, exactly when the private key does not decode and complete, the message does not fit the hash, or the signature cannot be encoded.',
      over=['inputs'], text='every message of any length below 2^48, every private key byte string, every sampler result',
      why='The KAT programs sign 100 short messages with valid keys; invalid keys, long messages and encoding failures never occur.',
      files=[C + 'nist.c', C + 'nist16.c', C + 'epervier16.c'], mech=[('framing', C + 'nist.c crypto_sign'), ('EVM format', C + 'nist16.c zknox_crypto_sign'), ('Epervier', C + 'epervier16.c zknox_crypto_sign_epervier')],
      technique=VC_C, note=N_C + 'sign_dyn (floating-point sampling) enters as an arbitrary function; codecs, hash and completion enter by the contracts C01-C04, C06-C08 discharge; the Epervier resampling loop is cut (termination not claimed).'),
 dict(id='C11', title='C key pairs are complete encodings of the generated key',
      statement='Each C key-pair function seeds the key generator with the whole given seed (refused below 32 bytes) or with 48 fresh random bytes, and on success the private key is exactly header 0x59 and the codes of f, g, F (widths 6, 6, 8) and the public key exactly header 0x09 and the code of the generated h (its NTT form in the EVM format). It fails exactly when an element cannot be encoded; the Epervier key function accepts exactly the valid EVM keys and leaves them unchanged.',
      over=['inputs'], text='every seed of any length below 2^48, every generator result, every public key byte string',
      why='The KAT programs use 48-byte seeds from a DRBG and keys the library generated.',
      files=[C + 'nist.c', C + 'nist16.c', C + 'epervier16.c'], mech=[('encoding of the key pair', C + 'nist.c crypto_sign_keypair/_from_seed'), ('EVM format', C + 'nist16.c zknox_crypto_sign_keypair/_from_seed'), ('Epervier key', C + 'epervier16.c zknox_pk_epervier')],
      technique=VC_C, note=N_C + 'keygen enters as an arbitrary function of its generator; codecs, hash and to_ntt enter by the contracts C01, C02, C04, C07 discharge.'),

 dict(id='P01', title='Python compressed signature codec is exact and canonical',
      statement='In the Python reference, compress(v, slen) returns the slen bytes made of the Falcon codes of all coefficients (sign, seven low bits, unary high part, one) followed by zeros, or False exactly when the codes need more than 8 slen bits. decompress(x, slen, n) returns the n coefficients when x (at most slen bytes) is exactly n such codes, without a minus zero, followed by zeros only, and returns False for every other byte string, without raising.',
      over=['inputs'], text='every list of integers of any length and size, every byte string, slen and n',
      why='The tests round-trip honest signatures; malformed, truncated or re-encoded strings are never decompressed.',
      files=[Y + 'encoding.py'], mech=[('codes and lengths', Y + 'encoding.py compress'), ('parsing and canonicity', Y + 'encoding.py decompress')],
      technique=VC_P, note=N_P + 'All loops are cut by invariants; lengths and values are unbounded mathematical integers, as in Python.'),
 dict(id='P02', title='Python key codecs are canonical and reject malformed keys',
      statement='In the Python reference, modq_encode and trim_i8_encode give exactly the NIST bit layout of in-range coefficients and raise ValueError for others; modq_decode and trim_i8_decode return the coefficients of an encoding whose values are all in range and whose padding is zero and raise ValueError otherwise, never another exception. PublicKey.from_bytes accepts exactly the 897-byte (header 9) and 1793-byte (header 10) keys with all coefficients below q; falcon_compact packs 16 elements below 2^16 per word and decode16 reads big-endian words, refusing other lengths.',
      over=['inputs'], text='every coefficient vector (20-bit integers) and every byte string of the stated lengths',
      why='The tests decode a few honest keys; the range, padding and header checks never fire.',
      files=[Y + 'falcon_codec.py', Y + 'falcon.py', Y + 'encoding.py', Y + 'common.py'],
      mech=[('bit accumulators and checks', Y + 'falcon_codec.py modq_*/trim_i8_*'), ('key parsing', Y + 'falcon.py PublicKey.from_bytes'), ('word packing', Y + 'common.py falcon_compact, encoding.py decode16')],
      technique=VC_P, note=N_P + 'Loops are unrolled completely: degrees 2..512 (thorough: 1024) at the widths of the key format, and the listed wrong lengths; coefficients as 20-bit integers; falcon_compact for non-negative elements.'),
 dict(id='P03', title='Python SHAKE256 is exact for any sequence of updates and reads',
      statement='In the Python reference, absorbing data in any pieces, flipping, and reading in any pieces gives exactly the output of the Keccak sponge of the concatenated data; SHAKE is the instance with rate 136 and domain byte 0x1f, so it equals SHAKE256.',
      over=['inputs', 'histories'], text='every input, every rate 1..199, domain byte, and sequence of update and read lengths',
      why='The tests compare a few fixed lengths with one update each; a fault at a block boundary in some split is not reached.',
      files=[Y + 'keccak.py', Y + 'shake.py'], mech=[('permutation', Y + 'keccak.py Keccak.F1600'), ('sponge', Y + 'keccak.py KeccakHash.absorb/pad/squeeze/permute')],
      technique=VC_P, note=N_P + 'The permutation is decided by GF(2) polynomial normal forms; absorb and squeeze are cut by invariants over a byte-wise sponge with symbolic rate and position.'),
 dict(id='P04', title='Python Keccak and Blake2s PRNGs output the specified stream',
      statement='In the Python reference, KeccakPRNG and Blake2sPRNG output, for any split of the requests, exactly the stream H(s || 0) H(s || 1) ... with s = H(injected data) and big-endian 64-bit counters, H being Keccak-256 or BLAKE2s-256. Injecting beyond the buffer (4096 or 1024 bytes) or after flip, flipping twice and extracting before flip raise ValueError and change nothing.',
      over=['inputs', 'histories'], text='every injected data, every sequence of inject, flip and extract calls and lengths (fewer than 2^64 blocks)',
      why='The known answers use a short input and a few fixed reads; block-boundary splits and misuse histories are not exercised.',
      files=[Y + 'keccak_prng.py', Y + 'blake2s_prng.py'], mech=[('buffering and counter mode', Y + 'keccak_prng.py KeccakPRNG.inject/flip/extract'), ('same, BLAKE2s', Y + 'blake2s_prng.py Blake2sPRNG')],
      technique=VC_P, note=N_P + 'Each method is proved to keep a class invariant over a ghost stream position; the hash library calls enter by contract.'),
 dict(id='P05', title='Python hash-to-point is the rejection sampler of salt and message',
      statement='In the Python reference, hash_to_point absorbs the salt (its BLAKE2s digest for the BLAKE2s variant), then the message, and returns n coefficients that are the residues mod q of the successive big-endian 16-bit words of the output that are below 5q, in order, skipping all others.',
      over=['inputs'], text='every salt, message, degree and output stream of the extendable-output function',
      why='The known answers fix a few messages; words at the rejection boundary hardly ever occur in them.',
      files=[Y + 'falcon.py'], mech=[('rejection sampling', Y + 'falcon.py hash_to_point')],
      technique=VC_P, note=N_P + 'The sampling loop is cut by an invariant over the count of accepted words; termination is not claimed.'),

 dict(id='P06', title='Python verification and key recovery accept exactly the valid signatures',
      statement='In the Python reference, PublicKey.verify returns True exactly when the bytes after header and salt are a valid code of a vector s1 and ||(hash - s1 h reduced to -6144..6144, s1)||^2 is at most the bound of the degree, and False otherwise. The recovery-mode and Epervier recover return False unless the code of (s0, s1) is valid, the hint is the inverse of s1 at every NTT point and the squared norm is within the bound, and otherwise the address (last 20 bytes of Keccak-256) of h = (hash - s0) / s1; their verify accepts exactly when that address is the key. Degree parameters, salt slicing and the selected hash function are those of the format.',
      over=['inputs'], text='every degree, key, message, and signature byte string of any length, for the three hash functions',
      why='The tests verify signatures the code just produced; norms at the bound, wrong hints, truncated signatures and failed recoveries hardly occur.',
      files=[Y + 'falcon.py', Y + 'falcon_recovery.py', Y + 'falcon_epervier.py'],
      mech=[('verification', Y + 'falcon.py PublicKey.verify'), ('recovery', Y + 'falcon_recovery.py RecoveryModePublicKey.recover/verify'), ('Epervier', Y + 'falcon_epervier.py EpervierPublicKey.recover/verify')],
      technique=VC_P, note=N_P + 'decompress and hash_to_point enter by the contracts P01 and P05, the package polyntt (not in the repository) as exact ring arithmetic mod q; squares are an even uninterpreted function in the norm sums. The header byte is, by design, not examined.'),
 dict(id='P07', title='Python signing returns well-formed short signatures that verify',
      statement='In the Python reference, sign (Falcon, recovery mode, Epervier) returns exactly header (0x20 or 0x30 plus log n), the 40 fresh salt bytes, the code of the vector sampled for the hash of that salt and message, and in the two recovery modes the 3-byte NTT values of 1/s1; the vector has squared norm at most the bound and, in the recovery modes, invertible s1. The sampler is run on hash * B^-1 with the normalised tree and with fresh randomness (the system source, or the seeded generator of the mode), so that s0 + s1 h = hash and the matching verify accepts. The constructor stores the given or generated f, g, F, G, the basis ((g,-f),(G,-F)), h = g/f, and the address of h.',
      over=['inputs'], text='every degree, key with fG - gF = q, message, source of randomness and sampler result',
      why='The tests sign a few messages; a vector at the norm bound, a non-invertible s1 or a code that does not fit hardly ever occurs.',
      files=[Y + 'falcon.py', Y + 'falcon_recovery.py', Y + 'falcon_epervier.py'],
      mech=[('signing', Y + 'falcon.py SecretKey.sign/sample_preimage'), ('recovery mode', Y + 'falcon_recovery.py RecoveryModeSecretKey'), ('Epervier', Y + 'falcon_epervier.py EpervierSecretKey')],
      technique=VC_P, note=N_P + 'Floating-point arithmetic is treated as mathematical (fft/ifft as exact inverse ring isomorphisms), ffsampling_fft as returning any integer vector, ntru_gen by P08; compress, hash_to_point, SHAKE and polyntt enter by contract. The retry loop is cut (termination not claimed). Acceptance is proved from this contract and P01.'),
 dict(id='P08', title='Python key generation solves the NTRU equation exactly',
      statement='In the Python reference, ntru_gen returns f, g, F, G with f G - g F = q, f and g the two polynomials drawn from the given source, f without a zero NTT value and Gram-Schmidt norm at most 1.17^2 q; ntru_solve returns such F, G or raises ValueError (constant terms not coprime), and reduce changes (F, G) only by multiples of (f, g), stopping when the quotient rounds to 0 or the size is that of (f, g). karatsuba and karamul are the exact products over Z[x] and Z[x]/(x^n + 1), galois_conjugate is a(-x), lift a(x^2), field_norm a(x) a(-x) in x^2, xgcd returns d = u b + v n, bitsize rounds the bit length up to a multiple of 8. gen_poly sums 4096 / n fresh samples of parameter 1.17 sqrt(q / 8192) per coefficient.',
      over=['inputs'], text='every degree 2..1024 and all integer coefficients, of any size',
      why='The tests generate a few keys of fixed degrees; a rejected candidate, a large reduction or a failed equation at one degree hardly shows.',
      files=[Y + 'ntrugen.py', Y + 'common.py'],
      mech=[('equation and reduction', Y + 'ntrugen.py ntru_solve/reduce/xgcd'), ('exact arithmetic', Y + 'ntrugen.py karatsuba/karamul/field_norm/lift/galois_conjugate'), ('acceptance of candidates', Y + 'ntrugen.py ntru_gen/gs_norm/gen_poly')],
      technique=VC_P, note=N_P + 'Coefficient lists of each concrete degree hold symbols; a recursive call enters by the contract at half the degree, so the degrees form an induction. The floating-point quotient of reduce is only assumed to be a vector of integers after rounding; loops are cut by invariants (termination not claimed).'),
 dict(id='P09', title='Python samplers map random bytes to the specified distributions',
      statement='In the Python reference, basesampler returns the number of table values above the 72-bit little-endian integer it reads; approxexp is the integer Horner polynomial of FACCT (within 2^-43 of exp(-x) on [0, ln 2]); berexp is true exactly when its random bytes, as a 64-bit big-endian integer, are below (approxexp(x - s ln 2, ccs) - 1) >> min(s, 63). samplerz returns floor(mu) + z for the first candidate z = b + (2b - 1) z0 accepted by berexp at ((z - r)^2 / (2 sigma^2) - z0^2 / (2 sigma_max^2), sigmin / sigma). mkgauss adds 2^(10 - logn) samples of the degree-1024 table, 16 bytes each, and poly_small_mkgauss takes the next samples within [-127, 127], the last one making the sum odd.',
      over=['inputs'], text='every string of random bytes, every mu, sigma, sigmin, x, ccs as exact reals, every degree',
      why='Random bytes next to a table value or equal to a prefix of the threshold occur with negligible probability in a test.',
      files=[Y + 'samplerz.py', Y + 'mkgauss.py'],
      mech=[('Gaussian sampler', Y + 'samplerz.py basesampler/approxexp/berexp/samplerz'), ('key generation sampler', Y + 'mkgauss.py mkgauss/poly_small_mkgauss')],
      technique=VC_P, note=N_P + 'Floating-point numbers are exact rationals (a floating constant is the number it denotes). Tables are compared with those of the Falcon specification.'),
 dict(id='P10', title='Python seeded generator is the ChaCha20 stream of Falcon',
      statement='In the Python reference, ChaCha20(seed) outputs, for any sequence of requests of at most 512 bytes, the Falcon stream of the 56-byte seed: blocks of the ChaCha20 function with the counter of words 12 and 13, eight at a time, interleaved by 32-bit words; a request longer than what is left of the eight blocks starts at the next eight.',
      over=['inputs', 'histories'], text='every seed, counter below 2^64, buffer length and request length',
      why='Known answers use a few seeds and a fixed pattern of requests; the carry of the counter and buffer ends are not reached.',
      files=[Y + 'rng.py'], mech=[('block function', Y + 'rng.py ChaCha20.update/qround'), ('buffering', Y + 'rng.py ChaCha20.block_update/randombytes')],
      technique=VC_P, note=N_P + 'Bit-vector equivalence with an independent block function; the buffer is an arbitrary byte sequence of symbolic length, request lengths 0..512 one by one.'),
 dict(id='P11', title='Python FFT, LDL tree and Fourier sampling are the specified algebra',
      statement='In the Python reference, fft(f) is the vector of values of f at the roots of x^n + 1 in roots_dict, ifft its inverse, split_fft and merge_fft mutually inverse, and add, sub, neg, mul, div, adj the operations of R[x]/(x^n + 1) in both representations; none changes its operands. ldl_fft gives L D L* = G, ffldl_fft the tree [L10, tree(split D00), tree(split D11)] (coefficient versions alike), gram B B*. ffsampling_fft draws z1 around t1 with the second subtree, then z0 around t0 + (t1 - z1) L10 with the first, at the bottom one samplerz integer each with the deviation of the leaf; ffnp_fft and ffnp round instead.',
      over=['inputs'], text='every degree 2..1024, all coefficients, bases, trees and random sources, over exact real numbers',
      why='A signature with a wrong tree or a wrong order of sampling still verifies, only its distribution (and the secrecy of the key) is lost.',
      files=[Y + 'fft.py', Y + 'ffsampling.py', Y + 'fft_constants.py', Y + 'common.py'],
      mech=[('transform', Y + 'fft.py fft/ifft/split_fft/merge_fft'), ('table of roots', Y + 'fft_constants.py roots_dict'), ('decomposition', Y + 'ffsampling.py ldl_fft/ffldl_fft/gram'), ('sampling', Y + 'ffsampling.py ffsampling_fft/ffnp_fft')],
      technique=VC_P, note=N_P + 'Values are exact quotients of polynomials over opaque atoms and their conjugates, so an obligation is an identity decided by normal form; a recursive call enters by the contract at half the degree. Floating point is exact, the table of roots is proved within 2^-46.'),
 dict(id='E01', title='Solidity transforms and products are exact ring arithmetic',
      statement='In the Solidity contracts, the forward transforms return the values of the polynomial at the roots 49^((512/n)(2 brv(j)+1)) of X^n + 1 modulo q (the recursive one at its own table of these roots), the inverse transforms undo them, and the products return a b in Z_q[X]/(X^n + 1), every output word below q and no operand of a product changed. The pointwise functions are exact modulo q and reject operands of different lengths. In the contract ZKNOX_NTT the tables are the powers of 49 and 1/49, update() sets the parameters only until make_immutable() is called, and no other function changes storage.',
      over=['inputs', 'histories'], text='every operand with words in the stated ranges; n = 512, and 2..256 where the function takes any length',
      why='The tests multiply a few vectors; a reduction that is missing for one operand range, or an update after the fuse, is not tried.',
      files=[S + 'ZKNOX_NTT_falcon.sol', S + 'ZKNOX_NTT.sol', 'external/NTT_Recursive.sol'],
      mech=[('transforms and product', S + 'ZKNOX_NTT_falcon.sol _ZKNOX_NTTFW_vectorized/_ZKNOX_NTTINV_vectorized/_ZKNOX_NTT_HALFMUL_Compact'), ('contract', S + 'ZKNOX_NTT.sol ZKNOX_NTT'), ('recursive version', 'external/NTT_Recursive.sol NTT')],
      technique=VC_S, note=N_S + 'Words are linear forms over F_q with integer bounds, so wrap-around and reduction are decided exactly; loops have concrete trip counts per length and are unrolled completely; callers are executed against the contracts of the transforms.'),
 dict(id='E02', title='Solidity codecs decode exactly the canonical encodings',
      statement='In the Solidity contracts, packing (16 coefficients per word), unpacking, the endianness-swapped packing, mirroring and signature packing move exactly the stated bits and change no operand. _ZKNOX_NTT_Decompress returns the 512 big-endian 14-bit values after the header and reverts exactly when one is at least q; _decompress_sig returns the vector of the Falcon code at the offset and reverts exactly when the bytes are no code of coefficients within -2047..2047 (minus zero, nonzero padding, truncation) or take 666 bytes or more. falcon_checkPolynomialRange is true exactly when every coefficient is below q; decompress_KAT checks both headers and returns key, vector, salt and message from their places.',
      over=['inputs'], text='every coefficient vector, word array and byte string; decompress_KAT for message lengths 0, 1, 33, 100',
      why='The tests decode the known-answer files only, which hold no malformed or boundary encoding.',
      files=[S + 'ZKNOX_falcon_utils.sol', S + 'ZKNOX_falcon_encodings.sol', S + 'ZKNOX_falcon_core.sol', S + 'ZKNOX_common.sol', S + 'ZKNOX_falcon_deploy.sol', S + 'ZKNOX_NTT.sol'],
      mech=[('packing', S + 'ZKNOX_falcon_utils.sol _ZKNOX_NTT_Compact/_ZKNOX_NTT_Expand/Swap'), ('key decoding', S + 'ZKNOX_falcon_utils.sol _ZKNOX_NTT_Decompress'), ('signature decoding', S + 'ZKNOX_falcon_encodings.sol _decompress_sig/decompress_KAT'), ('range check', S + 'ZKNOX_falcon_core.sol falcon_checkPolynomialRange')],
      technique=VC_S, note=N_S + 'Bit-vector equality for the packings; the loops of _decompress_sig and falcon_checkPolynomialRange are cut by invariants over a ghost parse whose variable roles are inferred from concrete runs and then proved. decompress_KAT is bounded to the four message lengths and not counted as proved; buffers of the key decoder: three lengths.'),
 dict(id='E03', title='Solidity hash functions are SHAKE256 and the specified hash-to-point',
      statement='In the Solidity contracts, f1600 is Keccak-f[1600]; shakeInit, any sequence of shakeUpdate, then shakePad or shakeDigest and any sequence of shakeSqueeze give exactly the SHAKE256 output of the concatenated input, a context once padded staying in the squeezing state. hashToPointNIST, hashToPointEVM and hashToPointTETRATION return 512 coefficients: the residues mod q of the successive big-endian 16-bit candidates below 61445, in order, of SHAKE256(salt || message), of the blocks keccak(keccak(salt || message) || 64-bit counter), and of the iterates of keccak from keccak(message || salt).',
      over=['inputs', 'histories'], text='every input, every split into pieces and every read length; every content of the candidate stream',
      why='The vectors fix a few messages; block-boundary splits and candidates at the rejection boundary hardly occur in them.',
      files=[S + 'ZKNOX_shake.sol', S + 'ZKNOX_HashToPoint.sol'],
      mech=[('permutation', S + 'ZKNOX_shake.sol f1600/rol64'), ('sponge', S + 'ZKNOX_shake.sol shakeAbsorb/shakeUpdate/shakePad/shakeSqueeze/shakeDigest'), ('rejection sampling', S + 'ZKNOX_HashToPoint.sol hashToPointNIST/hashToPointEVM/hashToPointTETRATION')],
      technique=VC_S, note=N_S + 'The permutation is decided by GF(2) polynomial normal forms; absorb and squeeze by a step lemma per position 0..135 and number of bytes taken, the samplers by a step lemma per candidate position of a block. Termination of the samplers is not claimed.'),
 dict(id='E04', title='Solidity verifiers accept exactly the short signatures',
      statement='falcon_core is true exactly when the key has the product p = s2 h, and the 1024 centred coefficients of hash - p and s2 have squared norm at most 34034726 (a coefficient of s2 not below q counts at least as much as its residue), false or a revert for operands of other lengths. verify(h, salt, s2, ntth) of ZKNOX_falcon and ZKNOX_ethfalcon gives falcon_core of the hash of salt and message (SHAKE256 or Keccak) and reverts or returns false unless salt, s2 and key have 40 bytes, 32 and 32 words. verify(pubkey, digest, sig) passes it the digest, the first 40 bytes of sig, the next 32 words and the key stored at the address in pubkey, returns the selector or 0xffffffff accordingly, and turns no 1064-byte signature away.',
      over=['inputs'], text='every array content and length, every calldata',
      why='The tests verify genuine signatures and simple corruptions; norms at the bound, a single huge coefficient or odd lengths are not tried.',
      files=[S + 'ZKNOX_falcon_core.sol', S + 'ZKNOX_falcon.sol', S + 'ZKNOX_ethfalcon.sol'],
      mech=[('norm', S + 'ZKNOX_falcon_core.sol falcon_core/falcon_normalize'), ('wrappers', S + 'ZKNOX_falcon.sol verify, ' + S + 'ZKNOX_ethfalcon.sol verify')],
      technique=VC_S, note=N_S + 'Product, unpacking and hashing enter by the contracts E01, E02, E03; each summand of the norm is proved to be the square of the centred coefficient, the sum is compared exactly. SSTORE2 and ABI decoding enter by contract.'),
 dict(id='E05', title='Solidity Epervier recovery returns the address of the only possible key',
      statement='recover of ZKNOX_epervier and ZKNOX_ethepervier reverts unless the salt has 40 bytes, cs1 and cs2 have 32 words, the squared norm of the 1024 centred coefficients is at most 34034726 (a coefficient not below q counts at least as much as its residue) and hint times the product of the NTT values of s2 is 1 modulo q. Otherwise it returns the low 160 bits of the Keccak-256 hash of the 512 words NTT(hash - s1)_i / NTT(s2)_i, each below q, for the hash of salt and message (SHAKE256 or Keccak).',
      over=['inputs'], text='every array content and length, every hint',
      why='The tests recover keys from genuine signatures only; a long vector hidden in one coefficient or a wrong hint for one NTT value is not tried.',
      files=[S + 'ZKNOX_epervier.sol', S + 'ZKNOX_ethepervier.sol'],
      mech=[('norm, inversion by hint, hash', S + 'ZKNOX_epervier.sol recover'), ('same, Keccak', S + 'ZKNOX_ethepervier.sol recover')],
      technique=VC_S, note=N_S + 'Transform, unpacking and hashing enter by the contracts E01, E02, E03; the chain of products is compared as monomials over F_q.'),
]
