import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
B='jaxite/jaxite_bool/';G='jaxite/jaxite_cggi/';K='jaxite/jaxite_ckks/';E='jaxite_ec/'
p('C01','Boolean gates and lookup tables compute their truth tables',
 'Every homomorphic Boolean gate, negation, constant, multiplexer and one-, two- or three-input lookup table hands the bootstrapper exactly the weighted sum of its inputs and the table that its documented truth table prescribes, so the output bit is right for every combination of input bits and every truth table, with the arguments in the documented order. The batched forms give each element the result of the single form, and tables built from a Python callable agree with that callable on every input.',
 ['inputs','configurations'],'all input bits, all 4/16/256 truth tables, every ciphertext value, both noise and slack inside the encoding budget',
 'The gate tests that ship are left out of the stable suite or sample a few tables at one parameter set; an argument swapped in a rarely used gate or one wrong table entry goes unseen.',
 [B+'jaxite_bool.py',B+'lut.py',B+'bool_params.py',B+'bool_encoding.py'],
 [('gate functions',B+'jaxite_bool.py: and_ ... xnor_, not_, constant, lut1, lut2, lut3, cmux_, pmap_lut2, pmap_lut3'),('truth tables and test polynomials',B+'lut.py: LookUpTable, from_callable, LutCache'),('encoding parameters',B+'bool_encoding.py')])
p('C02','Bit-slice converters are exact inverses',
 'Converting an unsigned integer, a byte list or a text string to its list of Boolean bits and back returns the original value, for every value of every width. Bit i of the list always has weight two to the i within its byte, least significant first.',
 ['inputs'],'every unsigned integer of every bit width, every byte sequence of every length, every ASCII string',
 'The tests use a handful of small values; no byte with its top bit set is round-tripped.',
 [B+'type_converters.py'],[('bit-slice packing and unpacking',B+'type_converters.py')])
p('C03','Message encoding tolerates every in-budget noise',
 'Decoding an encoded message plus any noise smaller in magnitude than half the gap between adjacent messages returns the message that was encoded, for every valid parameter choice and every message. Removing noise and extracting noise split a noisy value into exactly the nearest encoded message and the signed difference from it, modulo two to the word size. Encoding rejects every message outside the documented range.',
 ['inputs','configurations'],'all messages, all noises below half a message gap, all 32-bit words, all valid message/padding/word widths',
 'Tests sample a few messages and noises; the boundary noises and wrap-around at the top of the word are where rounding errors live.',
 [G+'encoding.py'],[('encode/decode and power-of-two rounding',G+'encoding.py: encode, decode, decode_without_removing_padding, remove_noise, round_to_power_of_2, extract_noise')])
p('C04','LWE, RLWE and RGSW ciphertexts decrypt to message plus noise',
 'For every key, every random mask and every noise, the phase of a fresh LWE or RLWE ciphertext is exactly the encoded message plus the drawn noise modulo two to the word size, a noiseless embedding has phase exactly the message under every key, and decryption returns the message whenever the noise is within budget. A fresh RGSW ciphertext of m is exactly a set of RLWE encryptions of zero plus m times the gadget, row by row.',
 ['inputs','configurations'],'all secret keys, masks, noises and messages; several dimensions and decomposition levels',
 'Tests use fixed or seeded keys and noise, so a dropped mask term, a wrong row or column or a sign error tied to particular dimensions can cancel.',
 [G+'lwe.py',G+'rlwe.py',G+'rgsw.py'],[('LWE encrypt/decrypt',G+'lwe.py'),('RLWE encrypt/decrypt/flatten_key',G+'rlwe.py'),('RGSW rows',G+'rgsw.py: encrypt, jit_encrypt')])
p('C05','Gadget decomposition recomposes to the nearest representable value',
 'For every 32-bit word and every valid base and level count, the digits of the signed decomposition lie in the balanced digit range and recompose to the original modulo two to the word size up to the tail of balanced digits that were dropped (half the last kept digit weight times B/(B-1), plus the low bits a base that does not divide the word never covers). The unsigned decomposition recomposes to exactly the kept high bits, and decomposing a ciphertext decomposes every coefficient independently in the documented order. The gadget matrix applied to the inverse gadget of a vector of torus elements returns the vector modulo one up to the digits dropped.',
 ['inputs','configurations'],'all 2^32 words, all valid (log base, level count) pairs, all polynomials and ciphertext shapes',
 'Tests sample words; carries that ripple through every digit and the top wrap-around are rare.',
 [G+'decomposition.py'],[('digit extraction and carry',G+'decomposition.py: decompose, signed_decomposition, recompose, recomposition_summands, decompose_rlwe_ciphertext'),('gadget vectors',G+'decomposition.py: gadget_matrix, inverse_gadget')])
p('C06','Torus polynomial arithmetic is exact negacyclic arithmetic',
 'Polynomial products, dot products, monomial products with any shift (including negative shifts and shifts past the degree) and scaling by X^n - 1 return exactly the result in Z_{2^32}[X]/(X^N + 1) for every operand. High-precision integer matrix products built from byte pieces equal the ordinary product modulo two to the word size.',
 ['inputs','configurations'],'all 32-bit coefficients, all shifts, every degree in the stated list including production degrees',
 'Tests sample coefficients and shifts; wrong signs at the wrap-around or lost carries between byte lanes need specific values.',
 [G+'matrix_utils.py',G+'polymul_kernel.py'],[('Toeplitz and byte-split products',G+'matrix_utils.py: i32_as_u8_matmul, toeplitz, toeplitz_poly_mul, poly_mul, poly_dot_product'),('monomial arithmetic',G+'matrix_utils.py: monomial_mul, x_power_n_minus_1, scale_by_x_power_n_minus_1, integer_div'),('vector-matrix polynomial product',G+'polymul_kernel.py: negacyclic_vector_matrix_polymul, fallback_vector_matrix_polymul')])
p('C07','Key switching and modulus switching preserve the message',
 'For every ciphertext and every pair of keys, key switching yields a ciphertext whose phase under the new key equals the phase under the old key up to exactly the rounding of the digit decomposition and the key noise, and a freshly generated switching key encrypts exactly the scaled old-key digits. Switching the modulus returns, for every word, the nearest value at the new modulus, so the phase moves by at most half a unit per coordinate. Rounded integer division returns a nearest integer for every word and every divisor.',
 ['inputs','configurations'],'all ciphertexts, all keys and masks, all noises, several dimensions, bases and target moduli',
 'Tests check decrypted bits under small noise, which hides wrong digits, wrong rounding direction and wrong rows.',
 [G+'key_switch.py',G+'lwe.py',G+'matrix_utils.py'],[('switching key and switch',G+'key_switch.py: gen_key, switch_key, jit_switch_key'),('modulus switch',G+'lwe.py: switch_modulus')])
p('C08','Bootstrapping evaluates the lookup table at the rounded phase',
 'Blind rotation multiplies the accumulator by exactly X to the power of the mod-switched phase (up to the stated decomposition and key noise), the external product and multiplexer satisfy their defining equations for every operand, and extraction returns an LWE ciphertext whose phase under the flattened key is the requested coefficient. The test polynomial built for a table has, at every rotation a valid phase can produce, exactly the encoded table value for that phase, so the bootstrapped phase is the table entry.',
 ['inputs','configurations'],'all ciphertexts, accumulators, keys, tables and rotations; several ring degrees, module ranks and key-batch layouts',
 'End-to-end tests run a few inputs at toy parameters with noise rounding that masks off-by-one rotations, wrong key pairings and boundary slots.',
 [G+'bootstrap.py',G+'test_polynomial.py',G+'decomposition.py',G+'rgsw.py'],[('external product, cmux, blind rotation, extraction',G+'bootstrap.py'),('bootstrapping key',G+'bootstrap.py: gen_bootstrapping_key'),('test polynomial',G+'test_polynomial.py: gen_test_polynomial, _pad_for_error, trivial_encryption')])
p('C09','CKKS modular kernels return the canonical residue',
 'For every supported modulus, modular reduction of any product of two residues returns its canonical residue in [0, q), and addition and plaintext-ciphertext multiplication built on it return exactly the sum or product modulo each limb modulus for every operand, which they leave unchanged.',
 ['inputs','configurations'],'all operands below the documented bound, all moduli (symbolic within word-size classes, plus every boundary modulus class)',
 'Tests sample operands for a few moduli; an off-by-one precomputed constant only shows within a few units of a multiple of q.',
 [K+'barrett.py',K+'add.py',K+'mul.py',K+'bat_utils.py'],[('Barrett constants and reduction',K+'barrett.py'),('addition kernels',K+'add.py'),('plaintext-ciphertext products',K+'mul.py: MulPlaintextCiphertext*'),('byte-aligned matrix products',K+'bat_utils.py')])
p('C10','Number-theoretic transforms are exact negacyclic evaluations',
 'For every input polynomial, the forward transform returns its values at the odd powers of the chosen 2N-th root modulo each prime in the documented output order, the inverse transform undoes it exactly, and the pointwise product of two transforms inverts to the negacyclic product. The accelerator transform, the CPU transform and the RNS-polynomial transform all satisfy this, each for every supported degree factorisation and prime.',
 ['inputs','configurations'],'all coefficient vectors below q, every listed degree, factorisation and prime',
 'Round-trip tests pass when forward and inverse share an error, and random vectors at one size cannot pin every output slot.',
 [K+'ntt.py',K+'ntt_cpu.py',K+'math.py',K+'rns.py'],[('accelerator transform',K+'ntt.py: NTTBarrett'),('CPU transforms',K+'ntt_cpu.py'),('roots and twiddles',K+'math.py'),('RNS transform',K+'rns.py: Ntt')])
p('C11','Residue-number-system polynomials form the exact quotient ring',
 'Sums, differences, negations and products of RNS polynomials equal the corresponding operations in Z_q[X]/(X^N+1) for every limb, whatever mix of coefficient and evaluation form the operands are in, and reconstruction from residues returns the unique integer modulo the product of the moduli. The auxiliary CRT constants satisfy their defining congruences for every list of distinct primes.',
 ['inputs','configurations'],'all residues, all coefficient vectors, lists of distinct moduli of several lengths',
 'Tests sample small values for a few moduli.',
 [K+'rns.py',K+'rns_utils.py',K+'math.py'],[('ring operations',K+'rns.py: RnsPolynomial'),('CRT constants and reconstruction',K+'rns_utils.py'),('number theory helpers',K+'math.py')])
p('C12','Basis conversion returns the CRT lift up to a small multiple',
 'Converting residues from one basis to another yields, in every target limb and for every input, the canonical residue of the same integer: the CRT sum of the scaled input residues, which differs from the represented value by fewer multiples of the source modulus than there are source limbs. Every preconfigured conversion of one converter uses the constants of its own source and target basis.',
 ['inputs','configurations'],'all residue vectors, several source/target bases and several registered conversions',
 'Tests compare to a golden vector or round-trip random data.',
 [K+'basis_conversion.py',K+'rns_utils.py',K+'bat_utils.py'],[('fast base conversion',K+'basis_conversion.py: BasisConversionBarrett')])
p('C13','Rescaling divides by the dropped modulus with bounded error',
 'Rescaling a ciphertext drops the last modulus and returns, for every coefficient of every component, the integer division by the dropped modulus of the represented value rounded to nearest, expressed modulo each remaining modulus, whatever the relative sizes of the moduli.',
 ['inputs','configurations'],'all ciphertext residues, several modulus chains including moduli of very different size',
 'Tests decode approximate values, which hides off-by-one rounding and a wrong centred lift for rare moduli.',
 [K+'rescale.py'],[('rescale',K+'rescale.py: Rescale, _gamma_beta_calculation')])
p('C14','CKKS keys and ciphertexts satisfy the RLWE equations exactly',
 'For every draw of the random source, the public key, every switching, evaluation, conjugation and rotation key, and every fresh ciphertext satisfy their defining RLWE equation modulo every limb exactly, with the drawn error as the only discrepancy. Decrypting a fresh ciphertext returns plaintext plus exactly the drawn noise combination.',
 ['inputs','configurations'],'all random draws, plaintexts and secrets; several degrees, modulus chains and digit counts',
 'Tests decrypt approximately with small noise at one parameter set, so wrong limbs or partitions can be hidden or never exercised.',
 [K+'key_gen.py',K+'encrypt.py'],[('key generation',K+'key_gen.py'),('encryption and decryption',K+'encrypt.py: Encrypt, Decrypt')])
p('C15','CKKS multiplication, relinearisation and key switching keep the phase',
 'The tensor product of two ciphertexts has as phase the product of the two phases for every input, and relinearising or key-switching a ciphertext with a key satisfying its defining equation changes the phase only by the digit-decomposition noise divided by the special modulus, in every limb. The result always has canonical residues, and the operands and keys are left unchanged.',
 ['inputs','configurations'],'all ciphertexts and keys, several digit counts and modulus chains',
 'Tests compare decoded approximate values or golden vectors for one configuration.',
 [K+'mul.py',K+'key_switching.py',K+'basis_conversion.py'],[('tensor product and relinearisation',K+'mul.py: Mul'),('key switching',K+'key_switching.py: KeySwitcher')])
p('C16','CKKS automorphisms and homomorphic rotation act on plaintexts as specified',
 'Applying an automorphism in evaluation form equals substituting X by the matching power of X in coefficient form for every polynomial and every odd exponent, conjugation composes it with the matching key switch, and homomorphic multiplexed and blind rotation multiply the phase by the monomial selected by the encrypted or clear control for every input, which they leave unchanged.',
 ['inputs','configurations'],'all polynomials, all odd exponents, all rotation amounts and control bits',
 'Tests use one or two exponents and small rotations.',
 [K+'blind_rotate_utils.py',K+'blind_rotate.py',K+'conjugate.py',K+'key_gen.py'],[('automorphism and lift',K+'blind_rotate_utils.py'),('blind rotation',K+'blind_rotate.py'),('conjugation',K+'conjugate.py')])
p('C17','Limb-vector field arithmetic is exact',
 'For every pair of multi-precision integers in the documented range, limb-vector addition, subtraction, conditional subtraction, comparison, multiplication and Barrett reduction return exactly the integer (or canonical residue) they name, and lazy reduction returns a congruent value that stays inside the range its consumers require. Integer-to-limb conversions are inverse to one another.',
 ['inputs'],'all limb vectors in the documented ranges, both limb counts',
 'Tests use random field elements; full-length carry ripples and values within one modulus of a reduction boundary have negligible probability.',
 [E+'finite_field.py',E+'util.py'],[('limb arithmetic',E+'finite_field.py: carry_propagation, add_2u16, add_3u16, sub_2u16, compare_u16, cond_sub_mod_u16, cond_sub_2u16, mul_2u16, mul_shift_2u16x2x1'),('Barrett and lazy reduction',E+'finite_field.py: mod_mul_barrett_2u16, barrett_reduction_u16x2, mod_mul_lazy_2u16'),('conversions',E+'util.py')])
p('C18','Residue-number-system field arithmetic is exact modulo the curve prime',
 'For every pair of represented integers within the documented growth bound, residue-form addition, subtraction, negation, multiplication and reduction return residues that represent an integer congruent to the exact result modulo the curve prime, and stay within the bound the next operation requires. This includes integers some of whose residues are zero.',
 ['inputs'],'all represented integers within the growth bound, all residue vectors',
 'A random value has a zero residue with probability below one in a thousand, and quotient estimates err only near boundaries.',
 [E+'finite_field.py',E+'util.py'],[('RNS reduction and quotient estimate',E+'finite_field.py: moduli_rns_red_internal_2u16, mod_red_rns_2u16, mod_mul_rns_2u16'),('RNS addition and negation',E+'finite_field.py: add_sub_rns_var, negate_rns_for_var_add, negate_rns_for_var_add_zero_check'),('precomputed matrices',E+'util.py: rns_coefficients_precompute')])
p('C19','Point formulas implement the elliptic-curve group law',
 'For every pair of distinct non-opposite points (and every point for doubling), the addition and doubling formulas of each coordinate system, both in the reference library and in the accelerator kernels, return a representative of exactly the group-law sum, and coordinate conversions preserve the point they represent.',
 ['inputs'],'all curve points in all projective representations, every coordinate system',
 'Tests use a fixed generator and a few multiples with unit denominators.',
 [E+'elliptic_curve.py',E+'algorithm/elliptic_curve.py'],[('accelerator formulas',E+'elliptic_curve.py: padd_*, pdul_*, pneg_*'),('reference formulas',E+'algorithm/elliptic_curve.py')])
p('C20','Multi-scalar multiplication sums every scalar multiple exactly once',
 'For every list of scalars and points, window slicing (plain and signed), bucket selection, bucket accumulation, bucket reduction, batch summation and window merge together yield the sum of each scalar times its point, given that point addition and doubling implement the group law on the operands that arise.',
 ['inputs','configurations'],'all scalars below the supported bit length, all point lists, all window sizes and parallel factors',
 'The multi-scalar tests are not in the stable suite and use one trace.',
 [E+'pippenger.py',E+'pippenger_rns.py'],[('scalar slicing and zero states',E+'pippenger.py: construct_ba_zero_states_and_selection, construct_br_zero_states, construct_ba_selection, construct_ba_selection_with_sign'),('bucket accumulation, reduction and window merge',E+'pippenger.py, '+E+'pippenger_rns.py')])
p('C21','Reference field arithmetic is exact and canonical',
 'For every pair of elements, the reference finite fields (plain, Barrett and Montgomery) return the canonical residue of the exact sum, difference, product, quotient and negation modulo the prime (and, plain and Barrett, of powers; elements are equal exactly when value and field agree), and the reference lazy and residue-number-system reductions return values congruent to their inputs modulo the prime and inside their documented range.',
 ['inputs'],'all field elements, boundary sums equal to the prime included',
 'A random pair never hits a sum equal to the modulus or a Barrett estimate off by one.',
 [E+'algorithm/finite_field.py',E+'algorithm/big_integer.py',E+'algorithm/lazy_reduction.py',E+'algorithm/rns_mod_reduce.py',E+'algorithm/util.py'],[('field elements',E+'algorithm/finite_field.py'),('big integers',E+'algorithm/big_integer.py'),('reductions',E+'algorithm/lazy_reduction.py, '+E+'algorithm/rns_mod_reduce.py')])
p('C22','CKKS slot encoding is inverse to decoding within rounding',
 'Decoding an encoded vector of complex slots returns each slot to within the error of rounding coefficients to integers at the given scale, for every slot vector and scale; encoding leaves the given slots unchanged.',
 ['inputs','configurations'],'all complex slot vectors whose scaled coefficients fit the modulus',
 'Tests sample random slot vectors with a tolerance.',
 [K+'encode.py'],[('canonical embedding',K+'encode.py: fft_special, fft_special_inv, Encode, Decode')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
