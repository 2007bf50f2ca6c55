From eaa71e3686f05a7405950628ef6e55afa20df434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:55 +0000
Subject: [PATCH 01/28] fix: carry a signed decomposition digit that an
 incoming carry raised to B

---
 jaxite/jaxite_cggi/decomposition.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jaxite/jaxite_cggi/decomposition.py b/jaxite/jaxite_cggi/decomposition.py
index 6695858..d42f364 100644
--- a/jaxite/jaxite_cggi/decomposition.py
+++ b/jaxite/jaxite_cggi/decomposition.py
@@ -192,20 +192,17 @@ def signed_decomposition(
   for i in range(len(result)):
     unsigned_digit = ((x >> (i * base_log)) & digit_mask) + carry
 
-    # This mask tests for whether a digit is >= B/2, and hence requires a shift
-    # and carry propagation
-    carry_mask = unsigned_digit & base_over_2_threshold
+    # A digit that is >= B/2 requires a shift and carry propagation. Note an
+    # incoming carry can make the digit equal to B, which also must carry.
+    carry = jnp.uint32(unsigned_digit >= base_over_2_threshold)
 
     # a tricky way to optionally shift by B. The result is re-cast as a uint32,
     # but this is OK because future arithmetic operations as uint32 will wrap
     # around and treat 2**32-1 properly as -1.
     signed_digit = jnp.uint32(
-        jnp.int32(unsigned_digit) - jnp.int32(carry_mask << 1)
+        jnp.int32(unsigned_digit) - jnp.int32(carry << base_log)
     )
 
-    # convert the carry mask to a 0/1 bit to carry to the next digit
-    carry = carry_mask >> (base_log - 1)
-
     result = result.at[i].set(signed_digit)
 
   # reversed because the digits are computed from least-significant bit to
-- 
2.43.0


From a41b12007efe7831c8487582737af60760c898b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:55 +0000
Subject: [PATCH 02/28] fix: align signed decomposition digits to the top bit
 when the base does not divide the word

---
 jaxite/jaxite_cggi/decomposition.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_cggi/decomposition.py b/jaxite/jaxite_cggi/decomposition.py
index d42f364..cd3a3d3 100644
--- a/jaxite/jaxite_cggi/decomposition.py
+++ b/jaxite/jaxite_cggi/decomposition.py
@@ -188,9 +188,14 @@ def signed_decomposition(
   digit_mask = base - 1
   base_over_2_threshold = jnp.uint32(1 << (base_log - 1))
   carry = jnp.uint32(0)
+  # As in decompose, digits are aligned to the most significant bit of x, so if
+  # base_log does not divide total_bit_length the lowest bits are dropped.
+  dropped_bits = total_bit_length % base_log
 
   for i in range(len(result)):
-    unsigned_digit = ((x >> (i * base_log)) & digit_mask) + carry
+    unsigned_digit = (
+        (x >> (dropped_bits + i * base_log)) & digit_mask
+    ) + carry
 
     # A digit that is >= B/2 requires a shift and carry propagation. Note an
     # incoming carry can make the digit equal to B, which also must carry.
-- 
2.43.0


From 8182ad7e01e97a737578ab2231f71bf7fab559d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:55 +0000
Subject: [PATCH 03/28] fix: decode plaintexts of encodings that have no error
 bits

---
 jaxite/jaxite_cggi/encoding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaxite/jaxite_cggi/encoding.py b/jaxite/jaxite_cggi/encoding.py
index 28597ea..2e12ed4 100644
--- a/jaxite/jaxite_cggi/encoding.py
+++ b/jaxite/jaxite_cggi/encoding.py
@@ -162,6 +162,9 @@ def remove_noise(
 
 def round_to_power_of_2(arr: jnp.ndarray, log_pow_of_2: int) -> jnp.ndarray:
   """Rounds to the nearest multiple of a given power of 2."""
+  if log_pow_of_2 == 0:
+    return arr
+
   # This bit determines whether to round up or down
   round_up_or_down_bit = log_pow_of_2 - 1
   lowest_unrounded_bit = log_pow_of_2
-- 
2.43.0


From 65734d6d83af86c7ec91af2328643e37dfe6828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:55 +0000
Subject: [PATCH 04/28] fix: extract noise of plaintexts that round across the
 sign bit

---
 jaxite/jaxite_cggi/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_cggi/encoding.py b/jaxite/jaxite_cggi/encoding.py
index 2e12ed4..43c51da 100644
--- a/jaxite/jaxite_cggi/encoding.py
+++ b/jaxite/jaxite_cggi/encoding.py
@@ -183,4 +183,4 @@ def extract_noise(
 ) -> int:
   """Extracts the noise bits of a plaintext as a (signed) int."""
   rounded = remove_noise(plaintext, encoding_params)
-  return int(jnp.int32(plaintext)) - int(jnp.int32(rounded))
+  return int(jnp.int32(plaintext - rounded))
-- 
2.43.0


From 5a0e6e1514696fcf7a64c3add9ccee60361d2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:55 +0000
Subject: [PATCH 05/28] fix: reject test polynomial coefficients one past the
 message and padding space

---
 jaxite/jaxite_cggi/encoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_cggi/encoding.py b/jaxite/jaxite_cggi/encoding.py
index 43c51da..45f60f3 100644
--- a/jaxite/jaxite_cggi/encoding.py
+++ b/jaxite/jaxite_cggi/encoding.py
@@ -97,7 +97,9 @@ def encode(
   if test_polynomial_encoding:
     # The test polynomial encoding needs to consider both message and padding
     # bits.
-    message_max = 2**(params.padding_bit_length + params.message_bit_length)
+    message_max = dtype(
+        2**(params.padding_bit_length + params.message_bit_length) - 1
+    )
   message_min = dtype(params.message_min)
   if (msg_arr > message_max).any() or (msg_arr < message_min).any():
     raise ValueError(
-- 
2.43.0


From 204f1bee942bca97eb12b5e3bcf6b0f699f68c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:22 +0000
Subject: [PATCH 06/28] fix: decode messages that use every bit of the word

---
 jaxite/jaxite_cggi/encoding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jaxite/jaxite_cggi/encoding.py b/jaxite/jaxite_cggi/encoding.py
index 45f60f3..44730a0 100644
--- a/jaxite/jaxite_cggi/encoding.py
+++ b/jaxite/jaxite_cggi/encoding.py
@@ -123,9 +123,9 @@ def decode_without_removing_padding(
     The cleartext message.
   """
   shifted = remove_noise(plaintext, params) >> params.error_bit_length
-  message_padding_space_mask = (
-      1 << params.message_bit_length + params.padding_bit_length
-  ) - 1
+  message_padding_space_mask = types.LwePlaintext(
+      (1 << params.message_bit_length + params.padding_bit_length) - 1
+  )
   return types.LweCleartext(shifted & message_padding_space_mask)
 
 
@@ -151,7 +151,7 @@ def decode(
   # this (and really, this matters only for tests where we are not using all the
   # bits of the message space), we compute a final modulus with respect to the
   # message space size.
-  message_space_mask = (1 << params.message_bit_length) - 1
+  message_space_mask = types.LwePlaintext((1 << params.message_bit_length) - 1)
   return types.LweCleartext(shifted & message_space_mask)
 
 
-- 
2.43.0


From 1359f433383b55b80b749945c4168218b20737bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:38 +0000
Subject: [PATCH 07/28] fix: round integer_div correctly when the remainder
 plus half the divisor overflows

---
 jaxite/jaxite_cggi/matrix_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jaxite/jaxite_cggi/matrix_utils.py b/jaxite/jaxite_cggi/matrix_utils.py
index 4f92f1f..f0ee408 100644
--- a/jaxite/jaxite_cggi/matrix_utils.py
+++ b/jaxite/jaxite_cggi/matrix_utils.py
@@ -32,10 +32,12 @@ def integer_div(values: jnp.ndarray, divisor: jnp.uint32) -> jnp.ndarray:
   # X//d.
   quotient_floor = values // divisor
 
-  # Then compute the quotient of the remainder (X%d) with rounding, which is
-  # guaranteed to have a numerator small enough to avoid overflow, and always
-  # results in either 0 or 1.
-  rounded_fractional_part = ((values % divisor) + divisor // 2) // divisor
+  # Then compute the quotient of the remainder (X%d) with rounding, which always
+  # results in either 0 or 1. This is a comparison, rather than a division of
+  # (X%d) + d//2, because that sum overflows for large d.
+  rounded_fractional_part = (
+      (values % divisor) >= divisor - divisor // 2
+  ).astype(quotient_floor.dtype)
 
   # Adding them together effectively rounds up or down.
   return quotient_floor + rounded_fractional_part
-- 
2.43.0


From 030da0bc81eef5b400d15bce2b6442025460f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:22 +0000
Subject: [PATCH 08/28] fix: bit_slice_to_bytes dropped the top bit of every
 byte

The byte was assembled before its eighth bit was stored, so bit 7 was taken
from the previous byte (or False) and every value >= 128 came back wrong.
---
 jaxite/jaxite_bool/type_converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_bool/type_converters.py b/jaxite/jaxite_bool/type_converters.py
index 4d1ceba..710542e 100644
--- a/jaxite/jaxite_bool/type_converters.py
+++ b/jaxite/jaxite_bool/type_converters.py
@@ -52,9 +52,9 @@ def bit_slice_to_bytes(bit_slice: List[bool]) -> bytes:
 
   char_bit_slice: List[bool] = [False] * 8
   for i, entry in enumerate(bit_slice):
+    char_bit_slice[i % 8] = entry
     if (i + 1) % 8 == 0:
       result.append(bit_slice_to_u8(char_bit_slice))
-    char_bit_slice[i % 8] = entry
 
   return bytes(result)
 
-- 
2.43.0


From f880fa94d173deabdea73ae7a17e5d8e75fed283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:22 +0000
Subject: [PATCH 09/28] fix: LutCache.lut_by_name truncated the three-input
 cmux table

lut_by_name always built a two-input table, so lut_by_name('cmux') and
lut_poly_by_name('cmux') kept only the low four entries of its eight.
---
 jaxite/jaxite_bool/lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxite/jaxite_bool/lut.py b/jaxite/jaxite_bool/lut.py
index f4c7a01..eab3e69 100644
--- a/jaxite/jaxite_bool/lut.py
+++ b/jaxite/jaxite_bool/lut.py
@@ -136,8 +136,8 @@ class LutCache:
           f'Unknown gate name "{name}". Use `get_lut` or else use a '
           f'named 2-bit gate from {list(FUNC_NAME_TO_LUT2.keys())}'
       )
-    key = FUNC_NAME_TO_LUT2[name].truth_table
-    return self.lut(num_inputs=2, lut_as_int=key)
+    gate = FUNC_NAME_TO_LUT2[name]
+    return self.lut(num_inputs=gate.num_inputs, lut_as_int=gate.truth_table)
 
   def lut_poly(self, num_inputs: int, lut_as_int: int) -> rlwe.RlweCiphertext:
     return self.lut(num_inputs, lut_as_int).as_rlwe_test_polynomial(
-- 
2.43.0


From 3b7206964962f89d592b90b8a27424a789dcf910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 10/28] fix: Barrett constants used floating-point division

---
 jaxite/jaxite_ckks/barrett.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/barrett.py b/jaxite/jaxite_ckks/barrett.py
index d2653b2..c5e9a77 100644
--- a/jaxite/jaxite_ckks/barrett.py
+++ b/jaxite/jaxite_ckks/barrett.py
@@ -57,7 +57,7 @@ def precompute_barrett_constants(
   barrett_s = [2 * math.ceil(math.log2(m)) for m in moduli]
   barrett_w = [min(s, 32) for s in barrett_s]
   barrett_s_w = [s - w for s, w in zip(barrett_s, barrett_w)]
-  barrett_m = [math.floor(2**s / m) for s, m in zip(barrett_s, moduli)]
+  barrett_m = [2**s // m for s, m in zip(barrett_s, moduli)]
 
   return BarrettConstants(
       m=jnp.array(barrett_m, dtype=jnp.uint64),
-- 
2.43.0


From fd957ebf1214820d61f10350f0b5676895c30cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 11/28] fix: Barrett reduction of BAT sums was wrong for small
 moduli

---
 jaxite/jaxite_ckks/barrett.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/barrett.py b/jaxite/jaxite_ckks/barrett.py
index c5e9a77..745e58c 100644
--- a/jaxite/jaxite_ckks/barrett.py
+++ b/jaxite/jaxite_ckks/barrett.py
@@ -54,7 +54,10 @@ def precompute_barrett_constants(
     moduli = [moduli]
 
   # TODO(#97): Document with a reference
-  barrett_s = [2 * math.ceil(math.log2(m)) for m in moduli]
+  # The largest shift for which m still fits in 32 bits: the reduction is exact
+  # on [0, 2^s), which must cover the unreduced byte-wise sums of bat_utils for
+  # small moduli too.
+  barrett_s = [31 + math.ceil(math.log2(m)) for m in moduli]
   barrett_w = [min(s, 32) for s in barrett_s]
   barrett_s_w = [s - w for s, w in zip(barrett_s, barrett_w)]
   barrett_m = [2**s // m for s, m in zip(barrett_s, moduli)]
-- 
2.43.0


From ceb671374614d44fc0458eb634e2448a02e400fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:14 +0000
Subject: [PATCH 12/28] fix: rescale was wrong for moduli below half the
 dropped one

The centred lift q_i - q_L + c was negative there and wrapped modulo 2^64.
---
 jaxite/jaxite_ckks/rescale.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaxite/jaxite_ckks/rescale.py b/jaxite/jaxite_ckks/rescale.py
index c713101..9dc125e 100644
--- a/jaxite/jaxite_ckks/rescale.py
+++ b/jaxite/jaxite_ckks/rescale.py
@@ -184,8 +184,9 @@ class Rescale:
       switched = jnp.where(
           last_limb_coeffs < threshold,
           last_limb_coeffs,
-          jnp.array(remaining_moduli, jnp.int64).reshape(1, 1, -1)
-          - int(last_modulus)
+          jnp.array(
+              [-int(last_modulus) % int(q) for q in remaining_moduli], jnp.int64
+          ).reshape(1, 1, -1)
           + last_limb_coeffs.astype(jnp.int64),
       )
 
-- 
2.43.0


From a4fcbac7d1e2186d465698113f32267b908eb66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:03 +0000
Subject: [PATCH 13/28] fix: extend_secret_key lifted negative coefficients
 without their sign

---
 jaxite/jaxite_ckks/key_gen.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/key_gen.py b/jaxite/jaxite_ckks/key_gen.py
index 85aafda..ca8f9fa 100644
--- a/jaxite/jaxite_ckks/key_gen.py
+++ b/jaxite/jaxite_ckks/key_gen.py
@@ -66,7 +66,13 @@ def extend_secret_key(
     raise ValueError("target_moduli must start with secret_key.moduli")
 
   s_coeffs = ntt_cpu.intt_negacyclic_poly(secret_key.data, current_moduli)
-  s_coeffs_single = s_coeffs[:, 0]
+  # The coefficients are small signed integers, so the centered representative
+  # modulo the first limb is the coefficient itself.
+  q0 = current_moduli[0]
+  s_coeffs_single = s_coeffs[:, 0].astype(np.int64)
+  s_coeffs_single = np.where(
+      s_coeffs_single > q0 // 2, s_coeffs_single - q0, s_coeffs_single
+  )
   s_coeffs_extended = np.tile(
       s_coeffs_single[:, np.newaxis], (1, len(target_moduli))
   )
-- 
2.43.0


From ed1642a9bf01f9132e0609094faf8c4e703ded69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:03 +0000
Subject: [PATCH 14/28] fix: gen_hmuxrot_key raised OverflowError when P needs
 more than 64 bits

---
 jaxite/jaxite_ckks/key_gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/key_gen.py b/jaxite/jaxite_ckks/key_gen.py
index ca8f9fa..81aa3f6 100644
--- a/jaxite/jaxite_ckks/key_gen.py
+++ b/jaxite/jaxite_ckks/key_gen.py
@@ -288,7 +288,9 @@ def gen_hmuxrot_key(
     dest_sk_ext = sk_ext
 
   p_val = math.prod(p_limbs)
-  scaled_val0 = (p_val * beta) % all_moduli_u64
+  scaled_val0 = np.array(
+      [p_val * beta % q for q in all_moduli], dtype=np.uint64
+  ).reshape(1, -1)
 
   # key0 is a key-switching key from beta * sk(X^{5^{-j}}) to sk.
   g = pow(5, -j, 2 * degree)
-- 
2.43.0


From 24ecffb4084eec53da0e998b7b396a7a98449a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:08 +0000
Subject: [PATCH 15/28] fix: RNS negation was wrong for values with a zero
 residue

---
 jaxite_ec/finite_field.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jaxite_ec/finite_field.py b/jaxite_ec/finite_field.py
index 81d25f8..6a664e0 100644
--- a/jaxite_ec/finite_field.py
+++ b/jaxite_ec/finite_field.py
@@ -881,8 +881,11 @@ def negate_rns_for_var_add(
   """
   moduli_sub = jnp.array(moduli_sub, dtype=jnp.uint32)
 
+  # 2^16 - a in 32 bits: in 16 bits, the negation of 0 would be 0, not 2^16.
   return jnp.add(
-      jnp.negative(value_a.astype(jnp.uint16)).astype(jnp.uint32),
+      jnp.subtract(
+          jnp.uint32(2**16), value_a.astype(jnp.uint16).astype(jnp.uint32)
+      ),
       moduli_sub,
   )
 
@@ -916,12 +919,12 @@ def negate_rns_for_var_add_zero_check(
   moduli_sub = jnp.array(moduli_sub, dtype=jnp.uint32)
   a = value_a.astype(jnp.uint16)
 
-  # Compute two's complement negation: for nonzero a, jnp.negative(a) computes
-  # (2^16 - a).
-  neg = jnp.negative(a).astype(jnp.uint32)
+  # 2^16 - a in 32 bits: in 16 bits, the negation of 0 would be 0, not 2^16.
+  neg = jnp.subtract(jnp.uint32(2**16), a.astype(jnp.uint32))
 
-  # Build a branchless mask: 0 if a==0, 1 otherwise.
-  mask = (a != 0).astype(jnp.uint32)
+  # Build a branchless mask: 0 if the value is 0 (all its residues are), 1
+  # otherwise. A single zero residue does not make the value 0.
+  mask = jnp.any(a != 0, axis=-1, keepdims=True).astype(jnp.uint32)
 
   # For nonzero a: (2^16 - a) + moduli_sub; for zero: m + 0 multiplied by 0
   # gives 0.
-- 
2.43.0


From a4e6f5f6bc930016e143ef6eeb47441f92a33096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:28 +0000
Subject: [PATCH 16/28] fix: affine points with two coordinates were rejected

---
 jaxite_ec/algorithm/elliptic_curve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index 0ff77cf..7a12bce 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -264,8 +264,7 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
         formal_coordinates.append(coordinate)
       else:
         formal_coordinates.append(self.ff_zero.copy(coordinate))
-    if coordinate_length == 2:
-      assert len(formal_coordinates) == 3
+    assert len(formal_coordinates) == coordinate_length
     return formal_coordinates
 
 
-- 
2.43.0


From 4a9b50b4e5be6beb1b99cac3552daf9998b939f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:28 +0000
Subject: [PATCH 17/28] fix: affine doubling multiplied field elements by plain
 integers

---
 jaxite_ec/algorithm/elliptic_curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index 7a12bce..d330f79 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -222,7 +222,8 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
   def double_general(self, point_a: ECPoint[FieldEle]):
     x1 = point_a[0]
     y1 = point_a[1]
-    slope = (x1 * x1 * 3 + self.a) / (y1 * 2)
+    x1_sq = x1 * x1
+    slope = (x1_sq + x1_sq + x1_sq + self.a) / (y1 + y1)
     cx = slope * slope - x1 - x1
     cy = slope * (x1 - cx) - y1
     return ECPoint[FieldEle]([cx, cy], self)
-- 
2.43.0


From 68f91b490251d1ad8d26b727b65df6b42342aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:28 +0000
Subject: [PATCH 18/28] fix: projective convert_from_affine rejected affine
 points

---
 jaxite_ec/algorithm/elliptic_curve.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index d330f79..6cf6041 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -406,18 +406,15 @@ class ECCSWeierstrassProjective(ECCSWeierstrass):
   def convert_from_affine(
       self, point_a: ECPoint[FieldEle]
   ) -> ECPoint[FieldEle]:
-    assert point_a.get_type() == self.type
+    assert (
+        point_a.coordinate_system.get_type()
+        == CoordinateSystemType.WEIERSTRASS_AFFINE
+    )
     new_point = point_a.copy()
     if new_point.coordinates is not None:
-      new_point.coordinates.clear()
-      z_invert = self.ff_one / point_a[2]
-      new_point.append(point_a[0] * z_invert)
-      new_point.append(point_a[1] * z_invert)
-      new_point.append(self.ff_one)
-      new_point.set_type(CoordinateSystemType.WEIERSTRASS_AFFINE)
-      return new_point
-    else:
-      return new_point
+      new_point.coordinates = [point_a[0], point_a[1], self.ff_one]
+    new_point.set_coordinate_system(self)
+    return new_point
 
   def convert_to_affine(self, point: ECPoint) -> ECPoint:
     assert point.get_type() == self.type
-- 
2.43.0


From b7a32fd82756c5b75855484cff050c037b6fa06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:28 +0000
Subject: [PATCH 19/28] fix: XYZZ convert_from_affine raised for the zero point

---
 jaxite_ec/algorithm/elliptic_curve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index 6cf6041..3b2feae 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -548,8 +548,13 @@ class ECCSWeierstrassXYZZ(ECCSWeierstrass):
         == CoordinateSystemType.WEIERSTRASS_AFFINE
     )
     new_point = point_a.copy()
-    new_point.append(self.ff_one)
-    new_point.append(self.ff_one)
+    if new_point.coordinates is not None:
+      new_point.coordinates = [
+          point_a[0],
+          point_a[1],
+          self.ff_one,
+          self.ff_one,
+      ]
     new_point.set_coordinate_system(self)
     return new_point
 
-- 
2.43.0


From 8a68dfe6f3e3358c9f2f6b356687ed6592c1f9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:28 +0000
Subject: [PATCH 20/28] fix: twisted generate_point(zero=True) raised TypeError

---
 jaxite_ec/algorithm/elliptic_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index 3b2feae..b200d8f 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -597,7 +597,7 @@ class ECCSTwistedEdwardsExtended(ECCSWeierstrass):
       zero: bool = False,
       twist: bool = True,
   ) -> ECPoint[T]:
-    if twist:
+    if twist and not zero:
       ff_coordinates = []
       for coordinate in coordinates:  # pyrefly: ignore[not-iterable]
         if isinstance(coordinate, FieldEle):
-- 
2.43.0


From 332f1d2b46f3a0636b8dce2959bfdf701e1a3c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:28 +0000
Subject: [PATCH 21/28] fix: Barrett and Montgomery sums equal to the prime
 were not reduced to 0

---
 jaxite_ec/algorithm/finite_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index 6a3ea36..936b3a7 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -142,7 +142,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
     if self.prime != other.prime:
       raise ValueError("Cannot add two numbers in different Fields")
     result = self.value + other.value
-    if result > self.prime:
+    if result >= self.prime:
       result -= self.prime
     new_instance = self.copy()
     new_instance.value = result
@@ -241,7 +241,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
       raise ValueError("Cannot add two numbers in different Fields")
     assert other.montgomeryized
     result = self.value + other.value
-    if result > self.prime:
+    if result >= self.prime:
       result -= self.prime
     new_instance = self.copy()
     new_instance.value = result
-- 
2.43.0


From c79b99f250d8d5e8d1941cfe14393d1e199b3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:28 +0000
Subject: [PATCH 22/28] fix: FiniteFieldElement.copy(0) kept the old value

---
 jaxite_ec/algorithm/finite_field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index 936b3a7..c5755b0 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -60,7 +60,7 @@ class FiniteFieldElement:
         FiniteFieldElement: A deep copy of the current finite field element.
     """
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(int(self.value))
     else:
       obj.value = BigInt(value)
@@ -181,7 +181,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(self.value)
     else:
       if reduction:
@@ -291,7 +291,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(self.value)
     else:
       if reduction:
-- 
2.43.0


From dd3d03c2f2ba323a17b36ba25688065020a4feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:28 +0000
Subject: [PATCH 23/28] fix: rns_mod_reduce raised NameError when imported as a
 module

---
 jaxite_ec/algorithm/rns_mod_reduce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxite_ec/algorithm/rns_mod_reduce.py b/jaxite_ec/algorithm/rns_mod_reduce.py
index 910d312..f375f43 100644
--- a/jaxite_ec/algorithm/rns_mod_reduce.py
+++ b/jaxite_ec/algorithm/rns_mod_reduce.py
@@ -12,6 +12,7 @@ randint = random.randint
 jax.config.update("jax_enable_x64", True)
 chunk_dtype = jnp.uint16
 mul_res_dtype = jnp.uint32
+moduli_precision = 16
 
 
 def to_tuple(a):
-- 
2.43.0


From 9c4b45ca190a556c11b8d64c1aa3b0ef8cc52ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:26 +0000
Subject: [PATCH 24/28] fix: padd_rns_xyzz_pack negated a sum, which is outside
 the negation's range

---
 jaxite_ec/elliptic_curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxite_ec/elliptic_curve.py b/jaxite_ec/elliptic_curve.py
index bf846d2..c2c2910 100644
--- a/jaxite_ec/elliptic_curve.py
+++ b/jaxite_ec/elliptic_curve.py
@@ -669,7 +669,8 @@ def padd_rns_xyzz_pack(
       negate_rns_for_var_add(q),
       negate_rns_for_var_add(q),
   )
-  q_x3 = add_sub_rns_var(q, negate_rns_for_var_add(x3))
+  # x3 is not a multiplication output, so it must not be negated itself.
+  q_x3 = add_sub_rns_var(q, negate_rns_for_var_add(rr), ppp, q, q)
 
   # s1_ppp = s1 * ppp
   # r_q_x3 = r * q_x3
-- 
2.43.0


From ffc72d67fb258b95abc1949db6fa21cd9d755851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:51 +0000
Subject: [PATCH 25/28] fix: GMPBigInteger.ceil_log2 raised TypeError for every
 value

---
 jaxite_ec/algorithm/big_integer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxite_ec/algorithm/big_integer.py b/jaxite_ec/algorithm/big_integer.py
index d79b763..d635ba4 100644
--- a/jaxite_ec/algorithm/big_integer.py
+++ b/jaxite_ec/algorithm/big_integer.py
@@ -151,10 +151,10 @@ class GMPBigInteger:
     return NotImplemented
 
   def ceil_log2(self):
-    """Calculate the base-2 logarithm of the GMPBigInteger."""
+    """Calculate the base-2 logarithm of the GMPBigInteger, rounded up."""
     if self.value <= 0:
       raise ValueError("log2 is only defined for positive integers")
-    return GMPBigInteger(gmpy2.ceil(gmpy2.log2(self.value)))
+    return GMPBigInteger(int(self.value - 1).bit_length())
 
   def __int__(self):
     return int(self.value)
-- 
2.43.0


From b0aab7dc69af4f1947f5cb0e1237af4b30b47ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:51 +0000
Subject: [PATCH 26/28] fix: reference reductions used a rounded base-2
 logarithm of the prime

---
 jaxite_ec/algorithm/finite_field.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index c5755b0..f74047d 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -1,7 +1,6 @@
 """Finite field elements for elliptic curve cryptography."""
 
 import copy
-import math
 
 from jaxite.jaxite_ec.algorithm import big_integer
 
@@ -124,7 +123,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
       if isinstance(prime, BigInt):
         self.two_k = prime.ceil_log2() * 2
       else:
-        self.two_k = BigInt(math.ceil(math.log2(prime))) * 2
+        self.two_k = BigInt(int(prime - 1).bit_length()) * 2
     else:
       self.two_k = BigInt(2 * k)
     self.mu = BigInt(2) ** self.two_k / prime
@@ -199,7 +198,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
       if isinstance(prime, BigInt):
         self.k = prime.ceil_log2()
       else:
-        self.k = BigInt(math.ceil(math.log2(prime)))
+        self.k = BigInt(int(prime - 1).bit_length())
     else:
       self.k = BigInt(k)
 
-- 
2.43.0


From 5f8dcc3233fdd896d97cb798e15d9306dd732057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:26 +0000
Subject: [PATCH 27/28] fix: window merge lost the result when a window sum was
 the zero point

---
 jaxite_ec/pippenger.py     | 24 ++++++++++++++++++++++--
 jaxite_ec/pippenger_rns.py | 24 ++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/jaxite_ec/pippenger.py b/jaxite_ec/pippenger.py
index 63d5372..5aeda45 100644
--- a/jaxite_ec/pippenger.py
+++ b/jaxite_ec/pippenger.py
@@ -193,6 +193,26 @@ def padd_with_zero(partial_sum, single_point, ps_is_zero, sp_is_zero):
   return result_2
 
 
+def padd_with_zero_check(partial_sum, single_point):
+  """Padd the partial sum with the single point, either of which may be zero.
+
+  The zero point is the blank point: all chunks of its zz coordinate are zero.
+
+  Args:
+    partial_sum: The partial sum.
+    single_point: The single point.
+
+  Returns:
+    The new partial sum.
+  """
+  return padd_with_zero(
+      partial_sum,
+      single_point,
+      jnp.all(partial_sum[2] == 0, axis=-1),
+      jnp.all(single_point[2] == 0, axis=-1),
+  )
+
+
 def padd_with_zero_alter(partial_sum, single_point, ps_is_zero):
 
   _, batch_dim, _ = partial_sum.shape
@@ -431,7 +451,7 @@ def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
   for w in range(window_dim - 2, -1, -1):
     for _ in range(slice_length):
       result = jec.pdul_lazy_xyzz_pack(result)
-    result = jec.padd_lazy_xyzz_pack(
+    result = padd_with_zero_check(
         result,
         window_sum[:, w, :].reshape(
             (coordinate_dim, 1, util.U16_EXT_CHUNK_NUM)
@@ -456,7 +476,7 @@ def window_merge_scan_algorithm(window_sum: jnp.ndarray, slice_length: int):
 
   def scan_body(result, window_sum):
     result = jax.lax.fori_loop(0, slice_length, fori_loop_body, result)
-    result = jec.padd_lazy_xyzz_pack(
+    result = padd_with_zero_check(
         result, window_sum.reshape((coordinate_dim, 1, util.U16_EXT_CHUNK_NUM))
     )
     return result, None
diff --git a/jaxite_ec/pippenger_rns.py b/jaxite_ec/pippenger_rns.py
index fd27be3..317fbe3 100644
--- a/jaxite_ec/pippenger_rns.py
+++ b/jaxite_ec/pippenger_rns.py
@@ -193,6 +193,26 @@ def padd_with_zero(partial_sum, single_point, ps_is_zero, sp_is_zero):
   return result_2
 
 
+def padd_with_zero_check(partial_sum, single_point):
+  """Padd the partial sum with the single point, either of which may be zero.
+
+  The zero point is the blank point: all chunks of its zz coordinate are zero.
+
+  Args:
+    partial_sum: The partial sum.
+    single_point: The single point.
+
+  Returns:
+    The new partial sum.
+  """
+  return padd_with_zero(
+      partial_sum,
+      single_point,
+      jnp.all(partial_sum[2] == 0, axis=-1),
+      jnp.all(single_point[2] == 0, axis=-1),
+  )
+
+
 def padd_with_zero_alter(partial_sum, single_point, ps_is_zero):
 
   _, batch_dim, _ = partial_sum.shape
@@ -431,7 +451,7 @@ def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
   for w in range(window_dim - 2, -1, -1):
     for _ in range(slice_length):
       result = jec.pdul_rns_xyzz_pack(result)
-    result = jec.padd_rns_xyzz_pack(
+    result = padd_with_zero_check(
         result,
         window_sum[:, w, :].reshape((coordinate_dim, 1, util.NUM_MODULI)),
     )
@@ -454,7 +474,7 @@ def window_merge_scan_algorithm(window_sum: jnp.ndarray, slice_length: int):
 
   def scan_body(result, window_sum):
     result = jax.lax.fori_loop(0, slice_length, fori_loop_body, result)
-    result = jec.padd_rns_xyzz_pack(
+    result = padd_with_zero_check(
         result, window_sum.reshape((coordinate_dim, 1, util.NUM_MODULI))
     )
     return result, None
-- 
2.43.0


From 891a9166de4a1a8b11afcf75df55429ff3989b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:26 +0000
Subject: [PATCH 28/28] fix: inverse_gadget of negative entries and of fewer
 levels than the word has

Entries in [-1/2, 0) were converted straight from float to uint32, which clamps
them to zero, and the vector was scaled by base**levels although decompose()
reads the top digits of a total_bit_length-bit integer, so that any parameters
with base**levels < 2**total_bit_length returned only zeros.
---
 jaxite/jaxite_cggi/decomposition.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jaxite/jaxite_cggi/decomposition.py b/jaxite/jaxite_cggi/decomposition.py
index cd3a3d3..70d47e7 100644
--- a/jaxite/jaxite_cggi/decomposition.py
+++ b/jaxite/jaxite_cggi/decomposition.py
@@ -339,11 +339,16 @@ def inverse_gadget(
     A flattened vector, the output of the inverse gadget operation.
   """
   log_base = decomp_params.log_base
-  base = 2**log_base
   levels = decomp_params.level_count
 
-  scaled = vector * jnp.float32(base) ** levels
-  scaled_rounded = jnp.rint(scaled).astype(jnp.uint32)
+  # decompose() reads the top digits of a total_bit_length-bit integer. Negative
+  # entries are converted via int32 to get their two's complement.
+  scaled = jnp.rint(vector * jnp.float32(2) ** total_bit_length)
+  scaled_rounded = jnp.where(
+      scaled < 0,
+      scaled.astype(jnp.int32).astype(jnp.uint32),
+      scaled.astype(jnp.uint32),
+  )
   return jnp.array(  # pytype: disable=bad-return-type  # jnp-type
       [decompose(x, log_base, levels, total_bit_length) for x in scaled_rounded]
   ).flatten()
-- 
2.43.0

