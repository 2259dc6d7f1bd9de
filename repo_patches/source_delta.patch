From a888ff743033e3fb733412fd02146b04c6042778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:24 +0000
Subject: [PATCH 01/37] fix: Properties::fnt_serialize overruns when the header
 is exactly full

std::fill was given [dwords + i, dwords + n_dwords - 1), which is an inverted
range (unbounded write) when 2 + props.size() == n_dwords, and otherwise left
the last dword of the header uninitialized.
---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index 2fc6a56..aa146fa 100644
--- a/src/property.h
+++ b/src/property.h
@@ -112,7 +112,7 @@ class Properties {
             dwords[i++] = htonl(narrow_cast<uint32_t>(item.first));
         }
         dwords[1] = htonl(i - 2);
-        std::fill(dwords + i, dwords + n_dwords - 1, htonl(0));
+        std::fill(dwords + i, dwords + n_dwords, htonl(0));
 
         return 0;
     }
-- 
2.43.0


From adce9a60b3cedddcf39fe2a53820e2703e20e278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:24 +0000
Subject: [PATCH 02/37] fix: Properties::fnt_deserialize accepts a wrapping
 item count

A count close to UINT32_MAX made 2 + count wrap around, passing the bound
check and reading past the header.
---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index aa146fa..fe86d99 100644
--- a/src/property.h
+++ b/src/property.h
@@ -132,7 +132,7 @@ class Properties {
             return -1;
         }
         uint32_t _n_dwords = ntohl(dwords[1]);
-        if ((2 + _n_dwords) > n_dwords) {
+        if (_n_dwords > n_dwords - 2) {
             return -1;
         }
         for (unsigned i = 0; i < _n_dwords; i++) {
-- 
2.43.0


From 954bf309b08e71698f580fb3718c046f779d1fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 03/37] fix: reverse_bitwise shifts by a negative amount

The first iteration looked at bit log2(len), which is always zero for x < len,
and shifted it left by (unsigned)-1: undefined behaviour.
---
 src/fft_2n.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 559df84..76d776b 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -48,9 +48,9 @@
  */
 inline unsigned reverse_bitwise(unsigned x, unsigned len, unsigned bit_len)
 {
-    unsigned mask = len;
+    unsigned mask = len >> 1;
     unsigned res = 0;
-    unsigned bit_num = bit_len;
+    unsigned bit_num = bit_len - 1;
     while (mask > 0) {
         unsigned char bit = (x & mask) >> bit_num;
         res |= (bit << (bit_len - 1 - bit_num)); // NOLINT
-- 
2.43.0


From f42ba6f5ea6e3645336bec956eb8875fa795a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 04/37] fix: quadiron_fnt32_decode indexes parities_props out
 of bounds

With a systematic code parities_props has n_parities entries, but the loop
resetting the metadata of the data fragments indexed it up to n_data.
---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 3400eeb..e3490bb 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -216,10 +216,10 @@ int quadiron_fnt32_decode(
         return -1;
 
     // reset metadata of data
+    quadiron::Properties null_prop;
     for (unsigned i = 0; i < fec->n_data; i++) {
-        parities_props[i].clear();
         uint32_t* metadata = reinterpret_cast<uint32_t*>(data[i]);
-        int ret = parities_props[i].fnt_serialize(metadata, metadata_size / 4);
+        int ret = null_prop.fnt_serialize(metadata, metadata_size / 4);
         if (ret == -1) {
             return -1;
         }
-- 
2.43.0


From 153689c261358e8ced45ecde1ff1236f737c9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 05/37] fix: quadiron_fnt32_reconstruct passes a too short
 wanted vector

Reconstructing a data fragment of a systematic code indexed the n_outputs
(= n_parities) long wanted vector with a data index, and decoding then read
n_data entries from it.
---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index e3490bb..2e5a31c 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -292,13 +292,13 @@ int quadiron_fnt32_reconstruct(
          * Easy case where the target is a data then simply decode
          */
         if (destination_idx < fec->n_data) {
-            wanted_idxs_vec[destination_idx] = true;
+            wanted_data_vec[destination_idx] = true;
             res = fec->decode_blocks_vertical(
                 data_vec,
                 parities_vec,
                 parities_props,
                 missing_idxs_vec,
-                wanted_idxs_vec,
+                wanted_data_vec,
                 block_size);
             if (!res) {
                 return -1;
-- 
2.43.0


From a219bf9582cb655a84a2490ac58019f0bcf366a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 06/37] fix: quadiron_fnt32_encode dereferences unwanted
 parities

The API lets callers set unwanted parity entries to NULL, but the metadata
header of every parity was written regardless of wanted_idxs.
---
 src/quadiron_c.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 2e5a31c..73d0fc7 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -120,6 +120,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs[i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret =
                 parities_props[i].fnt_serialize(metadata, metadata_size / 4);
@@ -137,6 +140,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs[fec->n_data + i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret = parities_props[fec->n_data + i].fnt_serialize(
                 metadata, metadata_size / 4);
-- 
2.43.0


From 0b51b06cadfc43a405f350eb62f6bcbf81c3f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 07/37] fix: Radix2::fft_inv multiplies uninitialized buffers

When the input is shorter than the FFT, only the first ceil2(input_len) output
buffers are initialized, but each zero-padded layer multiplied all m of them.
The garbage was always overwritten by a later layer, but it trips the range
assertions of the field in debug builds.
---
 src/fft_2n.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 76d776b..7d1d30c 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -540,7 +540,7 @@ void Radix2<T>::fft_inv(vec::Buffers<T>& output, vec::Buffers<T>& input)
         // For Q are zeros only => Q = c * P
         for (; m >= input_len; m /= 2) {
             unsigned doubled_m = 2 * m;
-            for (unsigned j = 0; j < m; ++j) {
+            for (unsigned j = 0; j < input_len_power_2; ++j) {
                 const T r = inv_W->get(j * len / doubled_m);
                 butterfly_gs_step_simple(output, r, j, m, doubled_m);
             }
-- 
2.43.0


From a7c219dda8d61c11d6f9001391bb45cb3273ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 08/37] fix: vectorized modular operations ignore the field's
 modulus

They reduce modulo a hard-wired Fermat prime (257 for 16-bit, 65537 for 32-bit
elements) whatever the field is. RsFnt<uint32_t> with a word size of 1, i.e.
GF(257) on 32-bit elements as used by quadiron_fnt32_new(1, ...), produced
undecodable fragments. Use the generic code for any other modulus.
---
 src/fft_2n.h    |  2 +-
 src/simd/simd.h | 11 +++++++++++
 src/simd_ring.h | 10 +++++-----
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 7d1d30c..fd4a23e 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -202,7 +202,7 @@ Radix2<T>::Radix2(const gf::Field<T>& gf, int n, int data_len, size_t pkt_size)
 
     // Indices used for accelerated functions
     const unsigned ratio = simd::countof<T>();
-    simd_vec_len = this->pkt_size / ratio;
+    simd_vec_len = simd::is_accelerated<T>(card) ? pkt_size / ratio : 0;
     simd_trailing_len = this->pkt_size - simd_vec_len * ratio;
     simd_offset = simd_vec_len * ratio;
 }
diff --git a/src/simd/simd.h b/src/simd/simd.h
index f4d1cdf..a3665a9 100644
--- a/src/simd/simd.h
+++ b/src/simd/simd.h
@@ -54,6 +54,17 @@ static constexpr std::size_t countof()
     return REG_BITSZ / (sizeof(T) * CHAR_BIT);
 }
 
+/** Check if a modulus is the one vectorized operations on T are made for.
+ *
+ * They perform modular reduction for a hard-wired Fermat prime: 257 for 16-bit
+ * elements and 65537 for 32-bit ones.
+ */
+template <typename T>
+static constexpr bool is_accelerated(T card)
+{
+    return (sizeof(T) == 2 && card == 257) || (sizeof(T) == 4 && card == 65537);
+}
+
 } // namespace simd
 } // namespace quadiron
 
diff --git a/src/simd_ring.h b/src/simd_ring.h
index a25176a..4fab115 100644
--- a/src/simd_ring.h
+++ b/src/simd_ring.h
@@ -50,7 +50,7 @@ inline void mul_coef_to_buf(const T a, T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = is_accelerated<T>(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i = 0;
@@ -79,7 +79,7 @@ inline void add_two_bufs(T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = is_accelerated<T>(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -101,7 +101,7 @@ inline void sub_two_bufs(T* bufa, T* bufb, T* res, size_t len, T card)
     VecType* _bufb = reinterpret_cast<VecType*>(bufb);
     VecType* _res = reinterpret_cast<VecType*>(res);
     const unsigned ratio = sizeof(*_bufa) / sizeof(*bufa);
-    const size_t _len = len / ratio;
+    const size_t _len = is_accelerated<T>(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -127,7 +127,7 @@ inline void mul_two_bufs(T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = is_accelerated<T>(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -150,7 +150,7 @@ inline void neg(size_t len, T* buf, T card)
 {
     VecType* _buf = reinterpret_cast<VecType*>(buf);
     const unsigned ratio = sizeof(*_buf) / sizeof(*buf);
-    const size_t _len = len / ratio;
+    const size_t _len = is_accelerated<T>(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
-- 
2.43.0


From 6d4efb611cdc5b6b1cd872a53c59db5675a236a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 09/37] fix: RingModN::add overflows when the modulus uses all
 the bits of T

---
 src/gf_ring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 935edce..621c6f7 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -217,7 +217,8 @@ inline T RingModN<T>::add(T a, T b) const
     assert(check(b));
 
     T c = a + b;
-    if (c >= this->_card)
+    // `c < a` when the sum does not fit in T.
+    if (c < a || c >= this->_card)
         c -= this->_card;
     return c;
 }
-- 
2.43.0


From 98fd324b86bec9ce37d24d805553b07c01d1ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 10/37] fix: is_prime reports 0 and 1 as prime

---
 src/arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index fab8c64..91b531a 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -470,8 +470,8 @@ bool solovay_strassen(T n, T (*rand_func)(T n))
 template <typename T>
 bool is_prime(T n)
 {
-    if (n == 2)
-        return true;
+    if (n < 2)
+        return false;
 
     T root = sqrt<T>(n);
     for (T i = 2; i <= root; i++) {
-- 
2.43.0


From 237cd07a90f396103a67b877ed5457a71677ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 11/37] fix: exp_mod overflows when the square of the modulus
 does not fit in T

---
 src/arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index 91b531a..93677b5 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -183,10 +183,10 @@ T exp_mod(T base, T exponent, T modulus)
     base = base % modulus;
     while (exponent > 0) {
         if (exponent % 2 == 1) {
-            result = (result * base) % modulus;
+            result = T((DoubleSizeVal<T>(result) * base) % modulus);
         }
         exponent = exponent >> 1;
-        base = (base * base) % modulus;
+        base = T((DoubleSizeVal<T>(base) * base) % modulus);
     }
 
     return result;
-- 
2.43.0


From 17f447d070dc969b36f2aeb96834da4f7ce48a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 12/37] fix: get_code_len_high_compo finds no code length for a
 request of 1

---
 src/arith.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arith.h b/src/arith.h
index 93677b5..3d8b3ad 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -694,6 +694,9 @@ T get_code_len_high_compo(const std::vector<T>& factors, T n)
 {
     T x = 1;
     typename std::vector<T>::size_type i, j;
+    if (n <= 1) {
+        return x;
+    }
     // forward to get a divisor of (q-1) >= n and of highly composited
     for (i = 0; i != factors.size(); ++i) {
         x *= factors[i];
-- 
2.43.0


From 987484856ac4d5f68a1ea9a13de5e8a1514c043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 13/37] fix: Int256 never compares below zero

---
 src/big_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/big_int.h b/src/big_int.h
index d6b3627..713d6e9 100644
--- a/src/big_int.h
+++ b/src/big_int.h
@@ -70,7 +70,7 @@ struct Int256 {
 
     bool operator<(int x)
     {
-        return lo < static_cast<__uint128_t>(x);
+        return static_cast<__int128_t>(lo) < x;
     }
 
     bool operator!=(__uint128_t x)
-- 
2.43.0


From 0bedb9bc3fcb0256c7b322d578ebd1566a9dd4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 14/37] fix: mul_vec_to_vecp takes card-1 for -1 in
 characteristic 2

---
 src/gf_ring.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 621c6f7..04a3e24 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -382,21 +382,23 @@ inline void RingModN<T>::mul_vec_to_vecp(
     int i;
     int n = u.get_n();
     size_t len = src.get_size();
-    T h = this->card_minus_one();
+    // 1 and -1 in the field (-1 is 1 in characteristic 2).
+    const T one = this->replicate(1);
+    const T minus_one = this->neg(one);
     const std::vector<T*>& src_mem = src.get_mem();
     const std::vector<T*>& dest_mem = dest.get_mem();
     T* coef_vec = u.get_mem();
     for (i = 0; i < n; i++) {
         T coef = coef_vec[i];
-        if (coef > 1 && coef < h) {
-            this->mul_coef_to_buf(coef, src_mem[i], dest_mem[i], len);
-        } else if (coef == 1) {
+        if (coef == one) {
             dest.copy(i, src_mem[i]);
         } else if (coef == 0) {
             dest.fill(i, 0);
-        } else if (coef == h) {
+        } else if (coef == minus_one) {
             dest.copy(i, src_mem[i]);
             this->neg(len, dest_mem[i]);
+        } else {
+            this->mul_coef_to_buf(coef, src_mem[i], dest_mem[i], len);
         }
     }
 }
-- 
2.43.0


From d52345e140919063384771b3bdc877b131b4863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 15/37] fix: simd::add_two_bufs overflows when the modulus uses
 all the bits of T

---
 src/simd_ring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simd_ring.h b/src/simd_ring.h
index 4fab115..3b0822f 100644
--- a/src/simd_ring.h
+++ b/src/simd_ring.h
@@ -89,7 +89,8 @@ inline void add_two_bufs(T* src, T* dest, size_t len, T card)
     if (_last_len > 0) {
         for (i = _len * ratio; i < len; i++) {
             const T tmp = src[i] + dest[i];
-            dest[i] = (tmp >= card) ? (tmp - card) : tmp;
+            // `tmp < src[i]` when the sum does not fit in T.
+            dest[i] = (tmp < src[i] || tmp >= card) ? (tmp - card) : tmp;
         }
     }
 }
-- 
2.43.0


From c277e1af47d32b9286d4a7d3392301564c67eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 16/37] fix: BinExtension inherits bulk operations vectorized
 for integer moduli

---
 src/gf_bin_ext.h | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/gf_bin_ext.h b/src/gf_bin_ext.h
index faf0f2a..c6b375a 100644
--- a/src/gf_bin_ext.h
+++ b/src/gf_bin_ext.h
@@ -43,6 +43,8 @@ namespace gf {
 template <typename T>
 class BinExtension : public gf::Field<T> {
   public:
+    using gf::Field<T>::neg;
+
     ~BinExtension();
     void find_primitive_root();
     T card(void) const override;
@@ -56,6 +58,11 @@ class BinExtension : public gf::Field<T> {
     T exp(T a, T b) const override;
     T log(T a, T b) const override;
     void hadamard_mul(int n, T* x, T* y) const override;
+    // The vectorized versions of these operations are modulo an integer.
+    void neg(size_t n, T* x) const override;
+    void mul_coef_to_buf(T a, T* src, T* dest, size_t len) const override;
+    void add_two_bufs(T* src, T* dest, size_t len) const override;
+    void sub_two_bufs(T* bufa, T* bufb, T* res, size_t len) const override;
 
     BinExtension(BinExtension&&) = default;
 
@@ -590,6 +597,38 @@ inline void BinExtension<T>::hadamard_mul(int n, T* x, T* y) const
     }
 }
 
+template <typename T>
+inline void BinExtension<T>::neg(size_t, T*) const
+{
+    // Each element is its own opposite.
+}
+
+template <typename T>
+inline void
+BinExtension<T>::mul_coef_to_buf(T a, T* src, T* dest, size_t len) const
+{
+    for (size_t i = 0; i < len; i++) {
+        dest[i] = mul(a, src[i]);
+    }
+}
+
+template <typename T>
+inline void BinExtension<T>::add_two_bufs(T* src, T* dest, size_t len) const
+{
+    for (size_t i = 0; i < len; i++) {
+        dest[i] = add(src[i], dest[i]);
+    }
+}
+
+template <typename T>
+inline void
+BinExtension<T>::sub_two_bufs(T* bufa, T* bufb, T* res, size_t len) const
+{
+    for (size_t i = 0; i < len; i++) {
+        res[i] = sub(bufa[i], bufb[i]);
+    }
+}
+
 } // namespace gf
 } // namespace quadiron
 
-- 
2.43.0


From 88a3b60ab1fcfa29325a0dd9d874768299f5fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 17/37] fix: simd::mul_coef_to_buf is wrong for the coefficient
 card-1

---
 src/simd_ring.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simd_ring.h b/src/simd_ring.h
index 3b0822f..dbf1085 100644
--- a/src/simd_ring.h
+++ b/src/simd_ring.h
@@ -54,6 +54,12 @@ inline void mul_coef_to_buf(const T a, T* src, T* dest, size_t len, T card)
     const size_t _last_len = len - _len * ratio;
 
     size_t i = 0;
+    if (a == card - 1) {
+        // `mod_mul` does not hold when both operands equal `card - 1`.
+        for (; i < _len; ++i) {
+            _dest[i] = mod_mul_safe<T>(coef, _src[i]);
+        }
+    }
     const size_t end = (_len > 3) ? _len - 3 : 0;
     for (; i < end; i += 4) {
         _dest[i] = mod_mul<T>(coef, _src[i]);
-- 
2.43.0


From 4d7a0d28d23cd4d573c76aac85000380bdcfbf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 18/37] fix: get_all_divisors lists the square root of a
 perfect square twice

---
 src/arith.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arith.h b/src/arith.h
index 3d8b3ad..2d37cdf 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -625,7 +625,9 @@ std::vector<T> get_all_divisors(T n)
         // While `i` divides `nb`, get `i` and divide `nb/i`.
         if (n % i == 0) {
             divisors.push_back(i);
-            n_div_i.push_back(n / i);
+            if (i != n / i) {
+                n_div_i.push_back(n / i);
+            }
         }
     }
     divisors.insert(divisors.end(), n_div_i.rbegin(), n_div_i.rend());
-- 
2.43.0


From eb90b98594e719ecbc545d769762c9922571a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:09 +0000
Subject: [PATCH 19/37] fix: check_order_naive accepts 2 as the order of 1

---
 src/gf_ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 04a3e24..d564201 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -763,7 +763,7 @@ bool RingModN<T>::check_order_naive(T nb, T order) const
 
     T i = 1;
     T tmp = nb;
-    while (i < order - 1) {
+    while (i < order) {
         // std::cout << i << ":" << tmp << std::endl;
         if (tmp == 1)
             return false;
-- 
2.43.0


From a28a81307109f214749d1b4d79223b8ec3f0e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 20/37] fix: is_primitive_root accepts 1 when the order of the
 group is prime

---
 src/gf_ring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index d564201..d8ac10c 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -604,9 +604,10 @@ inline __uint128_t RingModN<__uint128_t>::rand(void) const
 template <typename T>
 bool RingModN<T>::is_primitive_root(T nb) const
 {
-    bool ok = true;
     typename std::vector<T>::size_type i;
     T h = this->card_minus_one();
+    // There is no proper divisor to check when the order is prime.
+    bool ok = (nb != 1 || h == 1);
     // Check nb^divisor == 1.
     for (i = 0; i != this->proper_divisors.size(); ++i) {
         if (this->exp(nb, this->proper_divisors[i]) == 1) {
-- 
2.43.0


From f0d0c80057ddae3812382437c05acfd4323d7dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 21/37] fix: Poly operations access out of bounds on the zero
 polynomial

---
 src/vec_poly.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vec_poly.h b/src/vec_poly.h
index b6234e8..06b6b50 100644
--- a/src/vec_poly.h
+++ b/src/vec_poly.h
@@ -140,6 +140,9 @@ void Poly<T>::set(int exponent, T coef)
 template <typename T>
 void Poly<T>::derivative()
 {
+    if (degree < 0) {
+        return;
+    }
     for (int deg = 1; deg <= degree; ++deg) {
         buf[deg - 1] = field->mul(deg % field_characteristic, buf[deg]);
     }
@@ -151,6 +154,9 @@ void Poly<T>::derivative()
 template <typename T>
 void Poly<T>::derivative_nf4()
 {
+    if (degree < 0) {
+        return;
+    }
     for (int deg = 1; deg <= degree; ++deg) {
         const T _deg = field->replicate(deg % field_characteristic);
         buf[deg - 1] = field->mul(_deg, buf[deg]);
@@ -162,6 +168,9 @@ void Poly<T>::derivative_nf4()
 template <typename T>
 T Poly<T>::eval(T x)
 {
+    if (degree < 0) {
+        return 0;
+    }
     int i = degree;
     T result = buf[i];
 
@@ -219,6 +228,9 @@ void Poly<T>::mul_to_x_plus_coef(T coef)
 {
     assert(field->check(coef));
 
+    if (degree < 0) {
+        return;
+    }
     const T val = buf[degree];
     for (int deg = degree; deg > 0; deg--) {
         buf[deg] = field->add(buf[deg - 1], field->mul(buf[deg], coef));
-- 
2.43.0


From 6de8c06ad7e7ea3a21363360bbdafced236dd06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 22/37] fix: Poly::zero_fill keeps the former degree

---
 src/vec_poly.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vec_poly.h b/src/vec_poly.h
index 06b6b50..5b66cfc 100644
--- a/src/vec_poly.h
+++ b/src/vec_poly.h
@@ -250,6 +250,7 @@ template <typename T>
 void Poly<T>::zero_fill()
 {
     std::memset(buf, 0, this->n * sizeof(*buf));
+    degree = -1;
 }
 
 template <typename T>
-- 
2.43.0


From ca7f1786bd83861c58cd802f864a028edf9c0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 23/37] fix: Poly::mul leaves the degree and the high
 coefficients of its operand

---
 src/vec_poly.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vec_poly.h b/src/vec_poly.h
index 5b66cfc..cfda87b 100644
--- a/src/vec_poly.h
+++ b/src/vec_poly.h
@@ -208,6 +208,14 @@ void Poly<T>::mul(Poly<T>* b, int deg_out)
         }
         buf[deg] = val;
     }
+    // Drop what is above the degree limit, and set the degree of the product.
+    for (int deg = deg_out + 1; deg <= degree; deg++) {
+        buf[deg] = 0;
+    }
+    degree = deg_out;
+    while (degree >= 0 && buf[degree] == 0) {
+        degree--;
+    }
 }
 
 /** Multiply to polynomial \f$(X + coef)\f$
-- 
2.43.0


From 4cca650f14eced57533f57fe9ae3e829a8fa2d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 24/37] fix: Vector move assignment does not compile

---
 src/vec_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec_vector.h b/src/vec_vector.h
index a0ddc0e..289bc0f 100644
--- a/src/vec_vector.h
+++ b/src/vec_vector.h
@@ -194,7 +194,7 @@ Vector<T>& Vector<T>::operator=(Vector<T>&& other) noexcept
 {
     this->destroy();
     this->rn = other.rn;
-    this->n = other.rn;
+    this->n = other.n;
     this->mem = std::exchange(other.mem, nullptr);
     this->mem_len = other.mem_len;
     this->new_mem = other.new_mem;
-- 
2.43.0


From ca33f1a03023194722d4f52294d8dffea7c66ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 25/37] fix: Buffers full copy reports an empty memory length

---
 src/vec_buffers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index d31c69d..24281e4 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -189,7 +189,7 @@ Buffers<T>::Buffers(const Buffers<T>& vec, int n)
 
     this->size = vec.get_size();
     this->n = (n == 0) ? vec_n : n;
-    this->mem_len = n * size;
+    this->mem_len = this->n * size;
 
     this->mem_alloc_case = BufMemAlloc::FULL;
 
-- 
2.43.0


From 3aaa824828c75e306f9db5a4afd87e0f06755956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 26/37] fix: Buffers slice beginning after the end reads out of
 bounds

---
 src/vec_buffers.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index 24281e4..e1aa953 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -243,8 +243,11 @@ Buffers<T>::Buffers(const Buffers<T>& vec, int begin, int end)
         this->zeros = this->allocator.allocate(size);
         std::memset(this->zeros, 0, this->size * sizeof(T));
 
-        mem.insert(mem.end(), vec_mem.begin() + begin, vec_mem.end());
-        mem.insert(mem.end(), end - vec.get_n(), zeros);
+        const int slice_end = (begin < vec.get_n()) ? vec.get_n() : begin;
+        if (begin < vec.get_n()) {
+            mem.insert(mem.end(), vec_mem.begin() + begin, vec_mem.end());
+        }
+        mem.insert(mem.end(), end - slice_end, zeros);
     }
 }
 
-- 
2.43.0


From a2dcfa6dc7773d57ba417e02352e15681585bb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 27/37] fix: Buffers shuffled without zero-extension writes in
 an empty vector

---
 src/vec_buffers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index e1aa953..e550789 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -302,7 +302,6 @@ Buffers<T>::Buffers(
     unsigned n)
 {
     const unsigned map_len = map.get_n();
-    const unsigned vec_n = vec.get_n();
     assert(map_len <= n);
 
     this->n = n;
@@ -312,8 +311,9 @@ Buffers<T>::Buffers(
     const std::vector<T*> vec_mem = vec.get_mem();
     // output is sliced & shuffled from `vec`
     mem.reserve(this->n);
-    if (vec_n >= n) {
+    if (map_len >= n) {
         this->mem_alloc_case = BufMemAlloc::SLICE;
+        mem.resize(n, nullptr);
     } else { // output is zero-extended & shuffled from `vec`
         this->mem_alloc_case = BufMemAlloc::ZERO_EXTEND;
 
-- 
2.43.0


From a851d0f272e8d51c37231f20c298c97d0c8aefde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 28/37] fix: Buffers::set releases buffers it does not own

---
 src/vec_buffers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index e550789..27f21e3 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -379,7 +379,7 @@ inline void Buffers<T>::set(int i, T* buf)
 {
     assert(i >= 0 && i < n);
 
-    if ((mem_alloc_case == BufMemAlloc::NONE) && (mem[i] != nullptr))
+    if ((mem_alloc_case == BufMemAlloc::FULL) && (mem[i] != nullptr))
         this->allocator.deallocate(mem[i], size);
 
     mem[i] = buf;
-- 
2.43.0


From 4a7c536ca43612c391038d0b6e96ebc94a857907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 29/37] fix: Vector copy assignment does not compile

---
 src/vec_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec_vector.h b/src/vec_vector.h
index 289bc0f..03b8cff 100644
--- a/src/vec_vector.h
+++ b/src/vec_vector.h
@@ -185,7 +185,7 @@ template <typename T>
 Vector<T>& Vector<T>::operator=(const Vector<T>& other)
 {
     Vector<T> tmp(other);
-    swap(*this, tmp);
+    *this = std::move(tmp);
     return *this;
 }
 
-- 
2.43.0


From ff21e85ce24f7a364f366bdb49ca439645e2fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:25 +0000
Subject: [PATCH 30/37] fix: Cauchy generator matrix is not MDS once optimised

---
 src/vec_matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_matrix.h b/src/vec_matrix.h
index f3a7e5c..a27a828 100644
--- a/src/vec_matrix.h
+++ b/src/vec_matrix.h
@@ -417,14 +417,16 @@ void Matrix<T>::cauchy()
     /* do optimise */
     // convert 1st row to all 1s
     for (j = 0; j < n_cols; j++) {
+        const T first = get(0, j);
         for (i = 0; i < n_rows; i++) {
-            set(i, j, rn->div(get(i, j), get(0, j)));
+            set(i, j, rn->div(get(i, j), first));
         }
     }
     // convert 1st element of each row to 1
     for (i = 1; i < n_rows; i++) {
+        const T first = get(i, 0);
         for (j = 0; j < n_cols; j++) {
-            set(i, j, rn->div(get(i, j), get(i, 0)));
+            set(i, j, rn->div(get(i, j), first));
         }
     }
 }
-- 
2.43.0


From 5f84b75fc931e92e271dc6ae52244dceb7761cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 31/37] fix: Buffers assignment shares memory that is released
 twice

---
 src/vec_buffers.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index 27f21e3..bb23444 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -35,6 +35,7 @@
 #include <cassert>
 #include <cstring>
 #include <iostream>
+#include <utility>
 #include <vector>
 
 #include "core.h"
@@ -106,6 +107,7 @@ class Buffers final {
     Buffers(const Buffers<T>& vec, int begin, int end);
     Buffers(const Buffers<T>& vec1, const Buffers<T>& vec2);
     Buffers(const Buffers<T>& vec, const Vector<T>& map, unsigned n);
+    Buffers<T>& operator=(Buffers<T> other);
     ~Buffers();
     int get_n(void) const;
     size_t get_size(void) const;
@@ -329,6 +331,21 @@ Buffers<T>::Buffers(
     }
 }
 
+/**
+ * Assignment: `other` is a copy, its memory is exchanged with the current one
+ */
+template <typename T>
+Buffers<T>& Buffers<T>::operator=(Buffers<T> other)
+{
+    std::swap(this->mem, other.mem);
+    std::swap(this->mem_len, other.mem_len);
+    std::swap(this->size, other.size);
+    std::swap(this->n, other.n);
+    std::swap(this->mem_alloc_case, other.mem_alloc_case);
+    std::swap(this->zeros, other.zeros);
+    return *this;
+}
+
 template <typename T>
 Buffers<T>::~Buffers()
 {
-- 
2.43.0


From 3588a38d0ca499ab9f10b785500d1ddec5d5bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 32/37] fix: decoding context overflows when there is no parity

---
 src/fec_context.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fec_context.h b/src/fec_context.h
index 0e15326..091bb4e 100644
--- a/src/fec_context.h
+++ b/src/fec_context.h
@@ -43,6 +43,7 @@
 #include "gf_nf4.h"
 #include "property.h"
 #include "vec_poly.h"
+#include "vec_slice.h"
 #include "vec_zero_ext.h"
 
 namespace quadiron {
@@ -96,7 +97,8 @@ class DecodeContext {
             props.sort();
         }
 
-        A = std::make_unique<vec::Poly<T>>(gf, n);
+        // A is of degree `k`, and `n` equals `k` when there is no parity
+        A = std::make_unique<vec::Poly<T>>(gf, n > k ? n : k + 1);
         A_fft_2k = std::make_unique<vec::Vector<T>>(gf, len_2k);
         inv_A_i = std::make_unique<vec::Vector<T>>(gf, k);
         S = std::make_unique<vec::Poly<T>>(gf, k);
@@ -251,8 +253,9 @@ class DecodeContext {
         }
 
         // compute A_i(x_i)
+        vec::Slice<T> _A_n(&_A, n);
         vec::Vector<T> _A_fft(*gf, n);
-        this->fft->fft(_A_fft, _A);
+        this->fft->fft(_A_fft, _A_n);
 
         // compute 1/(x_i * A_i(x_i))
         // we care only about elements corresponding to fragments_ids
-- 
2.43.0


From 14226fd34d43211309fc9617930433b84e35e6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 33/37] fix: stream encoding dereferences the outputs that are
 not wanted

---
 src/fec_base.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fec_base.h b/src/fec_base.h
index 4dcf7f0..364ee86 100644
--- a/src/fec_base.h
+++ b/src/fec_base.h
@@ -452,8 +452,10 @@ void FecCode<T>::encode_streams_horizontal(
         n_encode_ops++;
 
         for (unsigned i = 0; i < n_outputs; i++) {
-            T tmp = output.get(i);
-            writew(tmp, output_parities_bufs[i]);
+            if (output_parities_bufs[i] != nullptr) {
+                T tmp = output.get(i);
+                writew(tmp, output_parities_bufs[i]);
+            }
         }
         offset++;
     }
@@ -534,8 +536,12 @@ void FecCode<T>::encode_streams_vertical(
             output_mem_T, output_mem_char, output_len, pkt_size, word_size);
 
         for (unsigned i = 0; i < n_outputs; i++) {
-            write_pkt(
-                output_mem_char.at(i), *(output_parities_bufs[i]), read_bytes);
+            if (output_parities_bufs[i] != nullptr) {
+                write_pkt(
+                    output_mem_char.at(i),
+                    *(output_parities_bufs[i]),
+                    read_bytes);
+            }
         }
         offset += pkt_size;
     }
-- 
2.43.0


From 4f96e60a59ec95adc32276b6dda481d045ed0fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 34/37] fix: additive FFT codec binds a reference to a null
 transform

---
 src/fec_base.h            | 2 +-
 src/fec_context.h         | 4 ++--
 src/fec_rs_gf2n_fft_add.h | 2 +-
 src/fec_rs_nf4.h          | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fec_base.h b/src/fec_base.h
index 364ee86..cdf9103 100644
--- a/src/fec_base.h
+++ b/src/fec_base.h
@@ -787,7 +787,7 @@ std::unique_ptr<DecodeContext<T>> FecCode<T>::init_context_dec(
     return std::make_unique<DecodeContext<T>>(
         *gf,
         *fft,
-        *fft_2k,
+        fft_2k.get(),
         fragments_ids,
         input_props,
         vx,
diff --git a/src/fec_context.h b/src/fec_context.h
index 091bb4e..ca6d403 100644
--- a/src/fec_context.h
+++ b/src/fec_context.h
@@ -67,7 +67,7 @@ class DecodeContext {
     DecodeContext(
         const gf::Field<T>& gf,
         fft::FourierTransform<T>& fft,
-        fft::FourierTransform<T>& fft_2k,
+        fft::FourierTransform<T>* fft_2k,
         const vec::Vector<T>& fragments_ids,
         std::vector<Properties>& input_props,
         const vec::Vector<T>& vx,
@@ -83,7 +83,7 @@ class DecodeContext {
         this->size = size;
         this->gf = &gf;
         this->fft = &fft;
-        this->fft_2k = &fft_2k;
+        this->fft_2k = fft_2k;
         this->vx_zero = vx_zero;
 
         this->len_2k = this->gf->get_code_len_high_compo(2 * this->k);
diff --git a/src/fec_rs_gf2n_fft_add.h b/src/fec_rs_gf2n_fft_add.h
index 80f8f6b..ceaa070 100644
--- a/src/fec_rs_gf2n_fft_add.h
+++ b/src/fec_rs_gf2n_fft_add.h
@@ -148,7 +148,7 @@ class RsGf2nFftAdd : public FecCode<T> {
             std::unique_ptr<DecodeContext<T>>(new DecodeContext<T>(
                 *(this->gf),
                 *fft,
-                *(this->fft_2k),
+                this->fft_2k.get(),
                 fragments_ids,
                 input_props,
                 vx,
diff --git a/src/fec_rs_nf4.h b/src/fec_rs_nf4.h
index 6789340..7263187 100644
--- a/src/fec_rs_nf4.h
+++ b/src/fec_rs_nf4.h
@@ -202,7 +202,7 @@ class RsNf4 : public FecCode<T> {
             std::unique_ptr<DecodeContext<T>>(new DecodeContext<T>(
                 *(this->gf),
                 *(this->fft),
-                *(this->fft_2k),
+                this->fft_2k.get(),
                 fragments_ids,
                 input_props,
                 vx,
-- 
2.43.0


From a0d9462b8089cbb1da88aa1e8f4446c51c317582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 35/37] fix: Naive inverse FFT of buffers multiplies by 0 in
 characteristic 2

---
 src/fft_naive.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fft_naive.h b/src/fft_naive.h
index cf312f2..cff547c 100644
--- a/src/fft_naive.h
+++ b/src/fft_naive.h
@@ -190,7 +190,8 @@ void Naive<T>::ifft(vec::Buffers<T>& output, vec::Buffers<T>& input)
     fft_inv(output, input);
 
     // We need to divide output to `N` for the inverse formular
-    this->gf->mul_vec_to_vecp(*(this->vec_inv_n), output, output);
+    if (this->inv_n_mod_p > 1)
+        this->gf->mul_vec_to_vecp(*(this->vec_inv_n), output, output);
 }
 
 } // namespace fft
-- 
2.43.0


From 6dabd7f9c83e97808cb04fc94442ef6851fcd6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 36/37] fix: Radix2::fft_inv keeps stale output on
 zero-extended inputs

---
 src/fft_2n.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index fd4a23e..278cfa9 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -322,7 +322,7 @@ void Radix2<T>::fft_inv(vec::Vector<T>& output, vec::Vector<T>& input)
 {
     const unsigned len = this->n;
 
-    output.copy(&input);
+    output.copy(&input, len);
 
     for (unsigned m = len / 2; m >= 1; m /= 2) {
         unsigned doubled_m = 2 * m;
-- 
2.43.0


From ffffac5751bed9017471fd1690680abc20ff2b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:03 +0000
Subject: [PATCH 37/37] fix: index of a view does not go through the element
 type

The position in the viewed vector was computed in the element type: with
16-bit elements a view of more than 65536 elements showed other elements
than those designated.
---
 src/vec_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_view.h b/src/vec_view.h
index 93cd1d6..4c944bd 100644
--- a/src/vec_view.h
+++ b/src/vec_view.h
@@ -93,7 +93,7 @@ inline const T& View<T>::get(int i) const
 {
     assert(i >= 0 && i < this->n);
 
-    T loc = (offset + step * i) % this->N;
+    const int loc = (offset + step * i) % this->N;
     return vec->get(loc);
 }
 
@@ -125,7 +125,7 @@ void View<T>::set(int i, T val)
 {
     assert(i >= 0 && i < this->n);
 
-    T loc = (offset + step * i) % this->N;
+    const int loc = (offset + step * i) % this->N;
     vec->set(loc, val);
 }
 
-- 
2.43.0

