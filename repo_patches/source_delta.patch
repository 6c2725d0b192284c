From 241369a4042a8ff819ddae85447210bb68c96d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:23 +0000
Subject: [PATCH 01/26] fix: restore the buffered 32-bit half when a Squares
 state is assigned

---
 randomgen/squares.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 1f0ef88..3e4e750 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -547,6 +547,8 @@ cdef class Squares(BitGenerator):
         self.variant = variant
         self._use64 = variant == 64
         self._setup_bitgen()
+        self.rng_state.has_uint32 = value["has_uint32"]
+        self.rng_state.uinteger = value["uinteger"]
 
     def advance(self, uint64_t delta):
         """
-- 
2.43.0


From eb0ba04996ee76e39851af07aceedd34e186a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:44 +0000
Subject: [PATCH 02/26] fix: advance from a fresh Philox or ThreeFry with
 number=2 skipped no block

The initial buffer position is 4 for every number, so the exhausted buffer was
not recognised when number is 2 and advance(2 * k, False) landed one block early.
---
 randomgen/src/philox/philox.c     | 2 +-
 randomgen/src/threefry/threefry.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index e98d72e..69e5570 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -10,7 +10,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
   philox##N##x##W##_ctr_t ct;                                                             \
   rem = step[0] % N;                                                                      \
   next_buffer_pos = state->buffer_pos + rem;                                              \
-  carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0))) \
+  carry = (((state->buffer_pos >= N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0))) \
             && (use_carry > 0);                                                           \
   state->buffer_pos = next_buffer_pos % N;                                                \
   for (i = 0; i < N; i++) {                                                               \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index 53a788e..e6cfb87 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -10,7 +10,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
   threefry##N##x##W##_ctr_t ct;                                                             \
   rem = step[0] % N;                                                                        \
   next_buffer_pos = state->buffer_pos + rem;                                                \
-  carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))   \
+  carry = (((state->buffer_pos >= N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))   \
             && (use_carry > 0);                                                             \
   state->buffer_pos = next_buffer_pos % N;                                                  \
   for (i = 0; i < N; i++) {                                                                 \
-- 
2.43.0


From a8fd8d2567f746ab681264dbde506e85c0d568ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:44 +0000
Subject: [PATCH 03/26] fix: keep the top bits of the step when advancing
 Philox and ThreeFry

advance takes steps modulo 2**(N*W + log2(N)) and passes N + 1 words, but the
last counter word ignored the bits held in the extra word, so negative steps and
steps of 2**(N*W) or more moved to the wrong counter.
---
 randomgen/src/philox/philox.c     | 4 +---
 randomgen/src/threefry/threefry.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index 69e5570..ef6abb7 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -17,9 +17,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
       adj_step = step[i] / N;                                                             \
       /* Add in the lower bits from the next step size */                                 \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                      \
-      if (i < (N - 1)){                                                                   \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                   \
-      }                                                                                   \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
       last = state->state.state##N##x##W.ctr.v[i];                                        \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                           \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                             \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index e6cfb87..4a85be0 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -17,9 +17,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
       adj_step = step[i] / N;                                                               \
       /* Add in the lower bits from the next step size */                                   \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                        \
-      if (i < (N - 1)){                                                                     \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
-      }                                                                                     \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                       \
       last = state->state.state##N##x##W.ctr.v[i];                                          \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                             \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                               \
-- 
2.43.0


From ba8fb91218c60acb58a61560df8965ddccf24aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 04/26] fix: discard the buffered block when HC128 is reseeded

---
 randomgen/src/hc-128/hc-128.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/src/hc-128/hc-128.c b/randomgen/src/hc-128/hc-128.c
index 88b2ad4..707cc93 100644
--- a/randomgen/src/hc-128/hc-128.c
+++ b/randomgen/src/hc-128/hc-128.c
@@ -46,6 +46,7 @@ void hc128_init(hc128_state_t *state, const uint8_t *key, const uint8_t *iv)
         q[i] = round_expression_qp(q, p, i);
 
     state->hc_idx = 0;
+    state->buffer_idx = 0;
 }
 
 void hc128_seed(hc128_state_t *state, uint32_t *seed)
-- 
2.43.0


From a1c3f40063dac8c2e843a18b10f4ac95d04ee047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 05/26] fix: reset the position when Xorshift1024 is reseeded

---
 randomgen/xorshift1024.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index ffcb768..1b71e70 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -135,6 +135,7 @@ cdef class Xorshift1024(BitGenerator):
         state = self._get_seed_seq().generate_state(16, np.uint64)
         for i in range(16):
             self.rng_state.s[i] = state[i]
+        self.rng_state.p = 0
         self._reset_state_variables()
 
     def seed(self, seed=None):
-- 
2.43.0


From c1144f9e7ebe4ddc7f0bbc73e3d5eacd3d7dc3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 06/26] fix: random_raw(output=False) discards the product of
 the dimensions, not their sum

---
 randomgen/common.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 4aa1af1..873e311 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -234,7 +234,9 @@ cdef object random_raw(bitgen_t *bitgen, object lock, object size, object output
             with lock:
                 bitgen.next_raw(bitgen.state)
             return None
-        n = np.asarray(size).sum()
+        n = 1
+        for dim in np.atleast_1d(size):
+            n *= dim
         with lock, nogil:
             for i in range(n):
                 bitgen.next_raw(bitgen.state)
-- 
2.43.0


From 416669bbeed7441fe4819345535bc2cc8758d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 07/26] fix: RDRAND keeps raising after a failure, never reads
 past its buffer and accepts any size when discarding

---
 randomgen/rdrand.pyx | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index f27f5a7..53319ff 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -26,22 +26,14 @@ increase the number of retries to slow down the generation on contested CPUs.
 cdef uint64_t rdrand_uint64(void* st) noexcept nogil:
     cdef PyObject *err
     cdef rdrand_state *state
-    cdef int status
     cdef uint64_t val
     state = <rdrand_state*>st
-    status = 1
-    if state.status == 1 and state.buffer_loc < BUFFER_SIZE:
-        val = state.buffer[state.buffer_loc]
-        state.buffer_loc += 1
-        return val
-    elif state.status == 1:
-        # Only refill if good status
-        # This function will
-        status = rdrand_fill_buffer(state)
+    if state.buffer_loc >= BUFFER_SIZE:
+        rdrand_fill_buffer(state)
     val = state.buffer[state.buffer_loc]
     state.buffer_loc += 1
-    if status == 0:
-        # Only raise on a status change
+    if state.status == 0:
+        # The status is sticky, so raise until it is reset
         with gil:
             err = PyErr_Occurred()
             if err == NULL:
@@ -364,7 +356,9 @@ cdef class RDRAND(BitGenerator):
         cdef int status
 
         if not output:
-            n = 1 if size is None else size
+            n = 1
+            for dim in np.atleast_1d(1 if size is None else size):
+                n *= dim
             status = self.rng_state.status
             with self.lock, nogil:
                 for i in range(n):
-- 
2.43.0


From 857b18696aa97b75797144103b80fb77a60317fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:47 +0000
Subject: [PATCH 08/26] fix: take lists of integers given as key or counter
 exactly

---
 randomgen/common.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 873e311..cb0355a 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -367,12 +367,15 @@ cpdef object object_to_int(object val, object bits, object name, int default_bit
                             " {1}".format(name, all_sz))
     else:
         dtype = np.uint64 if default_bits==64 else np.uint32
+        # NumPy uses float64 when mixing integers above and below 2**63
+        exact = np.array(val, dtype=object)
         val = np.array(val)
         if not np.issubdtype(val.dtype, np.number):
             raise ValueError("{0} contains non-numeric values or values "
                              "out-of-range".format(name))
         if not np.all((val // 1) == val):
             raise TypeError("{0} contains floating point values".format(name))
+        val = exact
         max_val = np.iinfo(dtype).max
         if not (np.all(val<=max_val) and np.all(val>=0)):
             raise ValueError("{0} has elements that are out-of-range for "
-- 
2.43.0


From 8c4d2986cdce759c6c1057dee833fab6e22362f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:47 +0000
Subject: [PATCH 09/26] fix: take lists of integers given to seed_by_array
 exactly

---
 randomgen/entropy.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 8fc1afb..5ff5f84 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -94,7 +94,7 @@ def seed_by_array(object seed, Py_ssize_t n):
         seed_array = np.array([int_seed], dtype=np.uint64)
     else:
         err_msg = "Seed values must be integers between 0 and 2**64 - 1"
-        obj = np.asarray(seed).astype(object)
+        obj = np.asarray(seed, dtype=object)
         if obj.ndim != 1:
             raise ValueError("Array-valued seeds must be 1-dimensional")
         if not all((np.isscalar(v) and np.isreal(v)) for v in obj):
-- 
2.43.0


From 45f7083444f39ad218c6a00992cc6f024213134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:21 +0000
Subject: [PATCH 10/26] fix: make even SFC64 increments odd as documented

---
 randomgen/sfc.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index e16d8eb..868db28 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -151,7 +151,9 @@ cdef class SFC64(BitGenerator):
         state_arr = <np.uint64_t *>np.PyArray_DATA(state)
         w = self.w if self.w is not None else state[3]
         loc = 3 if self.w is not None else 4
-        k = self.k if self.k is not None else (<uint64_t>state[loc] | 0x1)
+        k = self.k if self.k is not None else state[loc]
+        # The increment must be odd
+        k |= 0x1
         sfc_seed(&self.rng_state, state_arr, w, k)
         self._reset_state_variables()
 
-- 
2.43.0


From 76aaea808a898b3d4484738f549a93ee71836b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:01 +0000
Subject: [PATCH 11/26] fix: SFC64.weyl_increments could fall outside every bit
 count and return 1

---
 randomgen/sfc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index 868db28..6942029 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -293,7 +293,7 @@ cdef class SFC64(BitGenerator):
         out = np.empty(n, dtype=np.uint64)
         out_arr = <uint64_t *>np.PyArray_DATA(out)
         for i in range(n):
-            val = <uint64_t>gen.integers(0, total, endpoint=True, dtype=np.uint64)
+            val = <uint64_t>gen.integers(0, total, dtype=np.uint64)
             nonzero_bits = 0
             for j in range(nbits):
                 if val < cum_count_arr[j] and nonzero_bits == 0:
-- 
2.43.0


From 1862839b2b41809a26a6d9f392a494581df2cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:08 +0000
Subject: [PATCH 12/26] fix: state arrays that are not contiguous were read as
 if they were

---
 randomgen/common.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index cb0355a..7259877 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -410,7 +410,8 @@ cdef object check_state_array(object arr, np.npy_intp required_len,
         raise ValueError("State element {0} must be a 1-d array with dtype {1} "
                          "and {2} elements".format(name, req_dtype,
                                                    required_len))
-    return arr
+    # Callers read the data directly
+    return np.ascontiguousarray(arr)
 
 
 cdef np.ndarray int_to_array(object value, object name, object bits, object uint_size):
-- 
2.43.0


From 8d862a5f035aa71c84adfd2a4d1d7869df6c11ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 13/26] fix: Squares key sampler refills its random words
 before running past them

---
 randomgen/squares.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 3e4e750..226f594 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -85,14 +85,14 @@ cdef class _SequenceSampler:
 
     cdef void refill(self):
         """Refill the bit well after it is exhausted"""
-        self.bit_well = <uint64_t>self.random_well[self.index]
-        self.bit_well_loc = 0
-        self.index += 1
-        if self.index > self.randoms_drawm:
+        if self.index >= self.randoms_drawm:
             self.randoms_drawm *= 2
             self.random_well = self.seed_seq.generate_state(
                 self.randoms_drawm, dtype=np.uint64
             )
+        self.bit_well = <uint64_t>self.random_well[self.index]
+        self.bit_well_loc = 0
+        self.index += 1
 
     cdef uint64_t gen_bits(self, int nbits):
         """Generate a fixed number of bits from the bit well"""
-- 
2.43.0


From 9df0d9ced2fb0b5598257793692ba49a78d82e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 14/26] fix: LXM seeding no longer loops forever when the seed
 sequence delivers only zeros

---
 randomgen/lxm.pyx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/randomgen/lxm.pyx b/randomgen/lxm.pyx
index f927877..d45c22d 100644
--- a/randomgen/lxm.pyx
+++ b/randomgen/lxm.pyx
@@ -145,13 +145,15 @@ cdef class LXM(BitGenerator):
         cdef int i
         cdef uint64_t bits = 0
 
-        # Protect against negligible prob of all 0 in Xorshift
-        while bits == 0:
-            state = self._get_seed_seq().generate_state(5, np.uint64)
-            for i in range(4):
-                self.rng_state.x[i] = state[i]
-                bits |= <uint64_t>state[i]
-            self.rng_state.lcg_state = state[4]
+        state = self._get_seed_seq().generate_state(5, np.uint64)
+        for i in range(4):
+            self.rng_state.x[i] = state[i]
+            bits |= <uint64_t>state[i]
+        # Protect against negligible prob of all 0 in Xorshift. The seed
+        # sequence always returns the same state, so drawing again cannot help
+        if bits == 0:
+            self.rng_state.x[3] = 1
+        self.rng_state.lcg_state = state[4]
         self._reset_state_variables()
 
     def seed(self, seed=None):
-- 
2.43.0


From d4e2ed3fdeaa223c146d52e38169142daee7ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 15/26] fix: JSF rotations by 0 no longer shift by the full
 width

---
 randomgen/src/jsf/jsf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/src/jsf/jsf.h b/randomgen/src/jsf/jsf.h
index 0812468..00f8fd1 100644
--- a/randomgen/src/jsf/jsf.h
+++ b/randomgen/src/jsf/jsf.h
@@ -54,7 +54,7 @@ static INLINE uint64_t rotate64(uint64_t x, int k) {
 #ifdef _MSC_VER
   return _rotl64(x, k);
 #else
-  return (x << k) | (x >> (64 - k));
+  return (x << k) | (x >> ((64 - k) & 63));
 #endif
 }
 
@@ -62,7 +62,7 @@ static INLINE uint32_t rotate32(uint32_t x, int k) {
 #ifdef _MSC_VER
   return _rotl(x, k);
 #else
-  return (x << k) | (x >> (32 - k));
+  return (x << k) | (x >> ((32 - k) & 31));
 #endif
 }
 
-- 
2.43.0


From d58b554ae288c7586af06ad552e6b2b32550b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:33 +0000
Subject: [PATCH 16/26] fix: entropy_getbytes closes /dev/urandom when the read
 fails

---
 randomgen/src/entropy/entropy.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/randomgen/src/entropy/entropy.c b/randomgen/src/entropy/entropy.c
index 17ac8c4..571d88b 100644
--- a/randomgen/src/entropy/entropy.c
+++ b/randomgen/src/entropy/entropy.c
@@ -82,8 +82,10 @@ bool entropy_getbytes(void *dest, size_t size) {
   if (fd < 0)
     return false;
   ssize_t sz = read(fd, dest, size);
-  if ((sz < 0) || ((size_t)sz < size))
+  if ((sz < 0) || ((size_t)sz < size)) {
+    close(fd);
     return false;
+  }
   return close(fd) == 0;
 }
 #endif
-- 
2.43.0


From 41c66e0873c2ae16eb45f2ef7f9b0d3798cdf382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:33 +0000
Subject: [PATCH 17/26] fix: entropy_fallback_getbytes reports a failed
 allocation

---
 randomgen/src/entropy/entropy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/randomgen/src/entropy/entropy.c b/randomgen/src/entropy/entropy.c
index 571d88b..4481122 100644
--- a/randomgen/src/entropy/entropy.c
+++ b/randomgen/src/entropy/entropy.c
@@ -154,10 +154,12 @@ uint32_t entropy_randombytes(void) {
 }
 
 bool entropy_fallback_getbytes(void *dest, size_t size) {
-  int hashes = (int)size;
+  size_t hashes = size;
   uint32_t *hash = malloc(hashes * sizeof(uint32_t));
   // uint32_t hash[hashes];
-  int i;
+  size_t i;
+  if (hash == NULL)
+    return size == 0;
   for (i = 0; i < hashes; i++) {
     hash[i] = entropy_randombytes();
   }
-- 
2.43.0


From af90a6fff071d86987ff542986966a267a7302a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:44 +0000
Subject: [PATCH 18/26] fix: scalar complex_normal draws under the lock

---
 randomgen/generator.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 9f46584..d400fdd 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -648,8 +648,9 @@ cdef class ExtendedGenerator:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
             if size is None:
-                f_real = random_standard_normal(&self._bitgen)
-                f_imag = random_standard_normal(&self._bitgen)
+                with self.lock:
+                    f_real = random_standard_normal(&self._bitgen)
+                    f_imag = random_standard_normal(&self._bitgen)
 
                 compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                 fvar_i, f_rho)
-- 
2.43.0


From 919c2ed20fad12df259cf7e7742bfe36c137d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:44 +0000
Subject: [PATCH 19/26] fix: scalar complex_normal refuses a covariance with a
 component of variance 0

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index d400fdd..a058eb9 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -644,6 +644,8 @@ cdef class ExtendedGenerator:
             f_rho = 0.0
             if fvar_i > 0 and fvar_r > 0:
                 f_rho = frelation_i / sqrt(fvar_i * fvar_r)
+            elif frelation_i != 0:
+                raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
             if f_rho > 1.0 or f_rho < -1.0:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
-- 
2.43.0


From e69dc168496c7482ca61ebf9f7b7a5ef4e6c6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:44 +0000
Subject: [PATCH 20/26] fix: complex_normal broadcasts gamma against relation

---
 randomgen/generator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index a058eb9..81045ff 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -686,8 +686,8 @@ cdef class ExtendedGenerator:
         if np.any(np.not_equal(np.imag(ogamma), 0)):
             raise ValueError("Im(gamma) != 0")
 
-        cov = 0.5 * np.imag(orelation)
-        rho = np.zeros_like(cov)
+        cov = np.broadcast_to(0.5 * np.imag(orelation), np.shape(v_real))
+        rho = np.zeros(np.shape(v_real))
         idx = (v_real.flat > 0) & (v_imag.flat > 0)
         rho.flat[idx] = cov.flat[idx] / np.sqrt(v_real.flat[idx] * v_imag.flat[idx])
         if np.any(cov.flat[~idx] != 0) or np.any(np.abs(rho) > 1):
-- 
2.43.0


From f03549f4f48f203117a0aacce6b6a90a3bde0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:44 +0000
Subject: [PATCH 21/26] fix: wishart takes scale matrices given as lists or
 integers

---
 randomgen/generator.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 81045ff..e8a1d91 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -957,9 +957,9 @@ and the trailing dimensions must match exactly so that
         out_shape = out.shape
         out = out.reshape((-1, np.prod(it_shape), dim, dim))
         temp_shape = np.shape(out[..., 0, :, :])
-        _factors = np.empty_like(scale)
-        for loc in np.ndindex(*scale.shape[:len(scale.shape) - 2]):
-            _factors[loc] = _factorize(scale[loc], method, check_valid, tol, rank_val)
+        _factors = np.empty_like(shape_arr)
+        for loc in np.ndindex(*shape_size):
+            _factors[loc] = _factorize(shape_arr[loc], method, check_valid, tol, rank_val)
         _factors = _factors.reshape((-1, dim, dim))
 
         large_values = np.empty((block_size, dim, dim), dtype=np.float64)
-- 
2.43.0


From d0f470340344e1d928fbc48cf8ff13fb827ab878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:44 +0000
Subject: [PATCH 22/26] fix: factor matrices are applied so that A @ A.T is the
 covariance or scale

---
 randomgen/generator.pyx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index e8a1d91..4b9c379 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -64,6 +64,7 @@ cdef object broadcast_shape(tuple x, tuple y, bint strict):
 
 
 cdef _factorize(cov, meth, check_valid, tol, rank):
+    # Returns A.T where A @ A.T = cov
     if meth == "svd":
         from numpy.linalg import svd
 
@@ -74,7 +75,7 @@ cdef _factorize(cov, meth, check_valid, tol, rank):
         psd = np.allclose(np.dot(vh.T * s, vh), cov, rtol=tol, atol=tol)
         _factor = (u * np.sqrt(s)).T
     elif meth == "factor":
-        return cov
+        return cov.T
     elif meth == "eigh":
         from numpy.linalg import eigh
 
@@ -917,8 +918,8 @@ cdef class ExtendedGenerator:
             df_i = df_arr.item()
             out = self.standard_wishart(df_i, dim, size, False)
             factor = _factorize(shape_arr, method, check_valid, tol, rank_val)
-            np.matmul(factor, out, out=out)
-            np.matmul(out, factor.T, out=out)
+            np.matmul(factor.T, out, out=out)
+            np.matmul(out, factor, out=out)
             return out
 
         if not shape_size:
@@ -985,8 +986,8 @@ and the trailing dimensions must match exactly so that
                                             lwork_data)
                 temp = large_values
             factor = _factors[shape_loc]
-            np.matmul(factor, temp, out=temp)
-            np.matmul(temp, factor.T, out=temp)
+            np.matmul(factor.T, temp, out=temp)
+            np.matmul(temp, factor, out=temp)
             out[..., i, :, :] = temp.reshape(temp_shape)
 
             np.PyArray_MultiIter_NEXT(it)
@@ -1238,6 +1239,7 @@ and the trailing dimensions must match exactly so that
             )
             fidx += 1
         factors = factors.reshape(common_shape + (2 * dim, 2 * dim))
+        factors = np.swapaxes(factors, -1, -2)
         out = self.multivariate_normal(
             larr.view(np.float64), factors, size=size, method="factor"
         )
-- 
2.43.0


From d47186f6b0a01a700cfa2bbe7d3952317ec86c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:44 +0000
Subject: [PATCH 23/26] fix: multivariate_normal keeps a leading dimension of 1
 that was requested

---
 randomgen/generator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 4b9c379..4da04ac 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -547,7 +547,7 @@ cdef class ExtendedGenerator:
         out = self._generator.standard_normal(out_shape + (1, n,))
         prod = np.matmul(out, _factors)
         final = mean + np.squeeze(prod, axis=prod.ndim - 2)
-        if drop_dims and final.shape[0] == 1:
+        if drop_dims and (size is None or not out_shape):
             final = final.reshape(final.shape[1:])
         return final
 
-- 
2.43.0


From a33801605b59396769cef71b77ad657df203a7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:57 +0000
Subject: [PATCH 24/26] fix: random_entropy accepts shapes without elements

---
 randomgen/entropy.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 5ff5f84..aca0d7c 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -173,6 +173,8 @@ def random_entropy(size=None, source="system"):
     else:
         n = compute_numel(size)
         randoms = np.zeros(n, dtype=np.uint32)
+        if n == 0:
+            return np.asarray(randoms).reshape(size)
         if source in ("system", "auto"):
             success = entropy_getbytes(<void *>(&randoms[0]), 4 * n)
         else:
@@ -191,6 +193,6 @@ def random_entropy(size=None, source="system"):
             raise RuntimeError("Unable to read from system cryptographic "
                                "provider or use fallback")
 
-    if n == 0:
+    if size is None:
         return random
     return np.asarray(randoms).reshape(size)
-- 
2.43.0


From e71caec1dab783c21caf382d57d52b53c889e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:39 +0000
Subject: [PATCH 25/26] fix: generators report a failed allocation of their
 state

---
 randomgen/aes.pyx      | 2 ++
 randomgen/chacha.pyx   | 2 ++
 randomgen/dsfmt.pyx    | 4 ++++
 randomgen/pcg64.pyx    | 4 ++++
 randomgen/sfmt.pyx     | 4 ++++
 randomgen/speck128.pyx | 2 ++
 6 files changed, 18 insertions(+)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 8832b44..d522c75 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -134,6 +134,8 @@ cdef class AESCounter(BitGenerator):
         self.rng_state = <aesctr_state_t *>PyArray_calloc_aligned(
             sizeof(aesctr_state_t), 1
         )
+        if self.rng_state == NULL:
+            raise MemoryError("Unable to allocate the generator's state")
         self.seed(seed, counter, key)
 
         self._bitgen.state = <void *>self.rng_state
diff --git a/randomgen/chacha.pyx b/randomgen/chacha.pyx
index 87d63b9..1802bd0 100644
--- a/randomgen/chacha.pyx
+++ b/randomgen/chacha.pyx
@@ -140,6 +140,8 @@ cdef class ChaCha(BitGenerator):
         self.rng_state = <chacha_state_t *>PyArray_malloc_aligned(
             sizeof(chacha_state_t)
         )
+        if self.rng_state == NULL:
+            raise MemoryError("Unable to allocate the generator's state")
         if rounds % 2 != 0 or rounds <= 0:
             raise ValueError("rounds must be even and >= 2")
         self.rng_state.rounds = rounds
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index 9506c3d..4a0397a 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -117,9 +117,13 @@ cdef class DSFMT(BitGenerator):
     def __init__(self, seed=None, *, mode=_DeprecatedValue):
         BitGenerator.__init__(self, seed, mode=mode)
         self.rng_state.state = <dsfmt_t *>PyArray_malloc_aligned(sizeof(dsfmt_t))
+        if self.rng_state.state == NULL:
+            raise MemoryError("Unable to allocate the generator's state")
         self.rng_state.buffered_uniforms = <double *>PyArray_calloc_aligned(
             DSFMT_N64, sizeof(double)
         )
+        if self.rng_state.buffered_uniforms == NULL:
+            raise MemoryError("Unable to allocate the generator's state")
         self.rng_state.buffer_loc = DSFMT_N64
         self.seed(seed)
 
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index abed244..1b78bcd 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -168,6 +168,8 @@ cdef class PCG64(BitGenerator):
         self.rng_state.pcg_state = <pcg64_random_t *>PyArray_malloc_aligned(
             sizeof(pcg64_random_t)
         )
+        if self.rng_state.pcg_state == NULL:
+            raise MemoryError("Unable to allocate the generator's state")
         inc = None if seed is None else inc
 
         variant = "dxsm" if variant is None else variant
@@ -644,6 +646,8 @@ cdef class LCG128Mix(BitGenerator):
         self.rng_state.pcg_state = <lcg128mix_random_t *>PyArray_malloc_aligned(
             sizeof(lcg128mix_random_t)
         )
+        if self.rng_state.pcg_state == NULL:
+            raise MemoryError("Unable to allocate the generator's state")
         if hasattr(output, "argtypes") and hasattr(output, "restype"):
             from ctypes import c_ulonglong
             if output.argtypes != (c_ulonglong, c_ulonglong):
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index 300c4fc..91e3638 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -116,9 +116,13 @@ cdef class SFMT(BitGenerator):
     def __init__(self, seed=None, *, mode=_DeprecatedValue):
         BitGenerator.__init__(self, seed, mode=mode)
         self.rng_state.state = <sfmt_t *>PyArray_malloc_aligned(sizeof(sfmt_t))
+        if self.rng_state.state == NULL:
+            raise MemoryError("Unable to allocate the generator's state")
         self.rng_state.buffered_uint64 = <uint64_t *>PyArray_calloc_aligned(
             SFMT_N64, sizeof(uint64_t)
         )
+        if self.rng_state.buffered_uint64 == NULL:
+            raise MemoryError("Unable to allocate the generator's state")
         self.rng_state.buffer_loc = SFMT_N64
         self.seed(seed)
 
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 6dd3e8e..7500ff3 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -152,6 +152,8 @@ cdef class SPECK128(BitGenerator):
         self.rng_state = <speck_state_t *>PyArray_calloc_aligned(
             sizeof(speck_state_t), 1
         )
+        if self.rng_state == NULL:
+            raise MemoryError("Unable to allocate the generator's state")
         if (rounds <= 0) or rounds > SPECK_MAX_ROUNDS or int(rounds) != rounds:
             raise ValueError("rounds must be an integer in [1, 34]")
         self.rng_state.rounds = int(rounds)
-- 
2.43.0


From 20996da25353cf200d6fe22fe025ebf27c197e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:55 +0000
Subject: [PATCH 26/26] fix: multivariate_complex_normal takes gamma and
 relation with several leading dimensions

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 4da04ac..8f1b98d 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -1206,12 +1206,14 @@ and the trailing dimensions must match exactly so that
         else:
             _shape = np.shape(garr)[: gdim - 2]
             gidx = np.arange(np.prod(_shape)).reshape(_shape)
+            garr = np.reshape(garr, (-1, dim, dim))
         if rdim == 2:
             ridx = np.array([0])
             rarr = np.reshape(rarr, (1,) + np.shape(rarr))
         else:
             _shape = np.shape(rarr)[: rdim - 2]
             ridx = np.arange(np.prod(_shape)).reshape(_shape)
+            rarr = np.reshape(rarr, (-1, dim, dim))
 
         factors = np.empty(common_shape + (2 * dim, 2 * dim)).reshape(
             (-1, 2 * dim, 2 * dim)
-- 
2.43.0

