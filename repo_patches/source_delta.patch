From fea9d247a4e1af2eb6db5cce8845107c02f33738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 1/8] fix: chacha20: wrap in the RNGs' get_block_pos at the end
 of the stream

After a refill that ran through the end of the 2^64-block cycle the core's
counter is smaller than the number of buffered blocks, and the subtraction
overflowed (a panic with overflow checks).
---
 chacha20/src/rng.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index d8c2824..6d31489 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -252,7 +252,9 @@ macro_rules! impl_chacha_rng {
                 let counter = self.core.core.get_block_pos();
                 let offset = self.core.word_offset();
                 if offset != 0 {
-                    counter - u64::from(BUF_BLOCKS) + offset as u64 / u64::from(BLOCK_WORDS)
+                    counter
+                        .wrapping_sub(u64::from(BUF_BLOCKS))
+                        .wrapping_add(offset as u64 / u64::from(BLOCK_WORDS))
                 } else {
                     counter
                 }
-- 
2.43.0


From e29500040bbbb2b894ce8a2341229d54c7a5b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 2/8] fix: salsa20: wrap the block counter after the last block

Generating block 2^64 - 1 (allowed by the block-level API) overflowed the
counter increment, a panic with overflow checks.
---
 salsa20/src/backends/soft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salsa20/src/backends/soft.rs b/salsa20/src/backends/soft.rs
index caf2693..7c3c0fd 100644
--- a/salsa20/src/backends/soft.rs
+++ b/salsa20/src/backends/soft.rs
@@ -22,7 +22,7 @@ impl<R: Unsigned> StreamCipherBackend for Backend<'_, R> {
     fn gen_ks_block(&mut self, block: &mut Block<Self>) {
         let res = run_rounds::<R>(&self.0.state);
 
-        self.0.set_block_pos(self.0.get_block_pos() + 1);
+        self.0.set_block_pos(self.0.get_block_pos().wrapping_add(1));
 
         for (chunk, val) in block.chunks_exact_mut(4).zip(res.iter()) {
             chunk.copy_from_slice(&val.to_le_bytes());
-- 
2.43.0


From ecdb86b4d7b4c647887b2ed6982738874595d0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 3/8] fix: chacha20: use only SSE2 intrinsics in the SSE2
 backend

_mm_extract_epi32 needs SSE4.1: executing it on a CPU that has no more than
SSE2, which is what selects this backend, is undefined behaviour.
---
 chacha20/src/backends/sse2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index f6479a1..10a6818 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -51,7 +51,7 @@ where
 
     state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
     if size_of::<V::Counter>() == 8 {
-        state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+        state[13] = _mm_cvtsi128_si32(_mm_shuffle_epi32(backend.v[3], 1)) as u32;
     }
 }
 
@@ -130,7 +130,7 @@ where
     backend.gen_ks_blocks(buffer);
 
     core.state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
-    core.state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+    core.state[13] = _mm_cvtsi128_si32(_mm_shuffle_epi32(backend.v[3], 1)) as u32;
 }
 
 #[cfg(feature = "rng")]
-- 
2.43.0


From f26063fcf8c6e5cbc581b45ce133a4762855e9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 4/8] fix: chacha20: make `chacha20_backend="avx512"` build on
 its own

The documented flag selected the AVX-512 backend only together with the
`chacha20_avx512` cfg, which enables its autodetection, and did not compile
without it.
---
 chacha20/src/backends.rs | 2 +-
 chacha20/src/lib.rs      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chacha20/src/backends.rs b/chacha20/src/backends.rs
index f6305b2..dc12221 100644
--- a/chacha20/src/backends.rs
+++ b/chacha20/src/backends.rs
@@ -7,7 +7,7 @@ cfg_if! {
         pub(crate) mod soft;
     } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
         cfg_if! {
-            if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+            if #[cfg(chacha20_backend = "avx512")] {
                 pub(crate) mod avx512;
                 // AVX-2 backend needed for RNG if enabled
                 #[cfg(feature = "rng")]
diff --git a/chacha20/src/lib.rs b/chacha20/src/lib.rs
index dbf726c..0e2f032 100644
--- a/chacha20/src/lib.rs
+++ b/chacha20/src/lib.rs
@@ -84,7 +84,7 @@ cfg_if! {
         type Tokens = ();
     } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
         cfg_if! {
-            if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+            if #[cfg(chacha20_backend = "avx512")] {
                 #[cfg(not(all(target_feature = "avx512f", target_feature = "avx512vl")))]
                 compile_error!("You must enable `avx512f` and `avx512vl` target features with \
                     `chacha20_backend = "avx512"` configuration option");
@@ -245,7 +245,7 @@ impl<R: Rounds, V: Variant> StreamCipherCore for ChaChaCore<R, V> {
                 f.call(&mut backends::soft::Backend(self));
             } else if #[cfg(any(target_arch = "x86", target_arch = "x86_64"))] {
                 cfg_if! {
-                    if #[cfg(all(chacha20_avx512, chacha20_backend = "avx512"))] {
+                    if #[cfg(chacha20_backend = "avx512")] {
                         unsafe {
                             backends::avx512::inner::<R, _, V>(&mut self.state, f);
                         }
-- 
2.43.0


From 01a245bc576d009922bd961b040a18ee9104ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 5/8] fix: chacha20: do not panic when seeding an IETF core

`ChaChaCore::<R, Ietf>::from_seed` always passed an 8-byte nonce, which
`new_internal` rejects for the 32-bit counter layout.
---
 chacha20/src/rng.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index 6d31489..5717ef4 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -37,7 +37,9 @@ impl<R: Rounds, V: Variant> SeedableRng for ChaChaCore<R, V> {
 
     #[inline]
     fn from_seed(seed: Self::Seed) -> Self {
-        ChaChaCore::new_internal(&seed, &[0u8; 8])
+        // the counter and the nonce share the last four words of the state
+        let iv = [0u8; 12];
+        ChaChaCore::new_internal(&seed, &iv[size_of::<V::Counter>() - 4..])
     }
 }
 
-- 
2.43.0


From 5806532e6552d35e2673f21370835d6457d2ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 6/8] fix: chacha20: keep the block generator within the
 counter width

`Generator::generate` is implemented for every variant but the soft, SSE2 and
AVX2 backends advanced a 64-bit counter also for the IETF layout, so a wrap of
its 32-bit counter carried into the nonce, differently on each backend.
---
 chacha20/src/backends/avx2.rs | 24 ++++++++++++++++++++----
 chacha20/src/backends/soft.rs |  4 +++-
 chacha20/src/backends/sse2.rs | 10 ++++++++--
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/chacha20/src/backends/avx2.rs b/chacha20/src/backends/avx2.rs
index 2d7c3f5..7cfd94e 100644
--- a/chacha20/src/backends/avx2.rs
+++ b/chacha20/src/backends/avx2.rs
@@ -93,11 +93,19 @@ where
         _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(2))),
     ];
     let mut c = _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(3)));
-    c = _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0));
+    c = match size_of::<V::Counter>() {
+        4 => _mm256_add_epi32(c, _mm256_set_epi32(0, 0, 0, 1, 0, 0, 0, 0)),
+        8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 1, 0, 0)),
+        _ => unreachable!(),
+    };
     let mut ctr = [c; N];
     for i in 0..N {
         ctr[i] = c;
-        c = _mm256_add_epi64(c, _mm256_set_epi64x(0, 2, 0, 2));
+        c = match size_of::<V::Counter>() {
+            4 => _mm256_add_epi32(c, _mm256_set_epi32(0, 0, 0, 2, 0, 0, 0, 2)),
+            8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 2, 0, 2)),
+            _ => unreachable!(),
+        };
     }
     let mut backend = Backend::<R, V> {
         v,
@@ -108,7 +116,9 @@ where
     backend.rng_gen_par_ks_blocks(buffer);
 
     core.state[12] = _mm256_extract_epi32(backend.ctr[0], 0) as u32;
-    core.state[13] = _mm256_extract_epi32(backend.ctr[0], 1) as u32;
+    if size_of::<V::Counter>() == 8 {
+        core.state[13] = _mm256_extract_epi32(backend.ctr[0], 1) as u32;
+    }
 }
 
 struct Backend<R: Rounds, V: Variant> {
@@ -188,7 +198,13 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
 
             let pb = PAR_BLOCKS as i32;
             for c in self.ctr.iter_mut() {
-                *c = _mm256_add_epi64(*c, _mm256_set_epi64x(0, i64::from(pb), 0, i64::from(pb)));
+                *c = match size_of::<V::Counter>() {
+                    4 => _mm256_add_epi32(*c, _mm256_set_epi32(0, 0, 0, pb, 0, 0, 0, pb)),
+                    8 => {
+                        _mm256_add_epi64(*c, _mm256_set_epi64x(0, i64::from(pb), 0, i64::from(pb)))
+                    }
+                    _ => unreachable!(),
+                };
             }
 
             let mut block_ptr = blocks.as_mut_ptr().cast::<__m128i>();
diff --git a/chacha20/src/backends/soft.rs b/chacha20/src/backends/soft.rs
index ed448d4..cb6294b 100644
--- a/chacha20/src/backends/soft.rs
+++ b/chacha20/src/backends/soft.rs
@@ -54,7 +54,9 @@ impl<R: Rounds, V: Variant> Backend<'_, R, V> {
             let mut ctr = (u64::from(self.0.state[13]) << 32) | u64::from(self.0.state[12]);
             ctr = ctr.wrapping_add(1);
             self.0.state[12] = ctr as u32;
-            self.0.state[13] = (ctr >> 32) as u32;
+            if size_of::<V::Counter>() == 8 {
+                self.0.state[13] = (ctr >> 32) as u32;
+            }
 
             buffer[block * BLOCK_WORDS as usize..(block + 1) * BLOCK_WORDS as usize]
                 .copy_from_slice(&res);
diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index 10a6818..73622f7 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -130,7 +130,9 @@ where
     backend.gen_ks_blocks(buffer);
 
     core.state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
-    core.state[13] = _mm_cvtsi128_si32(_mm_shuffle_epi32(backend.v[3], 1)) as u32;
+    if size_of::<V::Counter>() == 8 {
+        core.state[13] = _mm_cvtsi128_si32(_mm_shuffle_epi32(backend.v[3], 1)) as u32;
+    }
 }
 
 #[cfg(feature = "rng")]
@@ -140,7 +142,11 @@ impl<R: Rounds, V: Variant> Backend<R, V> {
         const _: () = assert!(4 * PAR_BLOCKS * size_of::<__m128i>() == size_of::<[u32; 64]>());
         unsafe {
             let res = rounds::<R, V>(&self.v);
-            self.v[3] = _mm_add_epi64(self.v[3], _mm_set_epi64x(0, PAR_BLOCKS as i64));
+            self.v[3] = match size_of::<V::Counter>() {
+                4 => _mm_add_epi32(self.v[3], _mm_set_epi32(0, 0, 0, PAR_BLOCKS as i32)),
+                8 => _mm_add_epi64(self.v[3], _mm_set_epi64x(0, PAR_BLOCKS as i64)),
+                _ => unreachable!(),
+            };
 
             let blocks_ptr = block.as_mut_ptr().cast::<__m128i>();
             for block in 0..PAR_BLOCKS {
-- 
2.43.0


From 6ffc8fa7bb606028bd5ed656d7e40855e4cbdfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 7/8] fix: chacha20: let the `zeroize` feature reach the
 keystream buffer

Without `cipher/zeroize` the buffered keystream block of `ChaCha20` and the
other stream ciphers survived their drop, and they did not implement
`ZeroizeOnDrop`.
---
 chacha20/Cargo.toml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chacha20/Cargo.toml b/chacha20/Cargo.toml
index 3742403..90c9983 100644
--- a/chacha20/Cargo.toml
+++ b/chacha20/Cargo.toml
@@ -38,6 +38,7 @@ default = ["cipher"]
 legacy = ["cipher"]
 rng = ["dep:rand_core"]
 xchacha = ["cipher"]
+zeroize = ["dep:zeroize", "cipher?/zeroize"]
 
 [lints.rust]
 missing_copy_implementations = "warn"
-- 
2.43.0


From 96d4a7773173535ca88b791551681745a0741d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 8/8] fix: chacha20: do not use the NEON backend on big-endian
 AArch64

The backend stores vectors of words as bytes and the counter as a 64-bit
word, both of which assume little-endian memory order, so every ChaCha
variant and RNG gave a wrong keystream on aarch64_be targets.
---
 chacha20/src/backends.rs | 2 +-
 chacha20/src/lib.rs      | 2 +-
 chacha20/src/rng.rs      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chacha20/src/backends.rs b/chacha20/src/backends.rs
index dc12221..d97751c 100644
--- a/chacha20/src/backends.rs
+++ b/chacha20/src/backends.rs
@@ -24,7 +24,7 @@ cfg_if! {
                 pub(crate) mod sse2;
             }
         }
-    } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+    } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon", target_endian = "little"))] {
         pub(crate) mod neon;
     } else {
         pub(crate) mod soft;
diff --git a/chacha20/src/lib.rs b/chacha20/src/lib.rs
index 0e2f032..924c91e 100644
--- a/chacha20/src/lib.rs
+++ b/chacha20/src/lib.rs
@@ -286,7 +286,7 @@ impl<R: Rounds, V: Variant> StreamCipherCore for ChaChaCore<R, V> {
                         }
                     }
                 }
-            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon", target_endian = "little"))] {
                 // SAFETY: we have used conditional compilation to ensure NEON is available
                 unsafe {
                     backends::neon::inner::<R, _, V>(&mut self.state, f);
diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index 5717ef4..51bccf6 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -82,7 +82,7 @@ impl<R: Rounds, V: Variant> Generator for ChaChaCore<R, V> {
                         }
                     }
                 }
-            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon", target_endian = "little"))] {
                 // SAFETY: we have used conditional compilation to ensure NEON is available
                 unsafe {
                     backends::neon::rng_inner::<R, V>(self, buffer);
-- 
2.43.0

