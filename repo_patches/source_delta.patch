From 880eb3d0f5630aec2928e7aee15542568f036343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:22 +0000
Subject: [PATCH 01/11] fix: clear zmm16-31 when leaving secret processing on
 AVX512 CPUs

---
 graviola/src/low/x86_64/cpu.rs | 51 +++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index c8ad5e3..8cfe626 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -20,7 +20,6 @@ pub(crate) fn leave_cpu_state(_old: u32) {
             // clear z/y/xmm0-15
             "   vzeroall",
 
-            // TODO: add zmm16-31 here if/when we use AVX512
             out("ymm0") _,
             out("ymm1") _,
             out("ymm2") _,
@@ -39,6 +38,56 @@ pub(crate) fn leave_cpu_state(_old: u32) {
             out("ymm15") _,
         )
     }
+
+    if HaveAvx512ForAesGcm::check().is_some() {
+        // SAFETY: `HaveAvx512ForAesGcm` proves the `avx512f` cpu feature.
+        unsafe { zero_upper_zmm() }
+    }
+}
+
+/// Clear zmm16-31, which `vzeroall` does not touch.
+///
+/// These are used by our AVX512 AES-GCM implementation.
+#[target_feature(enable = "avx512f")]
+unsafe fn zero_upper_zmm() {
+    // SAFETY: all registers written are listed as clobbers.
+    unsafe {
+        core::arch::asm!(
+            "   vpxorq  zmm16, zmm16, zmm16",
+            "   vpxorq  zmm17, zmm17, zmm17",
+            "   vpxorq  zmm18, zmm18, zmm18",
+            "   vpxorq  zmm19, zmm19, zmm19",
+            "   vpxorq  zmm20, zmm20, zmm20",
+            "   vpxorq  zmm21, zmm21, zmm21",
+            "   vpxorq  zmm22, zmm22, zmm22",
+            "   vpxorq  zmm23, zmm23, zmm23",
+            "   vpxorq  zmm24, zmm24, zmm24",
+            "   vpxorq  zmm25, zmm25, zmm25",
+            "   vpxorq  zmm26, zmm26, zmm26",
+            "   vpxorq  zmm27, zmm27, zmm27",
+            "   vpxorq  zmm28, zmm28, zmm28",
+            "   vpxorq  zmm29, zmm29, zmm29",
+            "   vpxorq  zmm30, zmm30, zmm30",
+            "   vpxorq  zmm31, zmm31, zmm31",
+
+            out("zmm16") _,
+            out("zmm17") _,
+            out("zmm18") _,
+            out("zmm19") _,
+            out("zmm20") _,
+            out("zmm21") _,
+            out("zmm22") _,
+            out("zmm23") _,
+            out("zmm24") _,
+            out("zmm25") _,
+            out("zmm26") _,
+            out("zmm27") _,
+            out("zmm28") _,
+            out("zmm29") _,
+            out("zmm30") _,
+            out("zmm31") _,
+        )
+    }
 }
 
 /// Effectively memset(ptr, 0, len), but not visible to optimiser
-- 
2.43.0


From 724bd3e19355985dbf996ad32550a480d9f3f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:22 +0000
Subject: [PATCH 02/11] fix: reject trailing data after a PKCS#8 key

---
 graviola/src/high/pkcs8.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index 66d5bbf..eee6c5e 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -26,8 +26,7 @@ impl<'a> Key<'a> {
         algorithm: &asn1::ObjectId,
         parameters: Option<asn1::Any<'_>>,
     ) -> Result<Self, Error> {
-        let oak = pkix::OneAsymmetricKey::parse(&mut asn1::Parser::new(slice))
-            .map_err(Error::Asn1Error)?;
+        let oak = pkix::OneAsymmetricKey::from_bytes(slice).map_err(Error::Asn1Error)?;
 
         match (oak.version, oak.publicKey.inner()) {
             (pkix::Pkcs8Version::Pkcs8v1, None) => {}
-- 
2.43.0


From 1124575d72d69be2d675d6fe1bef9daae6655295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:22 +0000
Subject: [PATCH 03/11] fix: require RSA signatures to be exactly as long as
 the modulus

---
 graviola/src/high/rsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 0519f9e..8a3ac5b 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -139,6 +139,9 @@ impl VerifyingKey {
         digest_info: &[u8],
         hash: &[u8],
     ) -> Result<(), Error> {
+        if signature.len() != self.0.modulus_len_bytes() {
+            return Err(Error::BadSignature);
+        }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
@@ -212,7 +215,7 @@ impl VerifyingKey {
     fn _verify_pss<H: Hash>(&self, signature: &[u8], message: &[u8]) -> Result<(), Error> {
         let hash = H::hash(message);
 
-        if signature.len() > self.0.modulus_len_bytes() {
+        if signature.len() != self.0.modulus_len_bytes() {
             return Err(Error::BadSignature);
         }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
-- 
2.43.0


From 9c2bb223c833bb61df802377d0680ec3ef2902ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:30 +0000
Subject: [PATCH 04/11] fix: reject uncompressed points with coordinates not
 less than p

---
 graviola/src/mid/p256.rs | 6 ++++++
 graviola/src/mid/p384.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/graviola/src/mid/p256.rs b/graviola/src/mid/p256.rs
index b48b4af..cbfb819 100644
--- a/graviola/src/mid/p256.rs
+++ b/graviola/src/mid/p256.rs
@@ -270,6 +270,12 @@ impl AffineMontPoint {
             return Err(Error::NotOnCurve);
         }
 
+        // reject coordinates that are not less than p: these are not
+        // valid encodings (we would encode this point differently).
+        if point.as_bytes_uncompressed() != bytes {
+            return Err(Error::OutOfRange);
+        }
+
         Ok(point)
     }
 
diff --git a/graviola/src/mid/p384.rs b/graviola/src/mid/p384.rs
index 35ac6e8..8acbb5e 100644
--- a/graviola/src/mid/p384.rs
+++ b/graviola/src/mid/p384.rs
@@ -270,6 +270,12 @@ impl AffineMontPoint {
             return Err(Error::NotOnCurve);
         }
 
+        // reject coordinates that are not less than p: these are not
+        // valid encodings (we would encode this point differently).
+        if point.as_bytes_uncompressed() != bytes {
+            return Err(Error::OutOfRange);
+        }
+
         Ok(point)
     }
 
-- 
2.43.0


From f2cd21a2037169aaed87f17ed874d8f60297cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:28 +0000
Subject: [PATCH 05/11] fix: reject RSA private keys with mismatched prime
 widths or zero CRT exponents

---
 graviola/src/mid/rsa_priv.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 209eb77..b81aa73 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -38,9 +38,15 @@ impl RsaPrivateKey {
         e: u32,
     ) -> Result<Self, Error> {
         let p_len = p.len_bytes();
+        let q_len = q.len_bytes();
         if p.is_even()
             || q.is_even()
             || !(MIN_PRIVATE_MODULUS_BYTES..=MAX_PRIVATE_MODULUS_BYTES).contains(&p_len)
+            // `private_op()` requires p and q to have the same width in words...
+            || p_len.div_ceil(8) != q_len.div_ceil(8)
+            // ... and `PosInt::mod_exp()` a non-zero exponent
+            || dp.is_zero()
+            || dq.is_zero()
         {
             return Err(Error::OutOfRange);
         }
-- 
2.43.0


From b4431425cd4b92b66c931dd8e2427d98c4833ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:38 +0000
Subject: [PATCH 06/11] fix: require absent parameters in Ed25519
 SubjectPublicKeyInfo

---
 graviola/src/high/ed25519.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/ed25519.rs b/graviola/src/high/ed25519.rs
index 1a094c8..7f26533 100644
--- a/graviola/src/high/ed25519.rs
+++ b/graviola/src/high/ed25519.rs
@@ -19,7 +19,10 @@ impl Ed25519VerifyingKey {
         let _entry = Entry::new_public();
         let decoded = pkix::SubjectPublicKeyInfo::from_bytes(bytes).map_err(Error::Asn1Error)?;
 
-        if decoded.algorithm.algorithm != asn1::oid::id_ed25519 {
+        // parameters must be absent, per RFC8410 section 3
+        if decoded.algorithm.algorithm != asn1::oid::id_ed25519
+            || decoded.algorithm.parameters.is_some()
+        {
             return Err(KeyFormatError::MismatchedSpkiAlgorithm.into());
         }
 
-- 
2.43.0


From e470acb4d0166bd18c1e9c418ea33bb12d0d2689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 07/11] fix: reject oversized TLS1.2 ChaCha20-Poly1305 records

The TLS1.2 ChaCha20-Poly1305 decrypter returned plaintexts longer than
2^14 bytes; the AES-GCM one (and TLS1.3) reject them, as RFC5246 6.2.1
requires.
---
 rustls-graviola/src/aead.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rustls-graviola/src/aead.rs b/rustls-graviola/src/aead.rs
index 52d4d49..562905a 100644
--- a/rustls-graviola/src/aead.rs
+++ b/rustls-graviola/src/aead.rs
@@ -177,6 +177,10 @@ impl MessageDecrypter for ChaChaTls12Cipher {
             .decrypt(&nonce.0, &aad, payload, tag)
             .map_err(|_| rustls::Error::DecryptError)?;
 
+        if cipher_len > MAX_FRAGMENT_LEN {
+            return Err(rustls::Error::PeerSentOversizedRecord);
+        }
+
         m.payload.truncate(cipher_len);
         Ok(m.into_plain_message())
     }
-- 
2.43.0


From f6df6b5f9b4d46958bcf91299b27cc1378128b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 08/11] fix: guard HMAC with a secret Entry, so key-dependent
 state is not left in vector registers

---
 graviola/src/high/hmac.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graviola/src/high/hmac.rs b/graviola/src/high/hmac.rs
index 8f7c637..e0ada2f 100644
--- a/graviola/src/high/hmac.rs
+++ b/graviola/src/high/hmac.rs
@@ -7,6 +7,7 @@
 
 use super::hash::{Hash, HashContext, HashOutput};
 use crate::Error;
+use crate::low::Entry;
 
 /// An in-progress HMAC computation, using hash function `H`.
 #[derive(Clone)]
@@ -18,6 +19,7 @@ pub struct Hmac<H: Hash> {
 impl<H: Hash> Hmac<H> {
     /// Create a new [`Hmac<H>`] using the given key material.
     pub fn new(key: impl AsRef<[u8]>) -> Self {
+        let _entry = Entry::new_secret();
         let mut key_block = H::zeroed_block();
 
         let key = key.as_ref();
@@ -48,6 +50,7 @@ impl<H: Hash> Hmac<H> {
 
     /// Add data to be signed.
     pub fn update(&mut self, bytes: impl AsRef<[u8]>) {
+        let _entry = Entry::new_secret();
         self.inner.update(bytes.as_ref());
     }
 
@@ -55,6 +58,7 @@ impl<H: Hash> Hmac<H> {
     ///
     /// The HMAC output (sometimes called a "signature", or "tag") is returned.
     pub fn finish(mut self) -> HashOutput {
+        let _entry = Entry::new_secret();
         let inner_output = self.inner.finish();
         self.outer.update(inner_output.as_ref());
         self.outer.finish()
@@ -64,6 +68,7 @@ impl<H: Hash> Hmac<H> {
     ///
     /// This is done in constant-time.  `expected_tag` may not be truncated.
     pub fn verify(self, expected_tag: &[u8]) -> Result<(), Error> {
+        let _entry = Entry::new_secret();
         let got = self.finish();
         match got.ct_equal(expected_tag) {
             true => Ok(()),
-- 
2.43.0


From 180c0b75a463099b5d9932ace238b356f687ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:23 +0000
Subject: [PATCH 09/11] fix: verify the bmi2 cpu feature, which s2n-bignum
 (mulx) and mlkem (pext) code uses

---
 graviola/src/low/x86_64/cpu.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graviola/src/low/x86_64/cpu.rs b/graviola/src/low/x86_64/cpu.rs
index 8cfe626..14577ed 100644
--- a/graviola/src/low/x86_64/cpu.rs
+++ b/graviola/src/low/x86_64/cpu.rs
@@ -292,6 +292,12 @@ pub(crate) fn verify_cpu_features() {
         have_cpu_feature!("bmi1"),
         "graviola requires bmi1 CPU support"
     );
+    // nb. not via `have_cpu_feature!`: disabling `bmi2` with that tests our SHA512
+    // fallback, but s2n-bignum and mlkem use `mulx` and `pext` unconditionally.
+    assert!(
+        is_x86_feature_detected!("bmi2"),
+        "graviola requires bmi2 CPU support"
+    );
 
     // see this valgrind bug: https://bugs.kde.org/show_bug.cgi?id=494162
     assert!(
-- 
2.43.0


From b4fc9b4543524b04f740d9be6640852aedc31c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:23 +0000
Subject: [PATCH 10/11] fix: verify CPU features before computing SHA2 hashes

---
 graviola/src/mid/sha2.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graviola/src/mid/sha2.rs b/graviola/src/mid/sha2.rs
index 575c8cb..d07ab3d 100644
--- a/graviola/src/mid/sha2.rs
+++ b/graviola/src/mid/sha2.rs
@@ -6,7 +6,7 @@
 //! This is SHA256, SHA384, and SHA512.
 //! These are all described in [FIPS180](https://nvlpubs.nist.gov/nistpubs/FIPS/NIST.FIPS.180-4.pdf).
 
-use crate::low::Blockwise;
+use crate::low::{Blockwise, Entry};
 
 /// A context for incremental computation of SHA256.
 #[derive(Clone)]
@@ -31,6 +31,7 @@ impl Sha256Context {
 
     /// Add `bytes` to the ongoing hash computation.
     pub fn update(&mut self, bytes: &[u8]) {
+        let _entry = Entry::new_public();
         if self.blockwise.used() == 0 && bytes.len().is_multiple_of(Self::BLOCK_SZ) {
             self.update_blocks(bytes);
             return;
@@ -54,6 +55,7 @@ impl Sha256Context {
 
     /// Complete the SHA256 computation, returning the hash output.
     pub fn finish(mut self) -> [u8; Self::OUTPUT_SZ] {
+        let _entry = Entry::new_public();
         let bytes = self
             .nblocks
             .checked_mul(Self::BLOCK_SZ)
@@ -163,6 +165,7 @@ impl Sha512Context {
 
     /// Add `bytes` to the ongoing hash computation.
     pub fn update(&mut self, bytes: &[u8]) {
+        let _entry = Entry::new_public();
         if self.blockwise.used() == 0 && bytes.len().is_multiple_of(Self::BLOCK_SZ) {
             self.update_blocks(bytes);
             return;
@@ -186,6 +189,7 @@ impl Sha512Context {
 
     /// Complete the SHA512 computation, returning the hash output.
     pub fn finish(mut self) -> [u8; Self::OUTPUT_SZ] {
+        let _entry = Entry::new_public();
         let bytes = self
             .nblocks
             .checked_mul(Self::BLOCK_SZ)
-- 
2.43.0


From ac562838ea738c75f94ac0818cc7d366b5707b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 11/11] fix: derive bignum_shr_small's output pointer from the
 mutable slice it writes

---
 admin/parse-asm/driver.rsa.py                | 4 ++--
 graviola/src/low/aarch64/bignum_shr_small.rs | 2 +-
 graviola/src/low/x86_64/bignum_shr_small.rs  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/admin/parse-asm/driver.rsa.py b/admin/parse-asm/driver.rsa.py
index 8798225..9eb005f 100644
--- a/admin/parse-asm/driver.rsa.py
+++ b/admin/parse-asm/driver.rsa.py
@@ -332,7 +332,7 @@ if __name__ == "__main__":
             "bignum_shr_small",
             parameter_map=[
                 ("inout", "z.len() => _"),
-                ("inout", "z.as_ptr() => _"),
+                ("inout", "z.as_mut_ptr() => _"),
                 ("inout", "x.len() => _"),
                 ("inout", "x.as_ptr() => _"),
                 ("inout", "(c as u64) => _"),
@@ -667,7 +667,7 @@ if __name__ == "__main__":
             "bignum_shr_small",
             parameter_map=[
                 ("inout", "z.len() => _"),
-                ("inout", "z.as_ptr() => _"),
+                ("inout", "z.as_mut_ptr() => _"),
                 ("inout", "x.len() => _"),
                 ("inout", "x.as_ptr() => _"),
                 ("inout", "(c as u64) => _"),
diff --git a/graviola/src/low/aarch64/bignum_shr_small.rs b/graviola/src/low/aarch64/bignum_shr_small.rs
index ab35662..17f3b8e 100644
--- a/graviola/src/low/aarch64/bignum_shr_small.rs
+++ b/graviola/src/low/aarch64/bignum_shr_small.rs
@@ -131,7 +131,7 @@ pub(crate) fn bignum_shr_small(z: &mut [u64], x: &[u64], c: u8) {
         Q!(Label!("Lbignum_shr_small_end", 5) ":"),
         Q!("    lsr             " "x0, " b!() ", " d!()),
         inout("x0") z.len() => _,
-        inout("x1") z.as_ptr() => _,
+        inout("x1") z.as_mut_ptr() => _,
         inout("x2") x.len() => _,
         inout("x3") x.as_ptr() => _,
         inout("x4") (c as u64) => _,
diff --git a/graviola/src/low/x86_64/bignum_shr_small.rs b/graviola/src/low/x86_64/bignum_shr_small.rs
index f124ac6..bd542a8 100644
--- a/graviola/src/low/x86_64/bignum_shr_small.rs
+++ b/graviola/src/low/x86_64/bignum_shr_small.rs
@@ -136,7 +136,7 @@ pub(crate) fn bignum_shr_small(z: &mut [u64], x: &[u64], c: u8) {
 
         Q!(Label!("Lbignum_shr_small_end", 7) ":"),
         inout("rdi") z.len() => _,
-        inout("rsi") z.as_ptr() => _,
+        inout("rsi") z.as_mut_ptr() => _,
         inout("rdx") x.len() => _,
         inout("rcx") x.as_ptr() => _,
         inout("r8") (c as u64) => _,
-- 
2.43.0

