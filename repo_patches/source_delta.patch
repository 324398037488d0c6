From 671b9a57ca37257d6386eecf949309d2b2e547f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:00 +0000
Subject: [PATCH 01/25] hooks: expose private items to an external harness
 under cfg(onion_verif)

---
 src/evaluations.rs | 62 ++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs         |  3 +++
 src/omr.rs         | 10 ++++++++
 src/verif_hooks.rs | 43 ++++++++++++++++++++++++++++++++
 4 files changed, 118 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/evaluations.rs b/src/evaluations.rs
index bbe39a4..27d5112 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -313,6 +313,68 @@ impl Evaluation {
     }
 }
 
+#[cfg(onion_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Access to the private PIR roles for an external harness
+    pub struct PirClient(Client);
+
+    impl PirClient {
+        pub fn new(first_dim: usize, dim: usize) -> Self {
+            Self(Client::new(first_dim, dim))
+        }
+
+        pub fn encode(
+            &self,
+            query_dims: Vec<usize>,
+            db_rows: usize,
+            bfv_params: &Arc<BfvParameters>,
+            sk: &SecretKey,
+        ) -> Vec<u64> {
+            self.0.encode(query_dims, db_rows, bfv_params, sk)
+        }
+    }
+
+    pub struct PirServer(Server);
+
+    impl PirServer {
+        pub fn new(
+            first_dim: usize,
+            dim: usize,
+            db: &Vec<Plaintext>,
+            params: &Arc<BfvParameters>,
+        ) -> Self {
+            Self(Server::new(first_dim, dim, db, params))
+        }
+
+        pub fn no_of_cts(&self) -> usize {
+            self.0.no_of_cts()
+        }
+
+        pub fn decode(
+            &self,
+            query_cts: Vec<BfvCipherText>,
+            eval_key: &PirEvaluation,
+            params: &Arc<BfvParameters>,
+        ) -> Vec<BfvCipherText> {
+            self.0.decode(query_cts, &eval_key.0, params)
+        }
+    }
+
+    pub struct PirEvaluation(Evaluation);
+
+    impl PirEvaluation {
+        pub fn build(sk: &SecretKey, params: &Arc<BfvParameters>) -> Self {
+            Self(Evaluation::build(sk, params))
+        }
+
+        pub fn unpack(&self, ct: BfvCipherText) -> Vec<BfvCipherText> {
+            self.0.unpack(ct)
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 252fdca..324c144 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,3 +9,6 @@ mod rgsw;
 mod rns;
 mod rq;
 mod utils;
+
+#[cfg(onion_verif)]
+pub mod verif_hooks;
diff --git a/src/omr.rs b/src/omr.rs
index 3af75fa..d1e2785 100644
--- a/src/omr.rs
+++ b/src/omr.rs
@@ -55,5 +55,15 @@ fn process() {
     }
 }
 
+#[cfg(onion_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Access to the private inner product for an external harness
+    pub fn omr_inner_product(cts: &Vec<BfvCipherText>, polys: &Vec<Poly>) -> BfvCipherText {
+        inner_product(cts, polys)
+    }
+}
+
 // #[tests]
 // mod tests {}
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..a98989e
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,43 @@
+//! Verification hooks (compiled only with `--cfg onion_verif`).
+//!
+//! Every module of this crate is private. This module re-exports their public
+//! items, and wraps the crate-private functions an external harness has to
+//! call. It adds no behaviour.
+pub mod bfv {
+    pub use crate::bfv::*;
+}
+pub mod evaluations {
+    pub use crate::evaluations::verif::*;
+}
+pub mod ksk {
+    pub use crate::ksk::*;
+}
+pub mod modulus {
+    pub use crate::modulus::*;
+}
+pub mod ntt {
+    pub use crate::ntt::*;
+}
+pub mod omr {
+    pub use crate::omr::verif::*;
+}
+pub mod pvw {
+    pub use crate::pvw::*;
+}
+pub mod rgsw {
+    pub use crate::rgsw::*;
+}
+pub mod rns {
+    pub use crate::rns::*;
+}
+pub mod rq {
+    pub use crate::rq::*;
+
+    /// `RqScaler::scale` is crate-private
+    pub fn rq_scale(scaler: &RqScaler, p: &Poly) -> Poly {
+        scaler.scale(p)
+    }
+}
+pub mod utils {
+    pub use crate::utils::*;
+}
-- 
2.43.0


From 52b4d3696782bce54f967f9df377c186aca47518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 02/25] fix: oblivious expansion panicked for every ciphertext

gen_x_pows built X^(N - 2^i) as a substitution of X, but N - 2^i is even for
i >= 1 and Substitution only admits odd exponents, so unpack (and with it
every PIR query) panicked. Set the monomial's coefficient directly.
---
 src/evaluations.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 27d5112..36ede42 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -300,14 +300,12 @@ impl Evaluation {
 
     fn gen_x_pows(n: usize, ctx: &Arc<RqContext>) -> Vec<Poly> {
         let mut polys = Vec::<Poly>::new();
-        // X
-        let x = Poly::try_from_vec_u64(&ctx, &[0u64, 1]);
         for i in 0..ilog2(n) {
-            let mut xi = x.clone();
             // X^-(2^i) = -X^(N - 2^i), since X^-k = -(X^(N-k))
             let ex = n - 2usize.pow(i as u32);
-            xi = -&xi.substitute(&Substitution::new(&x.context, ex));
-            polys.push(xi);
+            let mut xi = vec![0u64; n];
+            xi[ex] = 1;
+            polys.push(-&Poly::try_from_vec_u64(ctx, &xi));
         }
         polys
     }
-- 
2.43.0


From 55bbedd3f3a0579ea1843298c14c905c092bc61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 03/25] fix: SIMD slot map was not a permutation

index2 has to be halved as index1 is (see SEAL's batch encoder). Without it
slots of the second row collided and SIMD encode/decode lost values.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1c06d09..1447aaa 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -147,7 +147,7 @@ impl BfvParameters {
         let mut matrix_reps_index_map = vec![0usize; degree];
         for i in 0..row_size {
             let index1 = (pos - 1) >> 1;
-            let index2 = (m - pos - 1);
+            let index2 = (m - pos - 1) >> 1;
 
             matrix_reps_index_map[i] = index1.reverse_bits() >> (degree.leading_zeros() + 1);
             matrix_reps_index_map[row_size | i] =
-- 
2.43.0


From d6ddd99f95429416ff711f9118c44d3f243983b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 04/25] fix: ciphertext multiplication dropped a cross term

The tensor product overwrote c0*c1' with c1*c0' instead of adding them.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1447aaa..ec4e2f4 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -496,7 +496,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
         ];
         for i in 0..self.cts.len() {
             for j in 0..rhs.cts.len() {
-                cs[i + j] = &self_scaled[i] * &other_scaled[j];
+                cs[i + j] += &(&self_scaled[i] * &other_scaled[j]);
             }
         }
 
-- 
2.43.0


From 86032c283980633ca9e80afe69d35c8aad295877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 05/25] fix: adding a polynomial to a ciphertext corrupted the
 mask

Only the first part carries the message; adding the polynomial to the second
part as well made the sum decrypt to garbage.
---
 src/bfv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index ec4e2f4..9af2111 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -443,12 +443,12 @@ impl Add<&Poly> for &BfvCipherText {
     fn add(self, rhs: &Poly) -> Self::Output {
         assert!(self.cts[0].context == rhs.context);
 
-        let c0 = &self.cts[0] + rhs;
-        let c1 = &self.cts[1] + rhs;
+        let mut cts = self.cts.clone();
+        cts[0] += rhs;
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
-- 
2.43.0


From a5ce1b4d23cd4eff15533051515d7a86b06d1f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 06/25] fix: ciphertexts encrypted below level 0 were labelled
 level 0

They could be neither decrypted nor operated on.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 9af2111..250199a 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -324,7 +324,7 @@ impl SecretKey {
         BfvCipherText {
             cts: vec![b, a],
             params: self.params.clone(),
-            level: 0, // FIXME: change this
+            level: self.params.ctx_level(&pt.context).unwrap(),
         }
     }
 
-- 
2.43.0


From 9a6ddb5ba2f43566762d26aa454013d307c64e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 07/25] fix: linear operations silently dropped the third
 ciphertext part

The product of two ciphertexts has three parts until it is relinearized;
adding, subtracting or scaling it kept only two and decrypted to garbage.
---
 src/bfv.rs | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 250199a..35fed31 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -427,12 +427,19 @@ impl Add<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] + &rhs.cts[0];
-        let c1 = &self.cts[1] + &rhs.cts[1];
+        // parts missing in one of the operands are zero
+        let mut cts = self.cts.clone();
+        for (i, c) in rhs.cts.iter().enumerate() {
+            if i < cts.len() {
+                cts[i] += c;
+            } else {
+                cts.push(c.clone());
+            }
+        }
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -460,12 +467,19 @@ impl Sub<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] - &rhs.cts[0];
-        let c1 = &self.cts[1] - &rhs.cts[1];
+        // parts missing in one of the operands are zero
+        let mut cts = self.cts.clone();
+        for (i, c) in rhs.cts.iter().enumerate() {
+            if i < cts.len() {
+                cts[i] -= c;
+            } else {
+                cts.push(-c);
+            }
+        }
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -522,12 +536,9 @@ impl Mul<&Plaintext> for &BfvCipherText {
         let mut pt_poly = Poly::try_from_vec_u64(&self.params.q_ctxs[self.level], &rhs.values);
         pt_poly.change_representation(Representation::Ntt);
 
-        let c0 = &self.cts[0] * &pt_poly;
-        let c1 = &self.cts[1] * &pt_poly;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * &pt_poly).collect_vec(),
             level: self.level,
         }
     }
@@ -539,12 +550,9 @@ impl Mul<&Poly> for &BfvCipherText {
         assert!(rhs.context == self.cts[0].context);
         assert!(rhs.representation == Representation::Ntt);
 
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * rhs).collect_vec(),
             level: self.level,
         }
     }
@@ -553,12 +561,9 @@ impl Mul<&Poly> for &BfvCipherText {
 impl Mul<&BigUint> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &BigUint) -> Self::Output {
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * rhs).collect_vec(),
             level: self.level,
         }
     }
-- 
2.43.0


From f504fd6b0dfd7d16a46186af118db4d57f8a5271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 08/25] fix: measure_noise ignored the third ciphertext part

---
 src/bfv.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 35fed31..2f62d3f 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -390,8 +390,12 @@ impl SecretKey {
 
         let mut sk = Poly::try_from_vec_i64(&ctx, &self.coeffs);
         sk.change_representation(Representation::Ntt);
-        let mut m = &ct.cts[1] * &sk;
-        m += &ct.cts[0];
+        let mut m = ct.cts[0].clone();
+        let mut sk_i = sk.clone();
+        for i in 1..ct.cts.len() {
+            m += &(&sk_i * &ct.cts[i]);
+            sk_i *= &sk;
+        }
 
         m -= &ideal_m;
         m.change_representation(Representation::PowerBasis);
-- 
2.43.0


From 47a36611b4a90f8386c4e2d132b51a32396fba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 09/25] fix: refuse three part ciphertexts where key switching
 would drop a part

As multiply_with_strategy does; the result silently decrypted to garbage.
---
 src/bfv.rs  | 1 +
 src/rgsw.rs | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 2f62d3f..251ba33 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -733,6 +733,7 @@ impl GaliosKey {
 
     pub fn relinearize(&self, ct: &BfvCipherText) -> BfvCipherText {
         assert!(ct.level == self.galios_level);
+        assert!(ct.cts.len() == 2);
 
         debug_assert!(ct.cts[0].representation == Representation::Ntt);
 
diff --git a/src/rgsw.rs b/src/rgsw.rs
index 5445ad7..64aca4b 100644
--- a/src/rgsw.rs
+++ b/src/rgsw.rs
@@ -61,6 +61,8 @@ impl RgswCt {
     }
 
     pub fn external_product(rgsw: &RgswCt, bfv: &BfvCipherText) -> (Poly, Poly) {
+        assert!(bfv.cts.len() == 2);
+
         let mut c1 = bfv.cts[1].clone();
         let mut c0 = bfv.cts[0].clone();
         c1.change_representation(Representation::PowerBasis);
-- 
2.43.0


From 19c3c30653833bdb24848108b4f5f6f247f2275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 10/25] fix: Modulus::bits returned a number near 2^64

---
 src/modulus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modulus.rs b/src/modulus.rs
index d1a8ddb..654648b 100644
--- a/src/modulus.rs
+++ b/src/modulus.rs
@@ -256,6 +256,6 @@ impl Modulus {
     }
 
     pub fn bits(&self) -> u64 {
-        u64::MAX - self.p.leading_zeros().to_u64().unwrap()
+        64 - self.p.leading_zeros().to_u64().unwrap()
     }
 }
-- 
2.43.0


From ea55d75b962c1b0ce9e495e1cb0ac573d8b321f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 11/25] fix: basis extension copied residues of unequal moduli

scale() copies the first number_common_moduli rows, so only the common
prefix of the two bases may be counted.
---
 src/rq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rq.rs b/src/rq.rs
index 052b80d..142b5a1 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -89,8 +89,8 @@ impl RqScaler {
         let mut number_common_moduli = 0;
         if scaling_factor.is_one() {
             number_common_moduli = izip!(&from.moduli_64, &to.moduli_64)
-                .into_iter()
-                .fold(0, |acc, (from, to)| if from == to { acc + 1 } else { acc });
+                .take_while(|(from, to)| from == to)
+                .count();
         }
 
         let rns_scaler = RnsScaler::new(&from.rns, &to.rns, scaling_factor.clone());
-- 
2.43.0


From 75a92b410ada75db024f46425242b65ce261aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 12/25] fix: wrong number of dimensions when dim is not a power
 of two

ilog2(9) / ilog2(3) is 3, so a 3 x 3 hypercube was folded a third time with
RGSW ciphertexts of zero and every answer decrypted to zero. Count the
dimensions as no_of_cts does.
---
 src/evaluations.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 36ede42..e521c8d 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -117,7 +117,12 @@ impl Server {
         let mut first_dim_cts = eval_key.unpack(query_cts[0].clone());
         first_dim_cts = first_dim_cts.as_slice()[..self.first_dim].to_vec();
 
-        let dimensions = ilog2(self.db.len() / self.first_dim) / ilog2(self.dim) + 1;
+        let mut dimensions = 1;
+        let mut len = self.db.len() / self.first_dim;
+        while len > 1 {
+            len /= self.dim;
+            dimensions += 1;
+        }
 
         let rgsws_count = (dimensions - 1) * self.dim;
         let mut rgsws = vec![];
-- 
2.43.0


From 8357172ca63ebc9aa6fe5f640e011f1a3f020882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 13/25] fix: decryption was wrong when the first modulus is
 below 1.5 t

Adding t before reducing modulo the first ciphertext modulus wrapped around
for positive messages unless that modulus exceeds 1.5 t.
---
 src/bfv.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 251ba33..728b2e6 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -362,15 +362,21 @@ impl SecretKey {
         // is any of ct moduli.
         // i.e. [(t/q)* m ]_r where `r` is one of the `qi`s.
         m = self.params.scalars[ct.level].scale(&m);
+        let q = self.params.q_ctxs[ct.level].moduli[0].clone();
         let mut m: Vec<u64> = m
             .coefficients()
             .index_axis(Axis(0), 0)
             .iter()
-            .map(|a| *a + self.params.plaintext_modulus_u64)
+            .map(|a| {
+                // representative of `a` in (-q/2, q/2], plus t
+                if *a > q.modulus() / 2 {
+                    *a + self.params.plaintext_modulus_u64 - q.modulus()
+                } else {
+                    *a + self.params.plaintext_modulus_u64
+                }
+            })
             .collect();
         m = m[..self.params.degree].to_vec();
-        let q = self.params.q_ctxs[ct.level].moduli[0].clone();
-        m = q.reduce_vec_u64(&m);
         m = Modulus::new(self.params.plaintext_modulus_u64).reduce_vec_u64(&m);
 
         Plaintext {
-- 
2.43.0


From acbd1466bd2bdc27c0f31add965fbd0cd46b19ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:22 +0000
Subject: [PATCH 14/25] fix: key switching keys assembled below level 0 claimed
 level 0

They were unusable at their own level, and at level 0 gave garbage.
---
 src/ksk.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ksk.rs b/src/ksk.rs
index 8397288..ad23b2a 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -145,13 +145,13 @@ impl Ksk {
             })
             .collect();
 
-        // FIXME: default level is 0, which might be incorrect
+        let level = cts[0].level;
         Ksk {
             params: params.clone(),
             c0,
             c1,
-            ct_context: params.q_ctxs[0].clone(),
-            ksk_context: params.q_ctxs[0].clone(),
+            ct_context: params.q_ctxs[level].clone(),
+            ksk_context: params.q_ctxs[level].clone(),
         }
     }
 }
-- 
2.43.0


From 383b46822b783362dba39837c49312e20b39210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 15/25] fix: Poly::inverse in power basis returned the inverses
 of the coefficients

---
 src/rq.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rq.rs b/src/rq.rs
index 142b5a1..4feb625 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -442,6 +442,8 @@ impl Poly {
     }
 
     pub fn inverse(&self) -> Poly {
+        assert!(self.representation == Representation::Ntt);
+
         let mut poly = Poly::zero(&self.context, self.representation.clone());
         izip!(
             poly.coefficients.outer_iter_mut(),
-- 
2.43.0


From c0b6b5634150f901ee62f7b5d310a72180aff1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:31 +0000
Subject: [PATCH 16/25] fix: operands with different parameters were accepted

Multiplication, encryption, decryption, Galois and external products gave
garbage for parameter sets with equal moduli and different plaintext moduli,
where addition refuses them.
---
 src/bfv.rs  | 5 +++++
 src/rgsw.rs | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 728b2e6..c699cab 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -329,6 +329,7 @@ impl SecretKey {
     }
 
     pub fn encrypt(&self, pt: &Plaintext) -> BfvCipherText {
+        assert!(self.params == pt.params);
         let poly = pt.to_poly();
         self.encrypt_poly(&poly)
     }
@@ -345,6 +346,7 @@ impl SecretKey {
     }
 
     pub fn decrypt(&self, ct: &BfvCipherText) -> Plaintext {
+        assert!(self.params == ct.params);
         let mut sk = Poly::try_from_vec_i64(&ct.cts[0].context, &self.coeffs);
         sk.change_representation(Representation::Ntt);
 
@@ -499,6 +501,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
     type Output = BfvCipherText;
 
     fn mul(self, rhs: &BfvCipherText) -> Self::Output {
+        assert!(self.params == rhs.params);
         assert!(rhs.level == self.level);
 
         let mul_params = self.params.mul_params[self.level].clone();
@@ -540,6 +543,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
 impl Mul<&Plaintext> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &Plaintext) -> Self::Output {
+        assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
         // TODO: store this in BfvPlaintext
@@ -738,6 +742,7 @@ impl GaliosKey {
     }
 
     pub fn relinearize(&self, ct: &BfvCipherText) -> BfvCipherText {
+        assert!(ct.params == self.gk.params);
         assert!(ct.level == self.galios_level);
         assert!(ct.cts.len() == 2);
 
diff --git a/src/rgsw.rs b/src/rgsw.rs
index 64aca4b..697d213 100644
--- a/src/rgsw.rs
+++ b/src/rgsw.rs
@@ -61,6 +61,7 @@ impl RgswCt {
     }
 
     pub fn external_product(rgsw: &RgswCt, bfv: &BfvCipherText) -> (Poly, Poly) {
+        assert!(rgsw.ksk0.params == bfv.params);
         assert!(bfv.cts.len() == 2);
 
         let mut c1 = bfv.cts[1].clone();
-- 
2.43.0


From 7330a9738c3579ed41240586b43a04574bea406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:31 +0000
Subject: [PATCH 17/25] fix: key switching keys of mismatched levels and
 contexts were accepted

A key made for a polynomial of another context, at a level with fewer moduli
than what it switches, or assembled from ciphertexts of mixed levels silently
dropped residues.
---
 src/ksk.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ksk.rs b/src/ksk.rs
index ad23b2a..cedeaf5 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -49,6 +49,9 @@ impl Ksk {
 
         let ksk_ctx = sk.params.q_ctxs[ksk_level].clone();
         let ct_ctx = sk.params.q_ctxs[ct_level].clone();
+        assert!(from.context == ksk_ctx);
+        // the key must cover all moduli of what it switches
+        assert!(ksk_level <= ct_level);
 
         let c1s: Vec<Poly> = (0..ct_ctx.rns.moduli.len())
             .map(|_| {
@@ -146,6 +149,8 @@ impl Ksk {
             .collect();
 
         let level = cts[0].level;
+        assert!(cts.iter().all(|c| c.level == level && c.cts.len() == 2));
+        assert!(cts.len() == params.q_ctxs[level].moduli.len());
         Ksk {
             params: params.clone(),
             c0,
-- 
2.43.0


From ef8f08b47f722d5c9a606491b576314774a77016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:07 +0000
Subject: [PATCH 18/25] hooks: PVW keys and evaluation keys for an external
 harness under cfg(onion_verif)

---
 src/evaluations.rs |  8 ++++++++
 src/pvw.rs         | 22 ++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index e521c8d..a0f200f 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -375,6 +375,14 @@ pub mod verif {
         pub fn unpack(&self, ct: BfvCipherText) -> Vec<BfvCipherText> {
             self.0.unpack(ct)
         }
+
+        pub fn galois_keys(&self) -> Vec<(usize, &GaliosKey)> {
+            self.0.gk.iter().map(|(k, v)| (*k, v)).collect()
+        }
+
+        pub fn sk_rgsw(&self) -> &RgswCt {
+            &self.0.sk_rgsw
+        }
     }
 }
 
diff --git a/src/pvw.rs b/src/pvw.rs
index a158eb1..c85908a 100644
--- a/src/pvw.rs
+++ b/src/pvw.rs
@@ -156,6 +156,28 @@ pub struct PvwCiphertext {
     pub b: Vec<u64>,
 }
 
+#[cfg(onion_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Access to the private key material for an external harness
+    pub fn sk_new(rows: Vec<Vec<u64>>) -> PvwSk {
+        PvwSk(rows)
+    }
+
+    pub fn sk_rows(sk: &PvwSk) -> &Vec<Vec<u64>> {
+        &sk.0
+    }
+
+    pub fn pk_new(rows: Vec<PvwCiphertext>) -> PvwPk {
+        PvwPk(rows)
+    }
+
+    pub fn pk_rows(pk: &PvwPk) -> &Vec<PvwCiphertext> {
+        &pk.0
+    }
+}
+
 mod tests {
     use super::*;
 
-- 
2.43.0


From 3e45227edcebc380ab1d7c53c7066593beb72989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 19/25] fix: keys made or assembled from operands of other
 parameters were accepted

---
 src/ksk.rs  | 1 +
 src/rgsw.rs | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/ksk.rs b/src/ksk.rs
index cedeaf5..1209ddc 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -41,6 +41,7 @@ impl Ksk {
         ct_level: usize,
         ksk_level: usize,
     ) -> Self {
+        assert!(sk.params == from.params);
         Self::new(sk, &from.to_poly(), ct_level, ksk_level)
     }
 
diff --git a/src/rgsw.rs b/src/rgsw.rs
index 697d213..e7fbaee 100644
--- a/src/rgsw.rs
+++ b/src/rgsw.rs
@@ -81,6 +81,9 @@ impl RgswCt {
     }
 
     pub fn try_from_ksks(ksk0: &Ksk, ksk1: &Ksk) -> Self {
+        assert!(ksk0.params == ksk1.params);
+        assert!(ksk0.ct_context == ksk1.ct_context);
+        assert!(ksk0.ksk_context == ksk1.ksk_context);
         Self {
             ksk0: ksk0.clone(),
             ksk1: ksk1.clone(),
-- 
2.43.0


From 8d853872c8ffdacc94d52907a3b78c09d9535220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 20/25] fix: substitutions made for another degree were
 accepted and gave wrong polynomials

---
 src/rq.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rq.rs b/src/rq.rs
index 4feb625..d0b4414 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -341,6 +341,9 @@ impl Poly {
     }
 
     pub fn substitute(&self, a: &Substitution) -> Poly {
+        // the substitution must be of the polynomial's ring
+        assert!(a.powers_bitrev.len() == self.context.degree);
+
         let mut poly = Poly::zero(&self.context, self.representation.clone());
 
         match self.representation {
-- 
2.43.0


From 3d581cea3585ddcbcd35f731558247e8140f5df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:15 +0000
Subject: [PATCH 21/25] fix: decrypt_trial accepted polynomials of contexts
 that are not the key's

---
 src/bfv.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index c699cab..1e5b365 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -336,6 +336,7 @@ impl SecretKey {
 
     pub fn decrypt_trial(&self, ct0: &Poly, ct1: &Poly) -> Poly {
         assert_eq!(ct0.context, ct1.context);
+        assert!(self.params.ctx_level(&ct0.context).is_some());
         let mut sk = Poly::try_from_vec_i64(&ct0.context, &self.coeffs);
         sk.change_representation(Representation::Ntt);
 
-- 
2.43.0


From c2c084bc3f6711532725d2379c5c3528e13138fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:07 +0000
Subject: [PATCH 22/25] fix: keep the carries of the wide product when
 rescaling from more than eight large moduli

---
 src/rns.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rns.rs b/src/rns.rs
index 771a6b4..6481577 100644
--- a/src/rns.rs
+++ b/src/rns.rs
@@ -363,20 +363,20 @@ impl RnsScaler {
             let vt_hi_hi = ((v >> 64) as u128) * (self.theta_gamma_hi as u128);
             let vt_mi =
                 (vt_lo_lo >> 64) + ((vt_lo_hi as u64) as u128) + ((vt_hi_lo as u64) as u128);
-            let vt_hi = (vt_lo_hi >> 64) + (vt_mi >> 64) + ((vt_hi_hi as u64) as u128);
+            let vt_hi = (vt_lo_hi >> 64) + (vt_hi_lo >> 64) + (vt_mi >> 64) + vt_hi_hi;
             if self.theta_gamma_sign {
                 sum_theta_omega.wrapping_add_assign(U256::from([
                     vt_lo_lo as u64,
                     vt_mi as u64,
                     vt_hi as u64,
-                    0,
+                    (vt_hi >> 64) as u64,
                 ]))
             } else {
                 sum_theta_omega.wrapping_sub_assign(U256::from([
                     vt_lo_lo as u64,
                     vt_mi as u64,
                     vt_hi as u64,
-                    0,
+                    (vt_hi >> 64) as u64,
                 ]))
             }
 
-- 
2.43.0


From af2580f46f415c4649869d6c1d890c274852c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 23/25] fix: accept ciphertext moduli below the plaintext
 modulus

The inverse of -t was computed from an unreduced t, so that decryption
returned garbage (or a debug assertion failed) when t exceeds one of the
ciphertext moduli.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1e5b365..1771340 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -66,7 +66,7 @@ impl BfvParameters {
             .iter()
             .map(|q| {
                 let q = Modulus::new(*q);
-                q.inv(q.neg(plaintext_modulus_u64))
+                q.inv(q.neg(q.reduce(plaintext_modulus_u64)))
             })
             .collect_vec();
 
-- 
2.43.0


From e316a4f450564ea165bd5fb1e7757429a9f031f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 24/25] fix: decryption when the first ciphertext modulus is
 below the plaintext modulus

The scaled message was represented modulo the first ciphertext modulus,
which cannot hold it when that modulus is below t. The first modulus of
the extension basis (62 bits) always can.
---
 src/bfv.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1771340..bfc0398 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -81,8 +81,10 @@ impl BfvParameters {
         let mut t_inv_polys = vec![];
         let mut scalars = vec![];
 
+        // Decryption scales into a ring of one modulus. It must exceed
+        // the plaintext modulus, which ciphertext moduli need not.
         let pt_ctx = Arc::new(RqContext::new(
-            vec![ciphertext_moduli[0]],
+            vec![extended_basis_moduli[0]],
             degree,
             bit_decomp.clone(),
         ));
@@ -361,11 +363,10 @@ impl SecretKey {
         m.change_representation(Representation::PowerBasis);
 
         // We scale `m` by (t/q) scaling factor and switch
-        // its rq context from `R_q` to `R_q{i}`. `R_q{i}`
-        // is any of ct moduli.
-        // i.e. [(t/q)* m ]_r where `r` is one of the `qi`s.
+        // its rq context from `R_q` to `R_r` of a single modulus.
+        // i.e. [(t/q)* m ]_r where `r` is the modulus of `pt_ctx`.
         m = self.params.scalars[ct.level].scale(&m);
-        let q = self.params.q_ctxs[ct.level].moduli[0].clone();
+        let q = self.params.pt_ctx.moduli[0].clone();
         let mut m: Vec<u64> = m
             .coefficients()
             .index_axis(Axis(0), 0)
-- 
2.43.0


From 4b41604b5fb8a2cc8ecb5815790d2f2d18a4683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 25/25] fix: is_prime rejected some primes (366791,
 18029605003855226591)

num_bigint_dig's probably_prime takes n for a square when its search for Lucas
parameters runs to forty, so is_prime, generate_prime and the NTT's modulus check
refused about one prime in ten thousand. Decide with Miller-Rabin on bases that
are exact for u64.
---
 src/utils.rs | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 67235f6..e5353f0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,5 +1,5 @@
 use num_bigint::BigUint;
-use num_bigint_dig::{prime::probably_prime, BigUint as BigUintDig, ModInverse};
+use num_bigint_dig::{BigUint as BigUintDig, ModInverse};
 use num_traits::{FromPrimitive, One, PrimInt, ToPrimitive, Zero};
 use rand::{CryptoRng, RngCore};
 use rand_distr::{Distribution, Uniform};
@@ -107,8 +107,49 @@ pub fn div_ceil<T: PrimInt>(a: T, b: T) -> T {
 // Ref: https://github.com/tlepoint/fhe.rs/blob/a0287ba3842fcf19b45fd380c56ba7b5e52a387b/crates/fhe-util/src/lib.rs#L0-L1
 
 /// Returns whether the modulus p is prime; this function is 100% accurate.
+///
+/// Miller-Rabin with the first twelve primes as bases, which is exact for every u64.
+/// `num_bigint_dig`'s `probably_prime` rejects some primes (its Lucas test takes a number
+/// for a square when its search for parameters runs long; 366791 is the smallest).
 pub fn is_prime(p: u64) -> bool {
-    probably_prime(&BigUintDig::from(p), 0)
+    const BASES: [u64; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
+
+    if p < 2 {
+        return false;
+    }
+    for base in BASES {
+        if p % base == 0 {
+            return p == base;
+        }
+    }
+
+    let mul_mod = |a: u64, b: u64| ((a as u128 * b as u128) % p as u128) as u64;
+
+    // p - 1 = odd * 2^twos
+    let twos = (p - 1).trailing_zeros();
+    let odd = (p - 1) >> twos;
+
+    BASES.iter().all(|&base| {
+        let (mut x, mut power, mut exponent) = (1u64, base, odd);
+        while exponent != 0 {
+            if exponent & 1 == 1 {
+                x = mul_mod(x, power);
+            }
+            power = mul_mod(power, power);
+            exponent >>= 1;
+        }
+
+        if x == 1 {
+            return true;
+        }
+        for _ in 0..twos {
+            if x == p - 1 {
+                return true;
+            }
+            x = mul_mod(x, x);
+        }
+        false
+    })
 }
 
 /// Generate a `num_bits`-bit prime, congruent to 1 mod `modulo`, strictly
-- 
2.43.0

