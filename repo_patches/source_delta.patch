From c7f9908f188464189d4d60db1a685e84427ab056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 01/35] fix: refuse byte strings of partial limbs in
 from_canonical_u8_vec instead of panicking

---
 src/field/field.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/field/field.rs b/src/field/field.rs
index bdb225e..86eff8a 100644
--- a/src/field/field.rs
+++ b/src/field/field.rs
@@ -81,6 +81,9 @@ pub trait Field:
     }
 
     fn from_canonical_u8_vec(u8_limbs: Vec<u8>) -> Result<Self> {
+        if u8_limbs.len() % 8 != 0 {
+            return Err(Error::msg("Not a whole number of 64-bit limbs"));
+        }
         let mut u64_chunks = Vec::new();
         for u8_chunk in u8_limbs.chunks(8) {
             u64_chunks.push(
-- 
2.43.0


From e31549a1421249ef243f17d3936487ae01b6d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 02/35] fix: let try_convert convert between fields with
 different numbers of limbs

---
 src/field/field.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/field/field.rs b/src/field/field.rs
index 86eff8a..007b9b1 100644
--- a/src/field/field.rs
+++ b/src/field/field.rs
@@ -478,7 +478,14 @@ pub trait Field:
 
     /// Return this field element re-encoded as an element of `F` if it fits, or `Err` if not.
     fn try_convert<F: Field>(&self) -> Result<F> {
-        F::from_canonical_u8_vec(self.to_canonical_u8_vec())
+        let mut bytes = self.to_canonical_u8_vec();
+        // The two fields may be encoded with different numbers of limbs.
+        let target_len = F::ZERO.to_canonical_u8_vec().len();
+        if bytes.iter().skip(target_len).any(|&b| b != 0) {
+            return Err(Error::msg("Out of range"));
+        }
+        bytes.resize(target_len, 0);
+        F::from_canonical_u8_vec(bytes)
     }
 
     fn try_convert_all<F: Field>(values: &[Self]) -> Result<Vec<F>> {
-- 
2.43.0


From abc62407f27bac93c0f5ec8c7ec2cd432bb39236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 03/35] fix: declare a generator of the multiplicative group of
 Bls12377Base

---
 src/field/bls12_377_base.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/field/bls12_377_base.rs b/src/field/bls12_377_base.rs
index bdafdae..c092660 100644
--- a/src/field/bls12_377_base.rs
+++ b/src/field/bls12_377_base.rs
@@ -195,7 +195,11 @@ impl Field for Bls12377Base {
             8738795276227363922, 81297770384137296]
     };
 
-    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self::FIVE;
+    // 15, the smallest generator.
+    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self {
+        limbs: [1580481994230331156, 7393753505699199837, 15893201093018099506, 15064395564155502359,
+            7595513421530309810, 112614884009382239]
+    };
 
     const ALPHA: Self = Self::FIVE;
 
-- 
2.43.0


From fdff525e0b3e1d40afb411bcdf4fe048eb7b9833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 04/35] fix: declare a generator of the multiplicative group of
 Bls12377Scalar

---
 src/field/bls12_377_scalar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/field/bls12_377_scalar.rs b/src/field/bls12_377_scalar.rs
index 14f5d56..c5f3d97 100644
--- a/src/field/bls12_377_scalar.rs
+++ b/src/field/bls12_377_scalar.rs
@@ -163,7 +163,8 @@ impl Field for Bls12377Scalar {
     const FIVE: Self = Self { limbs: [6006113053051977660, 3366551019440832441, 5772352412093595556, 754655161751966990] };
     const NEG_ONE: Self = Self { limbs: [10157024534604021774, 16668528035959406606, 5322190058819395602, 387181115924875961] };
 
-    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self { limbs: [1855201571499933546, 8511318076631809892, 6222514765367795509, 1122129207579058019] };
+    // 22, the smallest generator.
+    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self { limbs: [2984901390528151251, 10561528701063790279, 5476750214495080041, 898978044469942640] };
 
     /// x^11 is a permutation in this field.
     const ALPHA: Self = Self { limbs: [1855201571499933546, 8511318076631809892, 6222514765367795509, 1122129207579058019] };
-- 
2.43.0


From 32a2e24a064fabe36d09845a0707001c075c3e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 05/35] fix: double points of order two to the identity

---
 src/curve/curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/curve.rs b/src/curve/curve.rs
index 1be98a8..bfe2b43 100644
--- a/src/curve/curve.rs
+++ b/src/curve/curve.rs
@@ -116,7 +116,8 @@ impl<C: Curve> AffinePoint<C> {
             zero,
         } = *self;
 
-        if zero {
+        // The double of a point of order two is the identity.
+        if zero || y1.is_zero() {
             return AffinePoint::ZERO;
         }
 
@@ -233,7 +234,8 @@ impl<C: Curve> ProjectivePoint<C> {
 
     pub fn double(&self) -> Self {
         let Self { x, y, z, zero } = *self;
-        if zero {
+        // The double of a point of order two is the identity.
+        if zero || y.is_zero() {
             return ProjectivePoint::ZERO;
         }
 
-- 
2.43.0


From 89150b7d23db4588fa58768626f8ced00cf3d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 06/35] fix: report invalid projective points instead of
 panicking or hanging

---
 src/curve/curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/curve.rs b/src/curve/curve.rs
index bfe2b43..bd51283 100644
--- a/src/curve/curve.rs
+++ b/src/curve/curve.rs
@@ -201,7 +201,9 @@ impl<C: Curve> ProjectivePoint<C> {
     }
 
     pub fn is_valid(&self) -> bool {
-        self.to_affine().is_valid()
+        let Self { x, y, z, zero } = *self;
+        let zz = z.square();
+        zero || z.is_nonzero() && y.square() * z == x.cube() + C::A * x * zz + C::B * zz * z
     }
 
     pub fn to_affine(&self) -> AffinePoint<C> {
-- 
2.43.0


From 4e41f060aadae21aedab6c5e3a0f77229e3f76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 07/35] fix: divide the zero polynomial instead of panicking

---
 src/polynomial.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 4f0b474..e21bfee 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -230,12 +230,13 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Generally slower that the equivalent function `Polynomial::polynomial_division`.
     pub fn polynomial_long_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        } else if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else {
             // Now we know that self.degree() >= divisor.degree();
@@ -297,12 +298,13 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Algorithm from http://people.csail.mit.edu/madhu/ST12/scribe/lect06.pdf
     pub fn polynomial_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        } else if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else if b_degree == 0 {
             (
-- 
2.43.0


From e01e69a134a0cc178333adba897bfa37ced0b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 08/35] fix: ignore leading zero coefficients of the divisor in
 long division

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index e21bfee..63384f9 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -249,7 +249,7 @@ impl<F: Field> Polynomial<F> {
                 let cur_q_degree = remainder.degree() - b_degree;
                 quotient[cur_q_degree] = cur_q_coeff;
 
-                for (i, &div_coeff) in b.iter().enumerate() {
+                for (i, &div_coeff) in b[..=b_degree].iter().enumerate() {
                     remainder[cur_q_degree + i] =
                         remainder[cur_q_degree + i] - (cur_q_coeff * div_coeff);
                 }
-- 
2.43.0


From f5cc0b101be02e92e08b6a7733ebd13d2f96bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 09/35] fix: keep zero coefficients in place in polynomial
 division

---
 src/polynomial.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 63384f9..14d5715 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -273,7 +273,7 @@ impl<F: Field> Polynomial<F> {
             let h0 = h[..l].to_vec().into();
             let mut h1: Polynomial<F> = h[l..].to_vec().into();
             let mut c = a.mul(&h0);
-            if l == c.len() {
+            if c.len() <= l {
                 c = Self::zero(1);
             } else {
                 c.drain(0..l);
@@ -285,9 +285,8 @@ impl<F: Field> Polynomial<F> {
             tmp.trim();
             let mut b = a.mul(&tmp);
             b.trim();
-            if b.len() > l {
-                b.drain(l..);
-            }
+            // Exactly `l` coefficients, including zeros, so that the next ones end up at their place.
+            b.0.resize(l, F::ZERO);
             a.0.extend_from_slice(&b[..]);
         }
         a.drain(n..);
@@ -314,11 +313,10 @@ impl<F: Field> Polynomial<F> {
         } else {
             let rev_b = b.rev();
             let rev_b_inv = rev_b.inv_mod_xn(a_degree - b_degree + 1);
-            let rev_q: Polynomial<F> = rev_b_inv
-                .mul(&self.rev()[..=a_degree - b_degree].to_vec().into())[..=a_degree - b_degree]
-                .to_vec()
-                .into();
-            let mut q = rev_q.rev();
+            // The quotient has exactly `a_degree - b_degree + 1` coefficients, some of which can be zero.
+            let mut q = rev_b_inv.mul(&self.rev()[..=a_degree - b_degree].to_vec().into());
+            q.0.resize(a_degree - b_degree + 1, F::ZERO);
+            q.0.reverse();
             let mut qb = q.mul(b);
             qb.pad(self.len());
             let mut r = self.add(&qb.neg());
-- 
2.43.0


From a6400271cde007849678e4a7a5badfaed952b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 10/35] fix: consume the whole encoding when reading the point
 at infinity

---
 src/serialization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index cd3e80e..6e6be2e 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -48,6 +48,8 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
         let mut mask = vec![0u8];
         reader.read_exact(&mut mask)?;
         let mask = mask[0];
+        let mut buf = vec![0u8; C::BaseField::BYTES];
+        reader.read_exact(&mut buf)?;
         if mask & 1 == 1 {
             return Ok(AffinePoint {
                 x: C::BaseField::ZERO,
@@ -55,8 +57,6 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
                 zero: true,
             });
         }
-        let mut buf = vec![0u8; C::BaseField::BYTES];
-        reader.read_exact(&mut buf)?;
         let x = C::BaseField::from_canonical_u8_vec(buf.to_vec())
             .map_err(|e| Error::new(ErrorKind::Other, e.to_string()))?;
         let square_candidate = x.cube() + C::A * x + C::B;
-- 
2.43.0


From 343969f7c5e713b8e9932dafc533395f3802d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 11/35] fix: derive distinct challenges when several are drawn
 in succession

---
 src/plonk_challenger.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index 7d422f9..043c38d 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -92,6 +92,11 @@ impl<F: Field> Challenger<F> {
 
     /// Absorb any buffered inputs. After calling this, the input buffer will be empty.
     fn absorb_buffered_inputs(&mut self) {
+        // Without new inputs, any buffered outputs are still valid.
+        if self.input_buffer.is_empty() {
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
@@ -211,6 +216,11 @@ impl<F: Field> RecursiveChallenger<F> {
         &mut self,
         builder: &mut CircuitBuilder<C>,
     ) {
+        // Without new inputs, any buffered outputs are still valid.
+        if self.input_buffer.is_empty() {
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
-- 
2.43.0


From 8c4d28bc3e8ad286c0160b13e011c28e08c8cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 12/35] fix: run the curve addition generator only once its
 scalar bit is known

---
 src/gates/curve_add.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index a236a74..2846665 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -167,6 +167,10 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> WitnessGenerator<C
                 gate: self.index,
                 input: Self::WIRE_ADDEND_Y,
             }),
+            Target::Wire(Wire {
+                gate: self.index,
+                input: Self::WIRE_SCALAR_BIT,
+            }),
         ]
     }
 
-- 
2.43.0


From 1842d6d8b479aff6ad6e0fddd30eee36fb2b68aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 13/35] fix: make the endomorphism gate's generator satisfy the
 gate's constraints

---
 src/gates/curve_endo.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index a9c87f8..7ba4c8f 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -216,19 +216,19 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
 
         let scalar_acc_unsigned_old_target = Wire {
             gate: self.index,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_UNSIGNED,
         };
         let scalar_acc_unsigned_new_target = Wire {
             gate: self.index + GRID_WIDTH,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_UNSIGNED,
         };
         let scalar_acc_signed_old_target = Wire {
             gate: self.index,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_SIGNED,
         };
         let scalar_acc_signed_new_target = Wire {
             gate: self.index + GRID_WIDTH,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_SIGNED,
         };
 
         let addend_x_target = Wire {
@@ -268,15 +268,15 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
         let p_y = witness.get_wire(addend_y_target);
 
         let mut s_i_x = p_x;
-        if scalar_bit_0 == InnerC::BaseField::ONE {
+        if scalar_bit_1 == InnerC::BaseField::ONE {
             s_i_x = s_i_x * InnerC::ZETA;
         }
         let mut s_i_y = p_y;
-        if scalar_bit_1 == InnerC::BaseField::ZERO {
+        if scalar_bit_0 == InnerC::BaseField::ZERO {
             s_i_y = -s_i_y;
         }
         let s_i = AffinePoint::nonzero(s_i_x, s_i_y);
-        let group_acc_new = group_acc_old + s_i;
+        let group_acc_new = (group_acc_old + s_i).to_affine();
 
         let scalar_acc_unsigned_new =
             scalar_acc_unsigned_old.quadruple() + scalar_bit_0 + scalar_bit_1.double();
@@ -294,8 +294,7 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
 
         // Here's where our abstraction leaks a bit. Although we already have the sum, we need to
         // redo part of the computation in order to populate the purported inverse wire.
-        let dx = group_acc_old_x - p_x;
-        let _dy = group_acc_old_y - p_y;
+        let dx = group_acc_old_x - s_i_x;
         let inverse = dx.multiplicative_inverse().expect("x_1 = x_2");
 
         let mut result = PartialWitness::new();
-- 
2.43.0


From 0903c2b8a95134998e8f9d39457250f8694f60f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 14/35] fix: sum over the columns of the MDS matrix in the
 recursive Rescue step B gate

---
 src/gates/rescue_b.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/rescue_b.rs b/src/gates/rescue_b.rs
index 5a116a6..1edb937 100644
--- a/src/gates/rescue_b.rs
+++ b/src/gates/rescue_b.rs
@@ -84,7 +84,7 @@ impl<C: HaloCurve> Gate<C> for RescueStepBGate<C> {
             let mut computed_out_i = local_constant_values[Self::PREFIX.len() + i];
             for j in 0..RESCUE_SPONGE_WIDTH {
                 let mds_entry = builder.constant_wire(mds.get(i, j));
-                computed_out_i = builder.mul_add(mds_entry, exps[i], computed_out_i);
+                computed_out_i = builder.mul_add(mds_entry, exps[j], computed_out_i);
             }
             constraints.push(builder.sub(computed_out_i, outs[i]));
         }
-- 
2.43.0


From 7958d7cdc8a0e7f6b885682ea2e1d441cb9d6c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 15/35] fix: give the recursive curve gate constraints the sign
 of the native ones

---
 src/gates/curve_add.rs  | 6 +++---
 src/gates/curve_endo.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index 2846665..a077e84 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::gates::{assert_binary_recursively, assert_inverses_recursively, Gate};
+use crate::gates::{assert_inverses_recursively, Gate};
 use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator};
 
 /// A gate which performs incomplete point addition, conditioned on an input bit. In order to
@@ -135,8 +135,8 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> Gate<C> for CurveA
             builder.sub(computed_lambda, lambda),
             builder.sub(computed_x4, x4),
             builder.sub(computed_y4, y4),
-            builder.sub(computed_scalar_acc_new, scalar_acc_new),
-            assert_binary_recursively(builder, scalar_bit),
+            builder.sub(scalar_acc_new, computed_scalar_acc_new),
+            builder.mul(scalar_bit, not_scalar_bit),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
         ]
     }
diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index 7ba4c8f..14e0d97 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -143,8 +143,8 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> Gate<C>
         vec![
             builder.sub(computed_x3, x3),
             builder.sub(computed_y3, y3),
-            builder.sub(computed_scalar_acc_unsigned_new, scalar_acc_unsigned_new),
-            builder.sub(computed_scalar_acc_signed_new, scalar_acc_signed_new),
+            builder.sub(scalar_acc_unsigned_new, computed_scalar_acc_unsigned_new),
+            builder.sub(scalar_acc_signed_new, computed_scalar_acc_signed_new),
             assert_binary_recursively(builder, scalar_bit_0),
             assert_binary_recursively(builder, scalar_bit_1),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
-- 
2.43.0


From 16947d1bd76be38b6248952c708d2bf8801862d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 16/35] Add guarded access to the in-circuit transcript and bit
 splitting for external checks (cfg vp_hooks)

---
 src/lib.rs      |  2 ++
 src/vp_hooks.rs | 72 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 74 insertions(+)
 create mode 100644 src/vp_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 42cb6e4..9505783 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -67,6 +67,8 @@ mod serialization;
 mod target;
 pub mod util;
 mod verifier;
+#[cfg(vp_hooks)]
+pub mod vp_hooks;
 mod witness;
 
 #[macro_use]
diff --git a/src/vp_hooks.rs b/src/vp_hooks.rs
new file mode 100644
index 0000000..ced4ea8
--- /dev/null
+++ b/src/vp_hooks.rs
@@ -0,0 +1,72 @@
+//! Access to crate-private parts of the circuit builder for external checks. Compiled only with
+//! `--cfg vp_hooks`.
+
+use crate::plonk_challenger::RecursiveChallenger;
+use crate::{AffinePointTarget, CircuitBuilder, Curve, Field, HaloCurve, Target};
+
+/// The in-circuit transcript.
+pub struct CircuitTranscript<F: Field>(RecursiveChallenger<F>);
+
+impl<F: Field> CircuitTranscript<F> {
+    pub fn new<C: HaloCurve<ScalarField = F>>(builder: &mut CircuitBuilder<C>) -> Self {
+        CircuitTranscript(RecursiveChallenger::new(builder))
+    }
+
+    pub fn observe_element(&mut self, target: Target<F>) {
+        self.0.observe_element(target)
+    }
+
+    pub fn observe_elements(&mut self, targets: &[Target<F>]) {
+        self.0.observe_elements(targets)
+    }
+
+    pub fn observe_affine_points<C: Curve<BaseField = F>>(
+        &mut self,
+        points: &[AffinePointTarget<C>],
+    ) {
+        self.0.observe_affine_points(points)
+    }
+
+    pub fn get_n_challenges<C: HaloCurve<ScalarField = F>>(
+        &mut self,
+        builder: &mut CircuitBuilder<C>,
+        n: usize,
+    ) -> Vec<Target<F>> {
+        match n {
+            1 => vec![self.0.get_challenge(builder)],
+            2 => {
+                let (a, b) = self.0.get_2_challenges(builder);
+                vec![a, b]
+            }
+            3 => {
+                let (a, b, c) = self.0.get_3_challenges(builder);
+                vec![a, b, c]
+            }
+            _ => self.0.get_n_challenges(builder, n),
+        }
+    }
+}
+
+pub fn split_binary<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    x: Target<C::ScalarField>,
+    num_bits: usize,
+) -> Vec<Target<C::ScalarField>> {
+    builder.split_binary(x, num_bits)
+}
+
+pub fn split_base_4<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    x: Target<C::ScalarField>,
+    num_dibits: usize,
+) -> Vec<Target<C::ScalarField>> {
+    builder.split_base_4(x, num_dibits)
+}
+
+pub fn assert_dibit_length<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    x: Target<C::ScalarField>,
+    num_dibits: usize,
+) {
+    builder.assert_dibit_length(x, num_dibits)
+}
-- 
2.43.0


From defe864d5477400ee67e1f067ba15da5eda0192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 17/35] fix: run generators that depend on public inputs

---
 src/circuit_builder.rs | 17 +++++++++++++++--
 src/witness.rs         |  3 +--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 5fb3c1e..9c131f7 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -1103,7 +1103,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
         let degree = self.num_gates();
         let degree_pow = log2_strict(degree);
-        let routing_target_partitions = self.get_routing_partitions();
+        let routing_target_partitions = self.get_routing_partitions(num_gates_without_pis);
         let wire_partitions = routing_target_partitions.to_wire_partitions();
         let sigma = wire_partitions.to_sigma();
 
@@ -1185,7 +1185,10 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         }
     }
 
-    fn get_routing_partitions(&self) -> TargetPartitions<C::ScalarField> {
+    fn get_routing_partitions(
+        &self,
+        num_gates_without_pis: usize,
+    ) -> TargetPartitions<C::ScalarField> {
         let mut partitions = TargetPartitions::new();
 
         for i in 0..self.virtual_target_index {
@@ -1201,6 +1204,16 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         for &(a, b) in &self.copy_constraints {
             partitions.merge(a, b);
         }
+
+        // Generators may depend on public inputs, so these get the value of their routable wires.
+        for i in 0..self.public_input_index {
+            let pi = PublicInput::new(i);
+            partitions.add_partition(Target::PublicInput(pi));
+            partitions.merge(
+                Target::PublicInput(pi),
+                pi.routable_target(num_gates_without_pis),
+            );
+        }
         partitions
     }
 }
diff --git a/src/witness.rs b/src/witness.rs
index 90eef6c..8e0320c 100644
--- a/src/witness.rs
+++ b/src/witness.rs
@@ -175,7 +175,7 @@ impl<F: Field> PartialWitness<F> {
         }
     }
 
-    /// Replace all `PublicInput`-type targets by their corresponding `Wire`-type targets
+    /// For all `PublicInput`-type targets, set their corresponding `Wire`-type targets
     /// in the partial witness.
     pub(crate) fn replace_public_inputs(&mut self, offset: usize) {
         let new_pis = self.wire_values.iter().filter_map(|(t, v)| {
@@ -186,7 +186,6 @@ impl<F: Field> PartialWitness<F> {
             }
         }).collect::<Vec<_>>();
 
-        self.wire_values.retain(|t, _| !matches!(t, Target::PublicInput(_)));
         self.wire_values.extend(new_pis);
     }
 
-- 
2.43.0


From b8dd1286513f0f9ef5edde0142aa4cf840d81ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 18/35] fix: generate the accumulated value and unused limbs of
 base 4 sums

---
 src/circuit_builder.rs  | 11 +++++++++++
 src/gates/base_4_sum.rs | 40 ++++++++++++++++++++++++++++++++++------
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 9c131f7..f5edf6a 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -192,6 +192,17 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                     }),
                 )
             }
+
+            // Likewise, populate the limb wires which aren't used.
+            for i in chunk.len()..Base4SumGate::<C>::NUM_LIMBS {
+                self.generate_constant(
+                    Target::Wire(Wire {
+                        gate,
+                        input: Base4SumGate::<C>::wire_limb(i),
+                    }),
+                    C::ScalarField::ZERO, // This value is arbitrary.
+                );
+            }
         }
     }
 
diff --git a/src/gates/base_4_sum.rs b/src/gates/base_4_sum.rs
index 03e6107..f5c4f49 100644
--- a/src/gates/base_4_sum.rs
+++ b/src/gates/base_4_sum.rs
@@ -1,7 +1,7 @@
 use std::marker::PhantomData;
 
 use crate::gates::Gate;
-use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
 
 /// A gate for accumulating base-4 limbs.
 pub struct Base4SumGate<C: Curve> {
@@ -98,17 +98,45 @@ impl<C: HaloCurve> Gate<C> for Base4SumGate<C> {
 
 impl<C: HaloCurve> WitnessGenerator<C::ScalarField> for Base4SumGate<C> {
     fn dependencies(&self) -> Vec<Target<C::ScalarField>> {
-        Vec::new()
+        let mut deps = vec![Self::WIRE_ACC_OLD];
+        deps.extend((0..Self::NUM_LIMBS).map(Self::wire_limb));
+        deps.into_iter()
+            .map(|input| {
+                Target::Wire(Wire {
+                    gate: self.index,
+                    input,
+                })
+            })
+            .collect()
     }
 
     fn generate(
         &self,
         _constants: &[Vec<C::ScalarField>],
-        _witness: &PartialWitness<C::ScalarField>,
+        witness: &PartialWitness<C::ScalarField>,
     ) -> PartialWitness<C::ScalarField> {
-        // For base 4 decompositions, we don't do any witness generation on a per-gate level.
-        // Instead, we have a single generator which generates values for an entire decomposition.
-        PartialWitness::new()
+        // The limbs come from a single generator which generates values for an entire
+        // decomposition, so we just need to accumulate them.
+        let get = |input| {
+            witness.get_wire(Wire {
+                gate: self.index,
+                input,
+            })
+        };
+        let mut acc = get(Self::WIRE_ACC_OLD);
+        for i in 0..Self::NUM_LIMBS {
+            acc = acc.quadruple() + get(Self::wire_limb(i));
+        }
+
+        let mut result = PartialWitness::new();
+        result.set_wire(
+            Wire {
+                gate: self.index,
+                input: Self::WIRE_ACC_NEW,
+            },
+            acc,
+        );
+        result
     }
 }
 
-- 
2.43.0


From 5ec377e9f8b1fced2e620e3abda15fd95271b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 19/35] fix: weigh base 4 digits by their significance

---
 src/circuit_builder.rs | 44 ++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index f5edf6a..a47c4b0 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -537,11 +537,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         self.assert_zero(bits[0]);
         self.assert_binary(bits[1]);
 
-        // Verify the decomposition by taking a weighted sum of the limbs. Since the first bit is
-        // always zero, we start with the second bit (scaled by its weight of 2) and then add the
-        // base 4 limbs.
-        let mut sum = self.double(bits[1]);
-        for chunk in dibits.chunks(Base4SumGate::<C>::NUM_LIMBS) {
+        // Verify the decomposition by taking a weighted sum of the limbs, starting with the most
+        // significant ones.
+        let mut sum = self.zero_wire();
+        let dibits_be: Vec<_> = dibits.into_iter().rev().collect();
+        for chunk in dibits_be.chunks(Base4SumGate::<C>::NUM_LIMBS) {
             assert_eq!(
                 chunk.len(),
                 Base4SumGate::<C>::NUM_LIMBS,
@@ -550,14 +550,14 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
             let index = self.num_gates();
             self.add_gate_no_constants(Base4SumGate::new(index));
+            self.copy(
+                sum,
+                Target::Wire(Wire {
+                    gate: index,
+                    input: Base4SumGate::<C>::WIRE_ACC_OLD,
+                }),
+            );
             for i in 0..chunk.len() {
-                self.copy(
-                    sum,
-                    Target::Wire(Wire {
-                        gate: index,
-                        input: Base4SumGate::<C>::WIRE_ACC_OLD,
-                    }),
-                );
                 self.copy(
                     chunk[i],
                     Target::Wire(Wire {
@@ -565,13 +565,18 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                         input: Base4SumGate::<C>::wire_limb(i),
                     }),
                 );
-                sum = Target::Wire(Wire {
-                    gate: index,
-                    input: Base4SumGate::<C>::WIRE_ACC_NEW,
-                })
             }
+            sum = Target::Wire(Wire {
+                gate: index,
+                input: Base4SumGate::<C>::WIRE_ACC_NEW,
+            });
         }
-        self.copy(sum, x);
+
+        // The dibits follow the two bits, of which the first one is always zero.
+        let four = self.constant_wire_u32(4);
+        let high_bit = self.double(bits[1]);
+        let sum = self.mul_add(sum, four, high_bit);
+        self.copy(sum, x_sqrt);
 
         x_sqrt
     }
@@ -832,8 +837,9 @@ impl<C: HaloCurve> CircuitBuilder<C> {
     ///
     /// Note: This is most efficient when `num_dibits` is a multiple of `Base4SumGate::NUM_LIMBS`.
     pub(crate) fn assert_dibit_length(&mut self, x: Target<C::ScalarField>, num_dibits: usize) {
-        // Get the purported base 4 decomposition of x.
-        let dibits = self.split_base_4(x, num_dibits);
+        // Get the purported base 4 decomposition of x, starting with the most significant dibit.
+        let mut dibits = self.split_base_4(x, num_dibits);
+        dibits.reverse();
 
         // Accumulate each full chunk of NUM_LIMBS dibits using a Base4SumGate.
         let mut sum = self.zero_wire();
-- 
2.43.0


From d59571426c88d00273e022af324028ee37e71512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 20/35] fix: multiply big integers without limbs

---
 src/circuit_bigint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index b256f89..5b5e964 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -349,6 +349,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         let x_n = x.num_limbs();
         let y_n = y.num_limbs();
 
+        // An integer without limbs is zero.
+        if x_n == 0 || y_n == 0 {
+            return BigIntTarget::zero();
+        }
+
         let mut result_digits = Vec::new();
         let mut carry: BigIntTarget<C::ScalarField> = BigIntTarget::zero();
 
-- 
2.43.0


From 874c2e0abfd9a1e572d06eaadff7b27b002f2934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 21/35] fix: observe the commitments of zero polynomials in
 transcripts

---
 src/plonk_challenger.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index 043c38d..dad0717 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -41,9 +41,15 @@ impl<F: Field> Challenger<F> {
     }
 
     pub fn observe_affine_point<C: Curve<BaseField = F>>(&mut self, point: AffinePoint<C>) {
-        debug_assert!(!point.zero);
-        self.observe_element(point.x);
-        self.observe_element(point.y);
+        // A polynomial can be zero, and so can its commitment if it is not blinded. The identity is
+        // observed as `(0, 0)`, which are not the coordinates of any other point.
+        let (x, y) = if point.zero {
+            (F::ZERO, F::ZERO)
+        } else {
+            (point.x, point.y)
+        };
+        self.observe_element(x);
+        self.observe_element(y);
     }
 
     pub fn observe_affine_points<C: Curve<BaseField = F>>(&mut self, points: &[AffinePoint<C>]) {
-- 
2.43.0


From f7585d4d9ac58248199a14d9670a87a358ddf314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 22/35] fix: verify proofs with the security level of their
 circuit

---
 src/plonk_proof.rs | 15 +++++++++++++--
 src/verifier.rs    |  3 ++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 4a11a7a..dd69e14 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -61,7 +61,18 @@ impl<C: HaloCurve> Proof<C> {
         public_inputs: &[C::ScalarField],
         old_proofs: &[OldProof<C>],
     ) -> Result<ProofChallenge<C>> {
-        let mut challenger = Challenger::new(SECURITY_BITS);
+        self.get_challenges_with_security(public_inputs, old_proofs, SECURITY_BITS)
+    }
+
+    // Computes all challenges used in the verification of a proof for a circuit with the given
+    // security level.
+    pub fn get_challenges_with_security(
+        &self,
+        public_inputs: &[C::ScalarField],
+        old_proofs: &[OldProof<C>],
+        security_bits: usize,
+    ) -> Result<ProofChallenge<C>> {
+        let mut challenger = Challenger::new(security_bits);
         let error_msg = "Conversion from base to scalar field failed.";
         challenger.observe_affine_points(&self.c_wires);
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
@@ -97,7 +108,7 @@ impl<C: HaloCurve> Proof<C> {
             challenger.observe_affine_points(&[self.halo_l[i], self.halo_r[i]]);
             let r_bf = challenger.get_challenge();
             let r_sf = r_bf.try_convert::<C::ScalarField>()?;
-            let r_bits = &r_sf.to_canonical_bool_vec()[..SECURITY_BITS];
+            let r_bits = &r_sf.to_canonical_bool_vec()[..security_bits];
             let u_j_squared = halo_n::<C>(r_bits);
             let u_j = u_j_squared.square_root().ok_or_else(|| {
                 anyhow!("Invalid transcript. Prover should have ensured that n(r) is square")
diff --git a/src/verifier.rs b/src/verifier.rs
index 5602716..4baf2a1 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -60,7 +60,8 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
     check_proof_parameters(proof)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
-    let challs = proof.get_challenges(public_inputs, old_proofs)?;
+    let challs =
+        proof.get_challenges_with_security(public_inputs, old_proofs, vk.security_bits)?;
 
     // Check the old proofs' openings.
     verify_old_proof_evaluation(old_proofs, &proof, challs.zeta)?;
-- 
2.43.0


From e8c948563bf26c512b6f652813071386f7e9d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 23/35] fix: observe the public inputs before drawing
 challenges

---
 src/plonk.rs       | 18 ++++++++----------
 src/plonk_proof.rs |  8 ++++----
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index a9b26b2..d1236d8 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -89,6 +89,13 @@ impl<C: HaloCurve> Circuit<C> {
     ) -> Result<Proof<C>> {
         let mut challenger = Challenger::new(self.security_bits);
 
+        // Observe the public inputs. No challenge may be known when they are chosen: `alpha` combines
+        // the wires they are checked against.
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(&self.get_public_inputs(witness))
+                .expect("Public inputs should fit in both fields"),
+        );
+
         // Convert the witness both to coefficient form and a degree-8n LDE.
         let wire_values_by_wire_index = &witness.transpose();
         let wire_polynomials =
@@ -234,20 +241,11 @@ impl<C: HaloCurve> Circuit<C> {
             blinding_commitments,
         );
 
-        let public_inputs = (0..self.num_public_inputs)
-            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
-            .collect::<Vec<_>>();
-
         // Observe the `t` polynomial commitment.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_plonk_t));
-        // If the proof doesn't output public inputs, observe the `pis_quotient` polynomial commitment and the public inputs.
+        // Observe the `pis_quotient` polynomial commitment.
         challenger.observe_affine_point(c_pis_quotient.to_affine());
-        // Observe the public inputs
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(&public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         // Observe the old proofs' `G` points.
         old_proofs
             .iter()
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index dd69e14..472caba 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -74,6 +74,10 @@ impl<C: HaloCurve> Proof<C> {
     ) -> Result<ProofChallenge<C>> {
         let mut challenger = Challenger::new(security_bits);
         let error_msg = "Conversion from base to scalar field failed.";
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(public_inputs)
+                .expect("Public inputs should fit in both fields"),
+        );
         challenger.observe_affine_points(&self.c_wires);
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
         let beta = C::try_convert_b2s(beta_bf).map_err(|_| anyhow!(error_msg))?;
@@ -83,10 +87,6 @@ impl<C: HaloCurve> Proof<C> {
         let alpha = C::try_convert_b2s(alpha_bf).map_err(|_| anyhow!(error_msg))?;
         challenger.observe_affine_points(&self.c_plonk_t);
         challenger.observe_affine_point(self.c_pis_quotient);
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         old_proofs
             .iter()
             .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
-- 
2.43.0


From 3726ccb747cdef7d8b9e06a0f3d23c45aee6a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:59 +0000
Subject: [PATCH 24/35] fix: check the number of public inputs, commitments and
 openings of proofs

---
 src/plonk_proof.rs |  2 +-
 src/verifier.rs    | 62 ++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 472caba..cb9ae3d 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -76,7 +76,7 @@ impl<C: HaloCurve> Proof<C> {
         let error_msg = "Conversion from base to scalar field failed.";
         challenger.observe_elements(
             &C::ScalarField::try_convert_all(public_inputs)
-                .expect("Public inputs should fit in both fields"),
+                .map_err(|_| anyhow!("Public inputs should fit in both fields"))?,
         );
         challenger.observe_affine_points(&self.c_wires);
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
diff --git a/src/verifier.rs b/src/verifier.rs
index 4baf2a1..2159443 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -8,7 +8,7 @@ use crate::halo::verify_ipa;
 use crate::plonk_proof::OldProof;
 use crate::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use crate::util::{ceil_div_usize, log2_strict};
-use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_ROUTED_WIRES, NUM_WIRES, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
 
 pub const SECURITY_BITS: usize = 128;
 
@@ -57,7 +57,7 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
     verify_g: bool,
 ) -> Result<Option<OldProof<C>>> {
     // Verify that the proof parameters are valid.
-    check_proof_parameters(proof)?;
+    check_proof_parameters(public_inputs, proof, old_proofs, vk)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
     let challs =
@@ -287,19 +287,57 @@ fn verify_old_proof_evaluation<C: HaloCurve>(
 }
 
 /// Check that the parameters in a proof are well-formed, i.e,
-/// that curve points are on the curve, and field elements are in range.
-/// Panics otherwise.
-fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
+/// that there are as many of each as the circuit calls for, that curve points are on the curve,
+/// and field elements are in range.
+fn check_proof_parameters<C: HaloCurve>(
+    public_inputs: &[C::ScalarField],
+    proof: &Proof<C>,
+    old_proofs: &[OldProof<C>],
+    vk: &VerificationKey<C>,
+) -> Result<()> {
     let Proof {
         c_wires,
         c_plonk_z,
         c_plonk_t,
+        c_pis_quotient,
         halo_l,
         halo_r,
         halo_g,
         schnorr_proof,
         ..
     } = proof;
+    // Verify the number of public inputs, commitments and openings. The openings are matched with
+    // the commitments by their position.
+    ensure!(
+        public_inputs.len() == vk.num_public_inputs,
+        "Incorrect number of public inputs."
+    );
+    ensure!(
+        c_wires.len() == NUM_WIRES,
+        "Incorrect number of wire polynomial commitments."
+    );
+    ensure!(
+        c_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER,
+        "Incorrect number of t polynomial commitments."
+    );
+    ensure!(
+        [&proof.o_local, &proof.o_right, &proof.o_below]
+            .iter()
+            .all(|os| {
+                os.o_constants.len() == vk.c_constants.len()
+                    && os.o_plonk_sigmas.len() == vk.c_s_sigmas.len()
+                    && os.o_wires.len() == NUM_WIRES
+                    && os.o_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER
+                    && os.o_old_proofs.len() == old_proofs.len()
+            }),
+        "Incorrect number of openings."
+    );
+    let degree_pow = log2_strict(vk.degree);
+    ensure!(
+        halo_l.len() == degree_pow && halo_r.len() == degree_pow,
+        "Incorrect number of Halo left and right points."
+    );
+
     // Verify that the curve points are valid.
     ensure!(
         c_wires.iter().all(|p| p.is_valid()),
@@ -313,6 +351,14 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_plonk_t.iter().all(|p| p.is_valid()),
         "A t polynomial commitment is not on the curve."
     );
+    ensure!(
+        c_pis_quotient.is_valid(),
+        "The public input quotient polynomial commitment is not on the curve."
+    );
+    ensure!(
+        old_proofs.iter().all(|p| p.halo_g.is_valid()),
+        "An old proof's Halo G point is not on the curve."
+    );
     ensure!(
         halo_l.iter().all(|p| p.is_valid()),
         "A Halo left point is not on the curve."
@@ -332,12 +378,6 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         "An opening element is not in the field."
     );
 
-    // Verify that the Halo vectors have same length.
-    ensure!(
-        halo_l.len() == halo_r.len(),
-        "The Halo L and R vecor don't have the same length."
-    );
-
     // Verify that the Schnorr protocol data are valid.
     ensure!(
         &schnorr_proof.r.is_valid(),
-- 
2.43.0


From 9e9c32e53cb57527c5a8b2c17f90cd74ed3d73bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 25/35] fix: observe the challenges of old proofs

---
 src/plonk.rs       | 10 ++++++----
 src/plonk_proof.rs | 10 +++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index d1236d8..d9edcd7 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -246,10 +246,12 @@ impl<C: HaloCurve> Circuit<C> {
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_plonk_t));
         // Observe the `pis_quotient` polynomial commitment.
         challenger.observe_affine_point(c_pis_quotient.to_affine());
-        // Observe the old proofs' `G` points.
-        old_proofs
-            .iter()
-            .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
+        // Observe the old proofs' `G` points, and the challenges defining the polynomials they are
+        // claimed to commit to.
+        for old_proof in old_proofs {
+            challenger.observe_affine_point(old_proof.halo_g);
+            challenger.observe_elements(&C::ScalarField::try_convert_all(&old_proof.halo_us)?);
+        }
         // Generate a random `zeta` from the transcript.
         let zeta_bf = challenger.get_challenge();
         let zeta_sf =
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index cb9ae3d..f4372b0 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -87,9 +87,13 @@ impl<C: HaloCurve> Proof<C> {
         let alpha = C::try_convert_b2s(alpha_bf).map_err(|_| anyhow!(error_msg))?;
         challenger.observe_affine_points(&self.c_plonk_t);
         challenger.observe_affine_point(self.c_pis_quotient);
-        old_proofs
-            .iter()
-            .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
+        for old_proof in old_proofs {
+            challenger.observe_affine_point(old_proof.halo_g);
+            challenger.observe_elements(
+                &C::ScalarField::try_convert_all(&old_proof.halo_us)
+                    .map_err(|_| anyhow!(error_msg))?,
+            );
+        }
         let zeta_bf = challenger.get_challenge();
         let zeta = C::try_convert_b2s(zeta_bf).map_err(|_| anyhow!(error_msg))?;
         for os in self.all_opening_sets().iter() {
-- 
2.43.0


From 2692c0392be2c6c63e42f0b7664839a7a65c4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 26/35] fix: value of a Lagrange basis polynomial at its own
 node

---
 plookup/src/plookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 47ac708..961a0e3 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -275,7 +275,7 @@ fn vanishing_polynomial<F: Field>(
 pub fn eval_l_i<F: Field>(n: usize, i: usize, generator: F, x: F) -> F {
     let g = generator.exp_usize(i);
     if x == g {
-        F::ZERO
+        F::ONE
     } else {
         g * (x.exp_usize(n) - F::ONE) / (F::from_canonical_usize(n) * (x - g))
     }
-- 
2.43.0


From 8fca97ca5ae54fa184bc02081b1e4d6d9497da06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 27/35] fix: pad lookups with elements of the table and to a
 sufficient size

---
 plookup/src/plookup.rs  | 29 ++++++++++++++++++-----------
 plookup/src/verifier.rs |  5 +++--
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 961a0e3..e711ce4 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -2,7 +2,7 @@
 #![allow(clippy::too_many_arguments)]
 use crate::openings::open_all_polynomials;
 use crate::proof::PlookupProof;
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky::halo::batch_opening_proof;
 use plonky::plonk_challenger::Challenger;
 use plonky::plonk_util::reduce_with_powers;
@@ -14,6 +14,7 @@ pub const SECURITY_BITS: usize = 128;
 
 /// Computes a proof that `t` is a sub(multi)set of `f`, following the Plookup protocol (https://ia.cr/2020/315).
 pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result<PlookupProof<C>> {
+    ensure!(!t.is_empty(), "Empty table");
     let (n, f, t) = pad_inputs(f, t);
 
     // Compute the `s` multiset of the Plookup protocol.
@@ -153,19 +154,25 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
 }
 
 fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
-    let d = t.len();
-    let f = if f.len() + 1 < d {
-        padded(f, d - 1)
-    } else {
-        f.to_vec()
-    };
-    let n = f.len().next_power_of_two() - 1;
-
-    let f = padded(&f, n);
-    let t = padded(t, n + 1);
+    // `f` is padded to length `n` and `t` to length `n+1`, where `n+1` is a power of two.
+    let n = f.len().max(t.len() - 1).max(1);
+    let n = (n + 1).next_power_of_two() - 1;
+
+    let t = padded_table(t, n + 1);
+    // Pad with an element of the table, so that `f` stays a subset of it.
+    let mut f = f.to_vec();
+    f.resize(n, t[n]);
     (n, f, t)
 }
 
+/// Pads a non-empty table to have length `n` by repeating its last element, so that no other values
+/// are added to it.
+pub fn padded_table<F: Field>(t: &[F], n: usize) -> Vec<F> {
+    let mut pad = t.to_vec();
+    pad.extend((t.len()..n).map(|_| t[t.len() - 1]));
+    pad
+}
+
 /// Sorts a vector `f` by another `t` in-place. `f` is sorted by `t` if `f` is a subset of `t`,
 /// and elements of `f` appear in the same order as elements of `t`.
 fn sort_by<F: Field>(f: &mut [F], t: &[F]) {
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index f655577..fbb1f42 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -1,4 +1,4 @@
-use crate::plookup::{eval_l_i, padded, SECURITY_BITS};
+use crate::plookup::{eval_l_i, padded_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
@@ -10,7 +10,8 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
     let n = proof.n;
-    let t = padded(t, n + 1);
+    ensure!(!t.is_empty(), "Empty table");
+    let t = padded_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
     let gs = (0..2 * n + 2)
         .map(blake_hash_usize_to_curve::<C>)
-- 
2.43.0


From d0277e706e092abbc4d168e3e890b75e632d8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 28/35] fix: lookups in tables with repeated values

---
 plookup/src/plookup.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index e711ce4..24a3920 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -17,10 +17,22 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
     ensure!(!t.is_empty(), "Empty table");
     let (n, f, t) = pad_inputs(f, t);
 
-    // Compute the `s` multiset of the Plookup protocol.
-    let mut s = f.clone();
-    s.extend_from_slice(&t);
-    sort_by(&mut s, &t);
+    // Compute the `s` multiset of the Plookup protocol: elements of `f` are inserted after their
+    // first occurrence in `t`, whose order is kept even if some of its elements are repeated.
+    ensure!(
+        f.iter().all(|x| t.contains(x)),
+        "Some value is not in the table"
+    );
+    let mut sorted_f = f.clone();
+    sort_by(&mut sorted_f, &t);
+    let mut remaining = sorted_f.into_iter().peekable();
+    let mut s = Vec::with_capacity(f.len() + t.len());
+    for &x in &t {
+        s.push(x);
+        while remaining.peek() == Some(&x) {
+            s.extend(remaining.next());
+        }
+    }
 
     // Initiate the Fiat-Shamir challenger.
     let mut challenger = Challenger::new(SECURITY_BITS);
-- 
2.43.0


From b7f840f12e00da95e62a7eddd5e5b1c8d1eae814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 29/35] fix: reject malformed lookup proofs with an error

---
 plookup/src/proof.rs    | 13 +++++--------
 plookup/src/verifier.rs | 27 ++++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/plookup/src/proof.rs b/plookup/src/proof.rs
index 8ba2b5f..72a2af3 100644
--- a/plookup/src/proof.rs
+++ b/plookup/src/proof.rs
@@ -81,11 +81,8 @@ impl<C: HaloCurve> PlookupProof<C> {
             .openings
             .to_vec()
             .into_iter()
-            .map(|f| {
-                C::try_convert_s2b(f)
-                    .expect("For now, we assume that all opened values fit in both fields")
-            })
-            .collect();
+            .map(|f| C::try_convert_s2b(f).map_err(|_| anyhow!(error_msg)))
+            .collect::<Result<_>>()?;
         challenger.observe_elements(&openings_bf);
         let (v_bf, u_bf, u_scaling_bf) = challenger.get_3_challenges();
         let v = C::try_convert_b2s(v_bf).map_err(|_| anyhow!(error_msg))?;
@@ -101,9 +98,9 @@ impl<C: HaloCurve> PlookupProof<C> {
             let r_sf = r_bf.try_convert::<C::ScalarField>()?;
             let r_bits = &r_sf.to_canonical_bool_vec()[..SECURITY_BITS];
             let u_j_squared = halo_n::<C>(r_bits);
-            let u_j = u_j_squared
-                .square_root()
-                .expect("Prover should have ensured that n(r) is square");
+            let u_j = u_j_squared.square_root().ok_or_else(|| {
+                anyhow!("Invalid transcript. Prover should have ensured that n(r) is square")
+            })?;
             halo_us.push(u_j);
         }
 
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index fbb1f42..32a14cb 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -9,8 +9,8 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 /// Verifies that a proof is valid for a set `t`.
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
+    check_proof_parameters(t, proof)?;
     let n = proof.n;
-    ensure!(!t.is_empty(), "Empty table");
     let t = padded_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
     let gs = (0..2 * n + 2)
@@ -99,6 +99,31 @@ pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Re
     Ok(())
 }
 
+/// Verifies that the size of the proof is valid and matches the table and the opening argument.
+fn check_proof_parameters<C: HaloCurve>(
+    t: &[C::ScalarField],
+    proof: &PlookupProof<C>,
+) -> Result<()> {
+    let rounds = proof.halo_proof.halo_l.len();
+    ensure!(
+        proof.halo_proof.halo_r.len() == rounds,
+        "Different numbers of left and right points in the opening argument"
+    );
+    // The quotient polynomial is computed on a subgroup of order `4(n+1)`.
+    ensure!(
+        rounds >= 2 && rounds < C::ScalarField::TWO_ADICITY,
+        "Invalid number of rounds in the opening argument"
+    );
+    // The opening argument is for polynomials of length `2n+2`.
+    ensure!(
+        proof.n == (1 << (rounds - 1)) - 1,
+        "Incorrect proof size"
+    );
+    ensure!(!t.is_empty(), "Empty table");
+    ensure!(t.len() <= proof.n + 1, "Table is too large for the proof");
+    Ok(())
+}
+
 /// Verify all IPAs in the given proof using a reduction to a single polynomial.
 fn verify_all_ipas<C: HaloCurve>(
     c_all: &[AffinePoint<C>],
-- 
2.43.0


From 03a50435714bd402ee9d488dc8ddb1b3ce246ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 30/35] fix: check the folded generator of lookup proofs

---
 plookup/src/verifier.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index 32a14cb..db4e5ce 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -2,9 +2,9 @@ use crate::plookup::{eval_l_i, padded_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
-use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, powers, reduce_with_powers};
+use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, powers, reduce_with_powers};
 use plonky::util::log2_strict;
-use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation_power_of_2, msm_execute_parallel, msm_precompute, AffinePoint, Field, HaloCurve, PolynomialCommitment};
+use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation_power_of_2, msm_execute_parallel, msm_parallel, msm_precompute, AffinePoint, Field, HaloCurve, PolynomialCommitment};
 
 /// Verifies that a proof is valid for a set `t`.
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
@@ -95,7 +95,18 @@ pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Re
         "Invalid IPA proof."
     );
 
-    // TODO: Add option to verify `halo_g` point.
+    // Verify that `halo_g = <s, G>`.
+    ensure!(
+        proof.halo_proof.halo_g
+            == msm_parallel(
+                &halo_s(&challs.halo_us),
+                &AffinePoint::batch_to_projective(&gs),
+                8
+            )
+            .to_affine(),
+        "Invalid Halo G point"
+    );
+
     Ok(())
 }
 
-- 
2.43.0


From a97b49e743973d8eae35d2cb07edb9aef0429a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 31/35] fix: range check the top limb of a bigint by its bound,
 so that limb products cannot be split modulo the field order

---
 src/circuit_bigint.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index 5b5e964..13c3af3 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -110,8 +110,12 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
         if validate {
             // Check that we have a valid bigint encoding, with each limb being in the proper range.
-            for &limb in &limbs {
-                self.assert_dibit_length(limb, LIMB_DIBITS);
+            // The most significant limb is only as large as the bound calls for; otherwise a sum of
+            // limb products, which is split into limbs whose total size exceeds that of the native
+            // field, could also be split as that sum plus the field's order.
+            for (i, &limb) in limbs.iter().enumerate() {
+                let limb_bits = (max.bits() as usize - i * LIMB_BITS).min(LIMB_BITS);
+                self.assert_dibit_length(limb, ceil_div_usize(limb_bits, 2));
             }
         }
 
-- 
2.43.0


From c5511edf1824c2b158857c6daf225b72f7829af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 32/35] fix: square, not double, to raise zeta to the degree in
 the recursion circuit

---
 src/plonk_recursion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index 464b125..bfee93c 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -510,7 +510,7 @@ fn verify_assumptions<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField
     // Evaluate zeta^degree.
     let mut zeta_power_d = zeta;
     for _i in 0..degree_pow {
-        zeta_power_d = builder.double(zeta_power_d);
+        zeta_power_d = builder.square(zeta_power_d);
     }
 
     // Evaluate Z_H(zeta) = zeta^degree - 1.
-- 
2.43.0


From d496feb790fe82ec94ed3206a3f1abb464c87a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 33/35] fix: square, not double, the powers of x in the
 recursive evaluation of Halo's g

---
 src/plonk_recursion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index bfee93c..a3b6ed4 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -603,7 +603,7 @@ fn halo_g_recursive<C: HaloCurve>(
         let u_i_inv = builder.inv(u_i);
         let term = builder.mul_add(u_i, x_power, u_i_inv);
         product = builder.mul(product, term);
-        x_power = builder.double(x_power);
+        x_power = builder.square(x_power);
     }
     product
 }
-- 
2.43.0


From 3ac8d24e87f51fa09270924caab22f6d16ddc7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 34/35] fix: publish the quotient openings of the inner proof
 in the recursion circuit

---
 src/plonk_recursion.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index a3b6ed4..2dc783a 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -187,6 +187,9 @@ pub fn recursive_verification_circuit<
         public_inputs.o_plonk_z_right,
         proof.o_right.o_plonk_z,
     );
+    for i in 0..QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER {
+        builder.copy(public_inputs.o_plonk_t[i], proof.o_local.o_plonk_t[i]);
+    }
     for i in 0..degree_pow {
         builder.copy(public_inputs.halo_us[i], halo_us[i]);
     }
-- 
2.43.0


From 2dc539de8ff390b0ebcd31c56ba38d2051c40711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 35/35] fix: include the old proofs' commitments in the
 recursion circuit's reduction, which panicked with old proofs

---
 src/plonk_recursion.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index 2dc783a..fa1226d 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -138,6 +138,7 @@ pub fn recursive_verification_circuit<
     let halo_us = verify_all_ipas::<C, InnerC>(
         &mut builder,
         &proof,
+        &old_proofs,
         zeta,
         u,
         v,
@@ -225,6 +226,7 @@ pub fn recursive_verification_circuit<
 fn verify_all_ipas<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
     builder: &mut CircuitBuilder<C>,
     proof: &ProofTarget<C, InnerC>,
+    old_proofs: &[OldProofTarget<InnerC>],
     zeta: Target<C::ScalarField>,
     u: Target<C::ScalarField>,
     v: Target<C::ScalarField>,
@@ -246,6 +248,7 @@ fn verify_all_ipas<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
         proof.c_wires.clone(),
         vec![proof.c_plonk_z],
         proof.c_plonk_t.clone(),
+        old_proofs.iter().map(|p| p.halo_g).collect(),
     ]
     .concat();
     let mut c_reduction_muls = Vec::new();
-- 
2.43.0

