From c39bd4073503f0000af4392497b62bd2b2cea2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:26 +0000
Subject: [PATCH 01/10] Verification hooks on extended Edwards points, guarded
 by cfg(verif_hooks)

---
 src/curve/edwards.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 7168500..b3300a4 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use curve::point::*;
 use field::prime_field::PrimeField;
 use normalize::Normalize;
@@ -215,3 +217,16 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         out
     }
 }
+
+/// Verification hooks: read the extended coordinates of a point, and
+/// build a point from extended coordinates.
+#[cfg(verif_hooks)]
+impl<C: EdwardsCurve> EdwardsExtended<C> {
+    pub fn verif_coords(&self) -> [C::Scalar; 4] {
+        [self.x, self.y, self.z, self.t]
+    }
+
+    pub fn verif_from_coords(c: [C::Scalar; 4]) -> Self {
+        EdwardsExtended { x: c[0], y: c[1], z: c[2], t: c[3] }
+    }
+}
-- 
2.43.0


From 1d56e0bd1c751663d6620048f840c4b15f69f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:19 +0000
Subject: [PATCH 02/10] fix: subtract the carry of the right operand in field
 subtraction

---
 src/field/mod_e221_3.rs   | 2 +-
 src/field/mod_e222_117.rs | 2 +-
 src/field/mod_e251_9.rs   | 2 +-
 src/field/mod_e255_19.rs  | 2 +-
 src/field/mod_e382_105.rs | 2 +-
 src/field/mod_e383_187.rs | 2 +-
 src/field/mod_e414_17.rs  | 2 +-
 src/field/mod_e511_187.rs | 2 +-
 src/field/mod_e521_1.rs   | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 240f852..47c47a1 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e221_3> for Mod_e221_3 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 20b568d..9eed087 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -325,7 +325,7 @@ impl<'b> SubAssign<&'b Mod_e222_117> for Mod_e222_117 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x0000ffffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 1fef865..e1d7c60 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -344,7 +344,7 @@ impl<'b> SubAssign<&'b Mod_e251_9> for Mod_e251_9 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x0000000007ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 9859fef..c974685 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e255_19> for Mod_e255_19 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x000000007fffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index f962198..b91433a 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -358,7 +358,7 @@ impl<'b> SubAssign<&'b Mod_e382_105> for Mod_e382_105 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00003fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 1cb9823..2a1df8c 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -407,7 +407,7 @@ impl<'b> SubAssign<&'b Mod_e383_187> for Mod_e383_187 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 038c529..ead33fe 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e414_17> for Mod_e414_17 {
         let b6 = rhs.0[6];
         let b7 = rhs.0[7] & 0x00000000003fffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index e434408..3e19760 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -416,7 +416,7 @@ impl<'b> SubAssign<&'b Mod_e511_187> for Mod_e511_187 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x0000000001ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 146eeee..3c20e5d 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -385,7 +385,7 @@ impl<'b> SubAssign<&'b Mod_e521_1> for Mod_e521_1 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x00000007ffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
-- 
2.43.0


From 814bde69acdbd0e6f3296f899ec9e075e6af4834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:21 +0000
Subject: [PATCH 03/10] fix: negation returns the opposite of its operand

---
 src/field/mod_e221_3.rs   | 4 ++--
 src/field/mod_e222_117.rs | 4 ++--
 src/field/mod_e251_9.rs   | 4 ++--
 src/field/mod_e255_19.rs  | 4 ++--
 src/field/mod_e382_105.rs | 4 ++--
 src/field/mod_e383_187.rs | 4 ++--
 src/field/mod_e414_17.rs  | 4 ++--
 src/field/mod_e511_187.rs | 4 ++--
 src/field/mod_e521_1.rs   | 4 ++--
 9 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 47c47a1..b1a25ce 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -155,9 +155,9 @@ impl Neg for Mod_e221_3 {
     type Output = Mod_e221_3;
 
     fn neg(self) -> Mod_e221_3 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 9eed087..80a2b35 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -134,9 +134,9 @@ impl Neg for Mod_e222_117 {
     type Output = Mod_e222_117;
 
     fn neg(self) -> Mod_e222_117 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index e1d7c60..9ec897e 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e251_9 {
     type Output = Mod_e251_9;
 
     fn neg(self) -> Mod_e251_9 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index c974685..c52e6f3 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -166,9 +166,9 @@ impl Neg for Mod_e255_19 {
     type Output = Mod_e255_19;
 
     fn neg(self) -> Mod_e255_19 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index b91433a..b04ce03 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e382_105 {
     type Output = Mod_e382_105;
 
     fn neg(self) -> Mod_e382_105 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 2a1df8c..6c3b524 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -195,9 +195,9 @@ impl Neg for Mod_e383_187 {
     type Output = Mod_e383_187;
 
     fn neg(self) -> Mod_e383_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index ead33fe..a0f42f2 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -145,9 +145,9 @@ impl Neg for Mod_e414_17 {
     type Output = Mod_e414_17;
 
     fn neg(self) -> Mod_e414_17 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 3e19760..b4246ba 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -183,9 +183,9 @@ impl Neg for Mod_e511_187 {
     type Output = Mod_e511_187;
 
     fn neg(self) -> Mod_e511_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 3c20e5d..e6155e5 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -152,9 +152,9 @@ impl Neg for Mod_e521_1 {
     type Output = Mod_e521_1;
 
     fn neg(self) -> Mod_e521_1 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
-- 
2.43.0


From 61f0f49ee8ede29564b694ac856a9b3024a95ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 04/10] fix: keep the sign of the high part when reducing
 products mod 2^222 - 117 and 2^251 - 9

---
 src/field/mod_e222_117.rs | 4 ++--
 src/field/mod_e251_9.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 80a2b35..4225049 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -629,7 +629,7 @@ impl<'b> MulAssign<&'b Mod_e222_117> for Mod_e222_117 {
                     ((hc5_0 & 0x1fffffff) << 29) + hmk1_0;
         let hmk2_0 = hm2_0 >> 58;
         let hm3_0 = (hc5_0 >> 29) + hc6_0 +
-                    ((hc7_0 & 0x1fffffff) << 29) + hmk2_0;
+                    (hc7_0 << 29) + hmk2_0;
 
         // Add h and l.
         let kin_0 = hm3_0 >> 48;
@@ -1164,7 +1164,7 @@ impl PrimeField for Mod_e222_117 {
                     ((hc5_0 & 0x1fffffff) << 29) + hmk1_0;
         let hmk2_0 = hm2_0 >> 58;
         let hm3_0 = (hc5_0 >> 29) + hc6_0 +
-                    ((hc7_0 & 0x1fffffff) << 29) + hmk2_0;
+                    (hc7_0 << 29) + hmk2_0;
 
         // Add h and l.
         let kin_0 = hm3_0 >> 48;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 9ec897e..9d11616 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -657,7 +657,7 @@ impl<'b> MulAssign<&'b Mod_e251_9> for Mod_e251_9 {
                    ((d7 & 0x0000000007ffffff) << 29);
         let h3_0 = ((d7 & 0x00ffffffffffffff) >> 27) |
                    ((d8 & 0x0000000007ffffff) << 29);
-        let h4_0 = (d8 & 0x00ffffffffffffff) >> 27;
+        let h4_0 = d8 >> 27;
 
         // Multiply by C
         let hc0_0 = h0_0 * C_VAL;
-- 
2.43.0


From ea7456e3e5d995fa8048464272b0a8c7de409b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 05/10] fix: normalize elements with a negative internal value

---
 src/field/mod_e221_3.rs   | 3 +++
 src/field/mod_e222_117.rs | 3 +++
 src/field/mod_e251_9.rs   | 3 +++
 src/field/mod_e255_19.rs  | 3 +++
 src/field/mod_e382_105.rs | 3 +++
 src/field/mod_e383_187.rs | 3 +++
 src/field/mod_e414_17.rs  | 3 +++
 src/field/mod_e511_187.rs | 3 +++
 src/field/mod_e521_1.rs   | 3 +++
 9 files changed, 27 insertions(+)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index b1a25ce..a7ac439 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -846,6 +846,9 @@ impl Pack for Mod_e221_3 {
 
 impl Normalize for Mod_e221_3 {
     fn normalize(&mut self) {
+        // Ensure the value is non-negative before computing the offset.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 4225049..426c67e 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -843,6 +843,9 @@ impl Pack for Mod_e222_117 {
 
 impl Normalize for Mod_e222_117 {
     fn normalize(&mut self) {
+        // Ensure the value is non-negative before computing the offset.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 9d11616..f68503a 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -883,6 +883,9 @@ impl Pack for Mod_e251_9 {
 
 impl Normalize for Mod_e251_9 {
     fn normalize(&mut self) {
+        // Ensure the value is non-negative before computing the offset.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index c52e6f3..929acd1 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -935,6 +935,9 @@ impl Pack for Mod_e255_19 {
 
 impl Normalize for Mod_e255_19 {
     fn normalize(&mut self) {
+        // Ensure the value is non-negative before computing the offset.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index b04ce03..a0594f0 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1146,6 +1146,9 @@ impl Pack for Mod_e382_105 {
 
 impl Normalize for Mod_e382_105 {
     fn normalize(&mut self) {
+        // Ensure the value is non-negative before computing the offset.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 6c3b524..d105427 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -1229,6 +1229,9 @@ impl Pack for Mod_e383_187 {
 
 impl Normalize for Mod_e383_187 {
     fn normalize(&mut self) {
+        // Ensure the value is non-negative before computing the offset.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index a0f42f2..4dae435 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -1211,6 +1211,9 @@ impl Pack for Mod_e414_17 {
 
 impl Normalize for Mod_e414_17 {
     fn normalize(&mut self) {
+        // Ensure the value is non-negative before computing the offset.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index b4246ba..7ee8011 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -1543,6 +1543,9 @@ impl Pack for Mod_e511_187 {
 
 impl Normalize for Mod_e511_187 {
     fn normalize(&mut self) {
+        // Ensure the value is non-negative before computing the offset.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index e6155e5..2f3164c 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -1573,6 +1573,9 @@ impl Pack for Mod_e521_1 {
 
 impl Normalize for Mod_e521_1 {
     fn normalize(&mut self) {
+        // Ensure the value is non-negative before computing the offset.
+        *self += &MODULUS;
+
         let plusone = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusone.carry_out() as i32);
         *self -= &offset;
-- 
2.43.0


From 22789014dfd27adf52ac07d01dbee4b63e5e0b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:50 +0000
Subject: [PATCH 06/10] fix: multiply by any 32-bit integer without dropping or
 doubling carries

---
 src/field/mod_e221_3.rs   | 25 ++++++++++++-----
 src/field/mod_e222_117.rs | 25 ++++++++++++-----
 src/field/mod_e251_9.rs   | 25 ++++++++++++-----
 src/field/mod_e255_19.rs  | 29 ++++++++++++++------
 src/field/mod_e382_105.rs | 39 +++++++++++++++++++--------
 src/field/mod_e383_187.rs | 39 +++++++++++++++++++--------
 src/field/mod_e414_17.rs  | 37 ++++++++++++++++++-------
 src/field/mod_e511_187.rs | 45 ++++++++++++++++++++++---------
 src/field/mod_e521_1.rs   | 57 +++++++++++++++++++++++++++------------
 9 files changed, 231 insertions(+), 90 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index a7ac439..c9ad752 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -1324,19 +1324,30 @@ impl PrimeField for Mod_e221_3 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 + ((m7 & 0x1fffffff) << 29) + c2;
+        let c3 = d3 >> 58;
+        let d4 = (m7 >> 29) + c3;
+
+        // Reduce the bits above the modulus.
+        let kin = ((d3 & 0x03ffffffffffffff) >> 47) + (d4 << 11);
+        let s0 = (d0 & 0x03ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 58;
+        let s1 = (d1 & 0x03ffffffffffffff) + k0;
+        let k1 = s1 >> 58;
+        let s2 = (d2 & 0x03ffffffffffffff) + k1;
+        let k2 = s2 >> 58;
+        let s3 = (d3 & 0x00007fffffffffff) + k2;
 
-        self.0[0] = d0 & 0x03ffffffffffffff;
-        self.0[1] = d1 & 0x03ffffffffffffff;
-        self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        self.0[0] = s0 & 0x03ffffffffffffff;
+        self.0[1] = s1 & 0x03ffffffffffffff;
+        self.0[2] = s2 & 0x03ffffffffffffff;
+        self.0[3] = s3;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 426c67e..9465755 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -1357,19 +1357,30 @@ impl PrimeField for Mod_e222_117 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 + ((m7 & 0x1fffffff) << 29) + c2;
+        let c3 = d3 >> 58;
+        let d4 = (m7 >> 29) + c3;
+
+        // Reduce the bits above the modulus.
+        let kin = ((d3 & 0x03ffffffffffffff) >> 48) + (d4 << 10);
+        let s0 = (d0 & 0x03ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 58;
+        let s1 = (d1 & 0x03ffffffffffffff) + k0;
+        let k1 = s1 >> 58;
+        let s2 = (d2 & 0x03ffffffffffffff) + k1;
+        let k2 = s2 >> 58;
+        let s3 = (d3 & 0x0000ffffffffffff) + k2;
 
-        self.0[0] = d0 & 0x03ffffffffffffff;
-        self.0[1] = d1 & 0x03ffffffffffffff;
-        self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        self.0[0] = s0 & 0x03ffffffffffffff;
+        self.0[1] = s1 & 0x03ffffffffffffff;
+        self.0[2] = s2 & 0x03ffffffffffffff;
+        self.0[3] = s3;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e222_117 {
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index f68503a..ed7b319 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -1412,8 +1412,7 @@ impl PrimeField for Mod_e251_9 {
         let m7 = a7 * b;
         let m8 = a8 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1423,11 +1422,23 @@ impl PrimeField for Mod_e251_9 {
         let c3 = d3 >> 56;
         let d4 = (m7 >> 28) + m8 + c3;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        // Reduce the bits above the modulus.
+        let kin = d4 >> 27;
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x0000000007ffffff) + k3;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 929acd1..ede8c50 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -1509,8 +1509,7 @@ impl PrimeField for Mod_e255_19 {
         let m8 = a8 * b;
         let m9 = a9 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1518,13 +1517,27 @@ impl PrimeField for Mod_e255_19 {
         let c2 = d2 >> 56;
         let d3 = (m5 >> 28) + m6 + ((m7 & 0x0fffffff) << 28) + c2;
         let c3 = d3 >> 56;
-        let d4 = (m7 >> 28) + m8 + (m9 << 28) + c3;
+        let d4 = (m7 >> 28) + m8 + ((m9 & 0x0fffffff) << 28) + c3;
+        let c4 = d4 >> 56;
+        let d5 = (m9 >> 28) + c4;
+
+        // Reduce the bits above the modulus.
+        let kin = ((d4 & 0x00ffffffffffffff) >> 31) + (d5 << 25);
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x000000007fffffff) + k3;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index a0594f0..f34ac56 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1942,8 +1942,7 @@ impl PrimeField for Mod_e382_105 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1955,15 +1954,33 @@ impl PrimeField for Mod_e382_105 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
-
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        let d6 = (m11 >> 28) + m12 + ((m13 & 0x0fffffff) << 28) + c5;
+        let c6 = d6 >> 56;
+        let d7 = (m13 >> 28) + c6;
+
+        // Reduce the bits above the modulus.
+        let kin = ((d6 & 0x00ffffffffffffff) >> 46) + (d7 << 10);
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x00ffffffffffffff) + k3;
+        let k4 = s4 >> 56;
+        let s5 = (d5 & 0x00ffffffffffffff) + k4;
+        let k5 = s5 >> 56;
+        let s6 = (d6 & 0x00003fffffffffff) + k5;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4 & 0x00ffffffffffffff;
+        self.0[5] = s5 & 0x00ffffffffffffff;
+        self.0[6] = s6;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e382_105 {
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index d105427..70139c3 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -2064,8 +2064,7 @@ impl PrimeField for Mod_e383_187 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2077,15 +2076,33 @@ impl PrimeField for Mod_e383_187 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
-
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        let d6 = (m11 >> 28) + m12 + ((m13 & 0x0fffffff) << 28) + c5;
+        let c6 = d6 >> 56;
+        let d7 = (m13 >> 28) + c6;
+
+        // Reduce the bits above the modulus.
+        let kin = ((d6 & 0x00ffffffffffffff) >> 47) + (d7 << 9);
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x00ffffffffffffff) + k3;
+        let k4 = s4 >> 56;
+        let s5 = (d5 & 0x00ffffffffffffff) + k4;
+        let k5 = s5 >> 56;
+        let s6 = (d6 & 0x00007fffffffffff) + k5;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4 & 0x00ffffffffffffff;
+        self.0[5] = s5 & 0x00ffffffffffffff;
+        self.0[6] = s6;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e383_187 {
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 4dae435..b464204 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -2049,8 +2049,7 @@ impl PrimeField for Mod_e414_17 {
         let m13 = a13 * b;
         let m14 = a14 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2066,14 +2065,32 @@ impl PrimeField for Mod_e414_17 {
         let c6 = d6 >> 56;
         let d7 = (m13 >> 28) + m14 + c6;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6 & 0x00ffffffffffffff;
-        self.0[7] = d7;
+        // Reduce the bits above the modulus.
+        let kin = d7 >> 22;
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x00ffffffffffffff) + k3;
+        let k4 = s4 >> 56;
+        let s5 = (d5 & 0x00ffffffffffffff) + k4;
+        let k5 = s5 >> 56;
+        let s6 = (d6 & 0x00ffffffffffffff) + k5;
+        let k6 = s6 >> 56;
+        let s7 = (d7 & 0x00000000003fffff) + k6;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4 & 0x00ffffffffffffff;
+        self.0[5] = s5 & 0x00ffffffffffffff;
+        self.0[6] = s6 & 0x00ffffffffffffff;
+        self.0[7] = s7;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e414_17 {
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 7ee8011..ad20579 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -2672,8 +2672,7 @@ impl PrimeField for Mod_e511_187 {
         let m17 = a17 * b;
         let m18 = a18 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2693,16 +2692,38 @@ impl PrimeField for Mod_e511_187 {
         let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + c8;
 
-        self.0[0] = d0 & 0x003fffffffffffff;
-        self.0[1] = d1 & 0x003fffffffffffff;
-        self.0[2] = d2 & 0x003fffffffffffff;
-        self.0[3] = d3 & 0x003fffffffffffff;
-        self.0[4] = d4 & 0x003fffffffffffff;
-        self.0[5] = d5 & 0x003fffffffffffff;
-        self.0[6] = d6 & 0x003fffffffffffff;
-        self.0[7] = d7 & 0x003fffffffffffff;
-        self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        // Reduce the bits above the modulus.
+        let kin = d9 >> 25;
+        let s0 = (d0 & 0x003fffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 54;
+        let s1 = (d1 & 0x003fffffffffffff) + k0;
+        let k1 = s1 >> 54;
+        let s2 = (d2 & 0x003fffffffffffff) + k1;
+        let k2 = s2 >> 54;
+        let s3 = (d3 & 0x003fffffffffffff) + k2;
+        let k3 = s3 >> 54;
+        let s4 = (d4 & 0x003fffffffffffff) + k3;
+        let k4 = s4 >> 54;
+        let s5 = (d5 & 0x003fffffffffffff) + k4;
+        let k5 = s5 >> 54;
+        let s6 = (d6 & 0x003fffffffffffff) + k5;
+        let k6 = s6 >> 54;
+        let s7 = (d7 & 0x003fffffffffffff) + k6;
+        let k7 = s7 >> 54;
+        let s8 = (d8 & 0x003fffffffffffff) + k7;
+        let k8 = s8 >> 54;
+        let s9 = (d9 & 0x0000000001ffffff) + k8;
+
+        self.0[0] = s0 & 0x003fffffffffffff;
+        self.0[1] = s1 & 0x003fffffffffffff;
+        self.0[2] = s2 & 0x003fffffffffffff;
+        self.0[3] = s3 & 0x003fffffffffffff;
+        self.0[4] = s4 & 0x003fffffffffffff;
+        self.0[5] = s5 & 0x003fffffffffffff;
+        self.0[6] = s6 & 0x003fffffffffffff;
+        self.0[7] = s7 & 0x003fffffffffffff;
+        self.0[8] = s8 & 0x003fffffffffffff;
+        self.0[9] = s9;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e511_187 {
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 2f3164c..a04ad68 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2708,8 +2708,7 @@ impl PrimeField for Mod_e521_1 {
         let m18 = a18 * b;
         let m19 = a19 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2722,23 +2721,47 @@ impl PrimeField for Mod_e521_1 {
         let d5 = (m9 >> 27) + m10 + ((m11 & 0x07ffffff) << 27) + c4;
         let c5 = d5 >> 54;
         let d6 = (m11 >> 27) + m12 + ((m13 & 0x07ffffff) << 27) + c5;
-        let c6 = d5 >> 54;
+        let c6 = d6 >> 54;
         let d7 = (m13 >> 27) + m14 + ((m15 & 0x07ffffff) << 27) + c6;
-        let c7 = d6 >> 54;
+        let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
-        let c8 = d7 >> 54;
-        let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
-
-        self.0[0] = d0 & 0x003fffffffffffff;
-        self.0[1] = d1 & 0x003fffffffffffff;
-        self.0[2] = d2 & 0x003fffffffffffff;
-        self.0[3] = d3 & 0x003fffffffffffff;
-        self.0[4] = d4 & 0x003fffffffffffff;
-        self.0[5] = d5 & 0x003fffffffffffff;
-        self.0[6] = d6 & 0x003fffffffffffff;
-        self.0[7] = d7 & 0x003fffffffffffff;
-        self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        let c8 = d8 >> 54;
+        let d9 = (m17 >> 27) + m18 + ((m19 & 0x07ffffff) << 27) + c8;
+        let c9 = d9 >> 54;
+        let d10 = (m19 >> 27) + c9;
+
+        // Reduce the bits above the modulus.
+        let kin = ((d9 & 0x003fffffffffffff) >> 35) + (d10 << 19);
+        let s0 = (d0 & 0x003fffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 54;
+        let s1 = (d1 & 0x003fffffffffffff) + k0;
+        let k1 = s1 >> 54;
+        let s2 = (d2 & 0x003fffffffffffff) + k1;
+        let k2 = s2 >> 54;
+        let s3 = (d3 & 0x003fffffffffffff) + k2;
+        let k3 = s3 >> 54;
+        let s4 = (d4 & 0x003fffffffffffff) + k3;
+        let k4 = s4 >> 54;
+        let s5 = (d5 & 0x003fffffffffffff) + k4;
+        let k5 = s5 >> 54;
+        let s6 = (d6 & 0x003fffffffffffff) + k5;
+        let k6 = s6 >> 54;
+        let s7 = (d7 & 0x003fffffffffffff) + k6;
+        let k7 = s7 >> 54;
+        let s8 = (d8 & 0x003fffffffffffff) + k7;
+        let k8 = s8 >> 54;
+        let s9 = (d9 & 0x00000007ffffffff) + k8;
+
+        self.0[0] = s0 & 0x003fffffffffffff;
+        self.0[1] = s1 & 0x003fffffffffffff;
+        self.0[2] = s2 & 0x003fffffffffffff;
+        self.0[3] = s3 & 0x003fffffffffffff;
+        self.0[4] = s4 & 0x003fffffffffffff;
+        self.0[5] = s5 & 0x003fffffffffffff;
+        self.0[6] = s6 & 0x003fffffffffffff;
+        self.0[7] = s7 & 0x003fffffffffffff;
+        self.0[8] = s8 & 0x003fffffffffffff;
+        self.0[9] = s9;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e521_1 {
-- 
2.43.0


From 736e67aa6d478c099eb65f3cb52a8a211eb5b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:50 +0000
Subject: [PATCH 07/10] fix: the Edwards identity point has a zero extended
 coordinate

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index b3300a4..150f3aa 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -94,7 +94,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             x: C::Scalar::zero(),
             y: C::Scalar::one(),
             z: C::Scalar::one(),
-            t: C::Scalar::one()
+            t: C::Scalar::zero()
         }
     }
 
-- 
2.43.0


From d4ceb7580c83dd31b6242d0d418840ecee37ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:10 +0000
Subject: [PATCH 08/10] fix: points initialised from affine coordinates have a
 consistent extended coordinate

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 150f3aa..316c0a8 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -99,10 +99,10 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
     }
 
     fn init(&mut self, x: C::Scalar, y: C::Scalar) {
+        self.t = x * y;
         self.x = x;
         self.y = y;
         self.z = C::Scalar::one();
-        self.t = C::Scalar::one();
     }
 
     fn scalar_mult(&mut self, rhs: &mut Self::Scalar) {
-- 
2.43.0


From e988419befad144a9faf1741cee50a59493c0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:19 +0000
Subject: [PATCH 09/10] fix: the scalar multiplication ladder doubles the
 accumulator the scalar bit selects

---
 src/curve/edwards.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 316c0a8..4cf791b 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -132,9 +132,9 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             r0 += r1;
             r1 = r0;
 
-            // d0 = bit ? r0 : r1
-            d0.normalized_bitand(&tmask);
-            d1.normalized_bitand(&fmask);
+            // d0 = bit ? r1 : r0
+            d0.normalized_bitand(&fmask);
+            d1.normalized_bitand(&tmask);
             d0.normalized_bitor(&d1);
 
             // d0 *= 2
@@ -143,14 +143,14 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             // d1 = d0
             d1 = d0;
 
-            // r0 = bit ? d0 : r0
-            r0.normalized_bitand(&fmask);
-            d0.normalized_bitand(&tmask);
+            // r0 = bit ? r0 : d0
+            r0.normalized_bitand(&tmask);
+            d0.normalized_bitand(&fmask);
             r0.normalized_bitor(&d0);
 
-            // r1 = bit ? r1 : d1
-            r1.normalized_bitand(&tmask);
-            d1.normalized_bitand(&fmask);
+            // r1 = bit ? d1 : r1
+            r1.normalized_bitand(&fmask);
+            d1.normalized_bitand(&tmask);
             r1.normalized_bitor(&d1);
         }
 
-- 
2.43.0


From bb97ca0df5ce4775e7deb7e3254ae50ca9edc170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 10/10] fix: tripling a point uses the published formula for
 the y denominator

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 4cf791b..5bd9982 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -195,7 +195,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         let yb = yy * b;
         let aa = ap * (yy - xx);
         let f = aa - yb;
-        let g = aa - xb;
+        let g = aa + xb;
         let xe = self.x * (yb + aa);
         let yh = self.y * (xb - aa);
         let zf = self.z * f;
-- 
2.43.0

