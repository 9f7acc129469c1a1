From 405210194648b77e0fcfabebc0851008a2a2ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:49 +0000
Subject: [PATCH 01/34] fix: BigInt division and remainder never yield a
 negative zero or a signed NaN

---
 src/bigint/bigint.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 2b19192..68a3ff8 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -441,16 +441,13 @@ impl BigInt {
     
     fn div_inner(&mut self, rhs: Self) {
         assert_ne!(rhs.nat, 0u32, "The divisor cannot be the 0");
-        self.sign = match (self.sign, rhs.sign) {
-            (Natural, Natural) => Natural,
-            (Negative, Negative) => Natural,
-            _ => match self.nat.partial_cmp(&0u32) {
-                None => Natural,
-                Some(Ordering::Equal) => Natural,
-                _ => Negative,
-            },
-        };
+        let is_same_sign = self.sign == rhs.sign;
         self.nat /= rhs.nat;
+        self.sign = if is_same_sign || self.is_nan() || self.nat == 0u32 {
+            Natural
+        } else {
+            Negative
+        };
     }
     
     fn mul_inner(&mut self, rhs: Self) {
@@ -465,6 +462,9 @@ impl BigInt {
     fn rem_inner(&mut self, rhs: Self) {
         assert_ne!(rhs.nat, 0u32, "the modulus can't be the 0");
         self.nat %= rhs.nat;
+        if self.is_nan() || self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn bitand_inner(&mut self, rhs: Self) {
-- 
2.43.0


From c59a7e4eca7f3408908c5d7fee24bac2f78eebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 02/34] fix: Nat::and_not of a NaN right operand is NaN

---
 src/bigint/nat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 4527ef1..d9241d8 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -251,6 +251,11 @@ impl Nat {
     }
     
     pub fn and_not_assign(&mut self, rhs: Nat) {
+        if rhs.is_nan() {
+            self.clear();
+            return;
+        }
+        
         self.iter_mut().zip(rhs.iter()).for_each(|(x, &y) | {
             *x = (*x) & (!y);
         });
-- 
2.43.0


From ad062b88d58f6bf34b0a842c7544a5ba5ab7c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 03/34] fix: BigInt | of mixed signs and &^ of two negatives
 follow two's complement

---
 src/bigint/bigint.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 68a3ff8..88c66a1 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -510,16 +510,15 @@ impl BigInt {
                 self.sign = Natural;
             }
         } else {
-            let rhs1 = if self.sign == Negative {
-                let rhs1 = self.nat.clone() - 1u32;
-                self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
-                rhs1
+            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(((y-1) &^ x) + 1)
+            if self.sign == Negative {
+                self.nat -= 1u32;
+                self.nat.and_not_assign(rhs.nat);
             } else {
-                rhs.nat - 1u32
-            };
-            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(^((y-1) &^ x) + 1)
-            self.nat.and_not_assign(rhs1);
+                let lhs = (rhs.nat - 1u32).and_not(self.nat.clone());
+                self.nat.clear();
+                self.nat.as_mut_vec().extend(lhs.iter());
+            }
             self.nat += 1u32;
             self.sign = if self.nat.is_nan() {Natural} else {Negative};
         }
@@ -537,9 +536,9 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) &^ (-y) == ^(x-1) &^ ^(y-1) == ^(x-1) & (y-1) == (y-1) &^ (x-1)
-                self.nat -= 1u32;
-                let rhs1 = rhs.nat - 1u32;
-                self.nat.and_not_assign(rhs1);
+                let lhs = (rhs.nat - 1u32).and_not(self.nat.clone() - 1u32);
+                self.nat.clear();
+                self.nat.as_mut_vec().extend(lhs.iter());
                 self.sign = Natural;
             } else {
                 // x &^ y == x &^ y
-- 
2.43.0


From 0b946e4eb19689eb73886619f11ee4c5885ae8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:59 +0000
Subject: [PATCH 04/34] fix: Nat * u32 leaves a zero top digit

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index d9241d8..fecf90f 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -640,6 +640,7 @@ impl Nat {
         } else {
             self.as_mut_vec().push(pre as u32);
         }
+        self.trim_head_zero();
     }
     
     pub(super) fn div_inner_basic(&mut self, rhs: &u32) {
-- 
2.43.0


From 49fb254b05639cb2bd0ac955a1f59e4f62e535f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:59 +0000
Subject: [PATCH 05/34] fix: Nat - u32 leaves a zero top digit

---
 src/bigint/nat_amd64.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat_amd64.rs b/src/bigint/nat_amd64.rs
index 76200b2..6eb0799 100644
--- a/src/bigint/nat_amd64.rs
+++ b/src/bigint/nat_amd64.rs
@@ -112,6 +112,7 @@ impl Nat {
             c = march::_subborrow_u32(c, *x, rhs, x);
             rhs = 0;
         });
+        self.trim_head_zero();
     }
     
     
-- 
2.43.0


From 9cea307428e18620b181eb50f455a8f0326e44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:10 +0000
Subject: [PATCH 06/34] fix: Nat >> n for n a multiple of 32 or above 32 drops
 the wrong digits

---
 src/bigint/nat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index fecf90f..d509cc4 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -487,6 +487,8 @@ impl Nat {
                 *a = (r & mask_h) | pre;
                 pre = r & mask_l;
             });
+        } else {
+            v.rotate_left(num);
         }
         v.truncate(v.len() - num);
         if pre > 0 {
@@ -495,7 +497,7 @@ impl Nat {
                 _ => {},
             };
         } else {
-            if nom > 0 && num == 0 {
+            if nom > 0 {
                 v.pop();
                 if v.len() == 0 {
                     v.push(0);
-- 
2.43.0


From 346d1eb919647a77323378e502bf42f4b5302e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:10 +0000
Subject: [PATCH 07/34] fix: Nat 0 << n leaves zero top digits

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index d509cc4..3d17397 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -454,7 +454,7 @@ impl Nat {
             if pre > 0 {v.push(pre);}
         }
         
-        if num > 0 {
+        if num > 0 && *self != 0u32 {
             v.resize(v.len() + num, 0);
             v.rotate_right(num);
         }
-- 
2.43.0


From f394e072ef50e8bed8928b14ee5afa96e6d12b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:26 +0000
Subject: [PATCH 08/34] fix: BigInt::is_set_bit of a negated power of two
 answers None below bits_len

---
 src/bigint/bigint.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 88c66a1..3c8cce2 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -688,9 +688,12 @@ impl BigInt {
     /// check the bit is whether set to 1 in the `bit_idx`, 
     /// `None` if `bit_idx >= self.bits_len()`.
     pub fn is_set_bit(&self, i: usize) -> Option<bool> {
-        if self.sign == Negative {
+        if i >= self.bits_len() {
+            None
+        } else if self.sign == Negative {
+            // |self| - 1 may have one bit less than |self|
             let t = self.nat.clone() - 1u32;
-            t.is_set_bit(i).map(|b| {!b})
+            Some(!t.is_set_bit(i).unwrap_or(false))
         } else {
             self.nat.is_set_bit(i)
         }
-- 
2.43.0


From 33d64c27c49933c52526d9f42e18de738c34aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:21 +0000
Subject: [PATCH 09/34] fix: a %= a (shared storage) is 0 instead of corrupting
 the divisor

---
 src/bigint/nat.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 3d17397..79ac64c 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -564,6 +564,12 @@ impl Nat {
     pub(super) fn rem_inner(&mut self, rhs: &Self) {
         assert_ne!(rhs, &0u32, "The modulus must not be 0");
 
+        if self.nat.as_ptr() == rhs.nat.as_ptr() {
+            self.clear();
+            self.as_mut_vec().push(0);
+            return;
+        }
+
         if self.partial_cmp_inner(rhs) == Ordering::Less {
             return;
         }
-- 
2.43.0


From cd7f0d47fa52f993699766d16a041e9ed1065c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 10/34] fix: BigInt &=, |=, ^=, and_not_assign with an operand
 that shares the receiver's storage

---
 src/bigint/bigint.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 3c8cce2..bcd4cbf 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -471,8 +471,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) & (-y) == ^(x-1) & ^(y-1) == ^((x-1) | (y-1)) == -(((x-1) | (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat |= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural } else {Negative};
@@ -484,8 +484,9 @@ impl BigInt {
         } else {
             let rhs1 = if self.sign == Negative {
                 let rhs1 = self.nat.clone() - 1u32;
+                let lhs = rhs.nat.deep_clone();
                 self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
+                self.nat.as_mut_vec().extend(lhs.iter());
                 rhs1
             } else {
                 rhs.nat - 1u32
@@ -499,8 +500,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) | (-y) == ^(x-1) | ^(y-1) == ^((x-1) & (y-1)) == -(((x-1) & (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat &= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
@@ -512,8 +513,9 @@ impl BigInt {
         } else {
             // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(((y-1) &^ x) + 1)
             if self.sign == Negative {
+                let rhs1 = rhs.nat.deep_clone();
                 self.nat -= 1u32;
-                self.nat.and_not_assign(rhs.nat);
+                self.nat.and_not_assign(rhs1);
             } else {
                 let lhs = (rhs.nat - 1u32).and_not(self.nat.clone());
                 self.nat.clear();
@@ -547,8 +549,9 @@ impl BigInt {
         } else {
             if self.sign == Negative {
                 // (-x) &^ y == ^(x-1) &^ y == ^(x-1) & ^y == ^((x-1) | y) == -(((x-1) | y) + 1)
+                let rhs1 = rhs.nat.deep_clone();
                 self.nat -= 1u32;
-                self.nat |= rhs.nat;
+                self.nat |= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
             } else {
@@ -571,8 +574,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) ^ (-y) == ^(x-1) ^ ^(y-1) == (x-1) ^ (y-1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat ^= rhs1;
                 self.sign = Natural;
             } else {
@@ -583,8 +586,9 @@ impl BigInt {
         } else {
             let rhs1 = if self.sign == Negative {
                 let rhs1 = self.nat.clone() - 1u32;
+                let lhs = rhs.nat.deep_clone();
                 self.nat.clear();
-                self.nat.as_mut_vec().extend(rhs.nat.iter());
+                self.nat.as_mut_vec().extend(lhs.iter());
                 rhs1
             } else {
                 rhs.nat - 1u32
-- 
2.43.0


From 24807ccfe7d68f203b465af685cdf28d225ae82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 11/34] fix: Rat 0/x is 0/1 (no negative or unreduced
 denominator), x/NaN is NaN

---
 src/bigint/rat.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 4d1cd0a..c425aa1 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -322,14 +322,18 @@ impl Rat {
     
     fn norm(&mut self) {
         let mut t = true;
+        if self.b.is_nan() {
+            self.a = BigInt::nan();
+        }
+        
         if self.a.is_nan() || self.a.nat == 0u32 {
             self.a.sign = Natural;
+            self.b = BigInt::from(1u32);
             t = false;
         }
         
-        if self.b.is_nan() || self.b.nat == 0u32 {
-            self.b.nat.clear();
-            self.b.nat.as_mut_vec().push(1);
+        if self.b.nat == 0u32 {
+            self.b = BigInt::from(1u32);
             t = false;
         }
         
-- 
2.43.0


From da22f3bd0a5cee117d8edf6e9ebae2c98fa026e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 12/34] fix: Rat::to_f32 of zero panicked

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index c425aa1..da896a0 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -163,7 +163,7 @@ impl Rat {
         let (emin, _emax) = (1 - ebias, ebias);
         
         if a == 0u32 {
-            (0f32, true);
+            return (0f32, true);
         }
         
         let (alen, blen) = (a.bits_len() as isize, b.bits_len() as isize);
-- 
2.43.0


From aeef70701d51fc5ce02250dd54f95fa5b4ef8ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 13/34] fix: Rat::from_f64 of magnitudes of 2^53 and above

---
 src/bigint/rat.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index da896a0..3530c14 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -99,8 +99,11 @@ impl Rat {
             let mut a= BigInt::from(mantissa);
             a.sign = BISign::from(f < 0f64);
             let mut b = BigInt::from(1u32);
-            let s = if shift > 0 {shift as usize} else {(-shift) as usize};
-            b.nat.shl_inner(&s);
+            if shift > 0 {
+                b.nat.shl_inner(&(shift as usize));
+            } else {
+                a.nat.shl_inner(&((-shift) as usize));
+            }
             
             let mut z = Rat {a, b};
             z.norm();
-- 
2.43.0


From 49b409453513581958ed0683af077ba9b33cd6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 14/34] fix: Rat::from_frac with isize::MIN overflowed

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 3530c14..cbaea0b 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -47,8 +47,8 @@ impl Rat {
             Err(RatError::new(RatErrKind::DenominatorIsZero, ""))
         } else {
             let mut z = Rat {
-                a: if denominator < 0 {BigInt::from(-numerator)} else {BigInt::from(numerator)},
-                b: BigInt::from(denominator.abs()),
+                a: if denominator < 0 {-BigInt::from(numerator)} else {BigInt::from(numerator)},
+                b: BigInt::from(denominator).abs(),
             };
             z.norm();
             Ok(z)
-- 
2.43.0


From 9c86d40ef26e3262827037810e1837f48ada86a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:51 +0000
Subject: [PATCH 15/34] fix: Rat::from_str did not reduce fractions

---
 src/bigint/rat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index cbaea0b..756fe84 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -730,7 +730,9 @@ impl FromStr for Rat {
             } else {
                 a.sign = BISign::from(a.sign != b.sign);
                 b.sign = Natural;
-                Ok(Rat {a, b})
+                let mut z = Rat {a, b};
+                z.norm();
+                Ok(z)
             }
         }
     }
-- 
2.43.0


From 015049cee142127d6fb3921ca9901f785d739206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:48 +0000
Subject: [PATCH 16/34] fix: LinearCongruentialRand computed a*x+c modulo
 2^bits before reducing modulo m

---
 src/rand/linear_congruential_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/linear_congruential_rand.rs b/src/rand/linear_congruential_rand.rs
index b4c67e0..7629b0f 100644
--- a/src/rand/linear_congruential_rand.rs
+++ b/src/rand/linear_congruential_rand.rs
@@ -34,7 +34,7 @@ macro_rules! lcr_calc {
     ($Type0: ty) => {
         impl Source<$Type0> for LinearCongruentialRand<$Type0> {
             fn gen(&mut self) -> Result<$Type0> {
-                let tmp = (((self.a).overflowing_mul(self.x).0).overflowing_add(self.c)).0 % self.m;
+                let tmp = (((self.a as u128) * (self.x as u128) + (self.c as u128)) % (self.m as u128)) as $Type0;
                 self.x = tmp;
                 Ok(tmp)
             }
-- 
2.43.0


From 8f8401fbab7bc45efbcc8b80d81e13682ea6d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:48 +0000
Subject: [PATCH 17/34] fix: Mersenne Twister tempering shifted right where the
 algorithm (mt19937) shifts left

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 1ffc1b4..3126059 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -156,8 +156,8 @@ macro_rules! mtr_impl {
                 }
                 let mut z = self.state[self.idx as usize];
                 z ^= (z >> self.tempering_u) & self.tempering_d;
-                z ^= (z >> self.tempering_s) & self.tempering_b;
-                z ^= (z >> self.tempering_t) & self.tempering_c;
+                z ^= (z << self.tempering_s) & self.tempering_b;
+                z ^= (z << self.tempering_t) & self.tempering_c;
                 z ^= z >> self.shift_l;
                 
                 self.idx += 1;
-- 
2.43.0


From 7d9af6af41bbaf26eceb45778240c76b602dd645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:25 +0000
Subject: [PATCH 18/34] fix: Mersenne Twister parameter check accepted zero
 components and rejected the documented l = 0

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 3126059..2386161 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -45,8 +45,8 @@ impl<T> MersenneTwisterRand<T>
     pub fn new<Sd: Seed<T>>(sd: &Sd, w: T, n: T, m: T, r: T, a: T,
                             u_d: (T, T), s_b: (T, T), t_c: (T, T), l: T, f: T) -> Result<Self> {
         if w == T::default() || m == T::default() || r == T::default() || a == T::default() || 
-            u_d == (T::default(), T::default()) || s_b == (T::default(), T::default()) ||
-            t_c == (T::default(), T::default()) || l == T::default() || f == T::default() {
+            u_d.0 == T::default() || u_d.1 == T::default() || s_b.0 == T::default() || s_b.1 == T::default() ||
+            t_c.0 == T::default() || t_c.1 == T::default() || f == T::default() {
             Err(RandError::new(RandErrKind::InvalidRngPara, format!("all parameters cannot be the {:?}", T::default())))
         } else if  m > n {
             Err(RandError::new(RandErrKind::InvalidRngPara, "m must be satisfy the relation: m <= n"))
-- 
2.43.0


From c326eded8bd70f9fd227e599a099db671b44f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:25 +0000
Subject: [PATCH 19/34] fix: LaggedFibonacciRand overflowed when a state word
 is the maximum and the carry is set

---
 src/rand/lagged_fibonacci_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/lagged_fibonacci_rand.rs b/src/rand/lagged_fibonacci_rand.rs
index 02e9a21..5116bb0 100644
--- a/src/rand/lagged_fibonacci_rand.rs
+++ b/src/rand/lagged_fibonacci_rand.rs
@@ -99,7 +99,7 @@ macro_rules! lfr_impl {
                 let ps = if self.idx < self.short_lag {(self.long_lag + self.idx) - self.short_lag} else {self.idx - self.short_lag} as usize;
                 let idx = self.idx as usize;
                 let carry = self.carry;
-                let xi = if self.state[ps] >= (self.state[idx] + self.carry) {
+                let xi = if self.state[ps] > self.state[idx] || (self.state[ps] == self.state[idx] && carry == 0) {
                     self.carry = 0;
                     (self.state[ps].overflowing_sub(self.state[idx]).0).overflowing_sub(carry).0
                 } else {
-- 
2.43.0


From 9d8a8e1ff499ed0d3295b847732545e60e556cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 20/34] fix: Float division padded the dividend at the wrong
 end (6/3 gave 1e-19)

---
 src/bigint/float.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index ebbe717..354af15 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -551,6 +551,7 @@ impl Float {
         let xadj = if d > 0 {
             let tmp = self.mant.deep_clone();
             tmp.as_mut_vec().resize(((self.mant.as_vec().len() as isize) + d) as usize, 0);
+            tmp.as_mut_vec().rotate_right(d as usize);
             tmp
         } else {
             self.mant.clone()
-- 
2.43.0


From 97e5fb8468fb04f7e131dfdad369267b73f7b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 21/34] fix: Float Inf / x is NaN only for an infinite x

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 354af15..682a7d9 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -592,7 +592,7 @@ impl Float {
             self.uquo(y)
         } else {
             self.acc = Accuracy::Exact;
-            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && self.form.is_infinite()) {
+            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && y.form.is_infinite()) {
                 self.form = Form::Nan;
                 self.neg = Natural;
                 // panic!("division of zero by zero or infinity by infinity");
-- 
2.43.0


From b87e259763f767c3020a87a9b226f88a6feee4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 22/34] fix: Float 0 - y and x - Inf forgot to negate the
 subtrahend

---
 src/bigint/float.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 682a7d9..394a85e 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1108,7 +1108,9 @@ impl Float {
         } else {
             // ±0 - y
             // x - ±Inf
-            self.set_float(y);
+            let mut tmp = y.deep_clone();
+            tmp.neg = !tmp.neg;
+            self.set_float(&tmp);
         }
     }
     
-- 
2.43.0


From f3d697bfd11e07a1bdfc32036e345cad96396eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 23/34] fix: Float x + y and x - y took precision and rounding
 mode of y when |x| <= |y|

---
 src/bigint/float.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 394a85e..461fd27 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -999,6 +999,8 @@ impl Float {
                 } else {
                     let mut tmp = y.deep_clone();
                     tmp.neg = !self.neg;
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.usub(&*self);
                     *self = tmp;
                 }
@@ -1081,6 +1083,8 @@ impl Float {
                 } else {
                     let mut tmp = y.deep_clone();
                     tmp.neg = !self.neg;
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.usub(&*self);
                     *self = tmp;
                 }
-- 
2.43.0


From b439074c5efb1511024b1eb67545de7b5516a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 24/34] fix: Float (-0) + (+0) was -0

---
 src/bigint/float.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 461fd27..fbf79cb 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1017,9 +1017,15 @@ impl Float {
             self.form = Form::Nan;
             self.neg = BISign::from(false);
             // panic!("addition of infinities with opposite signs");
+        } else if self.form.is_zero() && y.form.is_zero() {
+            // ±0 + ±0
+            self.acc = Accuracy::Exact;
+            // -0 + -0 == -0
+            self.neg = BISign::from(self.neg == Negative && y.neg == Negative);
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf + y
             // x + ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 + y
             // x + ±Inf
-- 
2.43.0


From 70a453d5a59ff5498be1438c1d90a8c7400f36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 25/34] fix: Float x - 0 and Inf - y kept the accuracy of an
 earlier operation

---
 src/bigint/float.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index fbf79cb..37d92d6 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1115,6 +1115,7 @@ impl Float {
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf - y
             // x - ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 - y
             // x - ±Inf
-- 
2.43.0


From 8be764d81e8061751786edaba3a49df1fa1e72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:16 +0000
Subject: [PATCH 26/34] fix: Float::to_f32/to_f64 rounded up to the smallest
 normal instead of the smallest denormal

---
 src/bigint/float.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 37d92d6..ac1222c 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -740,9 +740,9 @@ impl Float {
                 // We handle p == 0 explicitly because it's easy and because
                 // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (-f32::MIN_POSITIVE, Accuracy::Below);
+                        return (-f32::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f32::MIN_POSITIVE, Accuracy::Above);
+                        return (f32::from_bits(1), Accuracy::Above);
                     }
                 }
             }
@@ -851,9 +851,9 @@ impl Float {
                     // We handle p == 0 explicitly because it's easy and because
                     // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (f64::MIN_POSITIVE, Accuracy::Below);
+                        return (-f64::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f64::MIN_POSITIVE, Accuracy::Above);
+                        return (f64::from_bits(1), Accuracy::Above);
                     }
                 }
             }
-- 
2.43.0


From 16f82c8bef8671ce3faa42f7575ba3744f5f7d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:16 +0000
Subject: [PATCH 27/34] fix: Float::from(i64::MIN) overflowed

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index ac1222c..4a4d16a 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -317,7 +317,7 @@ impl Float {
     }
     
     fn set_i64(&mut self, x: i64) {
-        self.set_bits(x < 0, x.abs() as u64)
+        self.set_bits(x < 0, x.wrapping_abs() as u64)
     }
     
     fn set_f64(&mut self, x: f64) {
-- 
2.43.0


From d26e6edbad5c28c58d3f5a3e77d4903a4b6afe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:16 +0000
Subject: [PATCH 28/34] fix: Float::set_mant_exp lost the mantissa when it
 shares storage with the receiver

---
 src/bigint/float.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 4a4d16a..f2af7ab 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -245,8 +245,7 @@ impl Float {
         self.neg = mant.neg;
         self.prec = mant.prec;
         self.exp = mant.exp;
-        self.mant.clear();
-        self.mant.as_mut_vec().extend(mant.mant.iter());
+        self.mant = mant.mant.deep_clone();
         
         if self.form.is_finite() {
             self.set_exp_and_round(self.exp.saturating_add(exp), 0);
-- 
2.43.0


From 1c6a1144dd4ece0f5b63b2e7f296e8ce95ad39d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:16 +0000
Subject: [PATCH 29/34] fix: Float::from(Rat) ignored the precision of the
 denominator

---
 src/bigint/float.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index f2af7ab..c71a743 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -528,6 +528,7 @@ impl Float {
                 if self.prec == 0 {
                     self.prec = std::cmp::max(a.prec, b.prec);
                 }
+                a.set_precision(self.prec);
                 a /= b;
                 *self = a;
             },
-- 
2.43.0


From 65e83a8b7bf1a45eed6d2b30a9834cf7aeab6ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:12 +0000
Subject: [PATCH 30/34] fix: Nat::random and BigInt::random return canonical
 numbers

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 79ac64c..260dfda 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -857,6 +857,7 @@ impl Nat {
                 break;
             }
         }
+        n.trim_head_zero();
     }
 
     /// generate a random number that belong to the range of [0, self)
-- 
2.43.0


From 041a54534d65af2d73e6b37a67d395dcd0555996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:12 +0000
Subject: [PATCH 31/34] fix: never use 0 as a base of the Miller-Rabin test, it
 calls every prime composite

---
 src/bigint/nat.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 260dfda..441011c 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -917,6 +917,10 @@ impl Nat {
         
         for _ in 0..s {
             self.random_inner(&mut a, rng);
+            // 0 is not a valid base
+            while a == 0u32 {
+                self.random_inner(&mut a, rng);
+            }
             let mut tmp = a.exp(&u, self);
             if tmp.miller_rabin_witness(self, t, &n_m1, &mut buf) {
                 return false;
-- 
2.43.0


From 8a043ee855b2f9223375db7d6c724651c1a20e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:04 +0000
Subject: [PATCH 32/34] fix: Rat::to_f32 and to_f64 report a value that
 underflows to zero as inexact

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 756fe84..9a51542 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -229,7 +229,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1) as f32;
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0f32 {
             (f, false)
         } else {
             (f, exact)
@@ -316,7 +316,7 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1);
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0f64 {
             (f, false)
         } else {
             (f, exact)
-- 
2.43.0


From 68e5c4b1486f00d5f4b025d5e54e3b8dfbae7ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:11 +0000
Subject: [PATCH 33/34] fix: BigInt::mul_range overflowed on i64::MIN

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index bcd4cbf..9c4a1d0 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -614,7 +614,7 @@ impl BigInt {
             BigInt::from(0u32)
         } else {
             let (is_neg, a, b) = if a < 0 {
-                (((b - a) & 1) == 0, (-b as u64), (-a as u64))
+                (((b - a) & 1) == 0, b.wrapping_neg() as u64, a.wrapping_neg() as u64)
             } else {
                 (false, a as u64, b as u64)
             };
-- 
2.43.0


From 76a1348e0cde16dd81444a0805ed250fbbd87270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:01 +0000
Subject: [PATCH 34/34] fix: BigInt::binomial overflowed on n = i64::MAX with k
 = 0 or k = n

---
 src/bigint/bigint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 9c4a1d0..c27243e 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -633,6 +633,11 @@ impl BigInt {
             k = n - k;
         }
         
+        if k == 0 {
+            // an empty product, `n - k + 1` is out of range for n = i64::MAX
+            return BigInt::from(1u32);
+        }
+        
         let mut a = Self::mul_range(n-k+1, n);
         let b = Self::mul_range(1, k);
         
-- 
2.43.0

