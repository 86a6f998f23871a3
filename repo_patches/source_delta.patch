From 1579e26e8c4f64dd65431d538946c31b84518621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 01/12] verif hook: scalar types of the verification harness in
 complex operations (cfg funspace_verif)

---
 src/types.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index 225680f..ee659a7 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2,6 +2,7 @@
 //!
 //! `FloatNum`:   Floating Point number
 //! `ScalarNum`:  Generic type for linalg operations
+#![allow(unexpected_cfgs)]
 use num_complex::Complex;
 use num_traits::{Float, FloatConst, FromPrimitive, One, Signed, Zero};
 use rustdct::DctNum;
@@ -56,3 +57,10 @@ impl ScalarNum for f32 {}
 impl ScalarNum for f64 {}
 impl ScalarNum for Complex<f32> {}
 impl ScalarNum for Complex<f64> {}
+
+/// Verification hook (only with `--cfg funspace_verif`): lets a scalar type of the
+/// verification harness be used in complex-valued operations, too.
+#[cfg(funspace_verif)]
+pub trait VerifScalar: num_traits::NumAssign {}
+#[cfg(funspace_verif)]
+impl<A: FloatNum + VerifScalar> ScalarNum for Complex<A> {}
-- 
2.43.0


From d55cefa5d12a1e1970f0d7bca9b1eb82dea031ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 02/12] fix: biharmonic stencil product used a wrong
 coefficient in the third last row

---
 src/chebyshev/stencils/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 09cc6e0..0b9a540 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -398,7 +398,7 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             }
             *u.get_unchecked_mut(n - 4) = *v.get_unchecked(n - 6) * *self.low2.get_unchecked(n - 6)
                 + *v.get_unchecked(n - 8) * *self.low4.get_unchecked(n - 8);
-            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 6)
+            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                 + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);
             *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4)
                 + *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
-- 
2.43.0


From 4d7ff245d4cbfdc3b2df6ad7ce5e0a923453fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 03/12] fix: FourierC2c gradient ignored the sign and offset of
 negative wavenumbers

---
 src/fourier/c2c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index f4d50e2..b36f57c 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -238,7 +238,7 @@ where
                 *y = *y * ki;
             }
             for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
-                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
+                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                 *y = *y * ki;
             }
         }
-- 
2.43.0


From 21e3821c78877ba73b7f038dfa1a2f782559e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 04/12] fix: approx_eq_complex accepted values that differ in
 one of real and imaginary part

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index a31bd16..13c93bf 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -30,7 +30,7 @@ where
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in vec_a.iter().zip(vec_b.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
@@ -76,7 +76,7 @@ pub fn approx_eq_complex_ndarray<A, S, D>(
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in expected.iter().zip(result.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
-- 
2.43.0


From d6ba6614a0e41d8cb9a143c0566349498cfb7856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 05/12] fix: Space3 gradient differentiated the third axis with
 the second base

---
 src/space/space3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/space/space3.rs b/src/space/space3.rs
index eb9fe97..e814b48 100644
--- a/src/space/space3.rs
+++ b/src/space/space3.rs
@@ -284,7 +284,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
@@ -314,7 +314,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient_par(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient_par(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient_par(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient_par(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
-- 
2.43.0


From 6e986b436efad4b788aee82c3e0d609476f5b7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 06/12] fix: Fourier nodes returned one point too many for some
 sizes

---
 src/fourier/c2c.rs | 6 +++---
 src/fourier/r2c.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index b36f57c..d9d66c5 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -47,9 +47,9 @@ impl<A: FloatNum> FourierC2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|k| A::from_f64(2. * PI * k as f64 / n64).unwrap())
+            .collect()
     }
 
     /// Return complex wavenumber vector(0, 1, 2, -3, -2, -1)
diff --git a/src/fourier/r2c.rs b/src/fourier/r2c.rs
index 7687856..6141990 100644
--- a/src/fourier/r2c.rs
+++ b/src/fourier/r2c.rs
@@ -48,9 +48,9 @@ impl<A: FloatNum> FourierR2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|k| A::from_f64(2. * PI * k as f64 / n64).unwrap())
+            .collect()
     }
 
     /// Return complex wavenumber vector for r2c transform (0, 1, 2, 3)
-- 
2.43.0


From b3c87cc6e171df04e9b7163af5fe632c87b558e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 07/12] fix: integer overflow in the third and fourth order
 Chebyshev differentiation matrix

---
 src/chebyshev/ortho.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index c6c3648..9fa4a41 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -105,22 +105,22 @@ impl<A: FloatNum> Chebyshev<A> {
             }
         } else if deriv == 3 {
             for p in 0..n {
-                let p2 = p * p;
+                let p2 = (p * p) as i128;
                 for q in p + 3..n {
-                    let q2 = q * q;
+                    let q2 = (q * q) as i128;
                     if (p + q) % 2 != 0 {
                         dmat[[p, q]] =
-                            (q * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64 / 4.;
+                            (q as i128 * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64 / 4.;
                     }
                 }
             }
         } else if deriv == 4 {
             for p in 0..n {
-                let (p2, p4) = (p * p, p * p * p * p);
+                let (p2, p4) = ((p * p) as i128, (p * p * p * p) as i128);
                 for q in p + 4..n {
-                    let (q2, q4) = (q * q, q * q * q * q);
+                    let (q2, q4) = ((q * q) as i128, (q * q * q * q) as i128);
                     if (p + q) % 2 == 0 {
-                        dmat[[p, q]] = (q
+                        dmat[[p, q]] = (q as i128
                             * (q2 * (q2 - 4) * (q2 - 4) + 3 * q2 * p4 - p2 * p4 + 8 * p4
                                 - 16 * p2
                                 - 3 * q4 * p2)) as f64
-- 
2.43.0


From 2b4cb722ea456c6dfdbcf9111c3c6df9e2f882b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 08/12] fix: out of bounds read in the gradient of a Chebyshev
 base of size 2

---
 src/chebyshev/ortho.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index 9fa4a41..dd83ef6 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -416,8 +416,10 @@ where
                     *outdata.get_unchecked_mut(i) =
                         *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                 }
-                *outdata.get_unchecked_mut(0) =
-                    *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                if self.m > 2 {
+                    *outdata.get_unchecked_mut(0) =
+                        *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                }
             }
         }
     }
-- 
2.43.0


From 0592fbc91c1e29b8797a06f68057a9a5684e1359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 09/12] fix: composite conversions accessed memory out of
 bounds for slices of wrong length

---
 src/chebyshev/stencils/helpers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 0b9a540..21cb011 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -135,6 +135,7 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -167,6 +168,8 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
     {
         use crate::chebyshev::linalg::tdma;
         // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -229,6 +232,7 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         // assert!(Self::get_m(u.len()) == u.len());
         let n = u.len();
         unsafe {
@@ -265,6 +269,8 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
     {
         use crate::chebyshev::linalg::pdma;
         // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -383,6 +389,7 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 4);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -426,6 +433,8 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
     {
         use crate::chebyshev::linalg::pdma2;
         // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 4);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
-- 
2.43.0


From da829be1e0029e2204d0929b3f074a823f456900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 10/12] fix: Chebyshev pseudo-inverse panicked for the smallest
 sizes

---
 src/chebyshev/ortho.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index dd83ef6..ccb812d 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -166,7 +166,7 @@ impl<A: FloatNum> Chebyshev<A> {
             for i in 2..n {
                 pinv[[i, i - 1]] = 1. / (2. * i as f64); // diag - 1
             }
-            for i in 1..n - 2 {
+            for i in 1..n.saturating_sub(2) {
                 pinv[[i, i + 1]] = -1. / (2. * i as f64); // diag + 1
             }
         } else if deriv == 2 {
@@ -174,10 +174,10 @@ impl<A: FloatNum> Chebyshev<A> {
             for i in 3..n {
                 pinv[[i, i - 2]] = 1. / (4 * i * (i - 1)) as f64; // diag - 2
             }
-            for i in 2..n - 2 {
+            for i in 2..n.saturating_sub(2) {
                 pinv[[i, i]] = -1. / (2 * (i * i - 1)) as f64; // diag 0
             }
-            for i in 2..n - 4 {
+            for i in 2..n.saturating_sub(4) {
                 pinv[[i, i + 2]] = 1. / (4 * i * (i + 1)) as f64; // diag + 2
             }
         } else if deriv == 3 {
@@ -188,17 +188,17 @@ impl<A: FloatNum> Chebyshev<A> {
             }
             pinv[[3, 0]] *= 2.;
             // diag - 1
-            for i in 3..n - 2 {
+            for i in 3..n.saturating_sub(2) {
                 let d = 8 * (i + 1) * (i - 2) * i;
                 pinv[[i, i - 1]] = -3. / d as f64;
             }
             // diag + 1
-            for i in 3..n - 4 {
+            for i in 3..n.saturating_sub(4) {
                 let d = 8 * (i - 1) * (i + 2) * i;
                 pinv[[i, i + 1]] = 3. / d as f64;
             }
             // diag + 3
-            for i in 3..n - 6 {
+            for i in 3..n.saturating_sub(6) {
                 let d = 8 * i * (i + 1) * (i + 2);
                 pinv[[i, i + 3]] = -1. / d as f64;
             }
@@ -210,22 +210,22 @@ impl<A: FloatNum> Chebyshev<A> {
             }
             pinv[[4, 0]] *= 2.;
             // diag - 2
-            for i in 4..n - 2 {
+            for i in 4..n.saturating_sub(2) {
                 let d = 4 * (i - 3) * (i - 1) * i * (i + 1);
                 pinv[[i, i - 2]] = -1. / d as f64;
             }
             // diag + 0
-            for i in 4..n - 4 {
+            for i in 4..n.saturating_sub(4) {
                 let d = 8 * (i - 2) * (i - 1) * (i + 1) * (i + 2);
                 pinv[[i, i]] = 3. / d as f64;
             }
             // diag + 2
-            for i in 4..n - 6 {
+            for i in 4..n.saturating_sub(6) {
                 let d = 4 * (i - 1) * i * (i + 1) * (i + 3);
                 pinv[[i, i + 2]] = -1. / d as f64;
             }
             // diag + 4
-            for i in 4..n - 8 {
+            for i in 4..n.saturating_sub(8) {
                 let d = 16 * i * (i + 1) * (i + 2) * (i + 3);
                 pinv[[i, i + 4]] = 1. / d as f64;
             }
-- 
2.43.0


From e134ca97a39da0f4702954a11a9cc0b1120adece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 11/12] fix: allocating to_ortho of spaces had an unsatisfiable
 trait bound

---
 src/space/traits.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/space/traits.rs b/src/space/traits.rs
index 73808bf..16d0467 100644
--- a/src/space/traits.rs
+++ b/src/space/traits.rs
@@ -143,7 +143,6 @@ where
     fn to_ortho<S>(&self, input: &ArrayBase<S, Dim<[usize; N]>>) -> Array<T, Dim<[usize; N]>>
     where
         S: Data<Elem = T>,
-        [usize; N]: Dimension,
     {
         let mut output = self.ndarray_from_shape::<T>(self.shape_spectral_ortho());
         self.to_ortho_inplace(input, &mut output);
-- 
2.43.0


From 49597742a9604a3c0886af8d96bf494c4515460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 12/12] fix: biharmonic stencil product read past the end of
 its arguments in the last two rows

---
 src/chebyshev/stencils/helpers.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 21cb011..579d4df 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -407,10 +407,8 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
                 + *v.get_unchecked(n - 8) * *self.low4.get_unchecked(n - 8);
             *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                 + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);
-            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4)
-                + *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
-            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3)
-                + *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
+            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
+            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
         }
     }
 
-- 
2.43.0

