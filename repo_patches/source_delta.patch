From d5a38c38f7fa59c42481af2948f4090dc9464723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 1/7] fix: validate FiniteAboveNegOneF64 when deserializing
 with serde

The derived Deserialize impl wrote the inner f64 directly, so NaN, infinite
and <= -1.0 values could be deserialized into the type.
---
 src/data_api.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data_api.rs b/src/data_api.rs
index 5ba1fd3..1f3e60f 100644
--- a/src/data_api.rs
+++ b/src/data_api.rs
@@ -23,7 +23,11 @@ pub type Node = f64;
 pub type Weight = f64;
 
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
-#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(serde::Serialize, serde::Deserialize),
+    serde(try_from = "f64", into = "f64")
+)]
 #[cfg_attr(
     feature = "rkyv",
     derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
-- 
2.43.0


From 141303e5d7f2fa69b23449ed723ef75e3cc1f51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 2/7] fix: do not wrap the node range at the largest degree

1..degree + 1 overflows for NonZeroUsize::MAX: in release builds new and
par_new returned a rule with no nodes instead of refusing the allocation.
---
 src/chebyshev/mod.rs | 10 ++++++----
 src/legendre/mod.rs  |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/chebyshev/mod.rs b/src/chebyshev/mod.rs
index b6f796a..f1345e6 100644
--- a/src/chebyshev/mod.rs
+++ b/src/chebyshev/mod.rs
@@ -51,7 +51,7 @@ impl GaussChebyshevFirstKind {
         let n = degree.get() as f64;
 
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (1..=degree.get())
                 .rev()
                 .map(|i| (cos(PI * (2.0 * (i as f64) - 1.0) / (2.0 * n)), PI / n))
                 .collect(),
@@ -72,9 +72,10 @@ impl GaussChebyshevFirstKind {
         let n = degree.get() as f64;
 
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (0..degree.get())
                 .into_par_iter()
                 .rev()
+                .map(|i| i + 1)
                 .map(|i| (cos(PI * (2.0 * (i as f64) - 1.0) / (2.0 * n)), PI / n))
                 .collect(),
         }
@@ -149,7 +150,7 @@ impl GaussChebyshevSecondKind {
         let n = degree.get() as f64;
 
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (1..=degree.get())
                 .rev()
                 .map(|i| {
                     let over_n_plus_1 = 1.0 / (n + 1.0);
@@ -169,9 +170,10 @@ impl GaussChebyshevSecondKind {
         let n = degree.get() as f64;
 
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (0..degree.get())
                 .into_par_iter()
                 .rev()
+                .map(|i| i + 1)
                 .map(|i| {
                     let over_n_plus_1 = 1.0 / (n + 1.0);
                     let sin_val = sin(PI * i as f64 * over_n_plus_1);
diff --git a/src/legendre/mod.rs b/src/legendre/mod.rs
index 085b790..cd3548f 100644
--- a/src/legendre/mod.rs
+++ b/src/legendre/mod.rs
@@ -91,7 +91,7 @@ impl GaussLegendre {
     /// complexity.
     pub fn new(degree: NonZeroUsize) -> Self {
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (1..=degree.get())
                 .rev()
                 .map(|k: usize| NodeWeightPair::new(degree.get(), k).into_tuple())
                 .collect(),
@@ -102,10 +102,10 @@ impl GaussLegendre {
     /// Same as [`new`](GaussLegendre::new) but runs in parallel.
     pub fn par_new(degree: NonZeroUsize) -> Self {
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (0..degree.get())
                 .into_par_iter()
                 .rev()
-                .map(|k| NodeWeightPair::new(degree.get(), k).into_tuple())
+                .map(|k| NodeWeightPair::new(degree.get(), k + 1).into_tuple())
                 .collect(),
         }
     }
-- 
2.43.0


From fd544a7edecbdc385bb08e78e23f7b37441b1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 3/7] fix: refuse degrees whose companion matrix cannot be
 indexed

The number of elements of the companion matrix wrapped around in release
builds for degrees of 2^32 and up, and the matrix was then written out of
bounds.
---
 src/golub_welsch.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/golub_welsch.rs b/src/golub_welsch.rs
index b54b5f3..38bdc93 100644
--- a/src/golub_welsch.rs
+++ b/src/golub_welsch.rs
@@ -29,6 +29,12 @@ where
     D: Fn(usize) -> f64,
     O: Fn(usize) -> f64,
 {
+    // nalgebra does not check that the number of matrix elements fits in a `usize`.
+    assert!(
+        degree.checked_mul(degree).is_some(),
+        "the companion matrix of a rule of degree {degree} is too large to allocate"
+    );
+
     let mut companion_matrix =
         SquareMatrix::<f64, Dyn, VecStorage<f64, Dyn, Dyn>>::zeros(degree.get(), degree.get());
 
-- 
2.43.0


From 94dc0f78e7614fe92dc326d50485b830271b7227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:36 +0000
Subject: [PATCH 4/7] fix: derive the rkyv and zerocopy traits for the rules
 that lacked them

The rkyv and zerocopy features are documented to cover the quadrature rule
structs, but GaussChebyshevSecondKind had no rkyv impls and Midpoint,
Simpson and Trapezoid had neither.
---
 src/chebyshev/mod.rs | 4 ++++
 src/midpoint/mod.rs  | 5 +++++
 src/simpson/mod.rs   | 5 +++++
 src/trapezoid/mod.rs | 5 +++++
 4 files changed, 19 insertions(+)

diff --git a/src/chebyshev/mod.rs b/src/chebyshev/mod.rs
index f1345e6..33dff04 100644
--- a/src/chebyshev/mod.rs
+++ b/src/chebyshev/mod.rs
@@ -139,6 +139,10 @@ __impl_node_weight_rule! {GaussChebyshevFirstKind, GaussChebyshevFirstKindNodes,
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 #[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct GaussChebyshevSecondKind {
     node_weight_pairs: Box<[(Node, Weight)]>,
diff --git a/src/midpoint/mod.rs b/src/midpoint/mod.rs
index 841ee2b..1ae402e 100644
--- a/src/midpoint/mod.rs
+++ b/src/midpoint/mod.rs
@@ -60,6 +60,11 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Midpoint {
     degree: NonZeroU32,
 }
diff --git a/src/simpson/mod.rs b/src/simpson/mod.rs
index 6b520a8..4e012f8 100644
--- a/src/simpson/mod.rs
+++ b/src/simpson/mod.rs
@@ -54,6 +54,11 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Simpson {
     degree: NonZeroU32,
 }
diff --git a/src/trapezoid/mod.rs b/src/trapezoid/mod.rs
index 1a47860..d7577bf 100644
--- a/src/trapezoid/mod.rs
+++ b/src/trapezoid/mod.rs
@@ -49,6 +49,11 @@ use crate::__impl_node_rule;
 /// ```
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Trapezoid {
     degree: NonZeroU32,
 }
-- 
2.43.0


From b656ebffd4ed1d4671b41396527b0662ccf115b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 5/7] fix: compute GaussJacobi rules with alpha + beta = -1

The first off-diagonal element was 0/0 and the zeroth moment was computed
as a quotient of two singular values, so every node and weight was NaN.
---
 src/jacobi/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 8e276b3..8b4322b 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -113,6 +113,11 @@ impl GaussJacobi {
                 let idx_f64 = idx as f64;
                 let idx_p1 = idx_f64 + 1.0;
                 let denom_sum = 2.0 * idx_p1 + alpha.get() + beta.get();
+                if idx == 0 {
+                    // The factor (1 + alpha + beta) cancels, and it is zero if alpha + beta = -1.
+                    return 2.0 / denom_sum
+                        * sqrt((idx_p1 + alpha.get()) * (idx_p1 + beta.get()) / (denom_sum + 1.0));
+                }
                 2.0 / denom_sum
                     * sqrt(
                         idx_p1
@@ -125,8 +130,7 @@ impl GaussJacobi {
             pow(2.0f64, alpha.get() + beta.get() + 1.0)
                 * gamma(alpha.get() + 1.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 1.0)
-                / (alpha.get() + beta.get() + 1.0),
+                / gamma(alpha.get() + beta.get() + 2.0),
         );
 
         // TO FIX: implement correction
-- 
2.43.0


From 1f70cb0e94990d33e11bcc63a876041465c8bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 6/7] fix: keep the Gauss-Jacobi weights finite for large
 asymmetric parameters

The product of the power and the gamma functions overflowed before the
division although the zeroth moment itself is representable.
---
 src/jacobi/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 8b4322b..82bebd0 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -88,9 +88,9 @@ impl GaussJacobi {
             // Special case for degree 1, since the nodes and weights are known.
             let node = (beta.get() - alpha.get()) / (alpha.get() + beta.get() + 2.0);
             let weight = pow(2.0, alpha.get() + beta.get() + 1.0)
+                / gamma(alpha.get() + beta.get() + 2.0)
                 * gamma(alpha.get() + 1.0)
-                * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 2.0);
+                * gamma(beta.get() + 1.0);
             return Self {
                 node_weight_pairs: [(node, weight)].into(),
                 alpha,
@@ -127,10 +127,9 @@ impl GaussJacobi {
                             / ((denom_sum + 1.0) * (denom_sum - 1.0)),
                     )
             },
-            pow(2.0f64, alpha.get() + beta.get() + 1.0)
+            pow(2.0f64, alpha.get() + beta.get() + 1.0) / gamma(alpha.get() + beta.get() + 2.0)
                 * gamma(alpha.get() + 1.0)
-                * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 2.0),
+                * gamma(beta.get() + 1.0),
         );
 
         // TO FIX: implement correction
-- 
2.43.0


From 60c8fc690648d27805efa9b7a01deda567594f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 7/7] fix: keep the gamma function finite up to the largest
 representable argument

---
 src/math.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index afa59e8..41b96e1 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -131,7 +131,14 @@ pub(crate) fn gamma(x: f64) -> f64 {
             .skip(1)
             .fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0));
 
-        s * TWO_SQRT_E_OVER_PI * pow((x - 0.5 + GAMMA_R) / E, x - 0.5)
+        let base = (x - 0.5 + GAMMA_R) / E;
+        if x > 160.0 {
+            // The power alone overflows before the gamma function does.
+            let root = pow(base, 0.5 * (x - 0.5));
+            return s * TWO_SQRT_E_OVER_PI * root * root;
+        }
+
+        s * TWO_SQRT_E_OVER_PI * pow(base, x - 0.5)
     }
 }
 
-- 
2.43.0

