From 1b8aa6e024e060642a9728d7e6508cc4c85c7f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 01/20] fix: interpn_alloc returns an error instead of
 panicking when given no coordinate arrays

---
 src/multicubic/rectilinear.rs            | 2 +-
 src/multicubic/rectilinear_recursive.rs  | 2 +-
 src/multicubic/regular.rs                | 2 +-
 src/multicubic/regular_recursive.rs      | 2 +-
 src/multilinear/rectilinear.rs           | 2 +-
 src/multilinear/rectilinear_recursive.rs | 2 +-
 src/multilinear/regular.rs               | 2 +-
 src/multilinear/regular_recursive.rs     | 2 +-
 src/nearest/rectilinear.rs               | 2 +-
 src/nearest/regular.rs                   | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 3350e56..e47740c 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -114,7 +114,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index 79ac128..33bcd23 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -90,7 +90,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index b4807fb..db970c8 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -148,7 +148,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(
         dims,
         starts,
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 332ffdb..9eba4d8 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -143,7 +143,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(
         dims,
         starts,
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index 00c2a84..a6db548 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -92,7 +92,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index a2f7a8e..6eb7594 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -77,7 +77,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index c83b1af..dc00a58 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -128,7 +128,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 05890bf..e8afb48 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -91,7 +91,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index c3e2fc1..5f61edd 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -75,7 +75,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index a8fdc21..9176752 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -112,7 +112,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
-- 
2.43.0


From fa128614f995a3470db35024a1e34f345b79db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 02/20] fix: reject grids whose total size overflows instead of
 panicking

---
 src/multicubic/rectilinear.rs            | 5 ++++-
 src/multicubic/rectilinear_recursive.rs  | 5 ++++-
 src/multicubic/regular.rs                | 5 ++++-
 src/multicubic/regular_recursive.rs      | 5 ++++-
 src/multilinear/rectilinear.rs           | 5 ++++-
 src/multilinear/rectilinear_recursive.rs | 5 ++++-
 src/multilinear/regular.rs               | 5 ++++-
 src/multilinear/regular_recursive.rs     | 5 ++++-
 src/nearest/rectilinear.rs               | 5 ++++-
 src/nearest/regular.rs                   | 5 ++++-
 10 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index e47740c..d13a18f 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -204,7 +204,10 @@ impl<'a, T: Float, const N: usize> MulticubicRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index 33bcd23..c172024 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -175,7 +175,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
         let ndims = grids.len();
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = dims[..ndims]
+            .iter()
+            .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
+            .ok_or("Dimension mismatch")?;
         if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index db970c8..57b829f 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -250,7 +250,10 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
                 "Flattened method defined for 1-5 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == N && steps.len() == N && vals.len() == nvals && N > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 9eba4d8..da930c8 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -242,7 +242,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index a6db548..1e4398c 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -182,7 +182,10 @@ impl<'a, T: Float, const N: usize> MultilinearRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = dims[..N]
+            .iter()
+            .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index 6eb7594..cbcdde6 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -162,7 +162,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
         let ndims = grids.len();
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = dims[..ndims]
+            .iter()
+            .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
+            .ok_or("Dimension mismatch")?;
         if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index dc00a58..77e172c 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -235,7 +235,10 @@ impl<'a, T: Float, const N: usize> MultilinearRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index e8afb48..9012a61 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -196,7 +196,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index 5f61edd..a360249 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -131,7 +131,10 @@ impl<'a, T: Float, const N: usize> NearestRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = dims[..N]
+            .iter()
+            .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index 9176752..55e9439 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -173,7 +173,10 @@ impl<'a, T: Float, const N: usize> NearestRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
-- 
2.43.0


From 3797c193fe740c0b7ddaf6d72778a158e0fd10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 03/20] fix: recursive interpolators reject more dimensions
 than MAXDIMS instead of panicking

---
 src/multicubic/rectilinear_recursive.rs  | 3 +++
 src/multicubic/regular_recursive.rs      | 7 ++++++-
 src/multilinear/rectilinear_recursive.rs | 3 +++
 src/multilinear/regular_recursive.rs     | 7 ++++++-
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index c172024..b67cbf1 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -173,6 +173,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals = dims[..ndims]
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index da930c8..e20d34d 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -246,7 +246,12 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
             .iter()
             .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
             .ok_or("Dimension mismatch")?;
-        if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
+        if !(starts.len() == ndims
+            && steps.len() == ndims
+            && vals.len() == nvals
+            && ndims > 0
+            && ndims <= MAXDIMS)
+        {
             return Err("Dimension mismatch");
         }
 
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index cbcdde6..ac7acda 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -160,6 +160,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
     pub fn new(grids: &'a [&'a [T]], vals: &'a [T]) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals = dims[..ndims]
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 9012a61..7032e81 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -200,7 +200,12 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
             .iter()
             .try_fold(1_usize, |acc, &x| acc.checked_mul(x))
             .ok_or("Dimension mismatch")?;
-        if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
+        if !(starts.len() == ndims
+            && steps.len() == ndims
+            && vals.len() == nvals
+            && ndims > 0
+            && ndims <= MAXDIMS)
+        {
             return Err("Dimension mismatch");
         }
         // Make sure all dimensions have at least four entries
-- 
2.43.0


From e14b62491085b035ef81d530247ba1a11fb26b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 04/20] fix: multicubic interpn returns an error instead of
 panicking on mismatched lengths

---
 src/multicubic/rectilinear.rs | 4 ++++
 src/multicubic/regular.rs     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index d13a18f..1a2c5fa 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -62,6 +62,10 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = grids.len();
+    if obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
+
     match ndims {
         1 => MulticubicRectilinear::<'_, T, 1>::new(
             grids.try_into().unwrap(),
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index 57b829f..ec0153f 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -62,6 +62,10 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = dims.len();
+    if starts.len() != ndims || steps.len() != ndims || obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
+
     match ndims {
         1 => MulticubicRegular::<'_, T, 1>::new(
             dims.try_into().unwrap(),
-- 
2.43.0


From 84f7f33745956cdf96b08f54664b5ed6ee44fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 05/20] fix: regular check_bounds rejects mismatched lengths
 and empty axes instead of panicking

---
 src/multilinear/regular.rs           | 7 ++++++-
 src/multilinear/regular_recursive.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index 77e172c..64fc51e 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -151,7 +151,12 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let n = dims.len();
-    if !(obs.len() == n && out.len() == n) {
+    if !(obs.len() == n
+        && out.len() == n
+        && starts.len() == n
+        && steps.len() == n
+        && (0..n).all(|i| dims[i] > 0))
+    {
         return Err("Dimension mismatch");
     }
 
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 7032e81..9f4e05c 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -114,7 +114,12 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let ndims = dims.len();
-    if !(obs.len() == ndims && out.len() == ndims) {
+    if !(obs.len() == ndims
+        && out.len() == ndims
+        && starts.len() == ndims
+        && steps.len() == ndims
+        && (0..ndims).all(|i| dims[i] > 0))
+    {
         return Err("Dimension mismatch");
     }
 
-- 
2.43.0


From aa81edbef5345112655ac8fa8dac284a724142a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 06/20] fix: check_bounds does not flag points exactly on the
 edge of the grid at zero tolerance

---
 src/multilinear/rectilinear.rs           | 2 +-
 src/multilinear/rectilinear_recursive.rs | 2 +-
 src/multilinear/regular.rs               | 2 +-
 src/multilinear/regular_recursive.rs     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index 1e4398c..c0f4527 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -123,7 +123,7 @@ pub fn check_bounds<T: Float>(
             Some(&hi) => {
                 let bad = obs[i]
                     .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                    .any(|&x| (x - lo) < -atol || (x - hi) > atol);
 
                 out[i] = bad;
             }
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index ac7acda..8b50c07 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -108,7 +108,7 @@ pub fn check_bounds<T: Float>(
             Some(&hi) => {
                 let bad = obs[i]
                     .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                    .any(|&x| (x - lo) < -atol || (x - hi) > atol);
 
                 out[i] = bad;
             }
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index 64fc51e..546a08b 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -172,7 +172,7 @@ pub fn check_bounds<T: Float>(
 
                 let bad = obs[i]
                     .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                    .any(|&x| (x - lo) < -atol || (x - hi) > atol);
                 out[i] = bad;
             }
             // Passing an unrepresentable number in isn't, strictly speaking, an error
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 9f4e05c..f5f84d4 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -135,7 +135,7 @@ pub fn check_bounds<T: Float>(
 
                 let bad = obs[i]
                     .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                    .any(|&x| (x - lo) < -atol || (x - hi) > atol);
                 out[i] = bad;
             }
             // Passing an unrepresentable number in isn't, strictly speaking, an error
-- 
2.43.0


From eae8f319d0977e6c93ae5a56925a0d6e99e9724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 07/20] fix: multicubic regular does not overflow at the lowest
 representable cell index

---
 src/multicubic/regular.rs           | 4 +++-
 src/multicubic/regular_recursive.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index ec0153f..7f2583f 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -442,7 +442,9 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index e20d34d..67f5893 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -397,7 +397,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
-- 
2.43.0


From 8ef6c094cc809eee3f3a5a3bc29e5b80dd43d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 08/20] fix: nearest and 1-D interpolators on rectilinear grids
 return an error for NaN coordinates

---
 src/nearest/rectilinear.rs | 5 +++++
 src/one_dim/mod.rs         | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index a360249..570470e 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -251,6 +251,11 @@ impl<'a, T: Float, const N: usize> NearestRectilinear<'a, T, N> {
     fn get_loc(&self, v: T, dim: usize) -> Result<usize, &'static str> {
         let grid = self.grids[dim];
 
+        // A NaN coordinate has no location on the grid
+        if v.is_nan() {
+            return Err("Unrepresentable coordinate value");
+        }
+
         // Bisection search to find location on the grid.
         //
         // The search will return `0` if the point is outside-low,
diff --git a/src/one_dim/mod.rs b/src/one_dim/mod.rs
index 9a35f94..7f42394 100644
--- a/src/one_dim/mod.rs
+++ b/src/one_dim/mod.rs
@@ -155,6 +155,11 @@ impl<'a, T: Float> RectilinearGrid1D<'a, T> {
 
     #[inline]
     pub fn index(&self, loc: T) -> Result<(usize, Extrap), &'static str> {
+        // A NaN coordinate has no location on the grid
+        if loc.is_nan() {
+            return Err("Unrepresentable number");
+        }
+
         let i = ((self.grid.partition_point(|v| v < &loc) as isize - 1).max(0) as usize)
             .min(self.grid.len() - 2);
 
-- 
2.43.0


From ede4045c5c00e858814bbc299ab5f4ccd618f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 09/20] fix: Left1D and Right1D return the value stored at a
 grid point exactly at that grid point

---
 src/one_dim/hold.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/one_dim/hold.rs b/src/one_dim/hold.rs
index cb969d0..65915ff 100644
--- a/src/one_dim/hold.rs
+++ b/src/one_dim/hold.rs
@@ -25,13 +25,15 @@ where
         let GridSample {
             x0: _,
             y0,
-            x1: _,
+            x1,
             y1,
             extrap,
         } = self.grid.at(loc)?;
 
         let v = match extrap {
             Extrap::OutsideHigh => y1,
+            // Exactly at the next grid point
+            _ if loc >= x1 => y1,
             _ => y0,
         };
 
@@ -58,7 +60,7 @@ where
     #[inline]
     fn eval_one(&self, loc: T) -> Result<T, &'static str> {
         let GridSample {
-            x0: _,
+            x0,
             y0,
             x1: _,
             y1,
@@ -67,6 +69,8 @@ where
 
         let v = match extrap {
             Extrap::OutsideLow => y0,
+            // Exactly at the previous grid point
+            _ if loc <= x0 => y0,
             _ => y1,
         };
 
-- 
2.43.0


From bb525417126bf2e2ad3f124ff82c036988839773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 10/20] fix: 1-D grids reject too few points and non-increasing
 coordinates instead of panicking or misbehaving

---
 src/one_dim/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/one_dim/mod.rs b/src/one_dim/mod.rs
index 7f42394..0d4dbff 100644
--- a/src/one_dim/mod.rs
+++ b/src/one_dim/mod.rs
@@ -84,6 +84,13 @@ pub struct RegularGrid1D<'a, T: Float> {
 
 impl<'a, T: Float> RegularGrid1D<'a, T> {
     pub fn new(start: T, step: T, vals: &'a [T]) -> Result<Self, &'static str> {
+        if vals.len() < 2 {
+            return Err("Length mismatch");
+        }
+        if !(step > T::zero()) {
+            return Err("All grids must be monotonically increasing");
+        }
+
         let stop =
             start + step * <T as NumCast>::from(vals.len() - 1).ok_or("Unrepresentable number")?;
         Ok(Self {
@@ -149,6 +156,9 @@ impl<'a, T: Float> RectilinearGrid1D<'a, T> {
         if grid.len() != vals.len() || grid.len() < 2 {
             return Err("Length mismatch");
         }
+        if !(grid[1] > grid[0]) {
+            return Err("All grids must be monotonically increasing");
+        }
 
         Ok(Self { grid, vals })
     }
-- 
2.43.0


From 0e1e41a397130ac983dd00c2af436d000341d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 11/20] fix: linspace returns the requested number of points
 for n = 0 and n = 1

---
 src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 366f5a3..b9a55f1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,6 +9,9 @@ pub fn linspace<T>(start: T, stop: T, n: usize) -> Vec<T>
 where
     T: Float,
 {
+    if n < 2 {
+        return vec![start; n];
+    }
     let dx: T = (stop - start) / T::from(n - 1).unwrap();
     (0..n).map(|i| start + T::from(i).unwrap() * dx).collect()
 }
-- 
2.43.0


From f231ca86cbd763e9e6c6ce8333cbb9aa703ef2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 12/20] fix: Nearest1D returns the last value far above the
 grid

---
 src/one_dim/hold.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/one_dim/hold.rs b/src/one_dim/hold.rs
index 65915ff..7b248ce 100644
--- a/src/one_dim/hold.rs
+++ b/src/one_dim/hold.rs
@@ -97,14 +97,25 @@ where
 {
     #[inline]
     fn eval_one(&self, loc: T) -> Result<T, &'static str> {
-        let GridSample { x0, y0, x1, y1, .. } = self.grid.at(loc)?;
+        let GridSample {
+            x0,
+            y0,
+            x1,
+            y1,
+            extrap,
+        } = self.grid.at(loc)?;
 
         let dx0 = (loc - x0).abs();
         let dx1 = (loc - x1).abs();
 
-        let v = match dx1 >= dx0 {
-            true => y0,
-            false => y1,
+        let v = match extrap {
+            // Far outside the grid, the two distances may round to the same number
+            Extrap::OutsideLow => y0,
+            Extrap::OutsideHigh => y1,
+            Extrap::Inside => match dx1 >= dx0 {
+                true => y0,
+                false => y1,
+            },
         };
 
         Ok(v)
-- 
2.43.0


From 34a8e04bb8b884395faaf0322b79df0771f9ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 13/20] fix: python interpn writes to and returns the supplied
 output array

---
 src/interpn/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index cefa6c4..c081b18 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -83,9 +83,8 @@ def interpn(
         Interpolated values
     """
     # Allocate for the output if it is not supplied
-    out = out or np.zeros_like(obs[0])
-    outshape = out.shape
-    out = out.ravel()  # Flat view without reallocating
+    result = out if out is not None else np.zeros_like(obs[0])
+    out = result.ravel()  # Flat view, reallocating only if not contiguous
 
     # Ensure contiguous and flat, reallocating only if necessary
     obs = [np.ascontiguousarray(x.ravel()) for x in obs]
@@ -191,7 +190,11 @@ def interpn(
                 f" {dtype}, {is_regular}, {method}"
             )
 
-    return out.reshape(outshape)
+    # Copy back if the output could not be viewed as a flat array
+    if not np.may_share_memory(out, result):
+        result[...] = out.reshape(result.shape)
+
+    return result
 
 
 def _check_regular(grids: Sequence[NDArray]) -> bool:
-- 
2.43.0


From 0ee80bdf08a275846157d7fd4237264b8e06c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 14/20] fix: python interpn checks bounds on any number of
 dimensions

---
 src/interpn/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index c081b18..90c9188 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -112,7 +112,7 @@ def interpn(
 
     # Check bounds
     if check_bounds:
-        outb = np.zeros_like(out.shape, dtype=bool)
+        outb = np.zeros(len(grids), dtype=bool)
         match (dtype, is_regular):
             case (np.float32, True):
                 raw.check_bounds_regular_f32(
-- 
2.43.0


From 7d1d31f8b323adb0941a9197af3b130dfce60d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 15/20] fix: python regular interpolators reject grid starts of
 a different data type

---
 src/interpn/multicubic_regular.py  | 2 +-
 src/interpn/multilinear_regular.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpn/multicubic_regular.py b/src/interpn/multicubic_regular.py
index 3e4ed67..236f2a0 100644
--- a/src/interpn/multicubic_regular.py
+++ b/src/interpn/multicubic_regular.py
@@ -107,7 +107,7 @@ class MulticubicRegular(BaseModel):
             "All grid steps must be positive and nonzero"
         )
         assert all(
-            [x.data.dtype == self.vals.data.dtype for x in [self.steps, self.vals]]
+            [x.data.dtype == self.vals.data.dtype for x in [self.starts, self.steps]]
         ), "All grid inputs must be of the same data type (np.float32 or np.float64)"
         assert all(
             [x.data.data.contiguous for x in [self.starts, self.steps, self.vals]]
diff --git a/src/interpn/multilinear_regular.py b/src/interpn/multilinear_regular.py
index 9fecf4a..045c687 100644
--- a/src/interpn/multilinear_regular.py
+++ b/src/interpn/multilinear_regular.py
@@ -87,7 +87,7 @@ class MultilinearRegular(BaseModel):
             "All grid steps must be positive and nonzero"
         )
         assert all(
-            [x.data.dtype == self.vals.data.dtype for x in [self.steps, self.vals]]
+            [x.data.dtype == self.vals.data.dtype for x in [self.starts, self.steps]]
         ), "All grid inputs must be of the same data type (np.float32 or np.float64)"
         assert all(
             [x.data.data.contiguous for x in [self.starts, self.steps, self.vals]]
-- 
2.43.0


From 79323e1ff282f48ec47e2ddaa80aef1b48904ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 16/20] fix: python rectilinear interpolators flatten their
 grids in new

---
 src/interpn/multicubic_rectilinear.py  | 2 +-
 src/interpn/multilinear_rectilinear.py | 2 +-
 src/interpn/nearest_rectilinear.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/interpn/multicubic_rectilinear.py b/src/interpn/multicubic_rectilinear.py
index b43f319..47da82a 100644
--- a/src/interpn/multicubic_rectilinear.py
+++ b/src/interpn/multicubic_rectilinear.py
@@ -73,7 +73,7 @@ class MulticubicRectilinear(BaseModel):
         dtype = vals.dtype
         arrtype = ArrayF64 if dtype == np.float64 else ArrayF32
         interpolator = MulticubicRectilinear(
-            grids=[arrtype(data=x) for x in grids],
+            grids=[arrtype(data=x.flatten()) for x in grids],
             vals=arrtype(data=vals.flatten()),
             linearize_extrapolation=linearize_extrapolation,
         )
diff --git a/src/interpn/multilinear_rectilinear.py b/src/interpn/multilinear_rectilinear.py
index d8ede0e..01b9e2f 100644
--- a/src/interpn/multilinear_rectilinear.py
+++ b/src/interpn/multilinear_rectilinear.py
@@ -57,7 +57,7 @@ class MultilinearRectilinear(BaseModel):
         dtype = vals.dtype
         arrtype = ArrayF64 if dtype == np.float64 else ArrayF32
         interpolator = MultilinearRectilinear(
-            grids=[arrtype(data=x) for x in grids],
+            grids=[arrtype(data=x.flatten()) for x in grids],
             vals=arrtype(data=vals.flatten()),
         )
 
diff --git a/src/interpn/nearest_rectilinear.py b/src/interpn/nearest_rectilinear.py
index 7a01a27..f2cdb13 100644
--- a/src/interpn/nearest_rectilinear.py
+++ b/src/interpn/nearest_rectilinear.py
@@ -56,7 +56,7 @@ class NearestRectilinear(BaseModel):
         dtype = vals.dtype
         arrtype = ArrayF64 if dtype == np.float64 else ArrayF32
         interpolator = NearestRectilinear(
-            grids=[arrtype(data=x) for x in grids],
+            grids=[arrtype(data=x.flatten()) for x in grids],
             vals=arrtype(data=vals.flatten()),
         )
 
-- 
2.43.0


From 09db112029db567d6d8397587473271bf0116ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 17/20] fix: python bindings raise an error instead of
 panicking on more than 8 arrays

---
 src/python.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python.rs b/src/python.rs
index 165d684..937c485 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -45,6 +45,11 @@ macro_rules! unpack_vec_of_arr {
         let dummy = [0.0; 0];
         let mut _arr: [&[$T]; MAXDIMS] = [&dummy[..]; MAXDIMS];
         let n = $inname.len();
+        if n > MAXDIMS {
+            return Err(exceptions::PyAssertionError::new_err(
+                "Dimension exceeds maximum",
+            ));
+        }
         for i in 0..n {
             _arr[i] = $inname[i].as_slice()?;
         }
-- 
2.43.0


From 6e920e009cea3cd232e6c9cbd5363ca9964cad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 18/20] fix: python bindings raise an error instead of
 panicking on read-only or overlapping outputs

---
 src/python.rs | 107 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 73 insertions(+), 34 deletions(-)

diff --git a/src/python.rs b/src/python.rs
index 937c485..224acd7 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -1,4 +1,5 @@
 use numpy::borrow::{PyReadonlyArray1, PyReadwriteArray1};
+use numpy::{Element, PyArray1, PyArrayMethods};
 use pyo3::exceptions;
 use pyo3::prelude::*;
 
@@ -38,6 +39,44 @@ fn interpn<'py>(_py: Python, m: &Bound<'py, PyModule>) -> PyResult<()> {
     Ok(())
 }
 
+/// Input array argument. Unlike `PyReadonlyArray1`, raises an error instead of
+/// panicking if the array can't be borrowed.
+struct ReadArray<'py, T: Element>(PyReadonlyArray1<'py, T>);
+
+impl<'py, T: Element> ReadArray<'py, T> {
+    fn as_slice(&self) -> PyResult<&[T]> {
+        Ok(self.0.as_slice()?)
+    }
+}
+
+impl<'a, 'py, T: Element> FromPyObject<'a, 'py> for ReadArray<'py, T> {
+    type Error = PyErr;
+
+    fn extract(obj: Borrowed<'a, 'py, PyAny>) -> PyResult<Self> {
+        let array = obj.cast::<PyArray1<T>>()?;
+        Ok(Self(array.try_readonly()?))
+    }
+}
+
+/// Output array argument. Unlike `PyReadwriteArray1`, raises an error instead of
+/// panicking if the array can't be borrowed, because it is read-only or overlaps an input.
+struct WriteArray<'py, T: Element>(PyReadwriteArray1<'py, T>);
+
+impl<'py, T: Element> WriteArray<'py, T> {
+    fn as_slice_mut(&mut self) -> PyResult<&mut [T]> {
+        Ok(self.0.as_slice_mut()?)
+    }
+}
+
+impl<'a, 'py, T: Element> FromPyObject<'a, 'py> for WriteArray<'py, T> {
+    type Error = PyErr;
+
+    fn extract(obj: Borrowed<'a, 'py, PyAny>) -> PyResult<Self> {
+        let array = obj.cast::<PyArray1<T>>()?;
+        Ok(Self(array.try_readwrite()?))
+    }
+}
+
 macro_rules! unpack_vec_of_arr {
     ($inname:ident, $outname:ident, $T:ty) => {
         // We need a mutable slice-of-slice,
@@ -62,11 +101,11 @@ macro_rules! interpn_linear_regular_impl {
         #[pyfunction]
         fn $funcname(
             dims: Vec<usize>, // numpy index arrays are signed; this avoids casting
-            starts: PyReadonlyArray1<$T>,
-            steps: PyReadonlyArray1<$T>,
-            vals: PyReadonlyArray1<$T>,
-            obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            starts: ReadArray<$T>,
+            steps: ReadArray<$T>,
+            vals: ReadArray<$T>,
+            obs: Vec<ReadArray<$T>>,
+            mut out: WriteArray<$T>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
 
@@ -94,11 +133,11 @@ macro_rules! check_bounds_regular_impl {
         #[pyfunction]
         fn $funcname(
             dims: Vec<usize>, // numpy index arrays are signed; this avoids casting
-            starts: PyReadonlyArray1<$T>,
-            steps: PyReadonlyArray1<$T>,
-            obs: Vec<PyReadonlyArray1<$T>>,
+            starts: ReadArray<$T>,
+            steps: ReadArray<$T>,
+            obs: Vec<ReadArray<$T>>,
             atol: $T,
-            mut out: PyReadwriteArray1<bool>,
+            mut out: WriteArray<bool>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
 
@@ -125,10 +164,10 @@ macro_rules! interpn_linear_rectilinear_impl {
     ($funcname:ident, $T:ty) => {
         #[pyfunction]
         fn $funcname(
-            grids: Vec<PyReadonlyArray1<$T>>,
-            vals: PyReadonlyArray1<$T>,
-            obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            grids: Vec<ReadArray<$T>>,
+            vals: ReadArray<$T>,
+            obs: Vec<ReadArray<$T>>,
+            mut out: WriteArray<$T>,
         ) -> PyResult<()> {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
@@ -156,11 +195,11 @@ macro_rules! interpn_nearest_regular_impl {
         #[pyfunction]
         fn $funcname(
             dims: Vec<usize>,
-            starts: PyReadonlyArray1<$T>,
-            steps: PyReadonlyArray1<$T>,
-            vals: PyReadonlyArray1<$T>,
-            obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            starts: ReadArray<$T>,
+            steps: ReadArray<$T>,
+            vals: ReadArray<$T>,
+            obs: Vec<ReadArray<$T>>,
+            mut out: WriteArray<$T>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
 
@@ -186,10 +225,10 @@ macro_rules! interpn_nearest_rectilinear_impl {
     ($funcname:ident, $T:ty) => {
         #[pyfunction]
         fn $funcname(
-            grids: Vec<PyReadonlyArray1<$T>>,
-            vals: PyReadonlyArray1<$T>,
-            obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            grids: Vec<ReadArray<$T>>,
+            vals: ReadArray<$T>,
+            obs: Vec<ReadArray<$T>>,
+            mut out: WriteArray<$T>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
@@ -209,10 +248,10 @@ macro_rules! check_bounds_rectilinear_impl {
     ($funcname:ident, $T:ty) => {
         #[pyfunction]
         fn $funcname(
-            grids: Vec<PyReadonlyArray1<$T>>,
-            obs: Vec<PyReadonlyArray1<$T>>,
+            grids: Vec<ReadArray<$T>>,
+            obs: Vec<ReadArray<$T>>,
             atol: $T,
-            mut out: PyReadwriteArray1<bool>,
+            mut out: WriteArray<bool>,
         ) -> PyResult<()> {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
@@ -235,12 +274,12 @@ macro_rules! interpn_cubic_regular_impl {
         #[pyfunction]
         fn $funcname(
             dims: Vec<usize>, // numpy index arrays are signed; this avoids casting
-            starts: PyReadonlyArray1<$T>,
-            steps: PyReadonlyArray1<$T>,
-            vals: PyReadonlyArray1<$T>,
+            starts: ReadArray<$T>,
+            steps: ReadArray<$T>,
+            vals: ReadArray<$T>,
             linearize_extrapolation: bool,
-            obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            obs: Vec<ReadArray<$T>>,
+            mut out: WriteArray<$T>,
         ) -> PyResult<()> {
             unpack_vec_of_arr!(obs, obs, $T);
 
@@ -268,11 +307,11 @@ macro_rules! interpn_cubic_rectilinear_impl {
     ($funcname:ident, $T:ty) => {
         #[pyfunction]
         fn $funcname(
-            grids: Vec<PyReadonlyArray1<$T>>,
-            vals: PyReadonlyArray1<$T>,
+            grids: Vec<ReadArray<$T>>,
+            vals: ReadArray<$T>,
             linearize_extrapolation: bool,
-            obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            obs: Vec<ReadArray<$T>>,
+            mut out: WriteArray<$T>,
         ) -> PyResult<()> {
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
-- 
2.43.0


From 6b4ba80c03c25f6e329f0734b9d4201df11a6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 19/20] fix: python bindings raise an error instead of aborting
 on misaligned arrays

---
 src/python.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/python.rs b/src/python.rs
index 224acd7..d2b8ec8 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -39,6 +39,17 @@ fn interpn<'py>(_py: Python, m: &Bound<'py, PyModule>) -> PyResult<()> {
     Ok(())
 }
 
+/// Slices can't be taken over misaligned data
+fn check_aligned<T: Element>(array: &Bound<'_, PyArray1<T>>) -> PyResult<()> {
+    if array.data().is_aligned() {
+        Ok(())
+    } else {
+        Err(exceptions::PyValueError::new_err(
+            "The given array is not aligned",
+        ))
+    }
+}
+
 /// Input array argument. Unlike `PyReadonlyArray1`, raises an error instead of
 /// panicking if the array can't be borrowed.
 struct ReadArray<'py, T: Element>(PyReadonlyArray1<'py, T>);
@@ -54,6 +65,7 @@ impl<'a, 'py, T: Element> FromPyObject<'a, 'py> for ReadArray<'py, T> {
 
     fn extract(obj: Borrowed<'a, 'py, PyAny>) -> PyResult<Self> {
         let array = obj.cast::<PyArray1<T>>()?;
+        check_aligned(&array)?;
         Ok(Self(array.try_readonly()?))
     }
 }
@@ -73,6 +85,7 @@ impl<'a, 'py, T: Element> FromPyObject<'a, 'py> for WriteArray<'py, T> {
 
     fn extract(obj: Borrowed<'a, 'py, PyAny>) -> PyResult<Self> {
         let array = obj.cast::<PyArray1<T>>()?;
+        check_aligned(&array)?;
         Ok(Self(array.try_readwrite()?))
     }
 }
-- 
2.43.0


From 670b13a556094aace7564501d7e44823edd1edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:23 +0000
Subject: [PATCH 20/20] fix: python interpn checks bounds against the supplied
 grid coordinates

---
 src/interpn/__init__.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index 90c9188..8018cba 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -113,19 +113,12 @@ def interpn(
     # Check bounds
     if check_bounds:
         outb = np.zeros(len(grids), dtype=bool)
-        match (dtype, is_regular):
-            case (np.float32, True):
-                raw.check_bounds_regular_f32(
-                    dims, starts, steps, obs, atol=bounds_atol, out=outb
-                )
-            case (np.float64, True):
-                raw.check_bounds_regular_f64(
-                    dims, starts, steps, obs, atol=bounds_atol, out=outb
-                )
-            case (np.float32, False):
-                raw.check_bounds_rectilinear_f32(grids, obs, atol=bounds_atol, out=outb)
-            case (np.float64, False):
-                raw.check_bounds_rectilinear_f64(grids, obs, atol=bounds_atol, out=outb)
+        # Compare with the grid coordinates as supplied, not with a last coordinate
+        # recovered from the step size, which can differ from it by roundoff
+        if dtype == np.float32:
+            raw.check_bounds_rectilinear_f32(grids, obs, atol=bounds_atol, out=outb)
+        else:
+            raw.check_bounds_rectilinear_f64(grids, obs, atol=bounds_atol, out=outb)
 
         if any(outb):
             raise ValueError("Observation points violate interpolator bounds")
-- 
2.43.0

