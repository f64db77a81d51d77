From 51b798fe032b57f021b869156948c94a65860beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 01/15] fix: Left1D/Right1D return the value of a grid point
 when evaluated exactly on it

---
 src/one_dim/hold.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/one_dim/hold.rs b/src/one_dim/hold.rs
index cb969d0..98a98e9 100644
--- a/src/one_dim/hold.rs
+++ b/src/one_dim/hold.rs
@@ -25,13 +25,15 @@ where
         let GridSample {
             x0: _,
             y0,
-            x1: _,
+            x1,
             y1,
             extrap,
         } = self.grid.at(loc)?;
 
         let v = match extrap {
             Extrap::OutsideHigh => y1,
+            // Exactly on the grid point at the upper end of the cell
+            Extrap::Inside if loc >= x1 => y1,
             _ => y0,
         };
 
@@ -58,7 +60,7 @@ where
     #[inline]
     fn eval_one(&self, loc: T) -> Result<T, &'static str> {
         let GridSample {
-            x0: _,
+            x0,
             y0,
             x1: _,
             y1,
@@ -67,6 +69,8 @@ where
 
         let v = match extrap {
             Extrap::OutsideLow => y0,
+            // Exactly on the grid point at the lower end of the cell
+            Extrap::Inside if loc <= x0 => y0,
             _ => y1,
         };
 
-- 
2.43.0


From 98a4b41a9ed86283cd35c2083966d181c5563e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 02/15] fix: multicubic interpn functions return an error
 instead of panicking on mismatched lengths

---
 src/multicubic/rectilinear.rs | 3 +++
 src/multicubic/regular.rs     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 3350e56..2faeaa7 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -62,6 +62,9 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = grids.len();
+    if obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
     match ndims {
         1 => MulticubicRectilinear::<'_, T, 1>::new(
             grids.try_into().unwrap(),
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index b4807fb..2c9babf 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -62,6 +62,9 @@ pub fn interpn<T: Float>(
     // gives a substantial speedup for lower dimensionalities
     // (4-5x speedup for 1-dim compared to using N=8)
     let ndims = dims.len();
+    if starts.len() != ndims || steps.len() != ndims || obs.len() != ndims {
+        return Err("Dimension mismatch");
+    }
     match ndims {
         1 => MulticubicRegular::<'_, T, 1>::new(
             dims.try_into().unwrap(),
-- 
2.43.0


From 09487f690cd6cccd42b0d72e2475eccb71ebe35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 03/15] fix: recursive interpolators return an error instead of
 panicking above MAXDIMS dimensions

---
 src/multicubic/rectilinear_recursive.rs  | 3 +++
 src/multicubic/regular_recursive.rs      | 7 ++++++-
 src/multilinear/rectilinear_recursive.rs | 3 +++
 src/multilinear/regular_recursive.rs     | 7 ++++++-
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index 79ac128..fde1ac8 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -173,6 +173,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals: usize = dims[..ndims].iter().product();
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 332ffdb..decf9a2 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -243,7 +243,12 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
         // Check dimensions
         let ndims = dims.len();
         let nvals: usize = dims.iter().product();
-        if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
+        if !(starts.len() == ndims
+            && steps.len() == ndims
+            && vals.len() == nvals
+            && ndims > 0
+            && ndims <= MAXDIMS)
+        {
             return Err("Dimension mismatch");
         }
 
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index a2f7a8e..d58dde3 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -160,6 +160,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
     pub fn new(grids: &'a [&'a [T]], vals: &'a [T]) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = grids.len();
+        if ndims > MAXDIMS {
+            return Err("Dimension mismatch");
+        }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
         let nvals: usize = dims[..ndims].iter().product();
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 05890bf..9b2648f 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -197,7 +197,12 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
         // Check dimensions
         let ndims = dims.len();
         let nvals: usize = dims.iter().product();
-        if !(starts.len() == ndims && steps.len() == ndims && vals.len() == nvals && ndims > 0) {
+        if !(starts.len() == ndims
+            && steps.len() == ndims
+            && vals.len() == nvals
+            && ndims > 0
+            && ndims <= MAXDIMS)
+        {
             return Err("Dimension mismatch");
         }
         // Make sure all dimensions have at least four entries
-- 
2.43.0


From 04c7e3167e0a5c83f4fcef71ee75ccf0bbe31264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 04/15] fix: interpn_alloc returns an error instead of
 panicking without observation axes

---
 src/multicubic/rectilinear.rs            | 2 +-
 src/multicubic/rectilinear_recursive.rs  | 2 +-
 src/multicubic/regular.rs                | 2 +-
 src/multicubic/regular_recursive.rs      | 2 +-
 src/multilinear/rectilinear.rs           | 2 +-
 src/multilinear/rectilinear_recursive.rs | 2 +-
 src/multilinear/regular.rs               | 2 +-
 src/multilinear/regular_recursive.rs     | 2 +-
 src/nearest/rectilinear.rs               | 2 +-
 src/nearest/regular.rs                   | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 2faeaa7..5453a87 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -117,7 +117,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index fde1ac8..dce57c4 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -90,7 +90,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, linearize_extrapolation, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index 2c9babf..ccfd40b 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -151,7 +151,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(
         dims,
         starts,
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index decf9a2..ce62fbe 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -143,7 +143,7 @@ pub fn interpn_alloc<T: Float>(
     linearize_extrapolation: bool,
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(
         dims,
         starts,
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index 00c2a84..a6db548 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -92,7 +92,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index d58dde3..d9c50d5 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -77,7 +77,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index c83b1af..dc00a58 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -128,7 +128,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 9b2648f..7414828 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -91,7 +91,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index c3e2fc1..5f61edd 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -75,7 +75,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(grids, vals, obs, &mut out)?;
     Ok(out)
 }
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index a8fdc21..9176752 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -112,7 +112,7 @@ pub fn interpn_alloc<T: Float>(
     vals: &[T],
     obs: &[&[T]],
 ) -> Result<Vec<T>, &'static str> {
-    let mut out = vec![T::zero(); obs[0].len()];
+    let mut out = vec![T::zero(); obs.first().map_or(0, |x| x.len())];
     interpn(dims, starts, steps, vals, obs, &mut out)?;
     Ok(out)
 }
-- 
2.43.0


From 0a7d366cce6c2e15d456ca0c8b2871e262c9275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 05/15] fix: constructors return an error when the product of
 the grid dimensions overflows

---
 src/multicubic/rectilinear.rs            | 5 ++++-
 src/multicubic/rectilinear_recursive.rs  | 5 ++++-
 src/multicubic/regular.rs                | 5 ++++-
 src/multicubic/regular_recursive.rs      | 5 ++++-
 src/multilinear/rectilinear.rs           | 5 ++++-
 src/multilinear/rectilinear_recursive.rs | 5 ++++-
 src/multilinear/regular.rs               | 5 ++++-
 src/multilinear/regular_recursive.rs     | 5 ++++-
 src/nearest/rectilinear.rs               | 5 ++++-
 src/nearest/regular.rs                   | 5 ++++-
 10 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/multicubic/rectilinear.rs b/src/multicubic/rectilinear.rs
index 5453a87..5104198 100644
--- a/src/multicubic/rectilinear.rs
+++ b/src/multicubic/rectilinear.rs
@@ -207,7 +207,10 @@ impl<'a, T: Float, const N: usize> MulticubicRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/rectilinear_recursive.rs b/src/multicubic/rectilinear_recursive.rs
index dce57c4..949ed45 100644
--- a/src/multicubic/rectilinear_recursive.rs
+++ b/src/multicubic/rectilinear_recursive.rs
@@ -178,7 +178,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRectilinearRecursive<'a, T, M
         }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = dims[..ndims]
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index ccfd40b..fc9faef 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -253,7 +253,10 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
                 "Flattened method defined for 1-5 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == N && steps.len() == N && vals.len() == nvals && N > 0) {
             return Err("Dimension mismatch");
         }
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index ce62fbe..8db655b 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -242,7 +242,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == ndims
             && steps.len() == ndims
             && vals.len() == nvals
diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index a6db548..779d1c1 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -182,7 +182,10 @@ impl<'a, T: Float, const N: usize> MultilinearRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = dims[..N]
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index d9c50d5..d095255 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -165,7 +165,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRectilinearRecursive<'a, T,
         }
         let mut dims = [1_usize; MAXDIMS];
         (0..ndims).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..ndims].iter().product();
+        let nvals = dims[..ndims]
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if !(vals.len() == nvals && ndims > 0 && ndims <= MAXDIMS) {
             return Err("Dimension mismatch");
         };
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index dc00a58..f0c6104 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -235,7 +235,10 @@ impl<'a, T: Float, const N: usize> MultilinearRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 7414828..3b549bc 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -196,7 +196,10 @@ impl<'a, T: Float, const MAXDIMS: usize> MultilinearRegularRecursive<'a, T, MAXD
     ) -> Result<Self, &'static str> {
         // Check dimensions
         let ndims = dims.len();
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if !(starts.len() == ndims
             && steps.len() == ndims
             && vals.len() == nvals
diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index 5f61edd..8e10487 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -131,7 +131,10 @@ impl<'a, T: Float, const N: usize> NearestRectilinear<'a, T, N> {
         }
         let mut dims = [1_usize; N];
         (0..N).for_each(|i| dims[i] = grids[i].len());
-        let nvals: usize = dims[..N].iter().product();
+        let nvals = dims[..N]
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         };
diff --git a/src/nearest/regular.rs b/src/nearest/regular.rs
index 9176752..54bd3b4 100644
--- a/src/nearest/regular.rs
+++ b/src/nearest/regular.rs
@@ -173,7 +173,10 @@ impl<'a, T: Float, const N: usize> NearestRegular<'a, T, N> {
                 "Flattened method defined for 1-6 dimensions. For higher dimensions, use recursive method."
             );
         }
-        let nvals: usize = dims.iter().product();
+        let nvals = dims
+            .iter()
+            .try_fold(1_usize, |acc, &n| acc.checked_mul(n))
+            .ok_or("Dimension mismatch")?;
         if vals.len() != nvals {
             return Err("Dimension mismatch");
         }
-- 
2.43.0


From f777cdb4a6ca3269459fa9e47c5efaa66e17bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 06/15] fix: regular-grid check_bounds returns an error instead
 of panicking on mismatched or empty grids

---
 src/multilinear/regular.rs           | 7 ++++++-
 src/multilinear/regular_recursive.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index f0c6104..adbc239 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -151,7 +151,12 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let n = dims.len();
-    if !(obs.len() == n && out.len() == n) {
+    if !(starts.len() == n
+        && steps.len() == n
+        && obs.len() == n
+        && out.len() == n
+        && dims.iter().all(|&x| x > 0))
+    {
         return Err("Dimension mismatch");
     }
 
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index 3b549bc..f8ac529 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -114,7 +114,12 @@ pub fn check_bounds<T: Float>(
     out: &mut [bool],
 ) -> Result<(), &'static str> {
     let ndims = dims.len();
-    if !(obs.len() == ndims && out.len() == ndims) {
+    if !(starts.len() == ndims
+        && steps.len() == ndims
+        && obs.len() == ndims
+        && out.len() == ndims
+        && dims.iter().all(|&x| x > 0))
+    {
         return Err("Dimension mismatch");
     }
 
-- 
2.43.0


From e9b860d45631a352646bb304d8054f2766b871ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 07/15] fix: RegularGrid1D::new rejects fewer than two values
 instead of panicking

---
 src/one_dim/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/one_dim/mod.rs b/src/one_dim/mod.rs
index 9a35f94..a57ad4b 100644
--- a/src/one_dim/mod.rs
+++ b/src/one_dim/mod.rs
@@ -84,6 +84,10 @@ pub struct RegularGrid1D<'a, T: Float> {
 
 impl<'a, T: Float> RegularGrid1D<'a, T> {
     pub fn new(start: T, step: T, vals: &'a [T]) -> Result<Self, &'static str> {
+        if vals.len() < 2 {
+            return Err("Length mismatch");
+        }
+
         let stop =
             start + step * <T as NumCast>::from(vals.len() - 1).ok_or("Unrepresentable number")?;
         Ok(Self {
-- 
2.43.0


From d3f49b1b9ad044b677eb6bc9fbe717fa17cb58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 08/15] fix: cubic regular-grid methods do not overflow far
 below the grid

---
 src/multicubic/regular.rs           | 4 +++-
 src/multicubic/regular_recursive.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/multicubic/regular.rs b/src/multicubic/regular.rs
index fc9faef..82f3411 100644
--- a/src/multicubic/regular.rs
+++ b/src/multicubic/regular.rs
@@ -441,7 +441,9 @@ impl<'a, T: Float, const N: usize> MulticubicRegular<'a, T, N> {
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
diff --git a/src/multicubic/regular_recursive.rs b/src/multicubic/regular_recursive.rs
index 8db655b..dd1397a 100644
--- a/src/multicubic/regular_recursive.rs
+++ b/src/multicubic/regular_recursive.rs
@@ -397,7 +397,9 @@ impl<'a, T: Float, const MAXDIMS: usize> MulticubicRegularRecursive<'a, T, MAXDI
         let floc = ((v - self.starts[dim]) / self.steps[dim]).floor(); // float loc
         // Signed integer loc, with the bottom of the cell aligned to place the normalized
         // coordinate t=0 at cell index 1
-        let iloc = <isize as NumCast>::from(floc).ok_or("Unrepresentable coordinate value")? - 1;
+        let iloc = <isize as NumCast>::from(floc)
+            .ok_or("Unrepresentable coordinate value")?
+            .saturating_sub(1);
 
         let n = self.dims[dim] as isize; // Number of grid points on this dimension
         let dimmax = n.saturating_sub(4).max(0); // maximum index for lower corner
-- 
2.43.0


From 97ce26675a2b8a42f87af24ed200f24985038891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 09/15] fix: nearest and 1D rectilinear grids reject NaN
 coordinates

---
 src/nearest/rectilinear.rs | 5 +++++
 src/one_dim/mod.rs         | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/nearest/rectilinear.rs b/src/nearest/rectilinear.rs
index 8e10487..445b9b5 100644
--- a/src/nearest/rectilinear.rs
+++ b/src/nearest/rectilinear.rs
@@ -251,6 +251,11 @@ impl<'a, T: Float, const N: usize> NearestRectilinear<'a, T, N> {
     fn get_loc(&self, v: T, dim: usize) -> Result<usize, &'static str> {
         let grid = self.grids[dim];
 
+        // The comparisons below can't place NaN anywhere on the grid
+        if v.is_nan() {
+            return Err("Unrepresentable coordinate value");
+        }
+
         // Bisection search to find location on the grid.
         //
         // The search will return `0` if the point is outside-low,
diff --git a/src/one_dim/mod.rs b/src/one_dim/mod.rs
index a57ad4b..64b427b 100644
--- a/src/one_dim/mod.rs
+++ b/src/one_dim/mod.rs
@@ -159,6 +159,11 @@ impl<'a, T: Float> RectilinearGrid1D<'a, T> {
 
     #[inline]
     pub fn index(&self, loc: T) -> Result<(usize, Extrap), &'static str> {
+        // The comparisons below can't place NaN anywhere on the grid
+        if loc.is_nan() {
+            return Err("Unrepresentable number");
+        }
+
         let i = ((self.grid.partition_point(|v| v < &loc) as isize - 1).max(0) as usize)
             .min(self.grid.len() - 2);
 
-- 
2.43.0


From 96beecd5da090f8c3d8f064314b1e4602100c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 10/15] fix: check_bounds flags only violations larger than the
 tolerance

---
 src/multilinear/rectilinear.rs           | 4 +---
 src/multilinear/rectilinear_recursive.rs | 4 +---
 src/multilinear/regular.rs               | 4 +---
 src/multilinear/regular_recursive.rs     | 4 +---
 4 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/multilinear/rectilinear.rs b/src/multilinear/rectilinear.rs
index 779d1c1..5528825 100644
--- a/src/multilinear/rectilinear.rs
+++ b/src/multilinear/rectilinear.rs
@@ -121,9 +121,7 @@ pub fn check_bounds<T: Float>(
         let hi = grids[i].last();
         match hi {
             Some(&hi) => {
-                let bad = obs[i]
-                    .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                let bad = obs[i].iter().any(|&x| (x - lo) < -atol || (x - hi) > atol);
 
                 out[i] = bad;
             }
diff --git a/src/multilinear/rectilinear_recursive.rs b/src/multilinear/rectilinear_recursive.rs
index d095255..624b99c 100644
--- a/src/multilinear/rectilinear_recursive.rs
+++ b/src/multilinear/rectilinear_recursive.rs
@@ -106,9 +106,7 @@ pub fn check_bounds<T: Float>(
         let hi = grids[i].last();
         match hi {
             Some(&hi) => {
-                let bad = obs[i]
-                    .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                let bad = obs[i].iter().any(|&x| (x - lo) < -atol || (x - hi) > atol);
 
                 out[i] = bad;
             }
diff --git a/src/multilinear/regular.rs b/src/multilinear/regular.rs
index adbc239..923d249 100644
--- a/src/multilinear/regular.rs
+++ b/src/multilinear/regular.rs
@@ -170,9 +170,7 @@ pub fn check_bounds<T: Float>(
                 let lo = first.min(last);
                 let hi = first.max(last);
 
-                let bad = obs[i]
-                    .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                let bad = obs[i].iter().any(|&x| (x - lo) < -atol || (x - hi) > atol);
                 out[i] = bad;
             }
             // Passing an unrepresentable number in isn't, strictly speaking, an error
diff --git a/src/multilinear/regular_recursive.rs b/src/multilinear/regular_recursive.rs
index f8ac529..3053b62 100644
--- a/src/multilinear/regular_recursive.rs
+++ b/src/multilinear/regular_recursive.rs
@@ -133,9 +133,7 @@ pub fn check_bounds<T: Float>(
                 let lo = first.min(last);
                 let hi = first.max(last);
 
-                let bad = obs[i]
-                    .iter()
-                    .any(|&x| (x - lo) <= -atol || (x - hi) >= atol);
+                let bad = obs[i].iter().any(|&x| (x - lo) < -atol || (x - hi) > atol);
                 out[i] = bad;
             }
             // Passing an unrepresentable number in isn't, strictly speaking, an error
-- 
2.43.0


From 48f04cabb849ddf2e2a675323a2d068b392c5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 11/15] fix: Python bindings raise an exception instead of
 panicking for more than 8 arrays

---
 src/python.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python.rs b/src/python.rs
index 165d684..f62acab 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -45,6 +45,11 @@ macro_rules! unpack_vec_of_arr {
         let dummy = [0.0; 0];
         let mut _arr: [&[$T]; MAXDIMS] = [&dummy[..]; MAXDIMS];
         let n = $inname.len();
+        if n > MAXDIMS {
+            return Err(exceptions::PyAssertionError::new_err(
+                "Dimension exceeds maximum (8).",
+            ));
+        }
         for i in 0..n {
             _arr[i] = $inname[i].as_slice()?;
         }
-- 
2.43.0


From 8418f215f8409e6502596c6a21f1b2b5fddd523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 12/15] fix: Python bindings raise an exception instead of
 panicking for an aliased or read-only output

---
 src/python.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/python.rs b/src/python.rs
index f62acab..ffef038 100644
--- a/src/python.rs
+++ b/src/python.rs
@@ -1,4 +1,5 @@
-use numpy::borrow::{PyReadonlyArray1, PyReadwriteArray1};
+use numpy::borrow::PyReadonlyArray1;
+use numpy::{PyArray1, PyArrayMethods};
 use pyo3::exceptions;
 use pyo3::prelude::*;
 
@@ -66,8 +67,9 @@ macro_rules! interpn_linear_regular_impl {
             steps: PyReadonlyArray1<$T>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
 
             // Evaluate
@@ -98,8 +100,9 @@ macro_rules! check_bounds_regular_impl {
             steps: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
             atol: $T,
-            mut out: PyReadwriteArray1<bool>,
+            out: &Bound<'_, PyArray1<bool>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
 
             // Evaluate
@@ -128,8 +131,9 @@ macro_rules! interpn_linear_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
@@ -160,8 +164,9 @@ macro_rules! interpn_nearest_regular_impl {
             steps: PyReadonlyArray1<$T>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
 
             match nearest::regular::interpn(
@@ -189,8 +194,9 @@ macro_rules! interpn_nearest_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             vals: PyReadonlyArray1<$T>,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
 
@@ -212,8 +218,9 @@ macro_rules! check_bounds_rectilinear_impl {
             grids: Vec<PyReadonlyArray1<$T>>,
             obs: Vec<PyReadonlyArray1<$T>>,
             atol: $T,
-            mut out: PyReadwriteArray1<bool>,
+            out: &Bound<'_, PyArray1<bool>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
@@ -240,8 +247,9 @@ macro_rules! interpn_cubic_regular_impl {
             vals: PyReadonlyArray1<$T>,
             linearize_extrapolation: bool,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             unpack_vec_of_arr!(obs, obs, $T);
 
             // Evaluate
@@ -272,8 +280,9 @@ macro_rules! interpn_cubic_rectilinear_impl {
             vals: PyReadonlyArray1<$T>,
             linearize_extrapolation: bool,
             obs: Vec<PyReadonlyArray1<$T>>,
-            mut out: PyReadwriteArray1<$T>,
+            out: &Bound<'_, PyArray1<$T>>,
         ) -> PyResult<()> {
+            let mut out = out.try_readwrite()?;
             // Unpack inputs
             unpack_vec_of_arr!(grids, grids, $T);
             unpack_vec_of_arr!(obs, obs, $T);
-- 
2.43.0


From 91a67a8dabff57a0c7a2ffbebde93f066cd3d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:14 +0000
Subject: [PATCH 13/15] fix: Python interpn helper accepts and fills a given
 output array

---
 src/interpn/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index cefa6c4..8677bd3 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -83,9 +83,8 @@ def interpn(
         Interpolated values
     """
     # Allocate for the output if it is not supplied
-    out = out or np.zeros_like(obs[0])
-    outshape = out.shape
-    out = out.ravel()  # Flat view without reallocating
+    result = out if out is not None else np.zeros_like(obs[0])
+    out = result.ravel()  # Flat view, reallocating only if not contiguous
 
     # Ensure contiguous and flat, reallocating only if necessary
     obs = [np.ascontiguousarray(x.ravel()) for x in obs]
@@ -191,7 +190,11 @@ def interpn(
                 f" {dtype}, {is_regular}, {method}"
             )
 
-    return out.reshape(outshape)
+    # Copy back if the flat array could not be a view
+    if not result.flags.c_contiguous:
+        result[...] = out.reshape(result.shape)
+
+    return result
 
 
 def _check_regular(grids: Sequence[NDArray]) -> bool:
-- 
2.43.0


From dfb1687a6f4921262264af87dacf70f45eb0e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:14 +0000
Subject: [PATCH 14/15] fix: Python interpn helper checks bounds in any number
 of dimensions

---
 src/interpn/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpn/__init__.py b/src/interpn/__init__.py
index 8677bd3..5f6189c 100644
--- a/src/interpn/__init__.py
+++ b/src/interpn/__init__.py
@@ -112,7 +112,7 @@ def interpn(
 
     # Check bounds
     if check_bounds:
-        outb = np.zeros_like(out.shape, dtype=bool)
+        outb = np.zeros(len(grids), dtype=bool)
         match (dtype, is_regular):
             case (np.float32, True):
                 raw.check_bounds_regular_f32(
-- 
2.43.0


From ef925543c088ebe026208fc04ee2e09653516f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:28 +0000
Subject: [PATCH 15/15] fix: Nearest1D returns the last value far above the
 grid

---
 src/one_dim/hold.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/one_dim/hold.rs b/src/one_dim/hold.rs
index 98a98e9..d36be61 100644
--- a/src/one_dim/hold.rs
+++ b/src/one_dim/hold.rs
@@ -97,14 +97,28 @@ where
 {
     #[inline]
     fn eval_one(&self, loc: T) -> Result<T, &'static str> {
-        let GridSample { x0, y0, x1, y1, .. } = self.grid.at(loc)?;
-
-        let dx0 = (loc - x0).abs();
-        let dx1 = (loc - x1).abs();
+        let GridSample {
+            x0,
+            y0,
+            x1,
+            y1,
+            extrap,
+        } = self.grid.at(loc)?;
 
-        let v = match dx1 >= dx0 {
-            true => y0,
-            false => y1,
+        let v = match extrap {
+            // Outside the grid, the distances to the two points of the edge cell
+            // may round to the same number
+            Extrap::OutsideLow => y0,
+            Extrap::OutsideHigh => y1,
+            Extrap::Inside => {
+                let dx0 = (loc - x0).abs();
+                let dx1 = (loc - x1).abs();
+
+                match dx1 >= dx0 {
+                    true => y0,
+                    false => y1,
+                }
+            }
         };
 
         Ok(v)
-- 
2.43.0

