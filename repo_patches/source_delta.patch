From f06ad43e84ff1e9640846fedb614e9765da91ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:59 +0000
Subject: [PATCH 1/5] fix: bsearch hands the narrowed interval back to the
 caller

The interval is taken by mutable reference but the bounds were only ever
updated in local copies, so a caller could not learn where the search ended.
---
 src/cutting_plane.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cutting_plane.rs b/src/cutting_plane.rs
index 6332811..81a106e 100644
--- a/src/cutting_plane.rs
+++ b/src/cutting_plane.rs
@@ -461,6 +461,7 @@ where
         } else {
             lower = gamma;
         }
+        *intrvl = (lower, upper);
     }
     (upper != u_orig, options.max_iters)
 }
-- 
2.43.0


From 3f1df9727d0cecb1494fb767161a412fc795889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:59 +0000
Subject: [PATCH 2/5] fix: LDLT factorisation never reports a NaN pivot as
 positive definite

Both pivot tests are false for NaN, so a matrix containing NaN was accepted.
---
 src/oracles/ldlt_mgr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oracles/ldlt_mgr.rs b/src/oracles/ldlt_mgr.rs
index 332bb9e..b17e1ae 100644
--- a/src/oracles/ldlt_mgr.rs
+++ b/src/oracles/ldlt_mgr.rs
@@ -46,7 +46,7 @@ impl LDLTMgr {
                 diag = get_elem(i, stop) - s;
             }
             self.storage[i * self.ndim + i] = diag;
-            if diag <= 0.0 {
+            if diag <= 0.0 || diag.is_nan() {
                 self.pos = (start, i + 1);
                 break;
             }
@@ -78,7 +78,7 @@ impl LDLTMgr {
                 diag = get_elem(i, stop) - s;
             }
             self.storage[i * self.ndim + i] = diag;
-            if diag < 0.0 {
+            if diag < 0.0 || diag.is_nan() {
                 self.pos = (start, i + 1);
                 break;
             } else if diag == 0.0 {
-- 
2.43.0


From 246d65c8c95b890945d5a802401e8882395f02c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:59 +0000
Subject: [PATCH 3/5] fix: conjugate_gradient accepts a starting point that
 already solves the system

With an exact starting point the first direction is zero, its curvature is
zero, and the solver reported non-convergence.
---
 src/conjugate_gradient.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conjugate_gradient.rs b/src/conjugate_gradient.rs
index 4e31a21..773d1f6 100644
--- a/src/conjugate_gradient.rs
+++ b/src/conjugate_gradient.rs
@@ -35,6 +35,10 @@ pub fn conjugate_gradient(
     let mut direction = residual.clone();
     let mut residual_norm_sq = residual.dot(&residual);
 
+    if residual_norm_sq.sqrt() < tol {
+        return Ok(x);
+    }
+
     for _iter in 0..max_iter {
         let a_dir = a.dot_mv(&direction);
         let dir_dot_a_dir = direction.dot(&a_dir);
-- 
2.43.0


From 6bfbbad5b7a41d226bb572004971fb77455cdbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:59 +0000
Subject: [PATCH 4/5] fix: power_iteration3 leaves a unit vector when the
 budget is exhausted

Only the convergence exits normalised the vector.
---
 src/power_iteration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/power_iteration.rs b/src/power_iteration.rs
index 6fdbfa9..3d1d10b 100644
--- a/src/power_iteration.rs
+++ b/src/power_iteration.rs
@@ -169,6 +169,7 @@ pub fn power_iteration3(a: &Arr, x: &mut Arr, options: &Options) -> (f64, usize)
             }
         }
     }
+    *x /= x.dot(x).sqrt();
     (eigenval, options.max_iters)
 }
 
-- 
2.43.0


From ef2f69b87125a04cdd6b48cab9ebd3cc9faeb435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:39 +0000
Subject: [PATCH 5/5] fix: the Python package exports its search drivers

---
 python_ai/ellalgo/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python_ai/ellalgo/__init__.py b/python_ai/ellalgo/__init__.py
index d0be0f4..bddf8b5 100644
--- a/python_ai/ellalgo/__init__.py
+++ b/python_ai/ellalgo/__init__.py
@@ -11,7 +11,14 @@ Modules:
     oracles: Various oracle implementations for specific problems
 """
 
-from .cutting_plane import CutStatus, Options, cutting_plane
+from .cutting_plane import (
+    CutStatus,
+    Options,
+    binary_search,
+    cutting_plane,
+    cutting_plane_feas,
+    cutting_plane_optim,
+)
 from .ell import Ell
 from .ell_calc import EllCalc, EllCalcCore
 
@@ -20,6 +27,9 @@ __all__ = [
     "CutStatus",
     "Options",
     "cutting_plane",
+    "cutting_plane_feas",
+    "cutting_plane_optim",
+    "binary_search",
     "Ell",
     "EllCalc",
     "EllCalcCore",
-- 
2.43.0

