From 21747872542aa16dd1fb7a156ed1ab1f0b2c6ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:22 +0000
Subject: [PATCH 1/9] fix: Anderson extrapolation solves the K x K Gram system
 of the iterate differences

The extrapolation matrix was built as U^T U (working-set sized) instead of
U U^T (K x K). The K first rows of U^T U were then solved as if they were the
Gram matrix, which yields wrong extrapolation weights, and any working set
smaller than K panicked with an out of bounds index.
---
 src/solvers/anderson_bcd/mod.rs | 2 +-
 src/solvers/anderson_cd/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/anderson_bcd/mod.rs b/src/solvers/anderson_bcd/mod.rs
index 6b84b73..7989282 100644
--- a/src/solvers/anderson_bcd/mod.rs
+++ b/src/solvers/anderson_bcd/mod.rs
@@ -158,7 +158,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view()); // TODO: change into LAPACK inversion
 
         match _res {
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 6a1b00e..8c31418 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -147,7 +147,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view());
 
         match _res {
-- 
2.43.0


From c221cca811b39c940191cd53f41c786a49d348ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:22 +0000
Subject: [PATCH 2/9] fix: BlockL1PlusL2 optimality distance of a zero row uses
 the gradient norm

The squared norm of the gradient was compared to the regularization level, so
zero rows violating optimality were reported as optimal (and conversely) and
MultiTaskElasticNet stopped before converging.
---
 src/penalties/block_separable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index 5ef9964..dceb13b 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -169,7 +169,7 @@ impl<F: Float> MultiTaskPenalty<F> for BlockL1PlusL2<F> {
                             .sqrt()
                     }
                     false => {
-                        let norm_grad_j = grad_idx.dot(&grad_idx);
+                        let norm_grad_j = grad_idx.dot(&grad_idx).sqrt();
                         F::max(F::zero(), norm_grad_j - self.alpha * self.l21_ratio)
                     }
                 }
-- 
2.43.0


From 8c210bf893eba0f5ea4815a20e21aca1947700ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:22 +0000
Subject: [PATCH 3/9] fix: BlockMCP optimality distance takes the gradient into
 account

In the concave region the distance only measured the subgradient of the penalty,
so the optimality gap never vanished at a solution and could vanish elsewhere.
---
 src/penalties/block_separable/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index dceb13b..9c4f4d0 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -270,7 +270,13 @@ impl<F: Float> MultiTaskPenalty<F> for BlockMCP<F> {
                         if norm_W_j < self.alpha * self.gamma {
                             // distance of -grad_j to alpha * W[j] / ||W_j|| - W[j] / gamma
                             let scale = self.alpha / norm_W_j - F::one() / self.gamma;
-                            W_j.map(|&W_ij| (W_ij * scale).powi(2)).sum().sqrt()
+                            grad_idx
+                                .iter()
+                                .zip(W_j)
+                                .fold(F::zero(), |sum, (&grad_ij, &w_ij)| {
+                                    sum + (grad_ij + w_ij * scale).powi(2)
+                                })
+                                .sqrt()
                         } else {
                             // distance of -grad_j to 0
                             grad_idx.dot(&grad_idx).sqrt()
-- 
2.43.0


From f0da094a3e8f247c43d7ebb2b219079471c3573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:22 +0000
Subject: [PATCH 4/9] fix: block soft-thresholding of a zero block with a zero
 threshold is zero

0 / 0 turned the whole coefficient matrix into NaN when the L21 part of the
penalty vanishes (alpha = 0, or MultiTaskElasticNet with l1_ratio = 0).
---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index ff74f94..24457f9 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,7 +22,7 @@ pub mod prox_funcs {
     /// [`MultiTaskPenalty::L21`].
     pub fn block_soft_thresholding<F: Float>(x: ArrayView1<F>, threshold: F) -> Array1<F> {
         let norm_x = x.map(|&xi| xi.powi(2)).sum().sqrt();
-        if norm_x < threshold {
+        if norm_x <= threshold {
             return Array1::<F>::zeros(x.len());
         }
         let scale = F::one() - threshold / norm_x;
-- 
2.43.0


From 753f1c7124314d57db2e03bce6c58f07a4edbbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:00 +0000
Subject: [PATCH 5/9] fix: a standard output that cannot be written to no
 longer aborts a fit

Progress is reported by default. With println!, a closed pipe or a full disk
behind the standard output panicked in the middle of the optimization.
---
 src/solvers/anderson_bcd/mod.rs | 16 +++++++++-------
 src/solvers/anderson_cd/mod.rs  | 20 +++++++++++++-------
 src/solvers/mod.rs              | 17 +++++++++++++++++
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/solvers/anderson_bcd/mod.rs b/src/solvers/anderson_bcd/mod.rs
index 7989282..63312c9 100644
--- a/src/solvers/anderson_bcd/mod.rs
+++ b/src/solvers/anderson_bcd/mod.rs
@@ -200,7 +200,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
                     XW.assign(&XW_acc);
 
                     if verbose {
-                        println!("[ACCEL] obj {:#?} :: obj_acc {:#?}", p_obj, p_obj_acc);
+                        report_progress!("[ACCEL] obj {:#?} :: obj_acc {:#?}", p_obj, p_obj_acc);
                     }
                 }
             }
@@ -209,7 +209,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
             // This is expected, thus the non-panicking way of handling the error.
             Err(_) => {
                 if verbose {
-                    println!("---- Warning: Singular extrapolation matrix.");
+                    report_progress!("---- Warning: Singular extrapolation matrix.");
                 }
             }
         }
@@ -269,7 +269,7 @@ where
         );
 
         if verbose {
-            println!("KKT max violation: {:#?}", kkt_max);
+            report_progress!("KKT max violation: {:#?}", kkt_max);
         }
         if kkt_max <= tolerance {
             break;
@@ -282,7 +282,7 @@ where
         let mut U = Array2::<F>::zeros((K, ws_size * n_tasks));
 
         if verbose {
-            println!("Iteration {}, {} features in subproblem.", t + 1, ws_size);
+            report_progress!("Iteration {}, {} features in subproblem.", t + 1, ws_size);
         }
 
         // Inner loop that implements the actual block coordinate descent routine
@@ -351,9 +351,11 @@ where
                     opt_cond_violation(dataset, W.view(), XW.view(), ws.view(), datafit, penalty);
 
                 if verbose {
-                    println!(
+                    report_progress!(
                         "epoch: {} :: obj: {:#?} :: kkt: {:#?}",
-                        epoch, p_obj, kkt_ws_max
+                        epoch,
+                        p_obj,
+                        kkt_ws_max
                     );
                 }
 
@@ -365,7 +367,7 @@ where
                 } else {
                     if kkt_ws_max < F::cast(0.3) * kkt_max {
                         if verbose {
-                            println!("Early exit.")
+                            report_progress!("Early exit.")
                         }
                         break;
                     }
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 8c31418..5a3daf8 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -188,7 +188,11 @@ pub fn anderson_accel<F, DM, T, DF, P>(
                     Xw.assign(&Xw_acc);
 
                     if verbose {
-                        println!("[ACCEL] p_obj {:#?} :: p_obj_acc {:#?}", p_obj, p_obj_acc);
+                        report_progress!(
+                            "[ACCEL] p_obj {:#?} :: p_obj_acc {:#?}",
+                            p_obj,
+                            p_obj_acc
+                        );
                     }
                 }
             }
@@ -197,7 +201,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
             // This is expected, thus the non-panicking way of handling the error.
             Err(_) => {
                 if verbose {
-                    println!("---- Singular extrapolation matrix. Could not extrapolate.");
+                    report_progress!("---- Singular extrapolation matrix. Could not extrapolate.");
                 }
             }
         }
@@ -273,7 +277,7 @@ where
         );
 
         if verbose {
-            println!("KKT max violation: {:#?}", kkt_max);
+            report_progress!("KKT max violation: {:#?}", kkt_max);
         }
         if kkt_max <= tolerance {
             break;
@@ -286,7 +290,7 @@ where
         let mut U = Array2::<F>::zeros((K, ws_size));
 
         if verbose {
-            println!("Iteration {}, {} features in subproblem.", t + 1, ws_size);
+            report_progress!("Iteration {}, {} features in subproblem.", t + 1, ws_size);
         }
 
         // Inner loop that implements the actual coordinate descent routine
@@ -337,9 +341,11 @@ where
                     opt_cond_violation(dataset, w.view(), Xw.view(), ws.view(), datafit, penalty);
 
                 if verbose {
-                    println!(
+                    report_progress!(
                         "epoch: {} :: obj: {:#?} :: kkt: {:#?}",
-                        epoch, p_obj, kkt_ws_max
+                        epoch,
+                        p_obj,
+                        kkt_ws_max
                     );
                 }
 
@@ -353,7 +359,7 @@ where
                     false => {
                         if kkt_ws_max < F::cast(0.3) * kkt_max {
                             if verbose {
-                                println!("Early exit.")
+                                report_progress!("Early exit.")
                             }
                             break;
                         }
diff --git a/src/solvers/mod.rs b/src/solvers/mod.rs
index ed495a6..6b0379c 100644
--- a/src/solvers/mod.rs
+++ b/src/solvers/mod.rs
@@ -13,6 +13,23 @@ use crate::penalties::separable::Penalty;
 #[cfg(test)]
 pub mod tests;
 
+/// Reports the progress of a solver on the standard output.
+///
+/// Progress is purely informative: contrary to `println!`, a standard output that
+/// can't be written to (closed pipe, full disk...) does not abort the fit.
+macro_rules! report_progress {
+    ($($arg:tt)*) => {{
+        // Only `println!` is captured by the test harness
+        #[cfg(test)]
+        println!($($arg)*);
+        #[cfg(not(test))]
+        {
+            use std::io::Write;
+            let _ = writeln!(std::io::stdout(), $($arg)*);
+        }
+    }};
+}
+
 pub mod anderson_bcd;
 pub mod anderson_cd;
 pub mod impl_solver;
-- 
2.43.0


From 70089ad3211715b79e8adcea86f78839e17f6f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:22 +0000
Subject: [PATCH 6/9] fix: Python predict works on fitted estimators

The truth value of an array with more than one coefficient is ambiguous, so
predict raised on every fitted estimator.
---
 python/sparseglm/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index ade3d82..11c6a6e 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -44,7 +44,7 @@ class Estimator(BaseEstimator):
 
     def predict(self, X):
         """Predicts the test set."""
-        if not self.coef_:
+        if self.coef_ is None:
             raise Exception("Estimator must be fitted before inference.")
         return X @ self.coef_.T
 
-- 
2.43.0


From 177267ecec0e743f233efbd67e5edeffe6507079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:22 +0000
Subject: [PATCH 7/9] fix: Python estimators validate gamma and l1_ratio rather
 than alpha

MCP estimators rejected every alpha < 1 and Elastic Net estimators every
alpha > 1, while invalid gamma and l1_ratio went through to the solver, which
panicked.
---
 python/sparseglm/estimators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 11c6a6e..9091cb3 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -269,7 +269,7 @@ class MCPRegressor(Estimator):
             use_accel=use_accel, verbose=verbose)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or gamma < 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -358,7 +358,7 @@ class BlockMCPRegressor(Estimator):
             use_accel=use_accel, max_epochs=max_epochs)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or gamma < 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -459,7 +459,7 @@ class ElasticNet(Estimator):
         else:
             self.alpha = alpha
 
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or l1_ratio < 0 or l1_ratio > 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
@@ -547,7 +547,7 @@ class MultiTaskElasticNet(Estimator):
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or l1_ratio < 0 or l1_ratio > 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
-- 
2.43.0


From 7c83e6583a56333b110383ecebd9bd29f13ce1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:33 +0000
Subject: [PATCH 8/9] fix: BlockMCPEstimator rejects gamma < 1 like
 MCPEstimator

gamma was silently accepted although the penalty is not defined for it.
---
 src/estimators/hyperparams.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index 17f659d..d6cf52d 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -711,6 +711,8 @@ impl<F: Float> ParamGuard for BlockMCParams<F> {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
+        } else if self.0.gamma < F::one() {
+            Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
         } else if self.0.tolerance.is_negative() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
-- 
2.43.0


From 49def16a69e7d1116a2fd14a5c179e1dc74f1699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:51 +0000
Subject: [PATCH 9/9] fix: fitted Python estimators can be pickled and copied

---
 python/sparseglm/estimators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 9091cb3..cb5de2e 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -42,6 +42,13 @@ class Estimator(BaseEstimator):
         _check_types(self.max_iter, int, "max_iter")
         _check_types(self.max_epochs, int, "max_epochs")
 
+    def __getstate__(self):
+        # The Rust wrapper holds no fitted state and can neither be copied nor
+        # pickled: it is rebuilt by every fit.
+        state = dict(super().__getstate__())
+        state.pop("_inner", None)
+        return state
+
     def predict(self, X):
         """Predicts the test set."""
         if self.coef_ is None:
-- 
2.43.0

