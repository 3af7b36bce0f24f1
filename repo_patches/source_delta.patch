From ad6266d0000df427490c91c814f8a0203b0a6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 1/8] fix: start every solve() from a fresh solver state

A RootFinder kept its iteration counter, jacobian, step sizes and model
evaluation status from the previous call of solve(): a second call could
stop at once with NonConvergenceError or use a stale jacobian.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 1eb4d65..09279a1 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -391,6 +391,14 @@ where
     where
         M: model::Model<D>,
     {
+        // Every resolution starts afresh, whatever a previous one has left behind
+        self.iter = 0;
+        self.jacobian = JacobianMatrix::new();
+        self.iteratives_step_size = None;
+        self.residuals_step_size = None;
+        self.residuals_values_current = None;
+        self.valid_last_model_evaluation = true;
+
         model.set_iteratives(&self.initial_guess);
 
         // The first evaluation must yield usuable values
-- 
2.43.0


From c9c6067a5ea22f5fdea8e6385ed8289e51e2c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 2/8] fix: report inaccurate values of an initial evaluation
 that already converges

When the initial guess satisfied the tolerance while the model reported
inaccurate values, solve() returned Ok instead of FinalEvaluationError.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 09279a1..765b4dc 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -405,7 +405,9 @@ where
         // However, then don't need to be accurate
         match model.evaluate() {
             Ok(()) => (),
-            Err(ModelError::InaccurateValuesError(_)) => (),
+            Err(ModelError::InaccurateValuesError(_)) => {
+                self.valid_last_model_evaluation = false;
+            }
             Err(ModelError::UnusableValuesError(error)) => {
                 return Err(crate::errors::SolverError::ModelInitialEvaluationError(
                     error.to_string(),
-- 
2.43.0


From 5847ec98c93669ac7a1b4037c275e4258149caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 3/8] fix: handle the model errors raised while damping

The evaluation at the damped iterate was unwrapped: any model error there
panicked instead of being reported, and the validity of the last
evaluation was the one of the refused iterate.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 41 ++++++++++++-------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 765b4dc..798ffde 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -304,7 +304,8 @@ where
         current_guess: &nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
         errors_next: &mut nalgebra::OVector<f64, D>,
-    ) where
+    ) -> Result<(), errors::SolverError<M, D>>
+    where
         M: model::Model<D>,
     {
         let max_error_next = errors_next.amax();
@@ -322,7 +323,7 @@ where
                 let damped_guess =
                     current_guess * (1.0 - damping_factor) + proposed_guess * damping_factor;
                 model.set_iteratives(&damped_guess);
-                model.evaluate().unwrap();
+                self.evaluate_model(model)?;
                 *errors_next = self.evaluate_errors(model);
 
                 if self.debug {
@@ -330,33 +331,45 @@ where
                 }
             }
         }
+
+        Ok(())
     }
 
-    fn update_model<M>(
-        &mut self,
-        model: &mut M,
-        proposed_guess: &nalgebra::OVector<f64, D>,
-    ) -> Result<nalgebra::OVector<f64, D>, errors::SolverError<M, D>>
+    /// Evaluate the model at a new iterate and record the validity of its values
+    fn evaluate_model<M>(&mut self, model: &mut M) -> Result<(), errors::SolverError<M, D>>
     where
         M: model::Model<D>,
     {
-        let errors = self.evaluate_errors(model);
-        let max_error = errors.amax();
-        let current_guess = model.get_iteratives();
-
-        model.set_iteratives(proposed_guess);
         match model.evaluate() {
             Ok(()) => {
                 self.valid_last_model_evaluation = true;
+                Ok(())
             }
             Err(ModelError::InaccurateValuesError(_)) => {
                 self.valid_last_model_evaluation = false;
+                Ok(())
             }
             Err(e) => {
                 self.valid_last_model_evaluation = false;
-                return Err(errors::SolverError::ModelEvaluationError(e));
+                Err(errors::SolverError::ModelEvaluationError(e))
             }
         }
+    }
+
+    fn update_model<M>(
+        &mut self,
+        model: &mut M,
+        proposed_guess: &nalgebra::OVector<f64, D>,
+    ) -> Result<nalgebra::OVector<f64, D>, errors::SolverError<M, D>>
+    where
+        M: model::Model<D>,
+    {
+        let errors = self.evaluate_errors(model);
+        let max_error = errors.amax();
+        let current_guess = model.get_iteratives();
+
+        model.set_iteratives(proposed_guess);
+        self.evaluate_model(model)?;
         let mut errors_next = self.evaluate_errors(model);
 
         if self.debug {
@@ -370,7 +383,7 @@ where
                 &current_guess,
                 proposed_guess,
                 &mut errors_next,
-            );
+            )?;
         }
 
         match self.parameters.get_resolution_method() {
-- 
2.43.0


From a4315c55461d8cd5123c450d92fb078385fe0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 4/8] fix: do not report convergence on residuals that are not
 a number

NaN residuals were ignored by amax() and by the comparison with the
tolerance: solve() returned Ok for a model evaluating to NaN.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 798ffde..3de49f1 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -155,6 +155,20 @@ where
             .evaluate_stopping_residuals(&residuals_values)
     }
 
+    /// Greatest error, `NaN` if any of the errors is not a number
+    fn max_error(errors: &nalgebra::OVector<f64, D>) -> f64 {
+        // `amax()` ignores `NaN`
+        if errors.iter().any(|error| error.is_nan()) {
+            f64::NAN
+        } else {
+            errors.amax()
+        }
+    }
+
+    fn has_converged(&self, max_error: f64) -> bool {
+        max_error <= self.parameters.get_tolerance()
+    }
+
     fn compute_jac<M>(&mut self, model: &mut M) -> Result<(), errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
@@ -308,8 +322,8 @@ where
     where
         M: model::Model<D>,
     {
-        let max_error_next = errors_next.amax();
-        if max_error_next > max_error {
+        let max_error_next = Self::max_error(errors_next);
+        if max_error_next > max_error || max_error_next.is_nan() {
             // see documentation of the `SolverParameters` struct
             if self.parameters.get_resolution_method() != ResolutionMethod::NewtonRaphson
                 && self.jacobian.is_jacobian_approximated()
@@ -365,7 +379,7 @@ where
         M: model::Model<D>,
     {
         let errors = self.evaluate_errors(model);
-        let max_error = errors.amax();
+        let max_error = Self::max_error(&errors);
         let current_guess = model.get_iteratives();
 
         model.set_iteratives(proposed_guess);
@@ -429,7 +443,7 @@ where
         }
 
         let mut errors = self.evaluate_errors(model);
-        let mut max_error = errors.amax();
+        let mut max_error = Self::max_error(&errors);
 
         if self.debug {
             self.parameters_to_log();
@@ -438,9 +452,7 @@ where
 
         // Warning: unrolling by hand the first iteration (which is always a Newton-Raphson step)
         //          is actually slowing down the code (run benchmarks to see it)
-        while max_error > self.parameters.get_tolerance()
-            && self.iter < self.parameters.get_max_iter()
-        {
+        while !self.has_converged(max_error) && self.iter < self.parameters.get_max_iter() {
             self.iter += 1;
 
             let proposed_guess = match self.parameters.get_resolution_method() {
@@ -460,10 +472,10 @@ where
                 }
             }
 
-            max_error = errors.amax();
+            max_error = Self::max_error(&errors);
         }
 
-        if max_error > self.parameters.get_tolerance() {
+        if !self.has_converged(max_error) {
             Err(crate::errors::SolverError::NonConvergenceError)
         } else if self.valid_last_model_evaluation {
             Ok(())
-- 
2.43.0


From 3d65ec723459165852beb2d7dd601179c9d03c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 5/8] fix: report an inaccurate jacobian instead of panicking

The error of a provided jacobian leaves no jacobian to use, but it was
dropped when it was an InaccurateValuesError: the step computation then
unwrapped the missing inverse.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 3de49f1..3cc29c3 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -173,7 +173,7 @@ where
     where
         M: model::Model<D>,
     {
-        let successful_jac_computation = if model.jacobian_provided() {
+        if model.jacobian_provided() {
             evaluate_jacobian_from_analytical_function(
                 &mut self.jacobian,
                 model,
@@ -186,14 +186,6 @@ where
                 self.iters_params,
                 self.residuals_config,
             )
-        };
-
-        match successful_jac_computation {
-            Ok(())
-            | Err(errors::SolverInternalError::InvalidJacobianError(
-                ModelError::InaccurateValuesError(_),
-            )) => Ok(()),
-            Err(model_error) => Err(model_error),
         }
     }
 
-- 
2.43.0


From 85dffb5339c21528e68c1a1b856e951440293944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 6/8] fix: use the update residuals for the quasi-Newton
 updates

The residual step was the difference of the stopping residuals, which are
absolute values: the sign of the residuals, and the update normalization
the jacobian is computed with, were lost in the approximated jacobian.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 3cc29c3..f490aba 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -155,6 +155,14 @@ where
             .evaluate_stopping_residuals(&residuals_values)
     }
 
+    fn evaluate_update_residuals<M>(&self, model: &M) -> nalgebra::OVector<f64, D>
+    where
+        M: model::Model<D>,
+    {
+        self.residuals_config
+            .evaluate_update_residuals(&model.get_residuals())
+    }
+
     /// Greatest error, `NaN` if any of the errors is not a number
     fn max_error(errors: &nalgebra::OVector<f64, D>) -> f64 {
         // `amax()` ignores `NaN`
@@ -292,9 +300,7 @@ where
     where
         M: model::Model<D>,
     {
-        let residuals = self
-            .residuals_config
-            .evaluate_update_residuals(&model.get_residuals());
+        let residuals = self.evaluate_update_residuals(model);
 
         let raw_step = -self.jacobian.get_inverse().as_ref().unwrap() * residuals;
 
@@ -373,6 +379,7 @@ where
         let errors = self.evaluate_errors(model);
         let max_error = Self::max_error(&errors);
         let current_guess = model.get_iteratives();
+        let current_residuals = self.evaluate_update_residuals(model);
 
         model.set_iteratives(proposed_guess);
         self.evaluate_model(model)?;
@@ -397,8 +404,9 @@ where
             ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton) => (),
             _ => {
                 self.iteratives_step_size = Some(model.get_iteratives() - current_guess);
-                self.residuals_step_size = Some(errors_next.clone() - errors);
-                self.residuals_values_current = Some(errors_next.clone())
+                let residuals_next = self.evaluate_update_residuals(model);
+                self.residuals_step_size = Some(&residuals_next - current_residuals);
+                self.residuals_values_current = Some(residuals_next)
             }
         };
 
-- 
2.43.0


From 232be03c13451281b4833a870df5e43045d07f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 7/8] fix: reject NaN parameters of the iteratives

The comparisons guarding the constructors are false for NaN, so that
neither a NaN bound nor a NaN perturbation was refused.
---
 src/solver_n_dimensional/iteratives/iterative_var.rs    | 6 +++---
 src/solver_n_dimensional/iteratives/iterative_var_fd.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/iteratives/iterative_var.rs b/src/solver_n_dimensional/iteratives/iterative_var.rs
index 38f4598..d00e58f 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var.rs
@@ -19,20 +19,20 @@ impl IterativeParams {
     ///
     /// The `min_value` must be lower than the `max_value`
     pub fn new(max_step_abs: f64, max_step_rel: f64, min_value: f64, max_value: f64) -> Self {
-        if max_step_abs <= 0.0 {
+        if max_step_abs.is_nan() || max_step_abs <= 0.0 {
             panic!(
                 "max_step_abs must be strictly positive, provided value was {}",
                 max_step_abs
             );
         }
-        if max_step_rel <= 0.0 {
+        if max_step_rel.is_nan() || max_step_rel <= 0.0 {
             panic!(
                 "max_step_rel must be strictly positive, provided value was {}",
                 max_step_rel
             );
         }
 
-        if min_value >= max_value {
+        if min_value.is_nan() || max_value.is_nan() || min_value >= max_value {
             panic!(
                 "min_value must be strictly inferior to max_value, provided values are {} > {}",
                 min_value, max_value
diff --git a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
index 9bcb7a5..79c2eeb 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
@@ -56,13 +56,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
@@ -121,13 +121,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
-- 
2.43.0


From fb72a986691ace125166ad6b8f34372c9ba61f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 8/8] fix: tell the inverse jacobian update apart when
 displayed

QuasiNewtonMethod::JacobianUpdate and InverseJacobianUpdate were displayed
alike, so that the log did not identify the resolution method.
---
 src/solver_n_dimensional/solver/resolution_method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver_n_dimensional/solver/resolution_method.rs b/src/solver_n_dimensional/solver/resolution_method.rs
index 995851f..ea6ff77 100644
--- a/src/solver_n_dimensional/solver/resolution_method.rs
+++ b/src/solver_n_dimensional/solver/resolution_method.rs
@@ -71,7 +71,7 @@ impl fmt::Display for QuasiNewtonMethod {
                 content.push_str(&method.to_string());
             }
             QuasiNewtonMethod::InverseJacobianUpdate(method) => {
-                content.push_str("Jacobian matrix approximated");
+                content.push_str("Inverse jacobian matrix approximated");
                 content.push_str(&method.to_string());
             }
         }
-- 
2.43.0

