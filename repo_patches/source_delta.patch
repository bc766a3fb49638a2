From 32a107fdffd0e475c81af8ad572e2c7c92c60462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 01/12] fix: keep the adaptive step size finite when a step has
 no error

---
 dess/src/solver.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index ceb1b63..025cf6f 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -408,8 +408,8 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step, keeping `dt` finite when the error is 0
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta3, dt_used);
             };
             // adapt for next iteration in current time step
@@ -657,8 +657,8 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step, keeping `dt` finite when the error is 0
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta5, dt_used);
             };
             // adapt for next iteration in current time step
-- 
2.43.0


From eecbd4e2359e3b45ee992a25dc2a2e5df742ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 02/12] fix: linspace ends exactly at its stop and handles
 fewer than two points

---
 dess/src/traits_and_macros.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dess/src/traits_and_macros.rs b/dess/src/traits_and_macros.rs
index 3b9ce85..b5782b4 100644
--- a/dess/src/traits_and_macros.rs
+++ b/dess/src/traits_and_macros.rs
@@ -247,14 +247,21 @@ impl<T> SerdeAPI for T where T: Serialize + for<'a> Deserialize<'a> {}
 
 pub trait Linspace {
     fn linspace(start: f64, stop: f64, n_elements: usize) -> Vec<f64> {
-        let n_steps = n_elements - 1;
+        let n_steps = n_elements.saturating_sub(1);
         let step_size = (stop - start) / n_steps as f64;
-        let v_norm: Vec<f64> = (0..=n_steps)
+        let v_norm: Vec<f64> = (0..n_elements)
             .collect::<Vec<usize>>()
             .iter()
             .map(|x| *x as f64)
             .collect();
-        let v = v_norm.iter().map(|x| (x * step_size) + start).collect();
+        let mut v: Vec<f64> = v_norm.iter().map(|x| (x * step_size) + start).collect();
+        // the ends are exact; a single element is the start
+        if let Some(last) = v.last_mut() {
+            *last = stop;
+        }
+        if let Some(first) = v.first_mut() {
+            *first = start;
+        }
         v
     }
 }
-- 
2.43.0


From e82092c64f9151d61c9fce332fe5adf0e93286f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 03/12] fix: __deepcopy__ accepts the memo that copy.deepcopy
 passes

---
 dess/dess-proc-macros/src/pyo3_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index b5324df..33c4c13 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -148,7 +148,7 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
             }
 
             /// `__deepcopy__` magic method that uses `clone`.
-            fn __deepcopy__(&self) -> Self {
+            fn __deepcopy__(&self, _memo: &PyAny) -> Self {
                 self.clone()
             }
 
-- 
2.43.0


From 178ad935b9e435efc18d7b001a13676c37c8bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 04/12] fix: pyo3_api refuses functions under its reserved
 names

---
 dess/dess-proc-macros/src/utilities.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dess/dess-proc-macros/src/utilities.rs b/dess/dess-proc-macros/src/utilities.rs
index c2c9862..e515b5e 100644
--- a/dess/dess-proc-macros/src/utilities.rs
+++ b/dess/dess-proc-macros/src/utilities.rs
@@ -70,9 +70,8 @@ pub fn parse_ts_as_fn_defs(
                 let sig_str = &item_meth.sig.ident.to_token_stream().to_string();
                 fn_from_attr.extend(item_meth.clone().to_token_stream());
                 // check signature
-                if expected_exclusive
-                    && (forbidden_fn_names.contains(sig_str)
-                        || !expected_fn_names.contains(sig_str))
+                if forbidden_fn_names.contains(sig_str)
+                    || (expected_exclusive && !expected_fn_names.contains(sig_str))
                 {
                     emit_error!(
                         &item_meth.sig.ident.span(),
-- 
2.43.0


From fe844f2c9efa979c06d9baae787b5652ca2a76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 05/12] fix: almost_eq does not overflow for large numbers

---
 dess/src/utilities.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dess/src/utilities.rs b/dess/src/utilities.rs
index e4d89a7..49ff327 100644
--- a/dess/src/utilities.rs
+++ b/dess/src/utilities.rs
@@ -1,4 +1,6 @@
 pub fn almost_eq(val1: f64, val2: f64, epsilon: Option<f64>) -> bool {
     let epsilon = epsilon.unwrap_or(1e-8);
-    ((val2 - val1) / (val1 + val2)).abs() < epsilon || (val2 - val1).abs() < epsilon
+    // halved so that neither the difference nor the sum overflows
+    ((val2 / 2. - val1 / 2.) / (val1 / 2. + val2 / 2.)).abs() < epsilon
+        || (val2 - val1).abs() < epsilon
 }
-- 
2.43.0


From 151a95566d8815ef32323a56fe79fd407cba0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 06/12] fix: bad solver descriptions raise an ordinary Python
 exception

---
 dess-examples/src/three_thermal_mass_sys.rs    | 8 ++++----
 dess-examples/src/three_thrml_mass_w_bc_sys.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dess-examples/src/three_thermal_mass_sys.rs b/dess-examples/src/three_thermal_mass_sys.rs
index fdbd5e2..43a0e46 100644
--- a/dess-examples/src/three_thermal_mass_sys.rs
+++ b/dess-examples/src/three_thermal_mass_sys.rs
@@ -12,9 +12,9 @@ use crate::imports::*;
         m3: ThermalMass,
         h23: Conductance,
         t_report: Vec<f64>,
-    ) -> Self { 
-        Self{
-            solver_type: SolverTypes::from_json(&solver_type).unwrap(), 
+    ) -> PyResult<Self> { 
+        Ok(Self{
+            solver_type: SolverTypes::from_json(&solver_type)?, 
             m1, 
             m2, 
             h12, 
@@ -23,7 +23,7 @@ use crate::imports::*;
             t_report,
             state: Default::default(),
             history: Default::default(),
-        }
+        })
     }
 
     #[classmethod]
diff --git a/dess-examples/src/three_thrml_mass_w_bc_sys.rs b/dess-examples/src/three_thrml_mass_w_bc_sys.rs
index 72e720b..007501a 100644
--- a/dess-examples/src/three_thrml_mass_w_bc_sys.rs
+++ b/dess-examples/src/three_thrml_mass_w_bc_sys.rs
@@ -13,9 +13,9 @@ use crate::imports::*;
         m3: ThermalMass,
         h23: Conductance,
         t_report: Vec<f64>,
-    ) -> Self {
-        Self{
-            solver_type: SolverTypes::from_json(&solver_type).unwrap(),
+    ) -> PyResult<Self> {
+        Ok(Self{
+            solver_type: SolverTypes::from_json(&solver_type)?,
             m1,
             m2,
             h12,
@@ -24,7 +24,7 @@ use crate::imports::*;
             t_report,
             state: Default::default(),
             history: Default::default(),
-        }
+        })
     }
 
     #[classmethod]
-- 
2.43.0


From 8724ccf7c7e314d72284cebf55257b8a7f94d7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 07/12] fix: adaptive solvers cannot stall on steps too small
 to advance time

---
 dess/src/solver.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index 025cf6f..0b78052 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -397,7 +397,10 @@ pub trait SolverVariantMethods: SolverBase {
             // if tolerance is achieved here, then we proceed to the next time step, and
             // `dt` will be limited to `dt_max` at the start of the next time step.  If tolerance
             // is not achieved, then time step will be decreased.
+            // A step at the resolution of time is accepted as is, since a smaller one would not advance time.
+            let dt_min = t_curr.abs() * f64::EPSILON;
             let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter
+                || sc_mut.state.dt <= dt_min
                 || sc_mut.state.norm_err.unwrap() < sc_mut.atol
                 || tol_met;
 
@@ -409,11 +412,13 @@ pub trait SolverVariantMethods: SolverBase {
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
                 // adapt for next solver time step, keeping `dt` finite when the error is 0
-                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff)
+                    .min(sc_mut.dt_max)
+                    .max(dt_min);
                 break (delta3, dt_used);
             };
             // adapt for next iteration in current time step
-            sc_mut.state.dt *= dt_coeff;
+            sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).max(dt_min);
         };
 
         // increment forward with 3rd order solution
@@ -646,7 +651,10 @@ pub trait SolverVariantMethods: SolverBase {
             // if tolerance is achieved here, then we proceed to the next time step, and
             // `dt` will be limited to `dt_max` at the start of the next time step.  If tolerance
             // is not achieved, then time step will be decreased.
+            // A step at the resolution of time is accepted as is, since a smaller one would not advance time.
+            let dt_min = t_curr.abs() * f64::EPSILON;
             let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter
+                || sc_mut.state.dt <= dt_min
                 || sc_mut.state.norm_err.unwrap() < sc_mut.atol
                 || tol_met;
 
@@ -658,11 +666,13 @@ pub trait SolverVariantMethods: SolverBase {
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
                 // adapt for next solver time step, keeping `dt` finite when the error is 0
-                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff)
+                    .min(sc_mut.dt_max)
+                    .max(dt_min);
                 break (delta5, dt_used);
             };
             // adapt for next iteration in current time step
-            sc_mut.state.dt *= dt_coeff;
+            sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).max(dt_min);
         };
 
         // increment forward with 5th order solution
-- 
2.43.0


From c45b9180a7070c493f515276fd019e2016eb3ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 08/12] fix: an adaptive step without absolute tolerance is not
 retried at zero size

---
 dess/src/solver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index 0b78052..4cccf78 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -388,6 +388,8 @@ pub trait SolverVariantMethods: SolverBase {
                 //if no rtol exists, just consideres atol
                 None => {
                     match sc_mut.state.norm_err {
+                        // no tolerance to scale by
+                        Some(norm_err) if sc_mut.atol == 0. && norm_err > 0. => 0.25,
                         Some(norm_err) => (sc_mut.atol / norm_err)
                             .powf(if norm_err <= sc_mut.atol { 0.2 } else { 0.25 }),
                         None => 1., // don't adapt if there is not enough information to do so (if neither atol or rtol exist)
@@ -641,6 +643,8 @@ pub trait SolverVariantMethods: SolverBase {
                 //if rtol doesn't exist just use atol
                 None => {
                     match sc_mut.state.norm_err {
+                        // no tolerance to scale by
+                        Some(norm_err) if sc_mut.atol == 0. && norm_err > 0. => 0.25,
                         Some(norm_err) => (sc_mut.atol / norm_err)
                             .powf(if norm_err <= sc_mut.atol { 0.2 } else { 0.25 }),
                         None => 1., // don't adapt if there is not enough information to do so
-- 
2.43.0


From 892151113cf8cfce7858cb73ea35b4b513b255a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 09/12] fix: pyo3_api accepts its documented walk helper
 attribute

---
 dess/dess-proc-macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/lib.rs b/dess/dess-proc-macros/src/lib.rs
index 121c21c..f41a85e 100644
--- a/dess/dess-proc-macros/src/lib.rs
+++ b/dess/dess-proc-macros/src/lib.rs
@@ -51,7 +51,7 @@ pub fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
 /// Dummy derive macro for registering [pyo3_api] attributes.  
 /// This may not be the cleanest way to do this.
 #[proc_macro_error]
-#[proc_macro_derive(Pyo3ApiCleanup, attributes(skip_get))]
+#[proc_macro_derive(Pyo3ApiCleanup, attributes(skip_get, walk))]
 pub fn pyo3_api_cleanup(_item: TokenStream) -> TokenStream {
     TokenStream::new()
 }
-- 
2.43.0


From 726853bb116d137367965ce33fcb589dacffd546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 10/12] fix: log entries hold no states once state saving is
 off

---
 dess/src/solver.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index 4cccf78..7ea8725 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -337,9 +337,8 @@ pub trait SolverVariantMethods: SolverBase {
 
             sc_mut.state.t_curr = t_curr;
 
-            if sc_mut.save_states {
-                sc_mut.state.states = states;
-            }
+            // no states of an earlier step stay behind when saving them is off
+            sc_mut.state.states = if sc_mut.save_states { states } else { vec![] };
 
             // conditions for breaking loop
             // if there is a relative error, use that
@@ -600,9 +599,8 @@ pub trait SolverVariantMethods: SolverBase {
 
             sc_mut.state.t_curr = t_curr;
 
-            if sc_mut.save_states {
-                sc_mut.state.states = states;
-            }
+            // no states of an earlier step stay behind when saving them is off
+            sc_mut.state.states = if sc_mut.save_states { states } else { vec![] };
 
             // conditions for breaking loop
             // if there is a relative error, use that
-- 
2.43.0


From 3643a5c2f6e3e1a9d0ea8e7464a2485c5961dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:42 +0000
Subject: [PATCH 11/12] fix: treat raw identifiers as the names they stand for

A function `r#default` (or `r#default_py`) passed the check against reserved
names in the arguments of pyo3_api, and `r#update_derivs` was refused by solver.
---
 dess/dess-proc-macros/src/utilities.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/utilities.rs b/dess/dess-proc-macros/src/utilities.rs
index e515b5e..5411331 100644
--- a/dess/dess-proc-macros/src/utilities.rs
+++ b/dess/dess-proc-macros/src/utilities.rs
@@ -1,4 +1,5 @@
 use crate::imports::*;
+use syn::ext::IdentExt;
 
 // taken from https://github.com/lumol-org/soa-derive/blob/master/soa-derive-internal/src/input.rs
 pub(crate) trait TokenStreamIterator {
@@ -67,7 +68,8 @@ pub fn parse_ts_as_fn_defs(
     for impl_item in item_impl.items {
         match &impl_item {
             syn::ImplItem::Method(item_meth) => {
-                let sig_str = &item_meth.sig.ident.to_token_stream().to_string();
+                // `r#name` is the same name as `name`
+                let sig_str = &item_meth.sig.ident.unraw().to_string();
                 fn_from_attr.extend(item_meth.clone().to_token_stream());
                 // check signature
                 if forbidden_fn_names.contains(sig_str)
-- 
2.43.0


From d75249a5d72e0b2c16877be660908013fe0e20ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:02 +0000
Subject: [PATCH 12/12] fix: fields with raw identifiers work with pyo3_api and
 HistoryVec

The getter of a field such as `r#type` was written as `get_r#type`, which does
not compile (even without the pyo3 feature).
---
 dess/dess-proc-macros/src/pyo3_api.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index 33c4c13..e515ba2 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -1,5 +1,6 @@
 use crate::imports::*;
 use crate::utilities::parse_ts_as_fn_defs;
+use syn::ext::IdentExt;
 
 /// Derives several methods for struct
 pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
@@ -40,8 +41,9 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
 
         // Conditionally add setter function
         if !field.attrs.iter().any(|a| a.path.is_ident("skip_get")) {
+            // the getter of a field `r#name` is `get_name`
             let fn_get_fname: TokenStream2 =
-                format!("fn get_{}(&mut self)", &fname).parse().unwrap();
+                format!("fn get_{}(&mut self)", fname.unraw()).parse().unwrap();
             let field_type = &field.ty;
             let fn_body: TokenStream2 = format!("self.{}.clone()", &fname).parse().unwrap();
             let new_fn = quote! {
-- 
2.43.0

