From a53cc2eee40aa88851dc97bcf94e8ef6026510c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 1/6] fix: use the field configuration's number of colors in
 the thermal quark contributions

---
 qcd-sme/build.rs           |  2 +-
 qcd-sme/src/qcd/thermal.rs | 30 +++++++++++++++---------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/qcd-sme/build.rs b/qcd-sme/build.rs
index 4ebdef0..f827740 100644
--- a/qcd-sme/build.rs
+++ b/qcd-sme/build.rs
@@ -13,7 +13,7 @@ const CYTHON_HEADER_FILE: &str = "qcd_sme.pxd";
 const INCLUDE_GUARD: &str = "__QCD_SME_H__";
 
 fn main() {
-    println!("cargo::warning=There's a known bug in the *_w_field_config functions: you still have to call qcd_sme::consts::set_number_of_colors(nc) for nc != 3 and nf != 0. This bug also makes the functions not thread-safe with respect to a change of nc. I will eventually fix this but I'm too busy right now.");
+    println!("cargo::warning=The *_w_field_config functions with nf != 0 read the global number of colors while they run, so they are not thread-safe with respect to a change of it by qcd_sme::consts::set_number_of_colors.");
 
     let crate_dir = path::PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap());
     let mut target_dir = crate_dir.join("target");
diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 24efcff..15a6000 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -5,7 +5,7 @@ pub mod ghost {
 }
 
 pub mod gluon {
-    use crate::consts::nf;
+    use crate::consts::{nc, nf};
     use crate::low_level::oneloop::thermal::gluon as gluon_thermal_parts;
     use crate::qcd::gluon as gluon_vac;
     use crate::qcd::FieldConfig;
@@ -113,7 +113,7 @@ pub mod gluon {
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                     om, p, qi.mq, beta, mu,
-                ) * (qi.nf as R)
+                ) * (qi.nf_div_nc * (nc() as R))
             })
             .sum();
         gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -140,7 +140,7 @@ pub mod gluon {
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                     om, p, qi.mq, beta, mu,
-                ) * (qi.nf as R)
+                ) * (qi.nf_div_nc * (nc() as R))
             })
             .sum();
         gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -211,7 +211,7 @@ pub mod gluon {
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                     om, p, qi.mq, mu,
-                ) * (qi.nf as R)
+                ) * (qi.nf_div_nc * (nc() as R))
             })
             .sum();
         gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -234,7 +234,7 @@ pub mod gluon {
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                     om, p, qi.mq, mu,
-                ) * (qi.nf as R)
+                ) * (qi.nf_div_nc * (nc() as R))
             })
             .sum();
         gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -368,7 +368,7 @@ pub mod zero_matsubara {
     }
 
     pub mod gluon {
-        use crate::consts::nf;
+        use crate::consts::{nc, nf};
         use crate::low_level::oneloop::thermal::gluon::zero_matsubara as gluon_thermal_parts;
         use crate::qcd::gluon as gluon_vac;
         use crate::qcd::FieldConfig;
@@ -475,7 +475,7 @@ pub mod zero_matsubara {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                         p, qi.mq, beta, mu,
-                    ) * (qi.nf as R)
+                    ) * (qi.nf_div_nc * (nc() as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -501,7 +501,7 @@ pub mod zero_matsubara {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                         p, qi.mq, beta, mu,
-                    ) * (qi.nf as R)
+                    ) * (qi.nf_div_nc * (nc() as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -565,7 +565,7 @@ pub mod zero_matsubara {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                         p, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    ) * (qi.nf_div_nc * (nc() as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -586,7 +586,7 @@ pub mod zero_matsubara {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                         p, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    ) * (qi.nf_div_nc * (nc() as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -639,7 +639,7 @@ pub mod zero_momentum {
     }
 
     pub mod gluon {
-        use crate::consts::nf;
+        use crate::consts::{nc, nf};
         use crate::low_level::oneloop::thermal::gluon::zero_momentum as gluon_thermal_parts;
         use crate::qcd::gluon as gluon_vac;
         use crate::qcd::FieldConfig;
@@ -746,7 +746,7 @@ pub mod zero_momentum {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                         om, qi.mq, beta, mu,
-                    ) * (qi.nf as R)
+                    ) * (qi.nf_div_nc * (nc() as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -772,7 +772,7 @@ pub mod zero_momentum {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                         om, qi.mq, beta, mu,
-                    ) * (qi.nf as R)
+                    ) * (qi.nf_div_nc * (nc() as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -837,7 +837,7 @@ pub mod zero_momentum {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                         om, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    ) * (qi.nf_div_nc * (nc() as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
@@ -859,7 +859,7 @@ pub mod zero_momentum {
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                         om, qi.mq, mu,
-                    ) * (qi.nf as R)
+                    ) * (qi.nf_div_nc * (nc() as R))
                 })
                 .sum();
             gluon_vac::dressing_inv_landau_w_field_config(s, f0, config)
-- 
2.43.0


From 01c348253cb1ed2a614c460350668f34c7334bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 2/6] fix: read the public fields of a field configuration when
 it is used, not only when it is built

---
 qcd-sme/src/qcd/gluon.rs   |  8 ++++----
 qcd-sme/src/qcd/thermal.rs | 36 ++++++++++++------------------------
 qcd-sme/src/qcd/types.rs   | 20 +++++++-------------
 3 files changed, 23 insertions(+), 41 deletions(-)

diff --git a/qcd-sme/src/qcd/gluon.rs b/qcd-sme/src/qcd/gluon.rs
index 11d6a28..7996602 100644
--- a/qcd-sme/src/qcd/gluon.rs
+++ b/qcd-sme/src/qcd/gluon.rs
@@ -357,7 +357,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q(s_q) * qi.nf_div_nc;
         }
@@ -370,7 +370,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_sep(s, ln_s, ln_s_pl_1, f0, xi);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q(s_q) * qi.nf_div_nc;
         }
@@ -407,7 +407,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q_crossed(s_q) * qi.nf_div_nc;
         }
@@ -425,7 +425,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_sep(s, ln_s, ln_s_pl_1, f0, xi);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q_crossed(s_q) * qi.nf_div_nc;
         }
diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 15a6000..a136e01 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -108,8 +108,7 @@ pub mod gluon {
         let sdim = om * om + (p * p).into();
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                     om, p, qi.mq, beta, mu,
@@ -135,8 +134,7 @@ pub mod gluon {
         let sdim = om * om + p * p;
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                     om, p, qi.mq, beta, mu,
@@ -206,8 +204,7 @@ pub mod gluon {
         let sdim = om * om + (p * p).into();
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                     om, p, qi.mq, mu,
@@ -229,8 +226,7 @@ pub mod gluon {
         let sdim = om * om + p * p;
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                     om, p, qi.mq, mu,
@@ -470,8 +466,7 @@ pub mod zero_matsubara {
             let sdim = p * p;
             let s = sdim / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                         p, qi.mq, beta, mu,
@@ -496,8 +491,7 @@ pub mod zero_matsubara {
             let sdim = p * p;
             let s = sdim / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                         p, qi.mq, beta, mu,
@@ -560,8 +554,7 @@ pub mod zero_matsubara {
             let m = config.gluon;
             let s = p * p / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                         p, qi.mq, mu,
@@ -581,8 +574,7 @@ pub mod zero_matsubara {
             let m = config.gluon;
             let s = p * p / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                         p, qi.mq, mu,
@@ -741,8 +733,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                         om, qi.mq, beta, mu,
@@ -767,8 +758,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
                         om, qi.mq, beta, mu,
@@ -832,8 +822,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                         om, qi.mq, mu,
@@ -854,8 +843,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
                         om, qi.mq, mu,
diff --git a/qcd-sme/src/qcd/types.rs b/qcd-sme/src/qcd/types.rs
index c012499..8e69887 100644
--- a/qcd-sme/src/qcd/types.rs
+++ b/qcd-sme/src/qcd/types.rs
@@ -11,28 +11,23 @@ pub struct FieldConfig {
     /// Quark mass configuration: number of quarks (`quarks[i].0`) with a given
     /// mass parameter (`quarks[i].1`).
     pub quarks: Vec<(NFTYPE, R)>,
-    // (nf, mq, nf/nc, mq/m)
-    pub(crate) quarks_internal: Vec<QuarkInternal>,
 }
 
 impl FieldConfig {
     pub fn new(nc: NCTYPE, gluon: R, quarks: Vec<(NFTYPE, R)>) -> Self {
-        let quarks_internal = quarks
+        Self { nc, gluon, quarks }
+    }
+
+    // Computed on demand: the public fields can change after construction.
+    pub(crate) fn quarks_internal(&self) -> impl Iterator<Item = QuarkInternal> + '_ {
+        self.quarks
             .iter()
-            .map(|&(nf, mq)| QuarkInternal::new(nc, gluon, nf, mq))
-            .collect();
-        Self {
-            nc,
-            gluon,
-            quarks,
-            quarks_internal,
-        }
+            .map(move |&(nf, mq)| QuarkInternal::new(self.nc, self.gluon, nf, mq))
     }
 }
 
 #[derive(Clone, Copy, Debug)]
 pub struct QuarkInternal {
-    pub nf: NFTYPE,
     pub mq: R,
     pub nf_div_nc: R,
     pub mq_div_m_2: R,
@@ -44,7 +39,6 @@ impl QuarkInternal {
         let mq_div_m = mq / m;
         let mq_div_m_2 = mq_div_m * mq_div_m;
         Self {
-            nf,
             mq,
             nf_div_nc,
             mq_div_m_2,
-- 
2.43.0


From b45f86a580a691196a4017f2903bdff7bbe1e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 3/6] fix: keep a user-set default integration method in the
 zero-Matsubara polarizations

---
 qcd-sme/src/consts.rs                         | 10 +++++--
 .../src/low_level/oneloop/thermal/gluon.rs    | 27 ++++++++++---------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/qcd-sme/src/consts.rs b/qcd-sme/src/consts.rs
index a747912..8d24d5c 100644
--- a/qcd-sme/src/consts.rs
+++ b/qcd-sme/src/consts.rs
@@ -98,7 +98,10 @@ pub(crate) fn m_quark() -> R {
 }
 
 /// The default tolerance for numerical integrals.
-static mut TOL_INTEGRAL: R = 1E-10;
+static mut TOL_INTEGRAL: R = INITIAL_TOL_INTEGRAL;
+
+// The default integration tolerance as long as it is never changed.
+pub(crate) const INITIAL_TOL_INTEGRAL: R = 1E-10;
 
 /// Get the default tolerance for numerical integrals. Equals `1E-10` if never
 /// changed.
@@ -127,7 +130,10 @@ pub(crate) fn tol_integral() -> R {
 }
 
 /// The default maximum number of iterations for numerical integrals.
-static mut MAX_ITER_INTEGRAL: u32 = 50;
+static mut MAX_ITER_INTEGRAL: u32 = INITIAL_MAX_ITER_INTEGRAL;
+
+// The default maximum number of iterations as long as it is never changed.
+pub(crate) const INITIAL_MAX_ITER_INTEGRAL: u32 = 50;
 
 /// Get the default maximum number of iterations for numerical integrals.
 /// Equals `50` if never changed.
diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index fe9890b..0125fb1 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -576,7 +576,8 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, max_iter_integral, tol_integral,
+            get_default_integration_method, matsubara_reg, INITIAL_MAX_ITER_INTEGRAL,
+            INITIAL_TOL_INTEGRAL,
         };
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
@@ -764,10 +765,10 @@ pub mod zero_matsubara {
         // the error meaningfully, since the error due to EPS being non zero is larger
         // by at least two orders of magnitude (given the defaults at the time of writing).
         pub fn polarization_glue_l_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -775,10 +776,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_glue_t_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -786,10 +787,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -797,10 +798,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_t_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -808,10 +809,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -819,10 +820,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
-- 
2.43.0


From 1e65c7393fff141802fefa0415ae53288ca46bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 4/6] fix: classify points on a plateau of the phase boundary
 like their neighbours

---
 tc_long_prop/src/lib.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tc_long_prop/src/lib.rs b/tc_long_prop/src/lib.rs
index 514948f..160e09d 100644
--- a/tc_long_prop/src/lib.rs
+++ b/tc_long_prop/src/lib.rs
@@ -159,16 +159,12 @@ pub fn is_deconfined_phase(mu: R, t: R, phase_boundary: &[(R, R)]) -> bool {
     }
 
     // We scan from lower to higher chemical potentials. If the chemical
-    // potentials match we compare temperatures, if the temperatures match
-    // we compare chemical potentials. Otherwise we interpolate (read below
-    // and compare temperatures.
+    // potentials match we compare temperatures. Otherwise we interpolate (read
+    // below) and compare temperatures.
     for (i, (mmu, tt)) in phase_boundary.iter().enumerate() {
         if *mmu == mu {
             return t > *tt;
         }
-        if *tt == t {
-            return mu > *mmu;
-        }
         if *mmu > mu {
             // mmu is the smallest chemical potential in our set greater than mu,
             // therefore mu0 must be the largest chemical potential in our set less
-- 
2.43.0


From ca4173c35bc5c5cedeec85ec6f713889290a1046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 5/6] fix: Fermi momentum is zero, not NaN, when the chemical
 potential equals the mass

mu*mu is exact inside the fused multiply-add while m*m has already been
rounded, so for |mu| = |m| the radicand could be a tiny negative number.
The zero-temperature quark polarizations then integrated to a NaN limit
and the adaptive quadrature never terminated.
---
 qcd-sme/src/common/thermal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcd-sme/src/common/thermal.rs b/qcd-sme/src/common/thermal.rs
index 1e7e25a..53a1bfb 100644
--- a/qcd-sme/src/common/thermal.rs
+++ b/qcd-sme/src/common/thermal.rs
@@ -165,7 +165,7 @@ pub(crate) mod inlines {
 
     #[inline(always)]
     pub fn fermi_momentum(m: R, mu: R) -> R {
-        mu.mul_add(mu, -(m * m)).sqrt()
+        ((mu - m) * (mu + m)).sqrt()
     }
 
     #[inline(always)]
-- 
2.43.0


From 3fd2aff988cd18a32b7030c356a9c3be93164259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 6/6] fix: static logarithm of complex masses

For complex masses the zero-Matsubara logarithm ln(A**2)/2 differs from the
zero-frequency limit ln(A) of the general functions by i pi when Re(A) < 0.
The squared form is only needed (and only right) when A is real.
---
 .../src/low_level/oneloop/thermal/zero_matsubara.rs    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qcd-sme/src/low_level/oneloop/thermal/zero_matsubara.rs b/qcd-sme/src/low_level/oneloop/thermal/zero_matsubara.rs
index e6945ac..ef83ca6 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/zero_matsubara.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/zero_matsubara.rs
@@ -339,8 +339,14 @@ pub(crate) mod inlines {
     pub fn tlog<T: Num>(q: R, p: R, delta: T) -> C {
         let r_0 = r_0(p, delta);
         let q2p = q * 2. * p;
-        let rat = (r_0 + q2p) / (r_0 - q2p);
-        Into::<C>::into(rat * rat).ln() / 2.
+        let rat: C = ((r_0 + q2p) / (r_0 - q2p)).into();
+        // away from the real axis the branch cut is not approached: both logarithms
+        // tend to ln(A), which differs from ln(A**2)/2 by +-i pi if Re(A) < 0
+        if rat.im == 0. {
+            (rat * rat).ln() / 2.
+        } else {
+            rat.ln()
+        }
     }
 
     #[inline(always)]
-- 
2.43.0

