From bf0d26683ca904aac6a165d083f2a7cab06b69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 1/9] fix: smoothly_clipped_line returns NaN for a flat line
 (m=0)

---
 diffstar/diffstarpop/utils.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/diffstar/diffstarpop/utils.py b/diffstar/diffstarpop/utils.py
index 1bb6d1c..83354cf 100644
--- a/diffstar/diffstarpop/utils.py
+++ b/diffstar/diffstarpop/utils.py
@@ -179,23 +179,19 @@ def smoothly_clipped_line(x, x0, y0, m, y_lo, y_hi):
         The y-values corresponding to x, smoothly clipped within [y_lo, y_hi].
 
     """
-    x_lo = (y_lo - y0) / m + x0  # value of x at which y=y_lo
-    x_hi = (y_hi - y0) / m + x0  # value of x at which y=y_hi
+    # Clip in terms of y rather than x so that a flat line (m=0) is well defined
+    dy_lo = y0 - y_lo
+    dy_hi = y_hi - y0
 
-    dx_lo = x0 - x_lo
-    dx_hi = x_hi - x0
+    y_lo_bound = y_lo + dy_lo / 100.0  # value of y=y_lo+ε
+    y_hi_bound = y_hi - dy_hi / 100.0  # value of y=y_hi-ε
 
-    eps_lo = dx_lo / 100.0  # tiny step in x above x_lo
-    eps_hi = dx_hi / 100.0  # tiny step in x below x_hi
-
-    xc_lo = x_lo + eps_lo  # value of x at which y=y_lo+ε
-    xc_hi = x_hi - eps_hi  # value of x at which y=y_hi-ε
-
-    y_lo_bound = y0 + m * (xc_lo - x0)  # value of y=y_lo+ε
-    y_hi_bound = y0 + m * (xc_hi - x0)  # value of y=y_hi-ε
-
-    CLIPPING_K = 20.0 / eps_lo  # Steep transition speed for this Δx
+    CLIPPING_K = 2000.0 / dy_lo  # Steep transition speed for this Δy
     y_unclipped = y0 + m * (x - x0)
-    y_clipped_from_below = _sigmoid(x, xc_lo, CLIPPING_K, y_lo_bound, y_unclipped)
-    y_clipped = _sigmoid(x, xc_hi, CLIPPING_K, y_clipped_from_below, y_hi_bound)
+    y_clipped_from_below = _sigmoid(
+        y_unclipped, y_lo_bound, CLIPPING_K, y_lo_bound, y_unclipped
+    )
+    y_clipped = _sigmoid(
+        y_unclipped, y_hi_bound, CLIPPING_K, y_clipped_from_below, y_hi_bound
+    )
     return y_clipped
-- 
2.43.0


From eade94c6a2e4edf8eef01f2e10ea12e0ea6c4a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 2/9] fix: smoothly_clipped_line overshoots the upper bound
 when y0 is close to y_hi

---
 diffstar/diffstarpop/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/diffstar/diffstarpop/utils.py b/diffstar/diffstarpop/utils.py
index 83354cf..ff342a9 100644
--- a/diffstar/diffstarpop/utils.py
+++ b/diffstar/diffstarpop/utils.py
@@ -8,6 +8,8 @@ from scipy.optimize import minimize
 
 from ..utils import jax_np_interp
 
+TINY_DY = 1e-30
+
 
 @jjit
 def _sigmoid(x, x0, k, ymin, ymax):
@@ -186,12 +188,14 @@ def smoothly_clipped_line(x, x0, y0, m, y_lo, y_hi):
     y_lo_bound = y_lo + dy_lo / 100.0  # value of y=y_lo+ε
     y_hi_bound = y_hi - dy_hi / 100.0  # value of y=y_hi-ε
 
-    CLIPPING_K = 2000.0 / dy_lo  # Steep transition speed for this Δy
+    # Steep transition speeds, each scaled to the distance from its own bound
+    CLIPPING_K_LO = 2000.0 / jnp.maximum(dy_lo, TINY_DY)
+    CLIPPING_K_HI = 2000.0 / jnp.maximum(dy_hi, TINY_DY)
     y_unclipped = y0 + m * (x - x0)
     y_clipped_from_below = _sigmoid(
-        y_unclipped, y_lo_bound, CLIPPING_K, y_lo_bound, y_unclipped
+        y_unclipped, y_lo_bound, CLIPPING_K_LO, y_lo_bound, y_unclipped
     )
     y_clipped = _sigmoid(
-        y_unclipped, y_hi_bound, CLIPPING_K, y_clipped_from_below, y_hi_bound
+        y_unclipped, y_hi_bound, CLIPPING_K_HI, y_clipped_from_below, y_hi_bound
     )
     return y_clipped
-- 
2.43.0


From b8146caf9562936f8764d603de96b514b38c2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:52 +0000
Subject: [PATCH 3/9] fix: minimizer_wrapper stops retrying when a NaN loss
 precedes a failed initial guess

---
 diffstar/fitting_helpers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/fitting_helpers/utils.py b/diffstar/fitting_helpers/utils.py
index 281586b..4f89100 100644
--- a/diffstar/fitting_helpers/utils.py
+++ b/diffstar/fitting_helpers/utils.py
@@ -142,7 +142,7 @@ def minimizer_wrapper(
             loss_best_list.append(999.99)
             success_list.append(-1)
 
-            loss_best_current = np.min(loss_best_list)
+            loss_best_current = np.nanmin(loss_best_list)
             iter_id += 1
         else:
             res = minimize(
-- 
2.43.0


From 67866b434a7121732402b68796e1cc29e9dc3e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:52 +0000
Subject: [PATCH 4/9] fix: extract_galacticus_sfh_tables writes outside its
 block when istart > 0

---
 diffstar/data_loaders/extract_galacticus_sfh_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffstar/data_loaders/extract_galacticus_sfh_data.py b/diffstar/data_loaders/extract_galacticus_sfh_data.py
index 2b51dca..2fdfa43 100644
--- a/diffstar/data_loaders/extract_galacticus_sfh_data.py
+++ b/diffstar/data_loaders/extract_galacticus_sfh_data.py
@@ -71,8 +71,8 @@ def extract_galacticus_sfh_tables(fn, colname, istart=0, iend=None):
                     [sfh_data_igal[j] for j in range(n_met, 2 * n_met)]
                 )
 
-                delta_mstar_in_situ_table[igal, :] = np.sum(X_sfh_in_situ, axis=0)
-                delta_mstar_tot_table[igal, :] = np.sum(X_sfh_tot, axis=0)
+                delta_mstar_in_situ_table[igal - istart, :] = np.sum(X_sfh_in_situ, axis=0)
+                delta_mstar_tot_table[igal - istart, :] = np.sum(X_sfh_tot, axis=0)
 
     return delta_mstar_tot_table, delta_mstar_in_situ_table, tarr
 
-- 
2.43.0


From 1b0d2cf401a3c4428af042a8e1dc0439a9e41dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:52 +0000
Subject: [PATCH 5/9] fix: get_weights gives full weight to snapshots excluded
 from the fit

---
 diffstar/fitting_helpers/diffstar_fitting_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffstar/fitting_helpers/diffstar_fitting_helpers.py b/diffstar/fitting_helpers/diffstar_fitting_helpers.py
index f5f4352..3c67acc 100644
--- a/diffstar/fitting_helpers/diffstar_fitting_helpers.py
+++ b/diffstar/fitting_helpers/diffstar_fitting_helpers.py
@@ -172,12 +172,12 @@ def get_weights(
 
     weight = np.ones_like(t_table)
     weight[~mask] = 1e10
-    weight[log_smah_sim[-1] - log_smah_sim < 0.1] = 0.5
+    weight[mask & (log_smah_sim[-1] - log_smah_sim < 0.1)] = 0.5
     weight = jnp.array(weight)
 
     weight_fstar = np.ones_like(t_table)
     weight_fstar[~mask] = 1e10
-    weight_fstar[log_fstar_sim.max() - log_fstar_sim < 0.1] = 0.5
+    weight_fstar[mask & (log_fstar_sim.max() - log_fstar_sim < 0.1)] = 0.5
     weight_fstar[weight_fstar == -10.0] = 1e10
     weight_fstar[t_table < fstar_tdelay + 0.01] = 1e10
 
-- 
2.43.0


From 68bdcfbdbaab9b95d27f163865148e20f3a24e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:52 +0000
Subject: [PATCH 6/9] fix: load_fit_sfh requires a tau_dep column that the
 fitter does not write

---
 diffstar/data_loaders/load_smah_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/diffstar/data_loaders/load_smah_data.py b/diffstar/data_loaders/load_smah_data.py
index 48aa091..ec30cbb 100644
--- a/diffstar/data_loaders/load_smah_data.py
+++ b/diffstar/data_loaders/load_smah_data.py
@@ -167,7 +167,6 @@ def load_fit_sfh(basename, data_drn=BEBOP):
                 hdf["lgy_at_mcrit"][:],
                 hdf["indx_lo"][:],
                 hdf["indx_hi"][:],
-                hdf["tau_dep"][:],
             ]
         ).T
         q_fit_params = np.array(
-- 
2.43.0


From 1c71fa8d3824edbfd15ccce63786c0b02997a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 7/9] fix: fitting scripts ignore their -fstar_tdelay,
 -mass_fit_min and -ssfrh_floor options

---
 scripts/diffstar_fitting_script_umachine.py        | 1 +
 scripts/diffstar_fitting_script_umachine_mgash.py  | 1 +
 scripts/galacticus_diffstar_fitter_script.py       | 2 +-
 scripts/galacticus_diffstar_fitter_script_mgash.py | 2 +-
 scripts/history_fitting_script_TNG_mgash.py        | 2 +-
 5 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/diffstar_fitting_script_umachine.py b/scripts/diffstar_fitting_script_umachine.py
index 157f9ce..e5abf42 100644
--- a/scripts/diffstar_fitting_script_umachine.py
+++ b/scripts/diffstar_fitting_script_umachine.py
@@ -194,6 +194,7 @@ if __name__ == "__main__":
                         mah_params,
                         lgt0=np.log10(T0_SMDPL),
                         fb=FB_SMDPL,
+                        **kwargs,
                     )
                     sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                     outline = dfh.get_outline(
diff --git a/scripts/diffstar_fitting_script_umachine_mgash.py b/scripts/diffstar_fitting_script_umachine_mgash.py
index e87cf54..30743b7 100644
--- a/scripts/diffstar_fitting_script_umachine_mgash.py
+++ b/scripts/diffstar_fitting_script_umachine_mgash.py
@@ -194,6 +194,7 @@ if __name__ == "__main__":
                         mah_params,
                         lgt0=np.log10(T0_SMDPL),
                         fb=FB_SMDPL,
+                        **kwargs,
                     )
                     sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                     outline = dfh.get_outline(
diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 6f11ec3..6881426 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -144,7 +144,7 @@ if __name__ == "__main__":
 
             if run_fitter:
                 _res = dfh.diffstar_fitter(
-                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB
+                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB, **kwargs
                 )
                 sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                 outline = dfh.get_outline(
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 6f11ec3..6881426 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -144,7 +144,7 @@ if __name__ == "__main__":
 
             if run_fitter:
                 _res = dfh.diffstar_fitter(
-                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB
+                    tarr, sfh, mah_params, lgt0=np.log10(T0), fb=lgs.FB, **kwargs
                 )
                 sfh_params_best, diffstar_loss, diffstar_fit_success = _res
                 outline = dfh.get_outline(
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index cb634f7..1f8d5a5 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -125,7 +125,7 @@ if __name__ == "__main__":
             logmp_halo = logmp_for_rank[i]
 
             _res = dfh.diffstar_fitter(
-                tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG
+                tarr, sfrh, mah_params, lgt0=np.log10(T0), fb=FB_TNG, **kwargs
             )
             sfh_params_best, diffstar_loss, diffstar_fit_success = _res
             outline = dfh.get_outline(
-- 
2.43.0


From ce52e5527243544a9136954d6bb921de0883fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 8/9] fix: fitting scripts fail to collate a rank that fit one
 galaxy or none

---
 scripts/diffstar_fitting_script_umachine.py                     | 2 +-
 scripts/diffstar_fitting_script_umachine_mgash.py               | 2 +-
 scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py | 2 +-
 scripts/galacticus_diffstar_fitter_script.py                    | 2 +-
 scripts/galacticus_diffstar_fitter_script_mgash.py              | 2 +-
 scripts/history_fitting_script_TNG_mgash.py                     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/diffstar_fitting_script_umachine.py b/scripts/diffstar_fitting_script_umachine.py
index e5abf42..c76da27 100644
--- a/scripts/diffstar_fitting_script_umachine.py
+++ b/scripts/diffstar_fitting_script_umachine.py
@@ -221,7 +221,7 @@ if __name__ == "__main__":
             for fit_fn in fit_data_fnames:
                 assert os.path.isfile(fit_fn)
                 fit_data = np.genfromtxt(fit_fn, dtype="str")
-                collector.append(fit_data)
+                collector.append(fit_data.reshape((-1, len(colnames_out))))
             subvol_i_fit_results = np.concatenate(collector)
 
             subvol_str = f"subvol_{isubvol:0{nchar_subvol}d}"
diff --git a/scripts/diffstar_fitting_script_umachine_mgash.py b/scripts/diffstar_fitting_script_umachine_mgash.py
index 30743b7..281b076 100644
--- a/scripts/diffstar_fitting_script_umachine_mgash.py
+++ b/scripts/diffstar_fitting_script_umachine_mgash.py
@@ -221,7 +221,7 @@ if __name__ == "__main__":
             for fit_fn in fit_data_fnames:
                 assert os.path.isfile(fit_fn)
                 fit_data = np.genfromtxt(fit_fn, dtype="str")
-                collector.append(fit_data)
+                collector.append(fit_data.reshape((-1, len(colnames_out))))
             subvol_i_fit_results = np.concatenate(collector)
 
             subvol_str = f"subvol_{isubvol:0{nchar_subvol}d}"
diff --git a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
index 1ebf68f..1e3ffb2 100644
--- a/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
+++ b/scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py
@@ -123,7 +123,7 @@ if __name__ == "__main__":
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
             collector.append(fit_data)
-        chunk_fit_results = np.concatenate(collector)
+        chunk_fit_results = np.vstack(collector)
 
         fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
         outfn = os.path.join(outdir, outbn)
diff --git a/scripts/galacticus_diffstar_fitter_script.py b/scripts/galacticus_diffstar_fitter_script.py
index 6881426..9c88fab 100644
--- a/scripts/galacticus_diffstar_fitter_script.py
+++ b/scripts/galacticus_diffstar_fitter_script.py
@@ -172,7 +172,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn), fit_fn
             fit_data = np.genfromtxt(fit_fn, dtype="str")
-            collector.append(fit_data)
+            collector.append(fit_data.reshape((-1, len(colnames_out))))
         subvol_i_fit_results = np.concatenate(collector)
 
         outbn = f"diffstar_fits_{sfh_type}.hdf5"
diff --git a/scripts/galacticus_diffstar_fitter_script_mgash.py b/scripts/galacticus_diffstar_fitter_script_mgash.py
index 6881426..9c88fab 100644
--- a/scripts/galacticus_diffstar_fitter_script_mgash.py
+++ b/scripts/galacticus_diffstar_fitter_script_mgash.py
@@ -172,7 +172,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn), fit_fn
             fit_data = np.genfromtxt(fit_fn, dtype="str")
-            collector.append(fit_data)
+            collector.append(fit_data.reshape((-1, len(colnames_out))))
         subvol_i_fit_results = np.concatenate(collector)
 
         outbn = f"diffstar_fits_{sfh_type}.hdf5"
diff --git a/scripts/history_fitting_script_TNG_mgash.py b/scripts/history_fitting_script_TNG_mgash.py
index 1f8d5a5..9482fd6 100644
--- a/scripts/history_fitting_script_TNG_mgash.py
+++ b/scripts/history_fitting_script_TNG_mgash.py
@@ -149,7 +149,7 @@ if __name__ == "__main__":
         for fit_fn in fit_data_fnames:
             assert os.path.isfile(fit_fn)
             fit_data = np.genfromtxt(fit_fn, dtype="str")
-            collector.append(fit_data)
+            collector.append(fit_data.reshape((-1, len(colnames_out))))
         subvol_i_fit_results = np.concatenate(collector)
 
         fit_data_bnames = [os.path.basename(fn) for fn in fit_data_fnames]
-- 
2.43.0


From ea002b1c1aaf8fa1545491c349b60bb2a4460e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 9/9] fix: _jax_get_dt_array handles integer tables and
 two-point tables

Steps of an integer table were truncated to integers, and a table of two
times raised IndexError, unlike _get_dt_array.
---
 diffstar/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diffstar/utils.py b/diffstar/utils.py
index dd9d264..8cda6a3 100644
--- a/diffstar/utils.py
+++ b/diffstar/utils.py
@@ -14,16 +14,16 @@ YEAR_PER_GYR = 1e9
 
 @jjit
 def _jax_get_dt_array(t):
-    dt = jnp.zeros_like(t)
     tmids = 0.5 * (t[:-1] + t[1:])
+    dt = jnp.zeros_like(t, dtype=tmids.dtype)
     dtmids = jnp.diff(tmids)
 
     dt = dt.at[1:-1].set(dtmids)
 
     t_lo = t[0] - (t[1] - t[0]) / 2
-    t_hi = t[-1] + dtmids[-1] / 2
-
     dt = dt.at[0].set(tmids[0] - t_lo)
+
+    t_hi = t[-1] + dt[-2] / 2
     dt = dt.at[-1].set(t_hi - tmids[-1])
     return dt
 
-- 
2.43.0

