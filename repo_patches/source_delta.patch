From 8a6e7df3a9ce5b4bb146117b86cc2ea4e0214a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 1/7] fix: smoothly_clipped_line is finite for zero slope

---
 diffstar/diffstarpop/utils.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/diffstar/diffstarpop/utils.py b/diffstar/diffstarpop/utils.py
index 1bb6d1c..0ed85b8 100644
--- a/diffstar/diffstarpop/utils.py
+++ b/diffstar/diffstarpop/utils.py
@@ -179,23 +179,19 @@ def smoothly_clipped_line(x, x0, y0, m, y_lo, y_hi):
         The y-values corresponding to x, smoothly clipped within [y_lo, y_hi].
 
     """
-    x_lo = (y_lo - y0) / m + x0  # value of x at which y=y_lo
-    x_hi = (y_hi - y0) / m + x0  # value of x at which y=y_hi
+    # The transitions are placed in y, so that flat lines (m=0) are also well defined
+    eps_lo = (y0 - y_lo) / 100.0  # tiny step in y above y_lo
+    eps_hi = (y_hi - y0) / 100.0  # tiny step in y below y_hi
 
-    dx_lo = x0 - x_lo
-    dx_hi = x_hi - x0
+    y_lo_bound = y_lo + eps_lo  # value of y=y_lo+ε
+    y_hi_bound = y_hi - eps_hi  # value of y=y_hi-ε
 
-    eps_lo = dx_lo / 100.0  # tiny step in x above x_lo
-    eps_hi = dx_hi / 100.0  # tiny step in x below x_hi
-
-    xc_lo = x_lo + eps_lo  # value of x at which y=y_lo+ε
-    xc_hi = x_hi - eps_hi  # value of x at which y=y_hi-ε
-
-    y_lo_bound = y0 + m * (xc_lo - x0)  # value of y=y_lo+ε
-    y_hi_bound = y0 + m * (xc_hi - x0)  # value of y=y_hi-ε
-
-    CLIPPING_K = 20.0 / eps_lo  # Steep transition speed for this Δx
+    CLIPPING_K = 20.0 / eps_lo  # Steep transition speed for this Δy
     y_unclipped = y0 + m * (x - x0)
-    y_clipped_from_below = _sigmoid(x, xc_lo, CLIPPING_K, y_lo_bound, y_unclipped)
-    y_clipped = _sigmoid(x, xc_hi, CLIPPING_K, y_clipped_from_below, y_hi_bound)
+    y_clipped_from_below = _sigmoid(
+        y_unclipped, y_lo_bound, CLIPPING_K, y_lo_bound, y_unclipped
+    )
+    y_clipped = _sigmoid(
+        y_unclipped, y_hi_bound, CLIPPING_K, y_clipped_from_below, y_hi_bound
+    )
     return y_clipped
-- 
2.43.0


From 3ce7f6ab5f42257248b82dd625d25677472a53e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:24 +0000
Subject: [PATCH 2/7] fix: extract_galacticus_sfh_tables fills rows relative to
 istart

---
 diffstar/data_loaders/extract_galacticus_sfh_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffstar/data_loaders/extract_galacticus_sfh_data.py b/diffstar/data_loaders/extract_galacticus_sfh_data.py
index 2b51dca..2fdfa43 100644
--- a/diffstar/data_loaders/extract_galacticus_sfh_data.py
+++ b/diffstar/data_loaders/extract_galacticus_sfh_data.py
@@ -71,8 +71,8 @@ def extract_galacticus_sfh_tables(fn, colname, istart=0, iend=None):
                     [sfh_data_igal[j] for j in range(n_met, 2 * n_met)]
                 )
 
-                delta_mstar_in_situ_table[igal, :] = np.sum(X_sfh_in_situ, axis=0)
-                delta_mstar_tot_table[igal, :] = np.sum(X_sfh_tot, axis=0)
+                delta_mstar_in_situ_table[igal - istart, :] = np.sum(X_sfh_in_situ, axis=0)
+                delta_mstar_tot_table[igal - istart, :] = np.sum(X_sfh_tot, axis=0)
 
     return delta_mstar_tot_table, delta_mstar_in_situ_table, tarr
 
-- 
2.43.0


From be7395b10f92156c0161a4c6d169785b7f6d7ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:28 +0000
Subject: [PATCH 3/7] fix: a NaN attempt does not stop the fitter's restarts

---
 diffstar/fitting_helpers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/fitting_helpers/utils.py b/diffstar/fitting_helpers/utils.py
index 281586b..4f89100 100644
--- a/diffstar/fitting_helpers/utils.py
+++ b/diffstar/fitting_helpers/utils.py
@@ -142,7 +142,7 @@ def minimizer_wrapper(
             loss_best_list.append(999.99)
             success_list.append(-1)
 
-            loss_best_current = np.min(loss_best_list)
+            loss_best_current = np.nanmin(loss_best_list)
             iter_id += 1
         else:
             res = minimize(
-- 
2.43.0


From 63a6c5fb497a025effaeaf5534930f1a20910cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 4/7] fix: start the fitter from the quenching guess it
 computes

---
 diffstar/fitting_helpers/diffstar_fitting_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/fitting_helpers/diffstar_fitting_helpers.py b/diffstar/fitting_helpers/diffstar_fitting_helpers.py
index f5f4352..e890f02 100644
--- a/diffstar/fitting_helpers/diffstar_fitting_helpers.py
+++ b/diffstar/fitting_helpers/diffstar_fitting_helpers.py
@@ -128,7 +128,7 @@ def get_loss_data_default(
     varied_q_params = np.array(DEFAULT_Q_PARAMS)
     varied_q_params[0] = np.clip(-0.5 * (logmp0 - 11.0) + 1.5, 0.7, 1.5)
     varied_q_params[2] = -2.0
-    varied_q_params = DEFAULT_Q_PARAMS._make(DEFAULT_Q_PARAMS)
+    varied_q_params = DEFAULT_Q_PARAMS._make(varied_q_params)
     varied_u_q_params = np.array(_get_unbounded_q_params(*varied_q_params))
     u_q_params_err = np.array([0.3, 0.5, 0.3, 0.3])
 
-- 
2.43.0


From 53640018bdb376172ed1bb4752a9972f5cb3f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:25 +0000
Subject: [PATCH 5/7] fix: load_fit_sfh reads only the columns the fitter
 writes

---
 diffstar/data_loaders/load_smah_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/diffstar/data_loaders/load_smah_data.py b/diffstar/data_loaders/load_smah_data.py
index 48aa091..ec30cbb 100644
--- a/diffstar/data_loaders/load_smah_data.py
+++ b/diffstar/data_loaders/load_smah_data.py
@@ -167,7 +167,6 @@ def load_fit_sfh(basename, data_drn=BEBOP):
                 hdf["lgy_at_mcrit"][:],
                 hdf["indx_lo"][:],
                 hdf["indx_hi"][:],
-                hdf["tau_dep"][:],
             ]
         ).T
         q_fit_params = np.array(
-- 
2.43.0


From 3ba1ade80ec5d7ed936c265fbc731ff9575f633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 6/7] fix: jax time steps of integer times are not truncated

---
 diffstar/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffstar/utils.py b/diffstar/utils.py
index dd9d264..b7d92be 100644
--- a/diffstar/utils.py
+++ b/diffstar/utils.py
@@ -14,8 +14,8 @@ YEAR_PER_GYR = 1e9
 
 @jjit
 def _jax_get_dt_array(t):
-    dt = jnp.zeros_like(t)
     tmids = 0.5 * (t[:-1] + t[1:])
+    dt = jnp.zeros_like(t, dtype=tmids.dtype)
     dtmids = jnp.diff(tmids)
 
     dt = dt.at[1:-1].set(dtmids)
-- 
2.43.0


From ffd9279cbb90f37ba0d939871c1ef389acf1eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 7/7] fix: jax time steps of exactly two times

---
 diffstar/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffstar/utils.py b/diffstar/utils.py
index b7d92be..8cda6a3 100644
--- a/diffstar/utils.py
+++ b/diffstar/utils.py
@@ -21,9 +21,9 @@ def _jax_get_dt_array(t):
     dt = dt.at[1:-1].set(dtmids)
 
     t_lo = t[0] - (t[1] - t[0]) / 2
-    t_hi = t[-1] + dtmids[-1] / 2
-
     dt = dt.at[0].set(tmids[0] - t_lo)
+
+    t_hi = t[-1] + dt[-2] / 2
     dt = dt.at[-1].set(t_hi - tmids[-1])
     return dt
 
-- 
2.43.0

