From b15669ef7d3010bf721f980f0bce1faf156bf782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 01/53] fix: probability of the 3D OR-XOR product (missing
 parentheses around the XOR probability)

---
 lom/_numba/lom_outputs_fuzzy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index f77e4b4..3a2bfde 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -97,9 +97,9 @@ def OR_XOR_product_fuzzy_3d(Z_n, U_d, V_m):
     temp = np.float64(1)
     # this is hard to generalise to arbitrary D
     for l in range(Z_n.shape[0]):
-        temp *= 1 - Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +\
-            U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +\
-            V_m[l] * (1 - Z_n[l]) * (1 - U_d[l])
+        temp *= 1 - (Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +
+                     U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +
+                     V_m[l] * (1 - Z_n[l]) * (1 - U_d[l]))
     return 1 - temp
 
 
-- 
2.43.0


From 1eb9aa97a88612a23161252f129a921601645b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 02/53] fix: fuzzy products were computed as crisp ones for 3D
 models other than OR-AND and for the general fallback

---
 lom/auxiliary_functions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index cd2877b..76e07a6 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -741,10 +741,17 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
     Factors and generated data are in [-1,1] mapping.
     """
 
+    def general_implementation():
+        if fuzzy is True:
+            # probabilities in, probabilities out
+            return .5 * (1 + lom_generate_data_fuzzy(
+                [2 * np.array(f, dtype=np.float64) - 1 for f in factors], model))
+        return lom_generate_data(factors, model)
+
     if model not in implemented_loms():
         print('Requested model output is not explicitly implemented.\n' +
               'Falling back to slower general implementation.')
-        return lom_generate_data(factors, model)
+        return general_implementation()
 
     if len(factors) == 2:
 
@@ -756,7 +763,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             out2D = lambda_updates_numba.make_output_function_2d_fuzzy(model)
             return out2D(*[np.array(f, dtype=np.float64) for f in factors])
 
-    elif len(factors) == 3 and model == 'OR-AND':
+    elif len(factors) == 3:
         if fuzzy is False:
             out3D = lambda_updates_numba.make_output_function_3d(model)
             return out3D(*[np.array(f, dtype=np.int8) for f in factors])
@@ -766,7 +773,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             return out3D(*[np.array(f, dtype=np.float64) for f in factors])
 
     else:
-        return lom_generate_data(factors, model)
+        return general_implementation()
 
 
 def lom_generate_data(factors, model='OR-AND'):
-- 
2.43.0


From e16e97aa6717e52575fa0f7f9d9eb28d8a77cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 03/53] fix: sampling a factor of a 3D layer that has a parent
 layer raised a TypeError

---
 lom/_numba/matrix_updates_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 15b7210..16c37d8 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -225,12 +225,12 @@ def make_sampling_fct_onechild_oneparent(model, parent_model):
                     if Z_fixed[n, l] == 1:
                         continue
                     logit_score = lbda *\
-                        posterior_score_fct(Z[n, :], U, V, X[n, :], l)
+                        posterior_score_fct(Z[n, :], U, V, X[n, :, :], l)
                     logit_parent_score = lbda_pa *\
                         parent_posterior_score_fct(pa1[n, :], pa2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
-                        logit_score + logit_parent_score + logit_prior), Z[n, l]
+                        logit_score + logit_parent_score + logit_prior, Z[n, l])
 
     return sampling_fct
 
-- 
2.43.0


From 5e061f25992ea02acd88ff984b5329a0ff6a07c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 04/53] fix: with two parent layers, the first parent's
 contribution was computed with the second parent's model

---
 lom/_numba/matrix_updates_numba.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 16c37d8..48d6dee 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -280,8 +280,8 @@ def make_sampling_fct_nochild_oneparent(parent_model):
 
 def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if parent_model_1[-2:] == '2D' and parent_model_2[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], ' +
@@ -298,10 +298,10 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                         continue
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_parent_score_1 + logit_parent_score_2 + logit_prior,
@@ -323,11 +323,11 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                             continue
 
                         logit_parent_score_1 = lbda_pa1 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_1(
                                 pa1_1[n, :], pa1_2[d, :], pa1_3[m, :])
 
                         logit_parent_score_2 = lbda_pa2 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_2(
                                 pa2_1[n, :], pa2_2[d, :], pa2_3[m, :])
 
                         Z[n, d, m] = flip_metropolised_gibbs_numba(
@@ -342,8 +342,8 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2):
 
     posterior_score_fct = get_posterior_score_fct(model)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if model[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64,' +
@@ -365,10 +365,10 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
                         posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_score + logit_parent_score_1 +
-- 
2.43.0


From 25dcbded3dc6aa689ac6d1f21475c5ac68631936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 05/53] fix: a third parent layer was silently ignored instead
 of being rejected

---
 lom/matrix_update_wrappers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 9237f94..a12efd4 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -246,11 +246,11 @@ def get_relatives_models(mat):
     if len(mat.parents) > 0:
         assert len(mat.parents[0].factors) == 2
         parent1_model = (mat.parents[0].model + '-2D').replace('-', '_')
-    if len(mat.parents) > 1:
+    if len(mat.parents) > 2:
+        raise NotImplementedError("More than two parents are not supported.")
+    elif len(mat.parents) > 1:
         assert len(mat.parents[1].factors) == 2
         parent2_model = (mat.parents[1].model + '-2D').replace('-', '_')
-    elif len(mat.parents) > 2:
-        raise NotImplementedError("More than two parents are not supported.")
 
     return model, parent1_model, parent2_model
 
-- 
2.43.0


From 3d151e14159cee78691fb1c4148105b1532bf5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 06/53] fix: a Bernoulli prior changed after a first inference
 was ignored by later ones

---
 lom/matrix_update_wrappers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index a12efd4..821a9d4 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -123,7 +123,6 @@ def get_sampling_fct(mat):
         elif mat.child_axis == 1:
             # return lambda mat: None
             sample = numba_mu.make_sampling_fct_onechild('OR_AND_2D')
-            logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
 
             def LOM_sampler(mat):
                 # numba_mu.draw_OR_AND_2D(
@@ -133,14 +132,12 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
     # assign functions for all classical LFMs
     else:
-        logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
-
         # standard case: one child, no parents
         if p1mod is None and mod is not None:
             sample = numba_mu.make_sampling_fct_onechild(mod)
@@ -153,7 +150,7 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
@@ -171,7 +168,7 @@ def get_sampling_fct(mat):
                     mat.layer.lbda(),
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -185,7 +182,7 @@ def get_sampling_fct(mat):
                     mat.fixed_entries,
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -201,7 +198,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -221,7 +218,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
-- 
2.43.0


From db9e4e7d119b85e4e68bb5d7552a04d59da02061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 07/53] fix: a parent layer added after a first inference was
 ignored when sampling its child

---
 lom/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index debef3b..9a518dd 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -286,6 +286,9 @@ class MachineLayer():
         self.child = child
 
         self.child.parents.append(self)
+        # the child has got a new parent: its sampling function needs to be
+        # determined again if it has been assigned by a previous inference.
+        self.child.sampling_fct = None
 
         for factor in factors:
             factor.layer = self
-- 
2.43.0


From 4304d93e44d4ccb4623440f597645c329146d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 08/53] fix: inference crashed for machines with a non-fixed
 matrix that belongs to no layer's factors

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 9a518dd..bc88ace 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -726,7 +726,7 @@ class Machine():
         # allocate memory to save samples
         print('allocating memory to save samples...')
         for mat in mats:
-            if mat.layer.model == 'OR-AND-IBP':
+            if mat.model == 'OR-AND-IBP':
                 mat.allocate_trace_arrays_IBP(no_samples)
             else:
                 mat.allocate_trace_arrays(no_samples)
-- 
2.43.0


From 01a2a93b0cb01aed5144bf0f204140796052ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:47 +0000
Subject: [PATCH 09/53] fix: MAX-AND updates mixed up latent dimensions and
 their ranks unless dispersions were sorted

---
 lom/_numba/max_machine_sampler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 479955f..f6bafe9 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -14,11 +14,13 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
-            if Z_fixed[n, l] == 1:
+            # l is the rank of the latent dimension by dispersion
+            l_dim = l_sorted[l]
+            if Z_fixed[n, l_dim] == 1:
                 continue
             logit_p = posterior_score_MAX_AND_2D(
                         Z[n, :], U, X[n, :], l, l_sorted, lbda_ratios)
-            Z[n, l] = flip_metropolised_gibbs_numba(logit_p, Z[n, l])
+            Z[n, l_dim] = flip_metropolised_gibbs_numba(logit_p, Z[n, l_dim])
 
 
 @jit('int32(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])', 
@@ -26,14 +28,15 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
     Return count of correct/incorrect explanations
-    caused by setting Z[n,l] to 1, respecting
+    caused by setting Z[n,l_sorted[l]] to 1, respecting
     explaining away dependencies.
+    Here, l is the rank of the latent dimension by dispersion.
     """
     D, L = U.shape
 
     score = np.int32(0)
     for d in range(D):
-        if U[d, l] != 1:  # AND
+        if U[d, l_sorted[l]] != 1:  # AND
             continue
 
         alrdy_active = False
-- 
2.43.0


From 893eb2a589e07ed90bc5b8b6ecc0d33196ec26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 10/53] fix: MAX-AND entry updates ignored dispersions assigned
 by the user until the first dispersion update

---
 lom/matrix_update_wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 821a9d4..cb9d39c 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -43,10 +43,13 @@ def get_sampling_fct(mat):
     if mod == 'MAX_AND_2D':
         assert p1mod is None
         assert p2mod is None
-        from lom._numba.max_machine_sampler import draw_MAX_AND_2D
+        from lom._numba.max_machine_sampler import (
+            draw_MAX_AND_2D, compute_lbda_ratios)
 
         def MAX_AND_2D(mat):
             l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
+            # dispersions may have been assigned since the ratios were computed
+            compute_lbda_ratios(mat.layer)
             draw_MAX_AND_2D(
                 mat(),
                 mat.fixed_entries,
-- 
2.43.0


From d38c55459d823dc7bb8758220b878c6c6b30d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 11/53] fix: MAX-AND product took the smallest instead of the
 largest dispersion of the active latent dimensions

---
 lom/_numba/lom_outputs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/lom_outputs.py b/lom/_numba/lom_outputs.py
index 2a4a4f2..302bd39 100644
--- a/lom/_numba/lom_outputs.py
+++ b/lom/_numba/lom_outputs.py
@@ -254,7 +254,7 @@ def XOR_NAND_product_3d(u, z, v):
 def MAX_AND_product_2d(factors, lbdas):
 
     out = np.zeros([f.shape[0] for f in factors])
-    for l_idx in np.argsort(lbdas[:-1]):
+    for l_idx in np.argsort(-lbdas[:-1]):
         temp = lbdas[l_idx] * OR_AND_product_expand(
             *[f[:, l_idx] for f in factors])
         out[out == 0] = temp[out == 0]
-- 
2.43.0


From ec357b7e58a4b0fa64a73a0c64bdc9b7f2e4af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 12/53] fix: MAX-AND outputs omitted the clamped dispersion of
 cells without active latent dimension

---
 lom/_numba/lom_outputs.py       | 3 +++
 lom/_numba/lom_outputs_fuzzy.py | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lom/_numba/lom_outputs.py b/lom/_numba/lom_outputs.py
index 302bd39..f6dd20f 100644
--- a/lom/_numba/lom_outputs.py
+++ b/lom/_numba/lom_outputs.py
@@ -259,4 +259,7 @@ def MAX_AND_product_2d(factors, lbdas):
             *[f[:, l_idx] for f in factors])
         out[out == 0] = temp[out == 0]
 
+    # clamped unit explains what no latent dimension does
+    out[out == 0] = lbdas[-1]
+
     return out
diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index 3a2bfde..0cdcc12 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -212,7 +212,9 @@ def MAX_AND_product_fuzzy(Z, U, lbdas):
     out = np.zeros([N, D])  # , dtype=np.float)
     for n in prange(N):
         for d in range(D):
-            acc = 0  # accumulator for sum
+            acc = lbdas[L]  # accumulator for sum, starting with clamped unit
+            for l1 in range(L):
+                acc *= 1 - Z[n, l1] * U[d, l1]
             for l1 in range(L):
                 temp1 = Z[n, l1] * U[d, l1] * lbdas[l1]
                 # check for explaining away
-- 
2.43.0


From 1d6a3461a7731028240e488467562fceec8080b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 13/53] fix: MAX-AND factor-mean output counted dimensions with
 equal dispersion twice and exceeded 1

---
 lom/_numba/lom_outputs_fuzzy.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index 0cdcc12..141722a 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -217,14 +217,12 @@ def MAX_AND_product_fuzzy(Z, U, lbdas):
                 acc *= 1 - Z[n, l1] * U[d, l1]
             for l1 in range(L):
                 temp1 = Z[n, l1] * U[d, l1] * lbdas[l1]
-                # check for explaining away
-                prod = 1
+                # check for explaining away (break ties by index)
+                prod = 1.0
                 for l2 in range(L):
-                    if l1 == l2:
-                        continue
-                    temp2 = Z[n, l2] * U[d, l2]
-                    if temp2 * lbdas[l2] > temp1:
-                        prod *= 1 - temp2
+                    if (lbdas[l2] > lbdas[l1]) or\
+                       (lbdas[l2] == lbdas[l1] and l2 < l1):
+                        prod *= 1 - Z[n, l2] * U[d, l2]
                 acc += temp1 * prod
             out[n, d] = acc
     return out    
-- 
2.43.0


From 60ef9f170a97303eeefc5628c410eef1ef736ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 14/53] fix: annealing skipped its first step and overshot the
 target dispersion

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index bc88ace..0c2230a 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -601,7 +601,7 @@ class Machine():
                             for lbda in lbdas]
 
                     for lbda_idx, lbda in enumerate(lbdas):
-                        lbda.val = annealing_lbdas[lbda_idx][pre_burn_in_iter]
+                        lbda.val = annealing_lbdas[lbda_idx][pre_burn_in_iter - 1]
 
         # allocate array for lambda traces for burn in detection
         for lbda in lbdas:
-- 
2.43.0


From 02778282ac7336b8d32e9762f697ba9a75bec581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 15/53] fix: first convergence check read an uninitialised
 trace entry

---
 lom/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 0c2230a..a5fcb87 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -622,7 +622,8 @@ class Machine():
                       end='')
 
             #  check convergence every convergence_window iterations
-            if burn_in_iter % convergence_window == 0:
+            # (i.e. every time the trace has been filled completely)
+            if burn_in_iter > 1 and (burn_in_iter - 1) % convergence_window == 0:
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-- 
2.43.0


From df4d81094ffee3f67e89696d1e86c5331cf9a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 16/53] fix: members fixed after an inference kept contributing
 their outdated trace to outputs

---
 lom/machine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index a5fcb87..b7aebd4 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -706,6 +706,11 @@ class Machine():
         #         print('Oo')
         #         thing_to_update.set_sampling_fct()
 
+        # fixed members are not sampled: discard traces of earlier inferences
+        for member in self.members + self.lbdas:
+            if member.fixed and 'trace' in member.__dict__:
+                del member.trace
+
         # ascertain sure all trace indices are zero
         for mat in mats:
             mat.trace_index = 0
-- 
2.43.0


From 5cbd49e910886f730d33b60c94a320a7da9f2de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 17/53] fix: MC output crashed for layers with fixed factors or
 fixed dispersion

---
 lom/machine.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index b7aebd4..9ad17e6 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -145,6 +145,12 @@ class Trace():
         self.trace[self.trace_index] = self.val
         self.trace_index += 1
 
+    def sample(self, t):
+        """
+        return t-th sample, members without trace are constant.
+        """
+        return self.trace[t] if 'trace' in self.__dict__ else self()
+
     def mean(self):
         if 'trace' in dir(self):
             return np.mean(self.trace, axis=0)
@@ -334,6 +340,14 @@ class MachineLayer():
     def dimensionality(self):
         return len(self.factors)
 
+    @property
+    def no_samples(self):
+        """
+        number of posterior samples, 1 if all members of the layer are constant
+        """
+        return max([len(x.trace) for x in self.factors + [self.lbda]
+                    if 'trace' in x.__dict__], default=1)
+
     def __iter__(self):
         return iter(self.factors)
 
@@ -383,11 +397,11 @@ class MachineLayer():
                         for x in self.factors], self.lbda())
             elif technique == 'mc':
                 out = np.zeros([x().shape[0] for x in self.factors])
-                for t in range(self.lbda.trace.shape[0]):
+                for t in range(self.no_samples):
                     out += lom_outputs.MAX_AND_product_2d(
-                        [x.trace[t, :] for x in self.factors],
-                        self.lbda.trace[t])
-                out /= self.lbda.trace.shape[0]
+                        [x.sample(t) for x in self.factors],
+                        self.lbda.sample(t))
+                out /= self.no_samples
             elif technique == 'factor_mean':
                 out = lom_outputs_fuzzy.MAX_AND_product_fuzzy(
                     .5 * (self.z.mean() + 1),
@@ -432,11 +446,11 @@ class MachineLayer():
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
 
-                for t in range(self.lbda.trace.shape[0]):
-                    out += aux.lom_generate_data_fast([x.trace[t, :]
+                for t in range(self.no_samples):
+                    out += aux.lom_generate_data_fast([x.sample(t)
                                                        for x in self.factors],
                                                       self.model)
-                out /= self.lbda.trace.shape[0]
+                out /= self.no_samples
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
             # convert to probability of generating a 1
-- 
2.43.0


From b5a81e5a31e63d5da59e519359c9a9e7b4b24d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 18/53] fix: output of qL-AND layers was not mapped to
 probabilities

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index 9ad17e6..7862b9d 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -418,6 +418,7 @@ class MachineLayer():
                         self.u()[d, :],
                         self.z()[n, :],
                         self.q()[0, d])
+            out = (1 + out) * .5  # map to probability of emitting a 1
 
         else:
             if technique == 'point_estimate':
-- 
2.43.0


From 20a17274030f108ba62b21588c997f29f07e7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 19/53] fix: qL-AND factor updates ignored the dispersion

---
 lom/_numba/matrix_updates_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 48d6dee..0f20551 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -634,7 +634,7 @@ def sample_qL_factors_Z(Z, U, X, q, lbda):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_Z(
+            logit_score = lbda * posterior_score_fct_qL_Z(
                 Z[n, :], U, X[n, :], l, q)
             Z[n, l] = flip_metropolised_gibbs_numba(
                 logit_score, Z[n, l])
@@ -652,7 +652,7 @@ def sample_qL_factors_U(U, Z, X, q, lbda):
     D, L = U.shape
     for d in prange(D):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_U(
+            logit_score = lbda * posterior_score_fct_qL_U(
                 U[d, :], Z, X[d, :], l, q[0, d])
             U[d, l] = flip_metropolised_gibbs_numba(
                 logit_score, U[d, l])
-- 
2.43.0


From c96cf58db50bb0e0b10e931a911b2a05b0d10979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 20/53] fix: qL-AND factor updates ignored fixed entries

---
 lom/_numba/matrix_updates_numba.py | 12 ++++++++----
 lom/matrix_update_wrappers.py      |  2 ++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 0f20551..45d5841 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -624,8 +624,8 @@ def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     return score
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_Z(Z, U, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
+def sample_qL_factors_Z(Z, Z_fixed, U, X, q, lbda):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -634,6 +634,8 @@ def sample_qL_factors_Z(Z, U, X, q, lbda):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
+            if Z_fixed[n, l] == 1:
+                continue
             logit_score = lbda * posterior_score_fct_qL_Z(
                 Z[n, :], U, X[n, :], l, q)
             Z[n, l] = flip_metropolised_gibbs_numba(
@@ -641,8 +643,8 @@ def sample_qL_factors_Z(Z, U, X, q, lbda):
     return
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_U(U, Z, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
+def sample_qL_factors_U(U, U_fixed, Z, X, q, lbda):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -652,6 +654,8 @@ def sample_qL_factors_U(U, Z, X, q, lbda):
     D, L = U.shape
     for d in prange(D):
         for l in range(L):
+            if U_fixed[d, l] == 1:
+                continue
             logit_score = lbda * posterior_score_fct_qL_U(
                 U[d, :], Z, X[d, :], l, q[0, d])
             U[d, l] = flip_metropolised_gibbs_numba(
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index cb9d39c..63739d4 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -78,6 +78,7 @@ def get_sampling_fct(mat):
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
@@ -89,6 +90,7 @@ def get_sampling_fct(mat):
             def qL_sampler_U(mat):
                 numba_mu.sample_qL_factors_U(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-- 
2.43.0


From c13225953f859efcf1c2ff600ffe25a9dce8396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 21/53] fix: qL-AND threshold update ignored the data

---
 lom/_numba/matrix_updates_numba.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 45d5841..ec2710c 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -546,9 +546,18 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
                 gamma - lgamma(q_new + 2)
 
             # compute loglikelihoods
-            true_predictions = np.sum(np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1)
+            true_predictions = 0
+            false_predictions = 0
+            for n in range(N):
+                if X[n, d] == 0:  # unobserved
+                    continue
+                if lom_outputs.qL_AND_product(
+                        U[d, :], Z[n, :], np.int8(q_new + 1)) == X[n, d]:
+                    true_predictions += 1
+                else:
+                    false_predictions += 1
             logconditional[q_new, d] = logconditional[q_new, d] + true_predictions * p_lbda +\
-                (N - true_predictions) * m_lbda
+                false_predictions * m_lbda
 
         # overwrite log-conditional with normalised probability
         # (but avoid allocating new memory)
-- 
2.43.0


From c0daa47c3e37983d2f75b40703c82778ecf2cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 22/53] fix: qL-AND threshold conditional underflowed to NaN,
 yielding an unsupported threshold

---
 lom/_numba/matrix_updates_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index ec2710c..06020d7 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -520,7 +520,7 @@ def random_choice(p):
         acc += p[i]
         if rand_float < acc:
             return np.int8(i + 1)
-    return len(p) + 1
+    return len(p)
 
 
 # @jit('int8(int8[:], int8[:,:], int8[:], float64, float64, float64, int8)',
@@ -561,7 +561,7 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
 
         # overwrite log-conditional with normalised probability
         # (but avoid allocating new memory)
-        log_p_max = np.max(logconditional)
+        log_p_max = np.max(logconditional[:, d])
         for q_new in prange(q_max - 1):
             logconditional[q_new, d] = np.exp(logconditional[q_new, d] - log_p_max)
 
-- 
2.43.0


From 098643de5828ddee35a321544a7b1deb22b9a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 23/53] fix: qL-AND thresholds were sampled like a factor if
 both factors are fixed

---
 lom/matrix_update_wrappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 63739d4..d86a9a8 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -74,6 +74,9 @@ def get_sampling_fct(mat):
 
         mat.layer.q.sampling_fct = q_sampler
 
+        if mat is mat.layer.q:
+            return q_sampler
+
         if mat.child_axis == 0:
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
-- 
2.43.0


From 207c130c6b5b9ce7806a7edab0329cab679e37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 24/53] fix: IBP inference crashed when the number of latent
 dimensions changed

---
 lom/matrix_update_wrappers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index d86a9a8..2fe4353 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -125,6 +125,12 @@ def get_sampling_fct(mat):
                     mat.siblings[0].bernoulli_prior,
                     mat.layer.alpha)
 
+                # the number of latent dimensions may have changed
+                for factor in mat.layer.factors:
+                    if factor.fixed_entries.shape != factor().shape:
+                        factor.fixed_entries = np.zeros(factor().shape,
+                                                        dtype=np.int8)
+
             return IBP_sampler
 
         # For U, sample as usual
-- 
2.43.0


From bfc2cbfb07cb60aa952b0bfa32700debf1c79df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 25/53] fix: IBP inference crashed when more than ten latent
 dimensions were added while sampling

---
 lom/machine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index 7862b9d..bd57be8 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -124,6 +124,11 @@ class Trace():
                                  dtype=self().dtype, fill_value=-1)
 
     def update_trace_IBP(self):
+        # add columns if there are more dimensions than have been allocated
+        missing = self.val.shape[1] - self.trace.shape[2]
+        if missing > 0:
+            self.trace = np.pad(self.trace, [(0, 0), (0, 0), (0, missing)],
+                                mode='constant', constant_values=-1)
         self.trace[self.trace_index,
                    :self.val.shape[0],
                    :self.val.shape[1]] = self.val
-- 
2.43.0


From 9cfce63e7cb1092e062c180a87cc084cc2fe0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 26/53] fix: removing a latent dimension left its fixed-entries
 mask and MAX-AND dispersion behind

---
 lom/auxiliary_functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 76e07a6..0f30da2 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -152,6 +152,11 @@ def remove_dimension(l_prime, layer):
     # layer.size -= 1
     for f in layer.factors:
         f.val = np.delete(f.val, l_prime, axis=1)
+        f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
+
+    # the MAX-AND model has a dispersion for every dimension
+    if layer.model == 'MAX-AND':
+        layer.lbda.val = np.delete(layer.lbda.val, l_prime)
 
 
 def reset_dimension(l_prime, layer):
-- 
2.43.0


From f077d91323155ae47bab8570ab14a241df89751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 27/53] fix: cleaning latent dimensions skipped the one
 following a removed dimension

---
 lom/auxiliary_functions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 0f30da2..aff31e2 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -118,6 +118,8 @@ def clean_up_codes(layer, reset=True, clean=False):
         if np.any([np.all(f()[:, l] == -1) for f in layer.factors]):
             cleaning_action(l, layer)
             reduction_applied = True
+            if cleaning_action is remove_dimension:
+                continue  # the next dimension has moved to index l
         l += 1
 
     # remove duplicates
@@ -125,11 +127,12 @@ def clean_up_codes(layer, reset=True, clean=False):
     while l < layer.size:
         l_prime = l + 1
         while l_prime < layer.size:
-            for f in layer.factors:
-                if np.all(f()[:, l] == f()[:, l_prime]):
-                    reduction_applied = True
-                    cleaning_action(l_prime, layer)
-                    break
+            if np.any([np.all(f()[:, l] == f()[:, l_prime])
+                       for f in layer.factors]):
+                reduction_applied = True
+                cleaning_action(l_prime, layer)
+                if cleaning_action is remove_dimension:
+                    continue  # the next dimension has moved to index l_prime
             l_prime += 1
         l += 1
 
-- 
2.43.0


From 40b53fa9dbdcb5e5629cf3918a1f43f78ce2e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 28/53] fix: resetting a latent dimension overwrote fixed
 factors and fixed entries

---
 lom/auxiliary_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index aff31e2..776aaca 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -164,7 +164,8 @@ def remove_dimension(l_prime, layer):
 
 def reset_dimension(l_prime, layer):
     for f in layer.factors:
-        f.val[:, l_prime] = -1
+        if not f.fixed:
+            f.val[f.fixed_entries[:, l_prime] == 0, l_prime] = -1
 
 
 def plot_matrix_ax(mat, ax, draw_cbar=True):
-- 
2.43.0


From 9cd4b8a74dce8a3bda36c748337ed28b6c318ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 29/53] fix: models with inverted data inverted the caller's
 array in place

---
 lom/auxiliary_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 776aaca..6534cfb 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -957,7 +957,7 @@ def canonise_model(model, child):
     if invert_data is True and invert_factors is False:
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data.\n')
-        child.val *= -1
+        child.val = -child.val  # do not modify data of the caller
 
     if invert_data is False and invert_factors is True:
         print('\n' + model + ' is treated as ' + model_new +
@@ -967,7 +967,7 @@ def canonise_model(model, child):
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data and inverted factors. ' +
               ' (invert factors yourself!)\n')
-        child.val *= -1
+        child.val = -child.val  # do not modify data of the caller
 
     # print warning for OR-NAND models.
     if model_new == 'OR-NAND':
-- 
2.43.0


From 002c0349f10073cc962d48e7dab3ca9be5d6ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 30/53] fix: adding a layer by shape crashed for models with
 inverted data

---
 lom/machine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index bd57be8..9021e91 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -516,10 +516,6 @@ class Machine():
         information about children's parents need to be assigned.
         """
 
-        # Convert model to canonical representation and invert data
-        # if necessary, return indicators to track inversion.
-        model, invert_data, invert_factors = aux.canonise_model(model, child)
-
         # determine size of all members
         if child is None and shape is not None:
             child = MachineMatrix(shape=shape)
@@ -528,6 +524,10 @@ class Machine():
         else:
             raise ValueError("Not enough shape information provided.")
 
+        # Convert model to canonical representation and invert data
+        # if necessary, return indicators to track inversion.
+        model, invert_data, invert_factors = aux.canonise_model(model, child)
+
         # initialise matrices/factors (use add_matrix)
         factors = [MachineMatrix(shape=(K, latent_size),
                                  child_axis=i)
-- 
2.43.0


From 2d0f172a4f65f5ad8ad0beb6db365c8aa5ca21bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 31/53] fix: unknown models started the debugger instead of
 being rejected

---
 lom/auxiliary_functions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 6534cfb..1d0d98e 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -946,8 +946,6 @@ def canonise_model(model, child):
         pass
 
     else:
-        import pdb
-        pdb.set_trace()
         raise NotImplementedError("Model not implemented.")
 
     # print output and invert data if needed.
-- 
2.43.0


From 746829a1dc7ee59dede4f6a20662176804918822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 32/53] fix: train/test split used np.int, which is not
 available in current numpy

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 72c282e..659a99a 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -170,7 +170,7 @@ def split_train_test(tensor, split=.1, balanced=False):
     def index_generator():
         return tuple([np.random.randint(dim) for dim in tensor.shape])
 
-    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=np.int)
+    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=int)
     i = 0
 
     if balanced is False:
-- 
2.43.0


From a49a2afa0c3bd74ad3ab4ed79070f4a649818d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 33/53] fix: ROC AUC computation exhausted its iterator over
 held-out entries

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 1d0d98e..e0a7593 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -290,7 +290,7 @@ def get_roc_auc(data, data_train, prediction):
     """
 
     zero_idx = np.where(data_train == 0)
-    zero_idx = zip(list(zero_idx)[0], list(zero_idx)[1])
+    zero_idx = list(zip(list(zero_idx)[0], list(zero_idx)[1]))
     auc = sklearn.metrics.roc_auc_score(
         [data[i, j] == 1 for i, j in zero_idx], [prediction[i, j] for i, j in zero_idx])
 
-- 
2.43.0


From 140ae8fedb99e88d7ff9c428dad4581eb34dbdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 34/53] fix: noise functions ignored the given seed

---
 lom/auxiliary_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index e0a7593..f5d4b58 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -549,6 +549,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
 
     if seed is None:
         np.random.seed(np.random.randint(1e4))
+    else:
+        np.random.seed(seed)
 
     X_intern = X.copy()
 
@@ -564,6 +566,8 @@ def add_bernoulli_noise_2d_biased(X, p_plus, p_minus, seed=None):
 
     if seed is None:
         np.random.seed(np.random.randint(1e4))
+    else:
+        np.random.seed(seed)
 
     X_intern = X.copy()
 
-- 
2.43.0


From d53b200a1f72c15b26548a72ac804bed2125b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 35/53] fix: expected density of XOR-XOR models was wrong for
 more than two factors

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index f5d4b58..9e44b69 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1081,7 +1081,7 @@ def expected_density(model, L, K, f):
     elif model_group == 'XOR-XOR':
         d = Inv[0](L * (
             Inv[1](K * f * (invert(f))**(K - 1) *
-                   (f**K + invert(f)**(K)) ** (L - 1))
+                   (1 - K * f * (invert(f))**(K - 1)) ** (L - 1))
         ))
 
     return d
-- 
2.43.0


From cf75f0c0274a9d4951b20fc041e4e405606aa964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 36/53] fix: parallel grid search referred to an undefined
 module for its default models

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 659a99a..944f005 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -322,7 +322,7 @@ def LOM_hyperparms_parallel_gridsearch(X,
     import pandas as pd
 
     if machines is None:
-        machines = aux.canonical_loms()
+        machines = lib.canonical_loms()
 
     # train/test split
     make_split = True
-- 
2.43.0


From 01f8ba2237a06c7697e9e9aede5cc4fa626afecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 37/53] fix: annealing crashed when a dispersion's target value
 was zero

---
 lom/machine.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 9021e91..3ebb33a 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -614,10 +614,8 @@ class Machine():
                         raise ValueError('fix_lbda_iters should be zero for annealing.')
                     # pre-compute annealing steps
                     if pre_burn_in_iter == fix_lbda_iters + 1:
-                        annealing_lbdas = [np.arange(
-                            lbda() / burn_in_min,
-                            lbda() + 2 * lbda() / burn_in_min,
-                            lbda() / burn_in_min)
+                        annealing_lbdas = [np.linspace(
+                            0, lbda(), burn_in_min + 1)[1:]
                             for lbda in lbdas]
 
                     for lbda_idx, lbda in enumerate(lbdas):
-- 
2.43.0


From b1d693b686431d20c42196c268ab5b41ad079fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 38/53] fix: new-dish probabilities were NaN for large
 dispersions in the IBP sampler

---
 lom/_numba/matrix_updates_numba.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 06020d7..96c3240 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -402,9 +402,10 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
     # data points for a range of L'
 
     # For simple Bernoulli on U
-    FN_factor = [np.log((expit(lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
+    # (written such that no factor vanishes for large lbda)
+    FN_factor = [np.log(expit(lbda) * (1 - q**L_temp) + expit(-lbda) * (q**L_temp))
                  for L_temp in range(L_new_max)]
-    TN_factor = [np.log((expit(-lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
+    TN_factor = [np.log(expit(-lbda) * (1 - q**L_temp) + expit(lbda) * (q**L_temp))
                  for L_temp in range(L_new_max)]
 
     for n in range(N):
-- 
2.43.0


From e52a4f1bbb2a30f573d617f9e6dbfdb163cfd31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 39/53] fix: MAX-AND never updated latent dimensions beyond the
 128th

---
 lom/_numba/max_machine_sampler.py | 2 +-
 lom/matrix_update_wrappers.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index f6bafe9..94bd95d 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -23,7 +23,7 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
             Z[n, l_dim] = flip_metropolised_gibbs_numba(logit_p, Z[n, l_dim])
 
 
-@jit('int32(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])', 
+@jit('int32(int8[:], int8[:,:], int8[:], int64, int64[:], float32[:, :, :])', 
      nopython=True, nogil=True)
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 2fe4353..34ba84a 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -47,7 +47,7 @@ def get_sampling_fct(mat):
             draw_MAX_AND_2D, compute_lbda_ratios)
 
         def MAX_AND_2D(mat):
-            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
+            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int64)
             # dispersions may have been assigned since the ratios were computed
             compute_lbda_ratios(mat.layer)
             draw_MAX_AND_2D(
-- 
2.43.0


From ec2841c8201b6a589f61945b62191c80b52551b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 40/53] fix: scores of 2D updates overflowed for more than 127
 cells

---
 lom/_numba/matrix_updates_numba.py |  5 +++--
 lom/_numba/posterior_score_fcts.py | 16 ++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 96c3240..d8df469 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -5,6 +5,7 @@ Numba sampling routines
 import numpy as np
 import math
 from numba import jit, prange
+from numba.types import int64
 # import lom._cython.matrix_updates as cython_mu
 import lom._numba.lom_outputs as lom_outputs
 import lom._numba.posterior_score_fcts as score_fcts
@@ -580,7 +581,7 @@ def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for d in range(D):
         if U[d, l] != 1:
@@ -611,7 +612,7 @@ def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
 def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     N, L = Z.shape
 
-    score = 0
+    score = int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for n in range(N):
         if Z[n, l] != 1:
diff --git a/lom/_numba/posterior_score_fcts.py b/lom/_numba/posterior_score_fcts.py
index 51cae44..68b44e9 100644
--- a/lom/_numba/posterior_score_fcts.py
+++ b/lom/_numba/posterior_score_fcts.py
@@ -18,7 +18,7 @@ def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -81,7 +81,7 @@ def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -151,7 +151,7 @@ def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -216,7 +216,7 @@ def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] == -1:  # NAND
             continue
@@ -272,7 +272,7 @@ def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -317,7 +317,7 @@ def posterior_score_OR_XOR_3D(Z_n, U, V, X_n, l):
 def posterior_score_NAND_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -362,7 +362,7 @@ def posterior_score_XOR_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         num_active = np.int8(0)
         for l_prime in range(L):
@@ -412,7 +412,7 @@ def posterior_score_XOR_XOR_3D(Z_n, U, V, X_n, l):
 def posterior_score_XOR_NXOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
 
     for d in range(D):
         num_active = np.int8(0)
-- 
2.43.0


From 5c6dc6b6d8441fbadf2ad27836f6fa70f334e427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 41/53] fix: the older factor-mean output is a probability like
 all other outputs

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index 3ebb33a..42ae2ad 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -448,6 +448,7 @@ class MachineLayer():
                 out = aux.lom_generate_data_fuzzy(
                     [x.mean() for x in self.factors],
                     self.model)
+                out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
-- 
2.43.0


From 3b36484a650f492d2dc9fdc81fc840bc46682fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 42/53] fix: removing a latent dimension removes its row from
 the factors of parent layers

---
 lom/auxiliary_functions.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 9e44b69..e14112c 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -154,14 +154,25 @@ def remove_dimension(l_prime, layer):
     # nor priors
     # layer.size -= 1
     for f in layer.factors:
-        f.val = np.delete(f.val, l_prime, axis=1)
-        f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
+        remove_slice(f, l_prime, axis=1)
 
     # the MAX-AND model has a dispersion for every dimension
     if layer.model == 'MAX-AND':
         layer.lbda.val = np.delete(layer.lbda.val, l_prime)
 
 
+def remove_slice(mat, idx, axis):
+    """
+    Remove a row/column from mat and the corresponding row from
+    the factors of its parent layers.
+    """
+    mat.val = np.delete(mat.val, idx, axis=axis)
+    mat.fixed_entries = np.delete(mat.fixed_entries, idx, axis=axis)
+
+    for parent in mat.parents:
+        remove_slice(parent.factors[axis], idx, axis=0)
+
+
 def reset_dimension(l_prime, layer):
     for f in layer.factors:
         if not f.fixed:
-- 
2.43.0


From 35dc62ea172da73195fe70225e235c1e8908cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 43/53] fix: missing data points do not count as held-out
 negatives in the area under the curve

---
 lom/auxiliary_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index e14112c..d0bf203 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -300,7 +300,12 @@ def get_roc_auc(data, data_train, prediction):
     compute area under the roc curve
     """
 
-    zero_idx = np.where(data_train == 0)
+    held_out = (data_train == 0)
+    if -1 in np.unique(data):
+        # data points that are missing in the first place are not held out
+        held_out = held_out & (data != 0)
+
+    zero_idx = np.where(held_out)
     zero_idx = list(zip(list(zero_idx)[0], list(zero_idx)[1]))
     auc = sklearn.metrics.roc_auc_score(
         [data[i, j] == 1 for i, j in zero_idx], [prediction[i, j] for i, j in zero_idx])
-- 
2.43.0


From fddf271fba3bc44cf8bd056ef32bb6f7c6ad71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 44/53] fix: machines without an implementation are refused
 with an error instead of a debugger prompt

---
 lom/matrix_update_wrappers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 34ba84a..e2f79a3 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -237,8 +237,6 @@ def get_sampling_fct(mat):
             return LOM_sampler_hasparents
 
         else:
-            import pdb
-            pdb.set_trace()
             raise NotImplementedError("More than one parent not supported.")
 
 
-- 
2.43.0


From c394abe259e3c801636af12095ef9186981f3697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 45/53] fix: layers above factors of qL-AND and IBP layers are
 refused instead of ignored

---
 lom/matrix_update_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index e2f79a3..8505ae9 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -62,6 +62,8 @@ def get_sampling_fct(mat):
         return MAX_AND_2D
 
     elif mod == 'qL_AND_2D':
+        assert p1mod is None
+        assert p2mod is None
 
         def q_sampler(q):
             numba_mu.sample_qL_q(
@@ -104,6 +106,8 @@ def get_sampling_fct(mat):
     # assign sampling functions for IBP.
     # Here all updates happen in sampling for the first factor.
     elif mod == 'OR_AND_IBP_2D':
+        assert p1mod is None
+        assert p2mod is None
 
         if mat.layer.alpha is None:
             print('Setting IBP parameter alpha to 3.')
-- 
2.43.0


From 79fa8ff7223118947a613067631dea9d78457110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 46/53] fix: show(technique='map') drew entries with posterior
 probability between .5 and .75 as off

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 42ae2ad..51357c4 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -258,7 +258,7 @@ class MachineMatrix(Trace):
         if technique == 'mean':
             aux.plot_matrix(self.mean())
         elif technique == 'map':
-            aux.plot_matrix(self.mean() > .5)
+            aux.plot_matrix(self.mean() > 0)
         elif technique == 'state':
             aux.plot_matrix(self())
         else:
-- 
2.43.0


From 97ee72081a779c3e1ad27c9e90442b60be67385c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 47/53] fix: show() drew means and states without negative
 entries on the wrong scale

---
 lom/machine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 51357c4..5e1d8ee 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -256,11 +256,11 @@ class MachineMatrix(Trace):
 
     def show(self, technique='mean'):
         if technique == 'mean':
-            aux.plot_matrix(self.mean())
+            aux.plot_matrix(.5 * (self.mean() + 1))
         elif technique == 'map':
             aux.plot_matrix(self.mean() > 0)
         elif technique == 'state':
-            aux.plot_matrix(self())
+            aux.plot_matrix(.5 * (self() + 1))
         else:
             raise ValueError('invalid technique')
 
-- 
2.43.0


From 7d6daf444ad3282fe0bb4fa5b8027be835be5bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 48/53] fix: burn_in_iters left out the iterations before
 convergence is checked when burn-in ended without convergence

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 5e1d8ee..b37ccad 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -684,7 +684,7 @@ class Machine():
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-                self.burn_in_iters = burn_in_iter
+                self.burn_in_iters = burn_in_iter + pre_burn_in_iter
                 break
 
             # draw samples # shuffle(mats)
-- 
2.43.0


From 1b4bd849fe23d240e6232837bccbe7ee016e254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 49/53] fix: an unknown output technique turned a layer of the
 IBP model into an OR-AND layer

---
 lom/machine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index b37ccad..7a6f357 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -386,6 +386,10 @@ class MachineLayer():
                   'under disregard of technique.')
             return self.prediction
 
+        if technique not in ['point_estimate', 'factor_map', 'factor_mean',
+                             'factor_mean_old', 'mc']:
+            raise ValueError('invalid technique')
+
         reset_name_to_IBP = False
         if self.model == 'OR-AND-IBP':
             reset_name_to_IBP = True
-- 
2.43.0


From 1e297347bad3e1d0a428391701218415e21cd965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 50/53] fix: use np.inf, np.infty does not exist in NumPy 2

---
 lom/auxiliary_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index d0bf203..22c2e28 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -68,10 +68,10 @@ def compute_bp(q, n, N, tau=1):
 
     exp_bp = [(q * (n - k * tau)) / ((1 - q) * (k * tau + 1)) for k in range(n)]
 
-    bp = [np.log(x) if (x > 0) else -np.infty for x in exp_bp]
+    bp = [np.log(x) if (x > 0) else -np.inf for x in exp_bp]
 
     if N != n:
-        bp_new = [-np.infty for i in range(N)]
+        bp_new = [-np.inf for i in range(N)]
         bp_new[:n - 1] = bp
         bp = bp_new
     return np.array(bp, dtype=float)
@@ -84,7 +84,7 @@ def compute_bbp(n, a, b):
     """
     exp_bbp = [(float((n - k) * (k + a)) /
                 float((k + 1) * (n - k + b - 1))) for k in range(n + 1)]
-    bbp = [np.log(x) if (x > 0) else -np.infty for x in exp_bbp]
+    bbp = [np.log(x) if (x > 0) else -np.inf for x in exp_bbp]
     return np.array(bbp, dtype=float)
 
 
-- 
2.43.0


From cf21332dd987494dba39f7fe3fbe30e03c2b2452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 51/53] fix: compute_bp keeps the requested length and all of
 its n ratios when padding

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 22c2e28..9158787 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -72,7 +72,7 @@ def compute_bp(q, n, N, tau=1):
 
     if N != n:
         bp_new = [-np.inf for i in range(N)]
-        bp_new[:n - 1] = bp
+        bp_new[:n] = bp
         bp = bp_new
     return np.array(bp, dtype=float)
 
-- 
2.43.0


From 4c50a91589bff02645d07d4ee6e8806f84c0d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 52/53] fix: compute_bbp does not divide by zero for b = 1

---
 lom/auxiliary_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 9158787..5b1a12c 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -83,7 +83,8 @@ def compute_bbp(n, a, b):
     beta parameters a, b.
     """
     exp_bbp = [(float((n - k) * (k + a)) /
-                float((k + 1) * (n - k + b - 1))) for k in range(n + 1)]
+                float((k + 1) * (n - k + b - 1))) for k in range(n)]
+    exp_bbp += [0.]  # no more than n successes
     bbp = [np.log(x) if (x > 0) else -np.inf for x in exp_bbp]
     return np.array(bbp, dtype=float)
 
-- 
2.43.0


From 36c8f5f09000bbbeb93f67be8929ca4670ea3d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 53/53] fix: intersect_dataframes reports the shape of its
 result instead of failing on an undefined name

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 5b1a12c..34e4b18 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -638,7 +638,7 @@ def intersect_dataframes(A, B):
     assert np.all(A.index == B.index)
     assert np.all(A.columns == B.columns)
 
-    print('\n\tNew shape is :' + str(mut.shape))
+    print('\n\tNew shape is :' + str(A.shape))
 
     return A, B
 
-- 
2.43.0

