From b1ad2756e8babab6c890ef2f237d5053c996e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 01/92] fix: thin plate spline spatial Jacobian for non-affine
 warps

---
 menpofit/transform/thinsplatesplines.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index be6098a..cb44698 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -161,14 +161,15 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
             in this case axis zero may have length ``1`` to allow for
             broadcasting.
         """
-        dk_dx = np.zeros((points.shape[0] + 3,   # i
-                          self.source.n_points,  # k
-                          self.source.n_dims))   # l
-        dk_dx[:-3, :] = self.kernel.d_dl(points)
+        dk_dx = np.zeros((self.source.n_points + 3,  # i
+                          points.shape[0],           # k
+                          self.source.n_dims))       # l
+        # the kernel derivative is (n_points, n_centres, n_dims)
+        dk_dx[:-3, :] = np.swapaxes(self.kernel.d_dl(points), 0, 1)
 
         affine_derivative = np.array([[0, 0],
                                       [1, 0],
                                       [0, 1]])
         dk_dx[-3:, :] = affine_derivative[:, None]
 
-        return np.einsum('ij, ikl -> klj', self.coefficients, dk_dx)
+        return np.einsum('ij, ikl -> kjl', self.coefficients, dk_dx)
-- 
2.43.0


From 59f2d7ad082a2d9d402215457b95ae04a4df2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 02/92] fix: chain rule in the shape Jacobian of globally
 transformed models

---
 menpofit/modelinstance.py         | 2 +-
 menpofit/transform/modeldriven.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 4f2300a..6027661 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -573,7 +573,7 @@ class GlobalPDM(PDM):
         # (n_points, n_dims, n_dims)
         dX_dS = self.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dX_db = np.einsum('ilj, idj -> idj', dX_dS, dS_db)
+        dX_db = np.einsum('ijl, idl -> idj', dX_dS, dS_db)
 
         # dX/dp is simply the concatenation of the previous two terms
         # (n_points, n_params, n_dims)
diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index d770290..d038242 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -381,7 +381,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ijl, idl -> idj', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
@@ -449,7 +449,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ijl, idl -> idj', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
-- 
2.43.0


From a9cf2392331c09db9c433caeef69ef1809784687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 03/92] fix: contraction in the first order composition of
 model driven transforms

---
 menpofit/transform/modeldriven.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index d038242..c87adcb 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -164,7 +164,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -286,7 +286,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -393,7 +393,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -461,7 +461,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
-- 
2.43.0


From ae6b1375473776c30e24f3f06da018a2ad830e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 04/92] fix: stale warp Jacobian when the evaluated points are
 modified in place

---
 menpofit/transform/modeldriven.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index c87adcb..5bc2b86 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -230,7 +230,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
             # the source landmarks
             self.dW_dl = self.transform.d_dl(points)
             # cache points
-            self._cached_points = points
+            self._cached_points = np.array(points)
 
         # dX/dp is simply the Jacobian of the PDM
         dX_dp = self.pdm.d_dp(points)
-- 
2.43.0


From 1de00d30c16ad165b09a4052ab57bd382af1e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 05/92] fix: global transform of incremented shape models
 starts from the new mean

---
 menpofit/modelinstance.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 6027661..7388371 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -404,9 +404,15 @@ class PDM(ModelInstance):
                              verbose=verbose)
         if max_n_components is not None:
             self.model.trim_components(max_n_components)
+        # The mean of the model changed
+        self._reset_global_transform()
         # Reset the target given the new model
         self.set_target(old_target)
 
+    def _reset_global_transform(self):
+        # There is no global transform
+        pass
+
     def __str__(self):
         str_out = 'Point Distribution Model \n' \
                   ' - centred:              {}\n' \
@@ -510,6 +516,11 @@ class GlobalPDM(PDM):
         #self.global_transform.target = refined_target
         return new_weights
 
+    def _reset_global_transform(self):
+        # The global transform always maps the current mean of the model
+        mean = self.model.mean()
+        self.global_transform = type(self.global_transform)(mean, mean)
+
     def _update_global_transform(self, target):
         self.global_transform.set_target(target)
 
@@ -689,6 +700,8 @@ class OrthoPDM(GlobalPDM):
             self.model.trim_components(max_n_components)
         # Re-orthonormalize
         self._construct_similarity_model()
+        # The mean of the model changed
+        self._reset_global_transform()
         # Reset the target given the new models
         self.set_target(old_target)
 
-- 
2.43.0


From e88aeb1ae30abd205536199cff9fdcdc1888163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 06/92] fix: incrementing shape models from an iterator of
 n_shapes shapes

---
 menpofit/modelinstance.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 7388371..e9c58d7 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -1,3 +1,5 @@
+from itertools import islice
+
 import numpy as np
 
 from menpo.base import Targetable, Vectorizable
@@ -398,8 +400,9 @@ class PDM(ModelInstance):
             2007.
         """
         old_target = self.target
-        aligned_shapes = align_shapes(shapes)
-        self.model.increment(aligned_shapes, n_samples=n_shapes,
+        # islice takes everything if n_shapes is None
+        aligned_shapes = align_shapes(islice(shapes, n_shapes))
+        self.model.increment(aligned_shapes,
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
         if max_n_components is not None:
@@ -692,8 +695,9 @@ class OrthoPDM(GlobalPDM):
             2007.
         """
         old_target = self.target
-        aligned_shapes = align_shapes(shapes)
-        self.model.increment(aligned_shapes, n_samples=n_shapes,
+        # islice takes everything if n_shapes is None
+        aligned_shapes = align_shapes(islice(shapes, n_shapes))
+        self.model.increment(aligned_shapes,
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
         if max_n_components is not None:
-- 
2.43.0


From 8d47ad162400f0f5542d80d6ac4ce67de0389b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 07/92] fix: per-scale lists are rejected with an
 AttributeError on recent Pythons

---
 menpofit/checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 96c944b..15a4551 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -1,5 +1,5 @@
 import warnings
-import collections
+from collections.abc import Iterable
 from functools import partial
 import numpy as np
 
@@ -151,7 +151,7 @@ def check_multi_scale_param(n_scales, types, param_name, param):
     # Could be a single value - or we have an error
     if isinstance(param, types):
         return [param] * n_scales
-    elif not isinstance(param, collections.Iterable):
+    elif not isinstance(param, Iterable):
         raise ValueError(error_msg)
 
     # Must be an iterable object
-- 
2.43.0


From 9e1d77ba98686a68d2fc1926beb6ec8e58e5595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 08/92] fix: accept integer sampling steps and None elements in
 sampling lists

---
 menpofit/aam/algorithm/lk.py | 2 +-
 menpofit/checks.py           | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 5c0de21..3b4b8fd 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -58,7 +58,7 @@ class LucasKanadeBaseInterface(object):
 
         if sampling is None:
             sampling = range(0, n_true_pixels, 1)
-        elif isinstance(sampling, np.int64):
+        elif isinstance(sampling, (int, np.integer)):
             sampling = range(0, n_true_pixels, sampling)
 
         sampling_mask[sampling] = 1
diff --git a/menpofit/checks.py b/menpofit/checks.py
index 15a4551..eb7eb58 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -344,7 +344,7 @@ def check_sampling(sampling, n_scales):
         containing 1 or {n_scales} elements or None
     """
     if (isinstance(sampling, (list, tuple)) and
-        np.alltrue([isinstance(s, (np.ndarray, np.int64)) or sampling is None
+        np.alltrue([isinstance(s, (np.ndarray, int, np.integer)) or s is None
                     for s in sampling])):
         if len(sampling) == 1:
             return sampling * n_scales
@@ -354,7 +354,8 @@ def check_sampling(sampling, n_scales):
             raise ValueError('A sampling list can only '
                              'contain 1 element or {} '
                              'elements'.format(n_scales))
-    elif isinstance(sampling, (np.ndarray, np.int64)) or sampling is None:
+    elif (isinstance(sampling, (np.ndarray, int, np.integer)) or
+          sampling is None):
         return [sampling] * n_scales
     else:
         raise ValueError('sampling can be an integer or ndarray, '
-- 
2.43.0


From 497f62d846aa84c7be69635324d94f841da9542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 09/92] fix: a single element list of patch shapes yields one
 patch shape per scale

---
 menpofit/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index eb7eb58..7fff102 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -226,7 +226,7 @@ def check_patch_shape(patch_shape, n_scales):
     if len(patch_shape) == 2 and isinstance(patch_shape[0], int):
         return [patch_shape] * n_scales
     elif len(patch_shape) == 1:
-        return check_patch_shape(patch_shape[0], 1)
+        return check_patch_shape(patch_shape[0], 1) * n_scales
     elif len(patch_shape) == n_scales:
         l1 = check_patch_shape(patch_shape[0], 1)
         l2 = check_patch_shape(patch_shape[1:], n_scales-1)
-- 
2.43.0


From 8f74788970c93c93210b9cd4d9f80a1394ac9e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 10/92] fix: accept a single scale value in ATMs and CLMs

---
 menpofit/atm/base.py | 14 ++++++++++----
 menpofit/clm/base.py |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 72cbadd..0368309 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -119,8 +119,8 @@ class ATM(object):
     ):
         # Check arguments
         checks.check_diagonal(diagonal)
-        n_scales = len(scales)
         scales = checks.check_scales(scales)
+        n_scales = len(scales)
         holistic_features = checks.check_callable(holistic_features, n_scales)
         max_shape_components = checks.check_max_components(
             max_shape_components, n_scales, "max_shape_components"
@@ -537,7 +537,9 @@ class MaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales))
+        )
         # Call superclass
         super(MaskedATM, self).__init__(
             template,
@@ -821,7 +823,9 @@ class LinearMaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales))
+        )
         # Call superclass
         super(LinearMaskedATM, self).__init__(
             template,
@@ -986,7 +990,9 @@ class PatchATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales))
+        )
         self.patch_normalisation = patch_normalisation
         # Call superclass
         super(PatchATM, self).__init__(
diff --git a/menpofit/clm/base.py b/menpofit/clm/base.py
index dab51f4..b7bf887 100644
--- a/menpofit/clm/base.py
+++ b/menpofit/clm/base.py
@@ -126,7 +126,7 @@ class CLM(object):
         batch_size=None,
     ):
         self.scales = checks.check_scales(scales)
-        n_scales = len(scales)
+        n_scales = len(self.scales)
         self.diagonal = checks.check_diagonal(diagonal)
         self.holistic_features = checks.check_callable(holistic_features, n_scales)
         self.expert_ensemble_cls = checks.check_callable(expert_ensemble_cls, n_scales)
-- 
2.43.0


From ac010c5cee14b212b1dc369358cffc7ca6bd1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 11/92] fix: supervised descent fitter could not be built with
 its default algorithm

---
 menpofit/sdm/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 3bae879..9567dd9 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -147,7 +147,8 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
         (CVPR), 2011.
     """
     def __init__(self, images, group=None, bounding_box_group_glob=None,
-                 sd_algorithm_cls=None, reference_shape=None, diagonal=None,
+                 sd_algorithm_cls=NonParametricNewton, reference_shape=None,
+                 diagonal=None,
                  holistic_features=no_op, patch_features=no_op,
                  patch_shape=(17, 17), scales=(0.5, 1.0), n_iterations=3,
                  n_perturbations=30,
-- 
2.43.0


From 918c31efb7fe1e1bb7642bd468eba5d6da581027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 12/92] fix: unified AAM-CLM ignored the given reference shape

---
 menpofit/unified_aam_clm/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 9917a09..aaaa9ed 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -203,9 +203,10 @@ class UnifiedAAMCLM(object):
 
     def _train(self, images, group=None, verbose=False):
         checks.check_landmark_trilist(images[0], self.transform, group=group)
-        self.reference_shape = compute_reference_shape(
-            [i.landmarks[group] for i in images], self.diagonal, verbose=verbose
-        )
+        if self.reference_shape is None:
+            self.reference_shape = compute_reference_shape(
+                [i.landmarks[group] for i in images], self.diagonal, verbose=verbose
+            )
 
         # normalize images
         images = rescale_images_to_reference_shape(
-- 
2.43.0


From 65f7c6676572c72742401ef9808e885447446581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 13/92] fix: unified AAM-CLM ignored the boundary of the
 reference frame

---
 menpofit/unified_aam_clm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index aaaa9ed..7ef5603 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -191,7 +191,7 @@ class UnifiedAAMCLM(object):
     def _warp_images(
         self, images, shapes, reference_shape, scale_index, prefix, verbose
     ):
-        reference_frame = build_reference_frame(reference_shape)
+        reference_frame = self._build_reference_frame(reference_shape)
         return warp_images(
             images,
             shapes,
-- 
2.43.0


From 6e91a7e8d5ab8c3bc4543469fe434d3ba0e66d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 14/92] fix: None entries in per-scale lists of active
 components

---
 menpofit/checks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 7fff102..e60f763 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -387,11 +387,11 @@ def set_models_components(models, n_components):
             for am in models:
                 am.n_active_components = n_components
         elif len(n_components) == 1 and n_scales > 1:
-            for am in models:
-                am.n_active_components = n_components[0]
+            set_models_components(models, n_components[0])
         elif len(n_components) == n_scales:
             for am, n in zip(models, n_components):
-                am.n_active_components = n
+                if n is not None:
+                    am.n_active_components = n
         else:
             raise ValueError('n_components can be an integer or a float '
                              'or None or a list containing 1 or {} of '
-- 
2.43.0


From 4bbd26ae1a94ce86a49cfee17f60fed26e55947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 15/92] fix: ECC residual called a method that menpo images do
 not have

---
 menpofit/lk/residual.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index e8ce99b..70e1a11 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -485,11 +485,8 @@ class ECC(Residual):
         on Pattern Analysis and Machine Intelligence, 30(10): 1858-1865, 2008.
     """
     def _normalise_images(self, image):
-        # TODO: do we need to copy the image?
         # TODO: is this supposed to be per channel normalization?
-        norm_image = image.copy()
-        norm_image.normalize_norm_inplace()
-        return norm_image
+        return image.normalize_norm()
 
     def steepest_descent_images(self, image, dW_dp, forward=None):
         r"""
-- 
2.43.0


From 73d1a7bd91c38b89a207892f5b31a396e39a152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 16/92] fix: costs of filtered residuals applied the kernel
 along the wrong axes

---
 menpofit/lk/residual.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 70e1a11..63aa50b 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -296,8 +296,7 @@ class SSD(Residual):
                 return x.T.dot(x)
             else:
                 x = x.reshape((-1,) + k.shape[-2:])
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
+                kx = ifftn(k * fftn(x, axes=(-2, -1)), axes=(-2, -1)).real
                 return x.ravel().T.dot(kx.ravel())
         return cost_closure(self._error_img, self._kernel)
 
@@ -465,8 +464,7 @@ class FourierSSD(Residual):
             if k is None:
                 return x.ravel().T.dot(x.ravel())
             else:
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
+                kx = ifftn(k * fftn(x, axes=(-2, -1)), axes=(-2, -1)).real
                 return x.ravel().T.dot(kx.ravel())
         return cost_closure(self._error_img, self._kernel)
 
-- 
2.43.0


From e63c0735b334152cdbd40a9934df50ad7757175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 17/92] fix: gradient residuals of forward algorithms compared
 the warped image with itself

---
 menpofit/lk/residual.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 63aa50b..afcdb8e 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -701,11 +701,11 @@ class GradientImages(Residual):
 
         # compute gradient
         first_grad = self.gradient(image, forward=forward)
-        self._template_grad = self._regularise_gradients(first_grad)
+        first_grad = self._regularise_gradients(first_grad)
 
         # compute gradient
         # second_grad:  dims x dims x ch x pixels
-        second_grad = self.gradient(self._template_grad)
+        second_grad = self.gradient(first_grad)
         second_grad = second_grad.masked_pixels().flatten().reshape(
             (n_dims, n_dims,  n_channels) + second_grad.shape)
 
@@ -787,10 +787,13 @@ class GradientImages(Residual):
         IWxp_grad = self.gradient(image)
         IWxp_grad = self._regularise_gradients(IWxp_grad)
 
+        # compute template regularized gradient
+        template_grad = self.gradient(template)
+        template_grad = self._regularise_gradients(template_grad)
+
         # compute vectorized error_image
         # error_img: (dims x ch x pixels)
-        self._error_img = (IWxp_grad.as_vector() -
-                           self._template_grad.as_vector())
+        self._error_img = IWxp_grad.as_vector() - template_grad.as_vector()
 
         # compute steepest descent update
         # sdi.T:      params x (dims x ch x pixels)
@@ -870,8 +873,8 @@ class GradientCorrelation(Residual):
         # cos_phi:        ch x pixels
         # sin_phi:        ch x pixels
         phi = np.angle(grad2[1, ...] + 1j * grad2[0, ...])
-        self._cos_phi = np.cos(phi)
-        self._sin_phi = np.sin(phi)
+        cos_phi = np.cos(phi)
+        sin_phi = np.sin(phi)
 
         # concatenate sin and cos terms so that we can take the second
         # derivatives correctly. sin(phi) = y and cos(phi) = x which is the
@@ -880,8 +883,8 @@ class GradientCorrelation(Residual):
         # sin_phi:         ch  x pixels
         # grad:    (dims x ch) x pixels
         grad.from_vector_inplace(
-            np.concatenate((self._sin_phi[None, ...],
-                            self._cos_phi[None, ...]), axis=0).ravel())
+            np.concatenate((sin_phi[None, ...],
+                            cos_phi[None, ...]), axis=0).ravel())
 
         # compute IGOs gradient
         # second_grad:  dims x dims x ch x pixels
@@ -894,8 +897,8 @@ class GradientCorrelation(Residual):
 
         # complete full IGOs gradient computation
         # second_grad:  dims x dims x ch x pixels
-        second_grad[1, ...] = (-self._sin_phi[None, ...] * second_grad[1, ...])
-        second_grad[0, ...] = (self._cos_phi[None, ...] * second_grad[0, ...])
+        second_grad[1, ...] = (-sin_phi[None, ...] * second_grad[1, ...])
+        second_grad[0, ...] = (cos_phi[None, ...] * second_grad[0, ...])
 
         # compute steepest descent images
         # gradient: dims x dims x ch x pixels
@@ -989,10 +992,18 @@ class GradientCorrelation(Residual):
         IWxp_cos_phi = np.cos(phi)
         IWxp_sin_phi = np.sin(phi)
 
+        # compute the IGOs of the template
+        template_grad = self.gradient(template)
+        template_grad = template_grad.as_vector().reshape(
+            (n_dims, n_channels) + template.shape)
+        phi = np.angle(template_grad[1, ...] + 1j * template_grad[0, ...])
+        cos_phi = np.cos(phi)
+        sin_phi = np.sin(phi)
+
         # compute error image
         # error_img:  (ch x h x w)
-        self._error_img = (self._cos_phi * IWxp_sin_phi -
-                           self._sin_phi * IWxp_cos_phi).ravel()
+        self._error_img = (cos_phi * IWxp_sin_phi -
+                           sin_phi * IWxp_cos_phi).ravel()
 
         # compute steepest descent update
         # sdi:       (ch x pixels) x params
@@ -1001,8 +1012,7 @@ class GradientCorrelation(Residual):
         sdu = sdi.T.dot(self._error_img)
 
         # compute step size
-        qp = np.sum(self._cos_phi * IWxp_cos_phi +
-                    self._sin_phi * IWxp_sin_phi)
+        qp = np.sum(cos_phi * IWxp_cos_phi + sin_phi * IWxp_sin_phi)
         self._l = self._N / qp
         return self._l * sdu
 
-- 
2.43.0


From 013d8d55324c4a768897b980708ab602eea00be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 18/92] fix: Lucas-Kanade results subtracted the
 reconstructions from n_iters twice

---
 menpofit/lk/result.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/menpofit/lk/result.py b/menpofit/lk/result.py
index 9a8309c..274cb74 100644
--- a/menpofit/lk/result.py
+++ b/menpofit/lk/result.py
@@ -84,8 +84,6 @@ class LucasKanadeResult(MultiScaleParametricIterativeResult):
         self._homogeneous_parameters = []
         for r in results:
             self._homogeneous_parameters += r.homogeneous_parameters
-        # Correct n_iters
-        self._n_iters -= len(scales)
 
     @property
     def homogeneous_parameters(self):
-- 
2.43.0


From 525c1a3956ed58ae46fe2a155bf570ddb47487df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 19/92] fix: iteration numbers in the titles of displayed
 parametric results

---
 menpofit/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/result.py b/menpofit/result.py
index 300f134..5c6a3e0 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -2272,7 +2272,7 @@ class ParametricIterativeResult(NonParametricIterativeResult):
         subplots_titles = {}
         iters_offset = 0
         if self.initial_shape is not None:
-            iters_offset = 1
+            iters_offset = -1
         for j in iters:
             if j == 0 and self.initial_shape is not None:
                 name = "Initial"
@@ -2927,7 +2927,7 @@ class MultiScaleParametricIterativeResult(MultiScaleNonParametricIterativeResult
         n_digits = len(str(self.n_iters))
         groups = []
         subplots_titles = {}
-        iters_offset = -2
+        iters_offset = 0
         if self.initial_shape is not None:
             iters_offset = -1
         for j in iters:
-- 
2.43.0


From 54ffcec57bd977c6e686a569361cdd165274b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 20/92] fix: parametric cascaded regression results lack the
 reconstructed initial shape

---
 menpofit/sdm/algorithm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 1bb8c1d..12104b3 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -574,7 +574,7 @@ def fit_parametric_shape(image, initial_shape, parametric_algorithm,
     parametric_algorithm.shape_model.set_target(initial_shape)
     current_shape = initial_shape.from_vector(
             parametric_algorithm.shape_model.target.as_vector().copy())
-    shapes = []
+    shapes = [current_shape]
     shape_parameters = [parametric_algorithm.shape_model.as_vector()]
 
     # Cascaded Regression loop
-- 
2.43.0


From 72777ea2718187b6d954bdfced0e73db6623ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 21/92] fix: transfer of shapes between scales whose features
 move the image

---
 menpofit/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 63c9bf5..7e43ccb 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -373,8 +373,8 @@ class MultiScaleNonParametricFitter(object):
                     initial_shape))
             else:
                 # If features are not extracted, then the affine transform
-                # should be identical with the one of the first (lowest) level.
-                affine_transforms.append(affine_transforms[0])
+                # should be identical with the one of the previous level.
+                affine_transforms.append(affine_transforms[-1])
 
             # Rescale images according to scales
             if self.scales[i] != 1:
@@ -484,14 +484,14 @@ class MultiScaleNonParametricFitter(object):
                     # transform is different as well. Thus we need to do the
                     # following composition:
                     #
-                    #    S_{i+1} \circ A_{i+1} \circ inv(A_i) \circ inv(S_i)
+                    #    inv(S_{i+1}) \circ inv(A_{i+1}) \circ A_i \circ S_i
                     #
                     # where:
                     #    S_i : scaling transform of current scale
                     #    S_{i+1} : scaling transform of next scale
                     #    A_i : affine transform of current scale
                     #    A_{i+1} : affine transform of next scale
-                    t1 = scale_transforms[i].compose_after(affine_transforms[i])
+                    t1 = affine_transforms[i].compose_after(scale_transforms[i])
                     t2 = affine_transforms[i + 1].pseudoinverse().compose_after(t1)
                     transform = scale_transforms[i + 1].pseudoinverse().compose_after(t2)
                     shape = transform.apply(shape)
-- 
2.43.0


From 66022583480638eb703ae616a33ed193ef53496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 22/92] fix: shapes of additional bounding boxes were dropped
 after the first scale of cascaded regression training

---
 menpofit/sdm/fitter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 9567dd9..b185e26 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -319,9 +319,9 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                       'scale.'.format(scale_prefix)
                 wrap = partial(print_progress, prefix=msg,
                                end_with_newline=False, verbose=verbose)
-                for ii in wrap(scaled_images):
+                for jj, ii in enumerate(wrap(scaled_images)):
                     c_shapes = []
-                    for k in list(range(self.n_perturbations)):
+                    for k in list(range(n_current_shapes[jj])):
                         c_key = '__sdm_current_shape_{}'.format(k)
                         c_shapes.append(ii.landmarks[c_key])
                     current_shapes.append(c_shapes)
@@ -337,6 +337,9 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                     scaled_images, scaled_shapes, current_shapes,
                     prefix=scale_prefix, verbose=verbose)
 
+            # Keep the number of shape estimations of each image
+            n_current_shapes = [len(c_shapes) for c_shapes in current_shapes]
+
             # Scale the current shape estimations for the next level. This
             # doesn't have to be done for the last scale. The only thing we need
             # to do at the last scale is to remove any attached landmarks from
@@ -363,8 +366,8 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                 # Check if original training image (image_batch) got some current
                 # shape estimations attached. If yes, delete them.
                 if '__sdm_current_shape_0' in image_batch[0].landmarks:
-                    for image in image_batch:
-                        for k in list(range(self.n_perturbations)):
+                    for jj, image in enumerate(image_batch):
+                        for k in list(range(n_current_shapes[jj])):
                             c_key = '__sdm_current_shape_{}'.format(k)
                             del image.landmarks[c_key]
 
-- 
2.43.0


From 853dc044d2eb7e56ecee1da6f209f7226c14ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 23/92] fix: cascaded regression training misplaced shapes when
 the features of a scale move the image

---
 menpofit/sdm/fitter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index b185e26..e515ad0 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -5,6 +5,7 @@ import warnings
 
 from menpo.feature import no_op
 from menpo.base import name_of_callable
+from menpo.transform import AlignmentAffine
 
 from menpofit.visualize import print_progress
 from menpofit.base import batch
@@ -347,12 +348,17 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
             if j < (self.n_scales - 1):
                 if self.holistic_features[j + 1] != self.holistic_features[j]:
                     # Features will be extracted, thus attach current_shapes on
-                    # the training images (image_batch)
+                    # the training images (image_batch). The current features
+                    # may have moved the image, so that needs to be undone.
                     for jj, image_shapes in enumerate(current_shapes):
+                        feature_transform = AlignmentAffine(
+                            feature_images[jj].landmarks[group],
+                            image_batch[jj].landmarks[group])
                         for k, shape in enumerate(image_shapes):
                             c_key = '__sdm_current_shape_{}'.format(k)
                             image_batch[jj].landmarks[c_key] = \
-                                scale_transforms[jj].apply(shape)
+                                feature_transform.apply(
+                                    scale_transforms[jj].apply(shape))
                 else:
                     # Features won't be extracted;. the same feature_images will
                     # be used for the next scale, thus attach current_shapes on
-- 
2.43.0


From 5d979a5932a34d04fbc7ffb9b8843831ac82cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 24/92] fix: additional bounding boxes were dropped after the
 first scale of ERT training

---
 menpofit/dlib/fitter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 73fa109..8e7c732 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -343,9 +343,9 @@ class DlibERT(MultiScaleNonParametricFitter):
                 wrap = partial(
                     print_progress, prefix=msg, end_with_newline=False, verbose=verbose
                 )
-                for ii in wrap(scaled_images):
+                for jj, ii in enumerate(wrap(scaled_images)):
                     c_bboxes = []
-                    for k in list(range(self.n_perturbations)):
+                    for k in list(range(n_current_bboxes[jj])):
                         c_key = "__ert_current_bbox_{}".format(k)
                         c_bboxes.append(ii.landmarks[c_key])
                     current_bounding_boxes.append(c_bboxes)
@@ -363,6 +363,9 @@ class DlibERT(MultiScaleNonParametricFitter):
                 verbose=verbose,
             )
 
+            # Keep the number of bbox estimations of each image
+            n_current_bboxes = [len(bboxes) for bboxes in current_bounding_boxes]
+
             # Scale the current bbox estimations for the next level. This
             # doesn't have to be done for the last scale. The only thing we need
             # to do at the last scale is to remove any attached landmarks from
-- 
2.43.0


From ff48ee5e3e8213c3cb629d3d274728a22bc77c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 25/92] fix: all reconstructions of multi-scale results were
 displayed as the last one

---
 menpofit/result.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/menpofit/result.py b/menpofit/result.py
index 5c6a3e0..0415dde 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -2931,12 +2931,15 @@ class MultiScaleParametricIterativeResult(MultiScaleNonParametricIterativeResult
         if self.initial_shape is not None:
             iters_offset = -1
         for j in iters:
+            group = None
             if j == 0 and self.initial_shape is not None:
                 name = "Initial"
                 image.landmarks[name] = self.initial_shape
             elif j in self._reconstruction_indices:
                 name = "Reconstruction"
-                image.landmarks[name] = self.shapes[j]
+                # There is one reconstruction per scale
+                group = "Reconstruction {}".format(j)
+                image.landmarks[group] = self.shapes[j]
             elif j == len(self.shapes) - 1:
                 name = "Final"
                 image.landmarks[name] = self.final_shape
@@ -2944,8 +2947,10 @@ class MultiScaleParametricIterativeResult(MultiScaleNonParametricIterativeResult
                 s = _get_scale_of_iter(j, self._reconstruction_indices)
                 name = "iteration {:0{}d}".format(j - s + iters_offset, n_digits)
                 image.landmarks[name] = self.shapes[j]
-            groups.append(name)
-            subplots_titles[name] = name
+            if group is None:
+                group = name
+            groups.append(group)
+            subplots_titles[group] = name
         # Render
         return view_image_multiple_landmarks(
             image,
-- 
2.43.0


From 4c6670fd162ab64990d84ae679676f544fed4ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 26/92] fix: grids of displayed shapes crashed on recent
 matplotlib versions

---
 menpofit/visualize/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 8cb5b65..8e77fcb 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -381,7 +381,9 @@ def view_image_multiple_landmarks(
             # there are selected landmark groups and they will be displayed
             if subplots_enabled:
                 # calculate subplots structure
-                subplots = MatplotlibSubplots()._subplot_layout(len(groups))
+                subplots = [
+                    int(k) for k in
+                    MatplotlibSubplots()._subplot_layout(len(groups))]
             # show image with landmarks
             for k, group in enumerate(groups):
                 if subplots_enabled:
@@ -482,7 +484,9 @@ def view_image_multiple_landmarks(
             # there are selected landmark groups and they will be displayed
             if subplots_enabled:
                 # calculate subplots structure
-                subplots = MatplotlibSubplots()._subplot_layout(len(groups))
+                subplots = [
+                    int(k) for k in
+                    MatplotlibSubplots()._subplot_layout(len(groups))]
             # not image, landmarks
             for k, group in enumerate(groups):
                 if subplots_enabled:
-- 
2.43.0


From 5d56991a35b0bcfe1cff5e64e206a4180b60362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 27/92] fix: ECC of the forward additive algorithm normalised
 gradients by the whole image

---
 menpofit/lk/residual.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index afcdb8e..d908e47 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -518,7 +518,17 @@ class ECC(Residual):
             The steepest descent images
         """
         # normalize image
-        norm_image = self._normalise_images(image)
+        if forward:
+            # only the part of the image that is compared with the template
+            # determines its norm (its mean does not affect the gradient)
+            template, transform = forward
+            warped = image.warp_to_mask(template.mask, transform,
+                                        warp_landmarks=False).as_vector()
+            norm_image = image.copy()
+            norm_image.pixels = (image.pixels /
+                                 scipy.linalg.norm(warped - warped.mean()))
+        else:
+            norm_image = self._normalise_images(image)
 
         # compute gradient
         # gradient:  dims x ch x pixels
-- 
2.43.0


From 51195b39b387e9fa10e222b08c776216669035ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 28/92] fix: target of similarity alignments was not updated by
 compositions

---
 menpofit/transform/homogeneous.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/menpofit/transform/homogeneous.py b/menpofit/transform/homogeneous.py
index 9396202..6c8435d 100644
--- a/menpofit/transform/homogeneous.py
+++ b/menpofit/transform/homogeneous.py
@@ -185,6 +185,21 @@ class DifferentiableAlignmentSimilarity(AlignmentSimilarity, DP, DX):
         """
         return DifferentiableSimilarity(self.h_matrix, skip_checks=True)
 
+    def compose_after_from_vector_inplace(self, vector):
+        r"""
+        Composes the transform after the one described by the given vector and
+        moves the target accordingly.
+
+        Parameters
+        ----------
+        vector : ``(n_parameters,)`` `ndarray`
+            Vector to update the transform state with.
+        """
+        AlignmentSimilarity.compose_after_from_vector_inplace(self, vector)
+        # unlike affine alignments, similarity alignments do not keep their
+        # target in sync with their matrix
+        self._sync_target_from_state()
+
     def d_dp(self, points):
         r"""
         The derivative with respect to the parametrisation changes evaluated at
-- 
2.43.0


From 27f81808ce6ae2787221aafdadfb445b80e94669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 29/92] fix: pupil normalised errors used a keyword that menpo
 renamed

---
 menpofit/error/human/face.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/error/human/face.py b/menpofit/error/human/face.py
index 5aa7f55..b18c44e 100644
--- a/menpofit/error/human/face.py
+++ b/menpofit/error/human/face.py
@@ -80,7 +80,7 @@ def mean_pupil_68_error(shape, gt_shape):
         raise ValueError('Ground truth shape must have 68 points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_68_to_face_ibug_68(s, include_mapping=True)
+        _, mapping = face_ibug_68_to_face_ibug_68(s, return_mapping=True)
         return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
                                np.mean(s[mapping['right_eye']], axis=0))
     return distance_normalised_error(euclidean_error, pupil_dist, shape,
@@ -134,7 +134,7 @@ def mean_pupil_49_error(shape, gt_shape):
                          'points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_49_to_face_ibug_49(s, include_mapping=True)
+        _, mapping = face_ibug_49_to_face_ibug_49(s, return_mapping=True)
         return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
                                np.mean(s[mapping['right_eye']], axis=0))
     if shape.n_points == 68:
-- 
2.43.0


From 299a0572944726fb671710204e03a4f932d8879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 30/92] fix: bounding box measures and point distances did not
 accept point clouds

---
 menpofit/error/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/menpofit/error/base.py b/menpofit/error/base.py
index acfc3b8..b8a65e7 100644
--- a/menpofit/error/base.py
+++ b/menpofit/error/base.py
@@ -19,6 +19,7 @@ def pointcloud_to_points(wrapped):
 
 
 # BOUNDING BOX NORMALISERS
+@pointcloud_to_points
 def bb_area(shape):
     r"""
     Computes the area of the bounding box of the provided shape,
@@ -44,6 +45,7 @@ def bb_area(shape):
     return height * width
 
 
+@pointcloud_to_points
 def bb_perimeter(shape):
     r"""
     Computes the perimeter of the bounding box of the provided shape, i.e.
@@ -68,6 +70,7 @@ def bb_perimeter(shape):
     return 2 * (height + width)
 
 
+@pointcloud_to_points
 def bb_avg_edge_length(shape):
     r"""
     Computes the average edge length of the bounding box of the provided shape,
@@ -93,6 +96,7 @@ def bb_avg_edge_length(shape):
     return 0.5 * (height + width)
 
 
+@pointcloud_to_points
 def bb_diagonal(shape):
     r"""
     Computes the diagonal of the bounding box of the provided shape, i.e.
@@ -182,6 +186,7 @@ def euclidean_error(shape, gt_shape):
 
 
 # DISTANCE NORMALISER
+@pointcloud_to_points
 def distance_two_indices(index1, index2, shape):
     r"""
     Computes the Euclidean distance between two points of a shape, i.e.
-- 
2.43.0


From 712148d24b409e3054cde378d0967f54d487f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 31/92] fix: cumulative error of plain lists at plain bins
 raised a TypeError

---
 menpofit/error/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index b1a76fd..4e5e1fe 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -26,7 +26,8 @@ def compute_cumulative_error(errors, bins):
         The computed CED.
     """
     n_errors = len(errors)
-    return [np.count_nonzero([errors <= x]) / n_errors for x in bins]
+    errors = np.asarray(errors)
+    return [np.count_nonzero(errors <= x) / n_errors for x in bins]
 
 
 def mad(errors):
-- 
2.43.0


From 4effe4ee0d1f252831e3cd35f47c12654c27ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 32/92] fix: area under curve and failure rate were evaluated
 beyond the maximum error

---
 menpofit/error/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index 4e5e1fe..9e68403 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -72,7 +72,9 @@ def area_under_curve_and_failure_rate(errors, step_error, max_error,
     fr : `float`
         The Failure Rate value.
     """
-    x_axis = list(np.arange(min_error, max_error + step_error, step_error))
+    # equidistant bins (at most step_error apart) that end exactly at max_error
+    n_steps = int(np.ceil((max_error - min_error) / step_error - 1e-6))
+    x_axis = list(np.linspace(min_error, max_error, n_steps + 1))
     ced = np.array(compute_cumulative_error(errors, x_axis))
     return simps(ced, x=x_axis) / max_error, 1. - ced[-1]
 
-- 
2.43.0


From 389d9f8ee14fc5f267223194d44e6c40703908f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 33/92] fix: statistics tables crashed on recent pandas
 versions

---
 menpofit/visualize/textutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/visualize/textutils.py b/menpofit/visualize/textutils.py
index 99f8efa..df4c735 100644
--- a/menpofit/visualize/textutils.py
+++ b/menpofit/visualize/textutils.py
@@ -254,6 +254,6 @@ def statistics_table(errors, method_names, auc_max_error, auc_error_step,
                         inplace=True, ascending=ascending)
 
     # Set precision
-    pn.set_option('precision', precision)
+    pn.set_option('display.precision', precision)
 
     return tab
-- 
2.43.0


From 0ec335e56e84ca2f8dac85807d3484826273db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 34/92] fix: cropping by less than two pixels returned empty
 arrays

---
 menpofit/math/fft_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 187d89b..75f5264 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -67,8 +67,8 @@ def crop(pixels, shape):
     w_corrector = 1 if np.remainder(w - shape[1], 2) != 0 else 0
 
     return pixels[...,
-                  h_margin + h_corrector:-h_margin,
-                  w_margin + w_corrector:-w_margin]
+                  h_margin + h_corrector:h - h_margin,
+                  w_margin + w_corrector:w - w_margin]
 
 
 # TODO: Document me!
-- 
2.43.0


From 62ff3bdb27db1feeab1b41d9ee186640a3c02f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 35/92] fix: convolution modes were compared by identity

---
 menpofit/math/fft_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 75f5264..ba59a0d 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -152,11 +152,11 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode is 'full':
+    if mode == 'full':
         return ext_c
-    elif mode is 'same':
+    elif mode == 'same':
         return crop(ext_c, x_shape)
-    elif mode is 'valid':
+    elif mode == 'valid':
         return crop(ext_c, x_shape - f_half_shape + 1)
     else:
         raise ValueError(
@@ -234,11 +234,11 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode is 'full':
+    if mode == 'full':
         return ext_c
-    elif mode is 'same':
+    elif mode == 'same':
         return crop(ext_c, x_shape)
-    elif mode is 'valid':
+    elif mode == 'valid':
         return crop(ext_c, x_shape - f_half_shape + 1)
     else:
         raise ValueError(
-- 
2.43.0


From 26adb57668ce3e78cb56e3b1dd40253db0c60a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 36/92] fix: convolution with a frequency domain filter crashed
 unless mode was full

---
 menpofit/math/fft_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index ba59a0d..9643332 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -123,6 +123,9 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     """
     if fft_filter:
         # extended shape is filter shape
+        x_shape = np.asarray(x.shape[-2:])
+        f_shape = ((np.asarray(f.shape[-2:]) + 1) / 1.5).astype(int)
+        f_half_shape = (f_shape / 2).astype(int)
         ext_shape = np.asarray(f.shape[-2:])
 
         # extend image and filter
-- 
2.43.0


From 51d2f9b178403794b76579298468224505f78c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 37/92] fix: convolutions wrapped the opposite border of the
 image around

---
 menpofit/math/fft_utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 9643332..6e5e3c4 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -125,7 +125,6 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
         # extended shape is filter shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = ((np.asarray(f.shape[-2:]) + 1) / 1.5).astype(int)
-        f_half_shape = (f_shape / 2).astype(int)
         ext_shape = np.asarray(f.shape[-2:])
 
         # extend image and filter
@@ -138,8 +137,7 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
         # extended shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        ext_shape = x_shape + f_shape - 1
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -160,7 +158,7 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     elif mode == 'same':
         return crop(ext_c, x_shape)
     elif mode == 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
+        return crop(ext_c, x_shape - f_shape + 1)
     else:
         raise ValueError(
             "mode={}, is not supported. The only supported "
@@ -208,7 +206,6 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
         # extended shape is fft_ext_filter shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = ((np.asarray(fft_ext_f.shape[-2:]) + 1) / 1.5).astype(int)
-        f_half_shape = (f_shape / 2).astype(int)
         ext_shape = np.asarray(f.shape[-2:])
 
         # extend image and filter
@@ -220,8 +217,7 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
         # extended shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        ext_shape = x_shape + f_shape - 1
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -242,7 +238,7 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
     elif mode == 'same':
         return crop(ext_c, x_shape)
     elif mode == 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
+        return crop(ext_c, x_shape - f_shape + 1)
     else:
         raise ValueError(
             "mode={}, is not supported. The only supported "
-- 
2.43.0


From 4b140fc434202899efcd14617c5967357dd4ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 38/92] fix: convolution of an array with a menpo image used
 the image object as filter

---
 menpofit/math/fft_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 6e5e3c4..8f4adae 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -87,7 +87,7 @@ def ndconvolution(wrapped):
             return rebuild_feature_image(image, feature)
         elif not isinstance(filter, np.ndarray):
             # filter is menpo image
-            return wrapped(image, filter, *args, **kwargs)
+            return wrapped(image, filter.pixels, *args, **kwargs)
         else:
             return wrapped(image, filter, *args, **kwargs)
     return wrapper
-- 
2.43.0


From af84d8b3f5132ee4b7c917b04799f2b992c0f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 39/92] fix: incremented correlation filters weighted sums of
 samples as if they were averages

---
 menpofit/math/correlationfilter.py | 36 +++++++++---------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index 2b80d9e..df8b7ee 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -142,21 +142,12 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
         (CVPR), 2010.
     """
     # number of images; number of channels, height and width
-    n_x, k, hz, wz = X.shape
+    _, k, hz, wz = X.shape
 
     # height and width of desired responses
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -182,9 +173,10 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
         sXX += fft_ext_x.conj() * fft_ext_x
         sXY += fft_ext_x.conj() * fft_ext_y
 
-    # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # combine old and new auto and cross spectral energy matrices (they are
+    # sums over samples, the old ones are weighted by the forgetting factor)
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # compute desired correlation filter
     fft_ext_f = sXY / (sXX + l)
     # reshape extended filter to extended image shape
@@ -348,21 +340,12 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
         Computer Vision (ICCV), 2013.
     """
     # number of images; number of channels, height and width
-    n_x, k, hz, wz = X.shape
+    _, k, hz, wz = X.shape
 
     # height and width of desired responses
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -396,9 +379,10 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
         sXX += diag_fft_x.conj().T.dot(diag_fft_x)
         sXY += diag_fft_x.conj().T.dot(diag_fft_y)
 
-    # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # combine old and new auto and cross spectral energy matrices (they are
+    # sums over samples, the old ones are weighted by the forgetting factor)
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # solve ext_d independent k x k linear systems (with regularization)
     # to obtain desired extended multi-channel correlation filter
     fft_ext_f = spsolve(sXX + l * speye(sXX.shape[-1]), sXY)
-- 
2.43.0


From 2c9ba500bfd800c029eb1d689b621aea4e0d283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 40/92] fix: number of sample offsets of expert ensembles
 raised a ValueError

---
 menpofit/clm/expert/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index c19f058..4ce7f90 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -110,7 +110,7 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
 
         :type: `int`
         """
-        if self.sample_offsets:
+        if self.sample_offsets is not None:
             return self.sample_offsets.shape[0]
         else:
             return 1
-- 
2.43.0


From 31ed11f3cd654db141425203c8ca3b4404760497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 41/92] fix: patches of multi-channel images were normalised
 differently in training and prediction

---
 menpofit/clm/expert/ensemble.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index 4ce7f90..f14e3a1 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -208,8 +208,8 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
         # Reshape patches
         # patches: n_patches x (n_offsets x n_channels) x height x width
         patches = patches.reshape((patches.shape[0], -1) + patches.shape[-2:])
-        # Normalise patches
-        return self.patch_normalisation(patches)
+        # Normalise patches, each one as in training
+        return np.asarray([self.patch_normalisation(p) for p in patches])
 
     def predict_response(self, image, shape):
         r"""
-- 
2.43.0


From ed6a31cc70524771100ee3c72a0dcca68ec4303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 42/92] fix: probability maps of constant responses crashed and
 inputs were overwritten

---
 menpofit/clm/expert/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/menpofit/clm/expert/base.py b/menpofit/clm/expert/base.py
index 6864605..e75f1a3 100644
--- a/menpofit/clm/expert/base.py
+++ b/menpofit/clm/expert/base.py
@@ -22,16 +22,17 @@ def probability_map(x, axes=(-2, -1)):
     probability_map : `menpo.image.Image` or ``(C, X, Y, ..., Z)`` `ndarray`
         The probability MAP of the image.
     """
-    x -= np.min(x, axis=axes, keepdims=True)
+    x = x - np.min(x, axis=axes, keepdims=True)
     total = np.sum(x, axis=axes, keepdims=True)
     nonzero = total > 0
     if np.any(~nonzero):
         warnings.warn('some of x axes have 0 variance - uniform probability '
                       'maps are used them.')
-        x[nonzero] /= total[nonzero]
-        x[~nonzero] = 1 / np.prod(axes)
+        # number of elements that each map is normalised over
+        n = x.size / total.size
+        x = np.where(nonzero, x / np.where(nonzero, total, 1), 1. / n)
     else:
-        x /= total
+        x = x / total
     return x
 
 
-- 
2.43.0


From 2a624c30063edaa60373e95d26b60a89a4b9998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 43/92] fix: incremented regressions differed from regressions
 trained on all samples

---
 menpofit/math/regression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index c75af28..2c7d2c7 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -74,8 +74,7 @@ class IRLRegression(object):
 
         # incremental regularized linear regression
         U = X.dot(self.V).dot(X.T)
-        if self.alpha:
-            np.fill_diagonal(U, self.alpha + np.diag(U))
+        np.fill_diagonal(U, 1 + np.diag(U))
         U = np.linalg.inv(U)
         Q = self.V.dot(X.T).dot(U).dot(X)
         self.V = self.V - Q.dot(self.V)
-- 
2.43.0


From e3086d681f39d8b98c06563431f9bf9df868b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 44/92] fix: regressions kept less than the requested variance
 (or no component at all)

---
 menpofit/math/regression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index 2c7d2c7..ea532f9 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -223,8 +223,8 @@ class PCRRegression(object):
         U, s, self.V = np.linalg.svd(X, full_matrices=False)
         if self.variance:
             variation = np.cumsum(s) / np.sum(s)
-            # Inverted for easier parameter semantics
-            k = np.sum(variation < self.variance)
+            # smallest number of components that keeps the requested variance
+            k = np.sum(variation < self.variance) + 1
             U = U[:, :k]
             self.V = self.V[:k, :]
             s = s[:k]
@@ -310,8 +310,8 @@ class OptimalLinearRegression(object):
         k = U.shape[0]
         if self.variance is not None:
             variation = np.cumsum(l) / np.sum(l)
-            # Inverted for easier parameter semantics
-            k = np.sum(variation < self.variance)
+            # smallest number of components that keeps the requested variance
+            k = np.sum(variation < self.variance) + 1
             U = U[:k, :]
 
         # Whitened components
-- 
2.43.0


From 0d06a4705a6812df9a181eee446a8e1e4748ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 45/92] fix: optimal linear regression on a single component
 always predicted zero

---
 menpofit/math/regression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index ea532f9..f3e2266 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from menpo.math import pca
+from menpo.math import eigenvalue_decomposition, pca
 
 
 class IRLRegression(object):
@@ -321,8 +321,8 @@ class OptimalLinearRegression(object):
         A = X.T.dot(Y).dot(Y.T).dot(X)
         A_tilde = U.dot(A).dot(U.T)
 
-        V, l2, _ = pca(A_tilde, centre=False)
-        H = V.dot(U)
+        V, _ = eigenvalue_decomposition(A_tilde)
+        H = V.T.dot(U)
 
         self.R = H.T.dot(np.linalg.pinv(X.dot(H.T)).dot(Y))
 
-- 
2.43.0


From 0b6f55d2928f47137eb258a78e40497c1d237b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 46/92] fix: centres of arrays were misaligned by padding,
 cropping and correlation filters for some sizes

---
 menpofit/math/correlationfilter.py | 10 +++++-----
 menpofit/math/fft_utils.py         | 28 ++++++++++++----------------
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index df8b7ee..5d1ee81 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -1,5 +1,5 @@
 import numpy as np
-from numpy.fft import fft2, ifft2, ifftshift
+from numpy.fft import fft2, ifft2, fftshift
 from scipy.sparse import spdiags, eye as speye
 from scipy.sparse.linalg import spsolve
 
@@ -81,7 +81,7 @@ def mosse(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute extended filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -183,7 +183,7 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -276,7 +276,7 @@ def mccf(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -390,7 +390,7 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
     if crop_filter:
         # crop extended filter to match desired response shape
         f = crop(f, y_shape)
diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 8f4adae..d1d3359 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -34,16 +34,13 @@ def pad(pixels, ext_shape, boundary='constant'):
     """
     h, w = pixels.shape[-2:]
 
-    h_margin = (ext_shape[0] - h) // 2
-    w_margin = (ext_shape[1] - w) // 2
+    # the centre pixel (size // 2) has to remain the centre pixel, whether the
+    # sizes are even or odd
+    h_margin = ext_shape[0] // 2 - h // 2
+    w_margin = ext_shape[1] // 2 - w // 2
 
-    h_margin2 = h_margin
-    if h + 2 * h_margin < ext_shape[0]:
-        h_margin += 1
-
-    w_margin2 = w_margin
-    if w + 2 * w_margin < ext_shape[1]:
-        w_margin += 1
+    h_margin2 = ext_shape[0] - h - h_margin
+    w_margin2 = ext_shape[1] - w - w_margin
 
     pad_width = []
     for _ in pixels.shape[:-2]:
@@ -60,15 +57,14 @@ def crop(pixels, shape):
     """
     h, w = pixels.shape[-2:]
 
-    h_margin = (h - shape[0]) // 2
-    w_margin = (w - shape[1]) // 2
-
-    h_corrector = 1 if np.remainder(h - shape[0], 2) != 0 else 0
-    w_corrector = 1 if np.remainder(w - shape[1], 2) != 0 else 0
+    # the centre pixel (size // 2) has to remain the centre pixel, whether the
+    # sizes are even or odd
+    h_margin = h // 2 - shape[0] // 2
+    w_margin = w // 2 - shape[1] // 2
 
     return pixels[...,
-                  h_margin + h_corrector:h - h_margin,
-                  w_margin + w_corrector:w - w_margin]
+                  h_margin:h_margin + shape[0],
+                  w_margin:w_margin + shape[1]]
 
 
 # TODO: Document me!
-- 
2.43.0


From ca61a5f6119b18113c85aa4b04c261085a87c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 47/92] fix: full and valid convolutions of even images with
 even filters were displaced by one sample

---
 menpofit/math/fft_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index d1d3359..0b28c9d 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -149,6 +149,12 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
+    if not fft_filter and mode in ('full', 'valid'):
+        # the full convolution of an even image with an even filter is
+        # centred on its first sample
+        even = (x_shape % 2 == 0) & (f_shape % 2 == 0)
+        ext_c = np.roll(ext_c, tuple(even.astype(int)), axis=(-2, -1))
+
     if mode == 'full':
         return ext_c
     elif mode == 'same':
@@ -229,6 +235,12 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
+    if not fft_filter and mode in ('full', 'valid'):
+        # the full convolution of an even image with an even filter is
+        # centred on its first sample
+        even = (x_shape % 2 == 0) & (f_shape % 2 == 0)
+        ext_c = np.roll(ext_c, tuple(even.astype(int)), axis=(-2, -1))
+
     if mode == 'full':
         return ext_c
     elif mode == 'same':
-- 
2.43.0


From 999df1c1ff92e41551ed19e5b3ddb9c2c0f0be53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 48/92] fix: frequency images of multi-channel filters had
 their channels rotated

---
 menpofit/clm/expert/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index f14e3a1..7264bef 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -178,7 +178,8 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
         for fft_padded_filter in self.fft_padded_filters:
             spatial_filter = np.real(ifft2(fft_padded_filter))
             spatial_filter = crop(spatial_filter, self.patch_shape)[:, ::-1, ::-1]
-            frequency_filter = np.abs(fftshift(fft2(spatial_filter)))
+            frequency_filter = np.abs(
+                fftshift(fft2(spatial_filter), axes=(-2, -1)))
             filter_images.append(Image(frequency_filter))
         return filter_images
 
-- 
2.43.0


From 7bcd579da3a3fb832cb622eac5f59b50a1127e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 49/92] fix: supervised descent fitters of linear AAMs could
 not be trained

---
 menpofit/aam/algorithm/sd.py   |  8 ++++----
 menpofit/sdm/algorithm/base.py | 23 ++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/menpofit/aam/algorithm/sd.py b/menpofit/aam/algorithm/sd.py
index 61b141e..eeb0878 100644
--- a/menpofit/aam/algorithm/sd.py
+++ b/menpofit/aam/algorithm/sd.py
@@ -7,6 +7,7 @@ from menpofit.math import IRLRegression, IIRLRegression
 from menpofit.result import euclidean_bb_normalised_error
 from menpofit.sdm.algorithm.base import (BaseSupervisedDescentAlgorithm,
                                          compute_parametric_delta_x,
+                                         model_shape,
                                          update_parametric_estimates,
                                          print_parametric_info)
 from menpofit.visualize import print_progress
@@ -139,13 +140,12 @@ class ParametricSupervisedDescentAlgorithm(BaseSupervisedDescentAlgorithm):
         # initialize transform
         self.transform.set_target(initial_shape)
         p_list = [self.transform.as_vector()]
-        shapes = [self.transform.target]
+        shapes = [model_shape(self.transform)]
 
         # Cascaded Regression loop
         for r in self.regressors:
             # Assumes that the transform is correctly set
-            features = self._compute_test_features(image,
-                                                   self.transform.target)
+            features = self._compute_test_features(image, shapes[-1])
 
             # solve for increments on the shape parameters
             dx = r.predict(features)
@@ -155,7 +155,7 @@ class ParametricSupervisedDescentAlgorithm(BaseSupervisedDescentAlgorithm):
             new_x = p_list[-1] + dx
             self.transform._from_vector_inplace(new_x)
             p_list.append(new_x)
-            shapes.append(self.transform.target)
+            shapes.append(model_shape(self.transform))
 
         # return algorithm result
         return self.interface.algorithm_result(
diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 12104b3..cb2e3e6 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -459,6 +459,27 @@ def compute_parametric_delta_x(gt_shapes, current_shapes, model):
     return delta_params, gt_params
 
 
+def model_shape(model):
+    r"""
+    The shape that a parametric model currently generates at the annotated
+    landmarks. The target of linear models is dense, in which case this is only
+    its sparse part.
+
+    Parameters
+    ----------
+    model : `menpofit.modelinstance.OrthoPDM` or `subclass`
+        The parametric model.
+
+    Returns
+    -------
+    shape : `menpo.shape.PointCloud`
+        The current shape.
+    """
+    if hasattr(model, 'sparse_target'):
+        return model.sparse_target
+    return model.target
+
+
 def update_parametric_estimates(estimated_delta_x, delta_x, gt_x,
                                 current_shapes, model):
     r"""
@@ -492,7 +513,7 @@ def update_parametric_estimates(estimated_delta_x, delta_x, gt_x,
             model._from_vector_inplace(cx)
 
             # Update current shape inplace
-            s._from_vector_inplace(model.target.as_vector().copy())
+            s._from_vector_inplace(model_shape(model).as_vector().copy())
 
             delta_x[j] = gt_x[j] - cx
             j += 1
-- 
2.43.0


From c64c30d67fa90364df7e094eda0bcf528354528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 50/92] fix: supervised descent training required the same
 number of bounding boxes for all images

---
 menpofit/sdm/algorithm/base.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index cb2e3e6..4020b8a 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -80,8 +80,12 @@ class BaseSupervisedDescentAlgorithm(object):
             raise ValueError('Algorithm must be trained before it can be '
                              'incremented.')
 
-        n_perturbations = len(current_shapes[0])
         template_shape = gt_shapes[0]
+        # ground truth shape of each shape estimate (the number of estimates
+        # may differ between images)
+        sample_gt_shapes = [gt_s for gt_s, shapes in zip(gt_shapes,
+                                                         current_shapes)
+                            for _ in shapes]
 
         # obtain delta_x and gt_x
         delta_x, gt_x = self._compute_delta_x(gt_shapes, current_shapes)
@@ -109,9 +113,8 @@ class BaseSupervisedDescentAlgorithm(object):
             # Estimate delta_points
             estimated_delta_x = self.regressors[k].predict(features)
             if verbose:
-                self._print_regression_info(template_shape, gt_shapes,
-                                            n_perturbations, delta_x,
-                                            estimated_delta_x, k,
+                self._print_regression_info(template_shape, sample_gt_shapes,
+                                            1, delta_x, estimated_delta_x, k,
                                             prefix=prefix)
 
             self._update_estimates(estimated_delta_x, delta_x, gt_x,
@@ -272,12 +275,11 @@ def compute_non_parametric_delta_x(gt_shapes, current_shapes):
         The ground truth shape vectors.
     """
     n_x = gt_shapes[0].n_parameters
-    n_gt_shapes = len(gt_shapes)
-    n_current_shapes = len(current_shapes[0])
+    n_samples = sum(len(shapes) for shapes in current_shapes)
 
     # initialize current, ground truth and delta parameters
-    gt_x = np.empty((n_gt_shapes * n_current_shapes, n_x))
-    delta_x = np.empty((n_gt_shapes * n_current_shapes, n_x))
+    gt_x = np.empty((n_samples, n_x))
+    delta_x = np.empty((n_samples, n_x))
 
     # obtain ground truth points and compute delta points
     k = 0
@@ -438,7 +440,7 @@ def compute_parametric_delta_x(gt_shapes, current_shapes, model):
         The ground truth parameters vectors.
     """
     # initialize current and delta parameters arrays
-    n_samples = len(gt_shapes) * len(current_shapes[0])
+    n_samples = sum(len(shapes) for shapes in current_shapes)
     gt_params = np.empty((n_samples, model.n_parameters))
     delta_params = np.empty_like(gt_params)
 
-- 
2.43.0


From 894b39ff6ce7a73505e26c5a2c00fe232c1d0cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 51/92] fix: types of noise were compared by identity

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 7e43ccb..7ec004f 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -70,7 +70,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
 
-    if noise_type is 'gaussian':
+    if noise_type == 'gaussian':
         s = noise_percentage[0] * (0.5 / 3) * np.random.randn(1)[0]
         r = noise_percentage[1] * (180 / 3) * np.random.randn(1)[0]
         t = noise_percentage[2] * (target.range() / 3) * np.random.randn(2)
@@ -78,7 +78,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         s = scale_about_centre(target, 1 + s)
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
-    elif noise_type is 'uniform':
+    elif noise_type == 'uniform':
         s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
-- 
2.43.0


From 5aef82cfe28df399d092e2ce54a65c6fc759c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 52/92] fix: uniform noise drew its scale from a normal
 distribution

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 7ec004f..4c5ab74 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -79,7 +79,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
     elif noise_type == 'uniform':
-        s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
+        s = noise_percentage[0] * 0.5 * (2 * np.random.rand(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
 
-- 
2.43.0


From f6351afae3ffa6782d1f3de10a801797e50d7777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 53/92] fix: lists of a single noise percentage were extended
 in place

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 4c5ab74..4869de9 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -65,7 +65,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     if isinstance(noise_percentage, float):
         noise_percentage = [noise_percentage] * 3
     elif len(noise_percentage) == 1:
-        noise_percentage *= 3
+        noise_percentage = list(noise_percentage) * 3
 
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
-- 
2.43.0


From 14b73a85f254ae8baa567368821a9f4f02fe315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 54/92] fix: noise about the centre of the target was applied
 before aligning the source with it

---
 menpofit/fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 4869de9..83e4755 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -90,7 +90,9 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         raise ValueError('Unexpected noise type. '
                          'Supported values are {gaussian, uniform}')
 
-    return similarity.compose_after(t.compose_after(s.compose_after(r)))
+    # the noise refers to the centre and the range of the target, thus it is
+    # applied after the alignment
+    return t.compose_after(s.compose_after(r.compose_after(similarity)))
 
 
 def noisy_target_alignment_transform(source, target,
-- 
2.43.0


From 4c5e68bb6c6c7d572ca12fceb29dc49152bf9420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 55/92] fix: noise deviations per point raised a ValueError

---
 menpofit/fitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 83e4755..bebe973 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -120,6 +120,7 @@ def noisy_target_alignment_transform(source, target,
     noisy_transform : `menpo.transform.Alignment`
         The noisy Similarity Transform
     """
+    noise_std = np.reshape(noise_std, (-1, 1))
     noise = noise_std * target.range() * np.random.randn(target.n_points,
                                                          target.n_dims)
     noisy_target = PointCloud(target.points + noise)
-- 
2.43.0


From 2cae4d262a7f72933bb1493dc0ded877ec33d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 56/92] fix: appearance reconstructions of three or more scales
 used the wrong parameters

---
 menpofit/aam/base.py             | 4 ++--
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 4a6046b..5142127 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -557,7 +557,7 @@ class AAM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
@@ -1250,7 +1250,7 @@ class PatchAAM(AAM):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c).pixels
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 7ef5603..fd8afa6 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -484,7 +484,7 @@ class UnifiedAAMCLM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
-- 
2.43.0


From ca6cbd60f8c5e4c26d8ef424bb29d68ca1f8a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 57/92] fix: random instances drew as many appearance as shape
 weights

---
 menpofit/aam/base.py             | 2 +-
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 5142127..cf5bd13 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -479,7 +479,7 @@ class AAM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index fd8afa6..ac56a16 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -406,7 +406,7 @@ class UnifiedAAMCLM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
-- 
2.43.0


From 1412a744687a56e3e45a3bc5db33182e43055a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 58/92] fix: instances of masked ATMs raised a TypeError

---
 menpofit/atm/base.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 0368309..304258b 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -399,7 +399,7 @@ class ATM(object):
         template = self.warped_templates[scale_index]
 
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
     def random_instance(self, scale_index=-1):
         r"""
@@ -422,9 +422,9 @@ class ATM(object):
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
 
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_reference_frame(shape_instance)
@@ -575,11 +575,11 @@ class MaskedATM(ATM):
     def _str_title(self):
         return "Masked Active Template Model"
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_patch_reference_frame(
-            shape_instance, patch_shape=self.patch_shape
+            shape_instance, patch_shape=self.patch_shape[scale_index]
         )
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
@@ -720,7 +720,7 @@ class LinearATM(ATM):
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
@@ -886,7 +886,7 @@ class LinearMaskedATM(ATM):
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
@@ -1030,7 +1030,7 @@ class PatchATM(ATM):
             verbose=verbose,
         )
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         return shape_instance, template
 
     def build_fitter_interfaces(self, sampling):
-- 
2.43.0


From 55b7f3b27d90329c3bbecd1a06a5c1dbeb40f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 59/92] fix: landmarks of instances of thin plate spline models
 were displaced

---
 menpofit/aam/base.py             | 10 ++++++++--
 menpofit/atm/base.py             | 10 ++++++++--
 menpofit/unified_aam_clm/base.py |  5 ++++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index cf5bd13..cff6672 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -492,9 +492,12 @@ class AAM(object):
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
 
-        return appearance_instance.as_unmasked(copy=False).warp_to_mask(
+        instance = appearance_instance.as_unmasked(copy=False).warp_to_mask(
             reference_frame.mask, transform, warp_landmarks=True
         )
+        # Transforms such as thin plate splines are only inverted approximately
+        instance.landmarks["source"] = reference_frame.landmarks["source"]
+        return instance
 
     def build_fitter_interfaces(self, sampling):
         r"""
@@ -693,9 +696,12 @@ class MaskedAAM(AAM):
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
 
-        return appearance_instance.as_unmasked(copy=False).warp_to_mask(
+        instance = appearance_instance.as_unmasked(copy=False).warp_to_mask(
             reference_frame.mask, transform, warp_landmarks=True
         )
+        # Transforms such as thin plate splines are only inverted approximately
+        instance.landmarks["source"] = reference_frame.landmarks["source"]
+        return instance
 
     def __str__(self):
         return _aam_str(self)
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 304258b..bf59f5e 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -431,9 +431,12 @@ class ATM(object):
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
 
-        return template.as_unmasked(copy=False).warp_to_mask(
+        instance = template.as_unmasked(copy=False).warp_to_mask(
             reference_frame.mask, transform, warp_landmarks=True
         )
+        # Transforms such as thin plate splines are only inverted approximately
+        instance.landmarks["source"] = reference_frame.landmarks["source"]
+        return instance
 
     def build_fitter_interfaces(self, sampling):
         r"""
@@ -584,9 +587,12 @@ class MaskedATM(ATM):
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
 
-        return template.as_unmasked().warp_to_mask(
+        instance = template.as_unmasked().warp_to_mask(
             reference_frame.mask, transform, warp_landmarks=True
         )
+        # Transforms such as thin plate splines are only inverted approximately
+        instance.landmarks["source"] = reference_frame.landmarks["source"]
+        return instance
 
     def __str__(self):
         return _atm_str(self)
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index ac56a16..a28121a 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -419,9 +419,12 @@ class UnifiedAAMCLM(object):
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
 
-        return appearance_instance.as_unmasked(copy=False).warp_to_mask(
+        instance = appearance_instance.as_unmasked(copy=False).warp_to_mask(
             reference_frame.mask, transform, warp_landmarks=True
         )
+        # Transforms such as thin plate splines are only inverted approximately
+        instance.landmarks["source"] = reference_frame.landmarks["source"]
+        return instance
 
     def build_fitter_interfaces(self, sampling):
         r"""
-- 
2.43.0


From 68f7e1bb5dc278b5808de088d011c565bdacaa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 60/92] fix: linear models of several scales could not be
 incremented

---
 menpofit/aam/base.py | 22 ++++++++++++++--------
 menpofit/atm/base.py | 22 ++++++++++++++--------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index cff6672..fb3f778 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -787,6 +787,8 @@ class LinearAAM(AAM):
         verbose=False,
         batch_size=None,
     ):
+        # One reference frame per scale
+        self.reference_frames = []
         super(LinearAAM, self).__init__(
             images,
             group=group,
@@ -813,8 +815,9 @@ class LinearAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        reference_frame = build_reference_frame(mean_aligned_shape)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -823,7 +826,7 @@ class LinearAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -838,7 +841,7 @@ class LinearAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -964,6 +967,8 @@ class LinearMaskedAAM(AAM):
         # Check arguments
         n_scales = len(checks.check_scales(scales))
         self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
+        # One reference frame per scale
+        self.reference_frames = []
         # Call superclass
         super(LinearMaskedAAM, self).__init__(
             images,
@@ -991,10 +996,11 @@ class LinearMaskedAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
+        reference_frame = build_patch_reference_frame(
             mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -1002,7 +1008,7 @@ class LinearMaskedAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -1017,7 +1023,7 @@ class LinearMaskedAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index bf59f5e..25dfb04 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -668,6 +668,8 @@ class LinearATM(ATM):
         verbose=False,
         batch_size=None,
     ):
+        # One reference frame per scale
+        self.reference_frames = []
         super(LinearATM, self).__init__(
             template,
             shapes,
@@ -693,8 +695,9 @@ class LinearATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        reference_frame = build_reference_frame(mean_aligned_shape)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -703,7 +706,7 @@ class LinearATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -719,7 +722,7 @@ class LinearATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -832,6 +835,8 @@ class LinearMaskedATM(ATM):
         self.patch_shape = checks.check_patch_shape(
             patch_shape, len(checks.check_scales(scales))
         )
+        # One reference frame per scale
+        self.reference_frames = []
         # Call superclass
         super(LinearMaskedATM, self).__init__(
             template,
@@ -858,10 +863,11 @@ class LinearMaskedATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
+        reference_frame = build_patch_reference_frame(
             mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(reference_frame)
+        dense_shapes = densify_shapes(shapes, reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -869,7 +875,7 @@ class LinearMaskedATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -885,7 +891,7 @@ class LinearMaskedATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
-- 
2.43.0


From 24e65db7e2272d790148ef200cc460c708eadf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 61/92] fix: templates of incremented ATMs were ignored

---
 menpofit/atm/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 25dfb04..d596809 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -282,7 +282,10 @@ class ATM(object):
                 scale_prefix,
                 verbose,
             )
-            self.warped_templates.append(warped_template[0])
+            if not increment:
+                self.warped_templates.append(warped_template[0])
+            else:
+                self.warped_templates[j] = warped_template[0]
 
             if verbose:
                 print_dynamic("{}Done\n".format(scale_prefix))
-- 
2.43.0


From 21114fc5ac16848a6be5320c16f652a85ccfea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 62/92] fix: models could not be incremented with a single
 shape

---
 menpofit/builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/menpofit/builder.py b/menpofit/builder.py
index 72f967a..bd65d95 100644
--- a/menpofit/builder.py
+++ b/menpofit/builder.py
@@ -421,6 +421,10 @@ def align_shapes(shapes):
     """
     # centralize shapes
     centered_shapes = [Translation(-s.centre()).apply(s) for s in shapes]
+    if len(centered_shapes) == 1:
+        # a single shape (e.g. the last batch of an incremental training) is
+        # aligned with itself
+        return centered_shapes
     # align centralized shape using Procrustes Analysis
     gpa = GeneralizedProcrustesAnalysis(centered_shapes)
     return [s.aligned_source() for s in gpa.transforms]
-- 
2.43.0


From 40b6862adef36d5de79761b0faf8312f9c68d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 63/92] fix: incremented APS kept more shape components than
 asked for

---
 menpofit/aps/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/menpofit/aps/base.py b/menpofit/aps/base.py
index 5e47dc5..ee8245a 100644
--- a/menpofit/aps/base.py
+++ b/menpofit/aps/base.py
@@ -321,7 +321,11 @@ class GenerativeAPS(object):
                     )
                 )
             else:
-                self.shape_models[j].increment(aligned_shapes, verbose=verbose)
+                self.shape_models[j].increment(
+                    aligned_shapes,
+                    max_n_components=self.max_shape_components[j],
+                    verbose=verbose,
+                )
 
             # Build the deformation model
             if verbose:
-- 
2.43.0


From 5c151f844a9e167eddb69f2a68636e88642299d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 64/92] fix: cascades without iterations at a scale raised an
 IndexError

---
 menpofit/result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/result.py b/menpofit/result.py
index 0415dde..14ae7eb 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -679,7 +679,8 @@ class NonParametricIterativeResult(Result):
         self, shapes, initial_shape=None, image=None, gt_shape=None, costs=None
     ):
         super(NonParametricIterativeResult, self).__init__(
-            final_shape=shapes[-1],
+            # without iterations the initial shape is the final one
+            final_shape=shapes[-1] if len(shapes) > 0 else initial_shape,
             image=image,
             initial_shape=initial_shape,
             gt_shape=gt_shape,
-- 
2.43.0


From f68fdc7a4a335ea50716451a094196d5bfd06b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 65/92] fix: models limited to a ratio of variance could raise
 a ValueError when incremented

---
 menpofit/aam/base.py      |  6 +++---
 menpofit/modelinstance.py | 25 +++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index fb3f778..2da974c 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -15,7 +15,7 @@ from menpofit.aam.algorithm.lk import (
     LucasKanadePatchInterface,
     LucasKanadeLinearInterface,
 )
-from menpofit.modelinstance import OrthoPDM
+from menpofit.modelinstance import OrthoPDM, trim_incremented_model
 from menpofit.transform import (
     DifferentiableThinPlateSplines,
     DifferentiablePiecewiseAffine,
@@ -326,8 +326,8 @@ class AAM(object):
                 )
                 # trim appearance model if required
                 if self.max_appearance_components[j] is not None:
-                    self.appearance_models[j].trim_components(
-                        self.max_appearance_components[j]
+                    trim_incremented_model(
+                        self.appearance_models[j], self.max_appearance_components[j]
                     )
 
             if verbose:
diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index e9c58d7..84dade5 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -41,6 +41,27 @@ class _SimilarityModel(VectorizableBackedModel, MeanLinearModel):
         return str_out
 
 
+def trim_incremented_model(model, max_n_components):
+    r"""
+    Trims the components of a model that was incremented. An already trimmed
+    model may keep less variance than the asked ratio, in which case there is
+    nothing to trim.
+
+    Parameters
+    ----------
+    model : `menpo.model.PCAModel`
+        The incremented model, which is updated in place.
+    max_n_components : `int` or `float`
+        The maximum number of components or the variance ratio to keep.
+    """
+    try:
+        model.trim_components(max_n_components)
+    except ValueError:
+        if not (isinstance(max_n_components, float) and
+                0. < max_n_components <= 1.):
+            raise
+
+
 def similarity_2d_instance_model(shape):
     r"""
     Creates a `menpo.model.MeanLinearModel` that encodes the 2D similarity
@@ -406,7 +427,7 @@ class PDM(ModelInstance):
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
         if max_n_components is not None:
-            self.model.trim_components(max_n_components)
+            trim_incremented_model(self.model, max_n_components)
         # The mean of the model changed
         self._reset_global_transform()
         # Reset the target given the new model
@@ -701,7 +722,7 @@ class OrthoPDM(GlobalPDM):
                              forgetting_factor=forgetting_factor,
                              verbose=verbose)
         if max_n_components is not None:
-            self.model.trim_components(max_n_components)
+            trim_incremented_model(self.model, max_n_components)
         # Re-orthonormalize
         self._construct_similarity_model()
         # The mean of the model changed
-- 
2.43.0


From de9b0f5e7dd5ae2daa868de550c8a29376dcf7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 66/92] fix: fitters of a model that was fitted before worked
 with displaced Jacobians

---
 menpofit/aam/algorithm/lk.py          | 4 +++-
 menpofit/aps/algorithm/gn.py          | 5 +++++
 menpofit/atm/algorithm.py             | 4 +++-
 menpofit/clm/algorithm/gd.py          | 4 +++-
 menpofit/unified_aam_clm/algorithm.py | 5 +++++
 5 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 3b4b8fd..7a6e0de 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -765,7 +765,9 @@ class LucasKanade(object):
         # vectorize it and mask it
         self.a_bar_m = self.a_bar.as_vector()[self.interface.i_mask]
 
-        # compute warp jacobian
+        # compute warp jacobian; it is always evaluated at the mean shape,
+        # regardless of how the (possibly shared) shape model was used before
+        self.transform.set_target(self.interface.shape_model.mean())
         self.dW_dp = self.interface.warp_jacobian()
 
         # compute shape model prior
diff --git a/menpofit/aps/algorithm/gn.py b/menpofit/aps/algorithm/gn.py
index b6d6624..54d0550 100644
--- a/menpofit/aps/algorithm/gn.py
+++ b/menpofit/aps/algorithm/gn.py
@@ -353,6 +353,11 @@ class GaussNewton(object):
         # grab number of shape parameters
         self.n = self.transform.n_parameters
 
+        # the Jacobian of the shape model is always evaluated at the mean
+        # shape, regardless of how the (possibly shared) shape model was used
+        # before
+        self.transform.set_target(self.transform.model.mean())
+
         # grab appearance model precision
         self.Q_a = self.appearance_model.precision
         # mask it only if the sampling mask is not all True
diff --git a/menpofit/atm/algorithm.py b/menpofit/atm/algorithm.py
index 39b3db8..b7ebca2 100644
--- a/menpofit/atm/algorithm.py
+++ b/menpofit/atm/algorithm.py
@@ -205,7 +205,9 @@ class LucasKanade(object):
         # vectorize template and mask it
         self.t_m = self.template.as_vector()[self.interface.i_mask]
 
-        # compute warp jacobian
+        # compute warp jacobian; it is always evaluated at the mean shape,
+        # regardless of how the (possibly shared) shape model was used before
+        self.transform.set_target(self.interface.shape_model.mean())
         self.dW_dp = self.interface.warp_jacobian()
 
         # compute shape model prior
diff --git a/menpofit/clm/algorithm/gd.py b/menpofit/clm/algorithm/gd.py
index 3db9cac..25232a8 100644
--- a/menpofit/clm/algorithm/gd.py
+++ b/menpofit/clm/algorithm/gd.py
@@ -48,7 +48,9 @@ class GradientDescentCLMAlgorithm(object):
         pdm_prior = self.rho2 / self.transform.model.eigenvalues
         self.rho2_inv_L = np.hstack((sim_prior, pdm_prior))
 
-        # Compute Jacobian
+        # Compute Jacobian; it is always evaluated at the mean shape,
+        # regardless of how the (possibly shared) shape model was used before
+        self.transform.set_target(self.transform.model.mean())
         J = np.rollaxis(self.transform.d_dp(None), -1, 1)
         self.J = J.reshape((-1, J.shape[-1]))
         # Compute inverse Hessian
diff --git a/menpofit/unified_aam_clm/algorithm.py b/menpofit/unified_aam_clm/algorithm.py
index f51f469..d3d523f 100644
--- a/menpofit/unified_aam_clm/algorithm.py
+++ b/menpofit/unified_aam_clm/algorithm.py
@@ -50,6 +50,11 @@ class UnifiedAlgorithm(object):
         self._precompute()
 
     def _precompute(self, **kwargs):
+        # The Jacobian of the shape model is always evaluated at the mean
+        # shape, regardless of how the (possibly shared) shape model was used
+        # before
+        self.transform.set_target(self.pdm.model.mean())
+
         # Mask Appearance Model
         self._U = self.appearance_model.components.T
         self._pinv_U = np.linalg.pinv(
-- 
2.43.0


From 88bafd944a4bd09749920547254298b6c5ddc59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 67/92] fix: dlib fitters could not be trained or run with
 recent numpy versions

---
 menpofit/dlib/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/dlib/conversion.py b/menpofit/dlib/conversion.py
index 17f1356..9fcbc1f 100644
--- a/menpofit/dlib/conversion.py
+++ b/menpofit/dlib/conversion.py
@@ -12,7 +12,7 @@ def pointcloud_to_dlib_parts(pcloud):
 
 
 def dlib_full_object_detection_to_pointcloud(full_object_detection):
-    return PointCloud(np.vstack(all_parts(full_object_detection)), copy=False)
+    return PointCloud(np.vstack(list(all_parts(full_object_detection))), copy=False)
 
 
 def dlib_rect_to_bounding_box(rect):
-- 
2.43.0


From 9b11c6cd89afd506960dc98a3f1c00efbef4116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 68/92] fix: priors of MAP inference accumulated over the
 iterations and fits of inverse algorithms

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 7a6e0de..c1fb979 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -14,7 +14,7 @@ def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
         p = np.hstack((p, p))
         # compute and return MAP solution
     J_prior = np.hstack((Ja_prior, Js_prior))
-    H += np.diag(J_prior)
+    H = H + np.diag(J_prior)
     Je = J_prior * np.hstack((c, p)) + J.T.dot(e)
     dq = - np.linalg.solve(H, Je)
     return dq[:m], dq[m:]
@@ -229,7 +229,7 @@ class LucasKanadeBaseInterface(object):
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
         # compute and return MAP solution
-        H += np.diag(J_prior)
+        H = H + np.diag(J_prior)
         Je = J_prior * p + J.T.dot(e)
         return - np.linalg.solve(H, Je)
 
-- 
2.43.0


From a6729f89c1d1893bf22b0c3482609a7ee95eabef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 69/92] fix: sizes of MAP problems were compared by identity

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index c1fb979..97a0da9 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -8,7 +8,7 @@ from ..result import AAMAlgorithmResult
 
 
 def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
-    if n is not H.shape[0] - m:
+    if n != H.shape[0] - m:
         # Bidirectional Compositional case
         Js_prior = np.hstack((Js_prior, Js_prior))
         p = np.hstack((p, p))
@@ -224,7 +224,7 @@ class LucasKanadeBaseInterface(object):
         params : ``(n_params, )`` `ndarray`
             The MAP solution.
         """
-        if p.shape[0] is not H.shape[0]:
+        if p.shape[0] != H.shape[0]:
             # Bidirectional Compositional case
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
-- 
2.43.0


From bfde22623b384f031a16bcc1988354ab058fd857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 70/92] fix: MAP inference of alternating algorithms raised a
 ValueError

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 97a0da9..a8bcff3 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -1208,7 +1208,7 @@ class Alternating(LucasKanade):
         while k < max_iters and eps > self.eps:
             # solve for increment on the appearance parameters
             if map_inference:
-                Ae_m_map = - self.s2_inv_S * c + self.A_m.dot(e_m + Jdp)
+                Ae_m_map = - self.s2_inv_S * c + self.A_m.T.dot(e_m + Jdp)
                 dc = np.linalg.solve(self.AA_m_map, Ae_m_map)
             else:
                 dc = self.pinv_A_m.dot(e_m + Jdp)
@@ -1220,7 +1220,7 @@ class Alternating(LucasKanade):
             # solve for increments on the shape parameters
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
-                    H_m, J_m, e_m - self.A_m.T.dot(dc), self.s2_inv_L,
+                    H_m, J_m, e_m - self.A_m.dot(dc), self.s2_inv_L,
                     self.transform.as_vector())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m,
-- 
2.43.0


From 848445dd0a76ba5755667715b56a67d309cd3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 71/92] fix: priors of MAP inference pushed the parameters of
 inverse algorithms away from the mean

---
 menpofit/aam/algorithm/lk.py | 35 ++++++++++++++++++++---------------
 menpofit/atm/algorithm.py    |  7 ++++---
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index a8bcff3..a0d731b 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -930,7 +930,7 @@ class ProjectOutInverseCompositional(ProjectOut):
         # compute appearance model mean gradient
         nabla_a = self.interface.gradient(self.a_bar)
         # compute masked inverse Jacobian
-        J_m = self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
+        J_m = self.interface.steepest_descent_images(nabla_a, self.dW_dp)
         # project out appearance model from it
         self.QJ_m = self.project_out(J_m)
         # compute masked inverse Hessian
@@ -948,9 +948,10 @@ class ProjectOutInverseCompositional(ProjectOut):
             return -self.pinv_QJ_m.dot(self.e_m)
 
     def _update_warp(self):
-        # update warp based on inverse composition
+        # update warp based on inverse composition (the increment is already
+        # the one of the image, so that priors act on the actual parameters)
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Project-Out Inverse Compositional Algorithm"
@@ -1114,12 +1115,13 @@ class SimultaneousInverseCompositional(Simultaneous):
         # compute warped appearance model gradient
         nabla_a = self.interface.gradient(self.a)
         # return inverse Jacobian
-        return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
+        return self.interface.steepest_descent_images(nabla_a, self.dW_dp)
 
     def _update_warp(self):
-        # update warp based on inverse composition
+        # update warp based on inverse composition (the increment is already
+        # the one of the image, so that priors act on the actual parameters)
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Project-Out Inverse Compositional Algorithm"
@@ -1293,12 +1295,13 @@ class AlternatingInverseCompositional(Alternating):
         # compute warped appearance model gradient
         nabla_a = self.interface.gradient(self.a)
         # return inverse Jacobian
-        return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
+        return self.interface.steepest_descent_images(nabla_a, self.dW_dp)
 
     def _update_warp(self):
-        # update warp based on inverse composition
+        # update warp based on inverse composition (the increment is already
+        # the one of the image, so that priors act on the actual parameters)
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Alternating Inverse Compositional Algorithm"
@@ -1456,12 +1459,13 @@ class ModifiedAlternatingInverseCompositional(ModifiedAlternating):
         # compute warped appearance model gradient
         nabla_a = self.interface.gradient(self.a)
         # return inverse Jacobian
-        return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
+        return self.interface.steepest_descent_images(nabla_a, self.dW_dp)
 
     def _update_warp(self):
-        # update warp based on inverse composition
+        # update warp based on inverse composition (the increment is already
+        # the one of the image, so that priors act on the actual parameters)
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Modified Alternating Inverse Compositional Algorithm"
@@ -1624,12 +1628,13 @@ class WibergInverseCompositional(Wiberg):
         # compute warped appearance model gradient
         nabla_a = self.interface.gradient(self.a)
         # return inverse Jacobian
-        return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
+        return self.interface.steepest_descent_images(nabla_a, self.dW_dp)
 
     def _update_warp(self):
-        # update warp based on inverse composition
+        # update warp based on inverse composition (the increment is already
+        # the one of the image, so that priors act on the actual parameters)
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Wiberg Inverse Compositional Algorithm"
diff --git a/menpofit/atm/algorithm.py b/menpofit/atm/algorithm.py
index b7ebca2..cb015d0 100644
--- a/menpofit/atm/algorithm.py
+++ b/menpofit/atm/algorithm.py
@@ -356,7 +356,7 @@ class InverseCompositional(Compositional):
         # compute appearance model mean gradient
         nabla_t = self.interface.gradient(self.template)
         # compute masked inverse Jacobian
-        self.J_m = self.interface.steepest_descent_images(-nabla_t, self.dW_dp)
+        self.J_m = self.interface.steepest_descent_images(nabla_t, self.dW_dp)
         # compute masked inverse Hessian
         self.JJ_m = self.J_m.T.dot(self.J_m)
         # compute masked Jacobian pseudo-inverse
@@ -372,9 +372,10 @@ class InverseCompositional(Compositional):
             return -self.pinv_J_m.dot(self.e_m)
 
     def _update_warp(self):
-        # update warp based on inverse composition
+        # update warp based on inverse composition (the increment is already
+        # the one of the image, so that priors act on the actual parameters)
         self.transform._from_vector_inplace(
-            self.transform.as_vector() - self.dp)
+            self.transform.as_vector() + self.dp)
 
     def __str__(self):
         return "Inverse Compositional Algorithm"
-- 
2.43.0


From 7a0f932c733812b49061288cf2a3c0ecd798cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 72/92] fix: ASM moved even sized search windows the wrong way
 and was off centre for sizes such as 7

---
 menpofit/clm/algorithm/gd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/menpofit/clm/algorithm/gd.py b/menpofit/clm/algorithm/gd.py
index 25232a8..bd48b5b 100644
--- a/menpofit/clm/algorithm/gd.py
+++ b/menpofit/clm/algorithm/gd.py
@@ -97,8 +97,9 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
         super(ActiveShapeModel, self)._precompute()
 
         # Build grid associated to size of the search space
-        self.half_search_shape = np.round(
-            np.asarray(self.expert_ensemble.search_shape) / 2).astype(np.int64)
+        # (its centre is the pixel at the floor of half its size)
+        self.half_search_shape = np.asarray(
+            self.expert_ensemble.search_shape) // 2
         self.search_grid = self.search_grid[None, None]
 
         # Compute Gaussian-KDE grid
@@ -170,7 +171,7 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
             max_indices = np.hstack((max_indices[0], max_indices[1]))
             max_indices = max_indices[:, None, None, None, ...]
             max_indices -= self.half_search_shape
-            gaussian_responses = self.mvn.pdf(max_indices + self.search_grid)
+            gaussian_responses = self.mvn.pdf(self.search_grid - max_indices)
             # Normalise smoothed responses
             gaussian_responses /= np.sum(gaussian_responses,
                                          axis=(-2, -1))[..., None, None]
@@ -180,7 +181,7 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
                                 candidate_landmarks, axis=(-3, -2))
 
             # Compute shape error term
-            error = target.as_vector() - new_target.ravel()
+            error = new_target.ravel() - target.as_vector()
 
             # Solve for increments on the shape parameters
             if map_inference:
-- 
2.43.0


From 1c7da8765d09a09f0c24b09c3c3cdbcbe2878fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 73/92] fix: costs of APS fits with a sampling mask raised a
 ValueError

---
 menpofit/aps/algorithm/gn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/aps/algorithm/gn.py b/menpofit/aps/algorithm/gn.py
index 54d0550..fbeff20 100644
--- a/menpofit/aps/algorithm/gn.py
+++ b/menpofit/aps/algorithm/gn.py
@@ -428,8 +428,8 @@ class Inverse(GaussNewton):
         """
         # define cost closures
         def appearance_cost_closure(x):
-            return self.appearance_model._mahalanobis_distance(
-                x[..., None].T, subtract_mean=False, square_root=False)
+            # Q_a is restricted to the sampling mask, as x is
+            return x.dot(self.Q_a.dot(x))
 
         def deformation_cost_closure(x):
             tmp_shape = x.from_vector(x.as_vector() -
@@ -566,8 +566,8 @@ class Forward(GaussNewton):
         """
         # define cost closures
         def appearance_cost_closure(x):
-            return self.appearance_model._mahalanobis_distance(
-                x[..., None].T, subtract_mean=False, square_root=False)
+            # Q_a is restricted to the sampling mask, as x is
+            return x.dot(self.Q_a.dot(x))
 
         def deformation_cost_closure(x):
             tmp_shape = x.from_vector(x.as_vector() -
-- 
2.43.0


From 6bc6b9831f0bcdf8c8c75e1f4367be2872cba718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 74/92] fix: project-out unified fitting ignored the weight a,
 or weighted the gradient but not the Hessian

---
 menpofit/unified_aam_clm/algorithm.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/menpofit/unified_aam_clm/algorithm.py b/menpofit/unified_aam_clm/algorithm.py
index d3d523f..1703514 100644
--- a/menpofit/unified_aam_clm/algorithm.py
+++ b/menpofit/unified_aam_clm/algorithm.py
@@ -157,11 +157,7 @@ class ProjectOutRegularisedLandmarkMeanShift(UnifiedAlgorithm):
         transform_prior = 1 / self.pdm.model.eigenvalues
         self._j_prior = np.hstack((sim_prior, transform_prior))
 
-        # compute Unified hessian inverse and jacobian pseudo-inverse
-        h = self._h_aam + self._h_clm
-        self._pinv_j_aam = np.linalg.solve(h, self._j_aam.T)
-        self._pinv_j_clm = np.linalg.solve(h, self._j_clm.T)
-        self._inv_h_prior = np.linalg.inv(h + np.diag(self._j_prior))
+        self._h_prior = np.diag(self._j_prior)
 
     def run(self, image, initial_shape, gt_shape=None, max_iters=20,
             return_costs=False, prior=False, a=0.5):
@@ -239,13 +235,13 @@ class ProjectOutRegularisedLandmarkMeanShift(UnifiedAlgorithm):
 
         while k < max_iters and eps > self.eps:
             # compute gauss-newton parameter updates
+            h = a * self._h_aam + (1 - a) * self._h_clm
+            b = (a * self._j_aam.T.dot(e_aam) +
+                 (1 - a) * self._j_clm.T.dot(e_clm))
             if prior:
-                b = (self._j_prior * self.transform.as_vector() -
-                     a * self._j_aam.T.dot(e_aam) -
-                     (1 - a) * self._j_clm.T.dot(e_clm))
-                dp = -self._inv_h_prior.dot(b)
-            else:
-                dp = self._pinv_j_aam.dot(e_aam) + self._pinv_j_clm.dot(e_clm)
+                h = h + self._h_prior
+                b = b - self._j_prior * self.transform.as_vector()
+            dp = np.linalg.solve(h, b)
 
             # update warp
             target = self.transform.target
-- 
2.43.0


From ea9ee927197b5779f401579cd76c760dd0514d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 75/92] fix: results of wrapped fitters shared the image
 instead of keeping a copy

---
 menpofit/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index ce4c0fc..ebbe039 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -7,6 +7,7 @@ try:
 except ImportError:
     from urllib.request import urlopen  # Py3
 
+from menpo.image import Image
 from menpo.io import import_pickle
 
 from menpofit.base import menpofit_src_dir_path
@@ -219,7 +220,7 @@ class PickleWrappedFitter(object):
                 proc_image, trans.pseudoinverse().apply(bounding_box),
                 **final_kwargs)
             # update result attributes
-            result._image = image
+            result._image = Image(image.pixels)
             result._final_shape = trans.apply(result.final_shape)
             result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
@@ -266,7 +267,7 @@ class PickleWrappedFitter(object):
                 proc_image, trans.pseudoinverse().apply(initial_shape),
                 **final_kwargs)
             # update result attributes
-            result._image = image
+            result._image = Image(image.pixels)
             result._final_shape = trans.apply(result.final_shape)
             result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
-- 
2.43.0


From f0312218696cad04921588ce8ced1db4fd34011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 76/92] fix: wrapped dlib models with image preprocessing
 crashed for lack of an initial shape

---
 menpofit/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index ebbe039..112c2f1 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -222,7 +222,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = Image(image.pixels)
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
@@ -269,7 +270,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = Image(image.pixels)
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
-- 
2.43.0


From d0b339c192606e62650c3fff65ec1febd04703d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 77/92] fix: images with neither one nor three channels crashed
 the dlib fitters instead of using the first channel

---
 menpofit/dlib/conversion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/menpofit/dlib/conversion.py b/menpofit/dlib/conversion.py
index 9fcbc1f..2aadaaf 100644
--- a/menpofit/dlib/conversion.py
+++ b/menpofit/dlib/conversion.py
@@ -40,8 +40,7 @@ def copy_dlib_options(options):
 
 
 def image_to_dlib_pixels(im):
-    pixels = np.array(im.as_PILImage())
     # Only supports RGB and Grayscale
-    if im.n_channels > 3:
-        pixels = pixels[..., 0]
-    return pixels
+    if im.n_channels not in (1, 3):
+        im = im.extract_channels(0)
+    return np.array(im.as_PILImage())
-- 
2.43.0


From b6cd77e3d657876db17d6bb1d056efa413c51ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 78/92] fix: feature_padding of ERT refused the documented
 floats

---
 menpofit/dlib/fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 8e7c732..a4a0a41 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -215,7 +215,9 @@ class DlibERT(MultiScaleNonParametricFitter):
     ):
         check_int = partial(checks.check_multi_scale_param, self.n_scales, (int,))
         check_float = partial(checks.check_multi_scale_param, self.n_scales, (float,))
-        feature_padding = check_int("feature_padding", feature_padding)
+        feature_padding = checks.check_multi_scale_param(
+            self.n_scales, (int, float), "feature_padding", feature_padding
+        )
         n_pixel_pairs = check_int("n_pixel_pairs", n_pixel_pairs)
         distance_prior_weighting = check_float(
             "distance_prior_weighting", distance_prior_weighting
-- 
2.43.0


From a99d0b76ecdf0a78d24aa1da0de4871c529c8459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 79/92] fix: description of ERT reported dlib's default cascade
 depth

---
 menpofit/dlib/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index a4a0a41..c2f9a70 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -487,7 +487,7 @@ class DlibERT(MultiScaleNonParametricFitter):
             scales_info.append(
                 lvl_str_tmplt.format(
                     s,
-                    self._dlib_options_templates[k].cascade_depth,
+                    self.algorithms[k].dlib_options.cascade_depth,
                     self._dlib_options_templates[k].tree_depth,
                     self._dlib_options_templates[k].num_trees_per_cascade_level,
                     self._dlib_options_templates[k].nu,
-- 
2.43.0


From d1c3e135854555b655c3589ede4ddaeaa41548fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 80/92] fix: ERT crashed with a reference shape that is not a
 bounding box

---
 menpofit/dlib/fitter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index c2f9a70..6d2d930 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -160,6 +160,11 @@ class DlibERT(MultiScaleNonParametricFitter):
         # Dummy option that is required by _prepare_image of MultiFitter.
         holistic_features = checks.check_callable(no_op, n_scales)
 
+        # Both training and fitting images are normalised by means of bounding
+        # boxes, thus the same has to hold for the provided reference shape
+        if reference_shape is not None:
+            reference_shape = reference_shape.bounding_box()
+
         # Call superclass
         super(DlibERT, self).__init__(
             scales=scales,
-- 
2.43.0


From cfb1e15bd6dbf3647cfacdd7aaedb93a500f1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 81/92] fix: the simultaneous inverse compositional algorithm
 described itself as project-out

---
 menpofit/aam/algorithm/lk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index a0d731b..e5bb9d6 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -1124,7 +1124,7 @@ class SimultaneousInverseCompositional(Simultaneous):
             self.transform.as_vector() + self.dp)
 
     def __str__(self):
-        return "Project-Out Inverse Compositional Algorithm"
+        return "Simultaneous Inverse Compositional Algorithm"
 
 
 class Alternating(LucasKanade):
-- 
2.43.0


From 0396a0cececb562be37890c2722f0c4792295282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 82/92] fix: patch-based ATMs described a warp that they do not
 perform

---
 menpofit/atm/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index d596809..90dbef7 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -1018,7 +1018,7 @@ class PatchATM(ATM):
             reference_shape=reference_shape,
             diagonal=diagonal,
             scales=scales,
-            transform=DifferentiableThinPlateSplines,
+            transform=None,
             max_shape_components=max_shape_components,
             verbose=verbose,
             batch_size=batch_size,
@@ -1115,14 +1115,21 @@ def _atm_str(atm):
             scales_info[k] += "\n     - Patch shape: {}".format(atm.patch_shape[k])
     scales_info = "\n".join(scales_info)
 
+    if atm.transform is not None:
+        transform_str = "Images warped with {} transform".format(
+            name_of_callable(atm.transform)
+        )
+    else:
+        transform_str = "No image warping performed"
+
     cls_str = r"""{class_title}
- - Images warped with {transform} transform
+ - {transform}
  - Images scaled to diagonal: {diagonal:.2f}
  - Scales: {scales}
 {scales_info}
 """.format(
         class_title=atm._str_title,
-        transform=name_of_callable(atm.transform),
+        transform=transform_str,
         diagonal=diagonal,
         scales=atm.scales,
         scales_info=scales_info,
-- 
2.43.0


From 724c07b54d4f364c29f3791ae4995b47b6b26afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 83/92] fix: smoothing of unified models mixed or darkened the
 channels of the images

---
 menpofit/unified_aam_clm/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index a28121a..129b5cf 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -25,7 +25,9 @@ from menpofit.transform import DifferentiablePiecewiseAffine, OrthoMDTransform
 
 @ndfeature
 def fsmooth(pixels, sigma, mode="constant"):
-    return gaussian_filter(pixels, sigma, mode=mode)
+    # The first axis are the channels, which must not be mixed
+    sigmas = [0] + [sigma] * (pixels.ndim - 1)
+    return gaussian_filter(pixels, sigmas, mode=mode)
 
 
 class UnifiedAAMCLM(object):
-- 
2.43.0


From a0e2af288f2661b0796f572500c3ad0040b5d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 84/92] fix: pseudoinverses of model driven transforms were
 defined under a stale name

---
 menpofit/transform/modeldriven.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 5bc2b86..8094894 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -183,7 +183,13 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         """
         return False
 
-    def _build_pseudoinverse(self):
+    def pseudoinverse(self):
+        r"""
+        The pseudoinverse of the transform, that is the transform whose
+        parameters are the negated parameters of this one.
+
+        :type: ``type(self)``
+        """
         return self.from_vector(-self.as_vector())
 
     def pseudoinverse_vector(self, vector):
-- 
2.43.0


From 8891572f822eb5d64cc421878ddff6de0217d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 85/92] fix: legends of overlaid landmarks paired names with
 the wrong lines and markers

---
 menpofit/visualize/base.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 8e77fcb..c5551cd 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -24,6 +24,12 @@ def _check_multi_argument(arg, n_objects, dtypes, error_str):
     return arg
 
 
+def _drawn_artists(figure):
+    # the lines and markers of all axes of a figure
+    return [artist for ax in figure.axes
+            for artist in list(ax.collections) + list(ax.lines)]
+
+
 def view_image_multiple_landmarks(
         image, groups, with_labels=None, figure_id=None, new_figure=False,
         subplots_enabled=True, subplots_titles=None, render_image=True,
@@ -374,6 +380,12 @@ def view_image_multiple_landmarks(
     # Initialize renderer
     renderer = MatplotlibRenderer(figure_id=figure_id, new_figure=new_figure)
 
+    # A group may be drawn as lines and markers. The legend gets one of them for
+    # each group that is drawn at all.
+    drawn = _drawn_artists(renderer.figure)
+    legend_handles = []
+    legend_labels = []
+
     # Render
     if render_image:
         # image will be displayed
@@ -443,6 +455,12 @@ def view_image_multiple_landmarks(
                         interpolation=interpolation, alpha=alpha,
                         cmap_name=cmap_name, figure_size=figure_size,
                         **mask_arguments)
+                new = [h for h in _drawn_artists(renderer.figure)
+                       if h not in drawn]
+                if len(new) > 0:
+                    legend_handles.append(new[0])
+                    legend_labels.append(subplots_titles[group])
+                    drawn += new
             if not subplots_enabled:
                 if render_legend:
                     # Options related to legend's font
@@ -452,7 +470,7 @@ def view_image_multiple_landmarks(
                             'weight': legend_font_weight}
 
                     # display legend on side
-                    plt.gca().legend([subplots_titles[g] for g in groups],
+                    plt.gca().legend(legend_handles, legend_labels,
                                      title=legend_title, prop=prop,
                                      loc=legend_location,
                                      bbox_to_anchor=legend_bbox_to_anchor,
@@ -517,6 +535,12 @@ def view_image_multiple_landmarks(
                         axes_y_limits=axes_y_limits,
                         axes_x_ticks=axes_x_ticks, axes_y_ticks=axes_y_ticks,
                         figure_size=figure_size)
+                new = [h for h in _drawn_artists(renderer.figure)
+                       if h not in drawn]
+                if len(new) > 0:
+                    legend_handles.append(new[0])
+                    legend_labels.append(subplots_titles[group])
+                    drawn += new
             if not subplots_enabled:
                 if render_legend:
                     # Options related to legend's font
@@ -526,7 +550,7 @@ def view_image_multiple_landmarks(
                             'weight': legend_font_weight}
 
                     # display legend on side
-                    plt.gca().legend([subplots_titles[g] for g in groups],
+                    plt.gca().legend(legend_handles, legend_labels,
                                      title=legend_title, prop=prop,
                                      loc=legend_location,
                                      bbox_to_anchor=legend_bbox_to_anchor,
-- 
2.43.0


From 81c84dc27e16556a25c637a28b4f8d54356a41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 86/92] fix: rendering the axes of landmark subplots wiped
 their titles

---
 menpofit/visualize/base.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index c5551cd..c1f5680 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -400,14 +400,7 @@ def view_image_multiple_landmarks(
             for k, group in enumerate(groups):
                 if subplots_enabled:
                     # create subplot
-                    plt.subplot(subplots[0], subplots[1], k + 1)
-                    if render_legend:
-                        # set subplot's title
-                        plt.title(subplots_titles[group],
-                                  fontname=legend_font_name,
-                                  fontstyle=legend_font_style,
-                                  fontweight=legend_font_weight,
-                                  fontsize=legend_font_size)
+                    ax = plt.subplot(subplots[0], subplots[1], k + 1)
                 renderer = image.view_landmarks(
                         channels=channels, group=group,
                         with_labels=with_labels[k], without_labels=None,
@@ -455,6 +448,14 @@ def view_image_multiple_landmarks(
                         interpolation=interpolation, alpha=alpha,
                         cmap_name=cmap_name, figure_size=figure_size,
                         **mask_arguments)
+                if subplots_enabled and render_legend:
+                    # set subplot's title (views that render their axes reset
+                    # it)
+                    ax.set_title(subplots_titles[group],
+                                 fontname=legend_font_name,
+                                 fontstyle=legend_font_style,
+                                 fontweight=legend_font_weight,
+                                 fontsize=legend_font_size)
                 new = [h for h in _drawn_artists(renderer.figure)
                        if h not in drawn]
                 if len(new) > 0:
@@ -509,14 +510,7 @@ def view_image_multiple_landmarks(
             for k, group in enumerate(groups):
                 if subplots_enabled:
                     # create subplot
-                    plt.subplot(subplots[0], subplots[1], k + 1)
-                    if render_legend:
-                        # set subplot's title
-                        plt.title(subplots_titles[group],
-                                  fontname=legend_font_name,
-                                  fontstyle=legend_font_style,
-                                  fontweight=legend_font_weight,
-                                  fontsize=legend_font_size)
+                    ax = plt.subplot(subplots[0], subplots[1], k + 1)
                 image.landmarks[group].view(
                         image_view=image_view, render_lines=render_lines[k],
                         line_style=line_style[k], line_width=line_width[k],
@@ -535,6 +529,14 @@ def view_image_multiple_landmarks(
                         axes_y_limits=axes_y_limits,
                         axes_x_ticks=axes_x_ticks, axes_y_ticks=axes_y_ticks,
                         figure_size=figure_size)
+                if subplots_enabled and render_legend:
+                    # set subplot's title (views that render their axes reset
+                    # it)
+                    ax.set_title(subplots_titles[group],
+                                 fontname=legend_font_name,
+                                 fontstyle=legend_font_style,
+                                 fontweight=legend_font_weight,
+                                 fontsize=legend_font_size)
                 new = [h for h in _drawn_artists(renderer.figure)
                        if h not in drawn]
                 if len(new) > 0:
-- 
2.43.0


From 10fdbc48f54d40ede9256b50eb7a50ccf085f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 87/92] fix: numbering of landmarks was ignored when the image
 was not rendered

---
 menpofit/visualize/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index c1f5680..5f28e58 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -521,6 +521,14 @@ def view_image_multiple_landmarks(
                         marker_edge_width=marker_edge_width[k],
                         marker_edge_colour=marker_edge_colour[k],
                         marker_face_colour=marker_face_colour[k],
+                        render_numbering=render_numbering,
+                        numbers_horizontal_align=numbers_horizontal_align,
+                        numbers_vertical_align=numbers_vertical_align,
+                        numbers_font_name=numbers_font_name,
+                        numbers_font_size=numbers_font_size,
+                        numbers_font_style=numbers_font_style,
+                        numbers_font_weight=numbers_font_weight,
+                        numbers_font_colour=numbers_font_colour,
                         render_axes=render_axes, axes_font_name=axes_font_name,
                         axes_font_size=axes_font_size,
                         axes_font_style=axes_font_style,
-- 
2.43.0


From 3fb04abfa538f7e3d067bc24e1c30c2126bbf5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 88/92] fix: labels and legends of landmarks were not as asked
 for when the image was not rendered

---
 menpofit/visualize/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 5f28e58..5219f54 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -512,7 +512,9 @@ def view_image_multiple_landmarks(
                     # create subplot
                     ax = plt.subplot(subplots[0], subplots[1], k + 1)
                 image.landmarks[group].view(
-                        image_view=image_view, render_lines=render_lines[k],
+                        with_labels=with_labels[k], image_view=image_view,
+                        render_legend=render_legend and not subplots_enabled,
+                        render_lines=render_lines[k],
                         line_style=line_style[k], line_width=line_width[k],
                         line_colour=line_colour[k],
                         render_markers=render_markers[k],
-- 
2.43.0


From 9f65e483271c34f0b523560d1baff1a838cc522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 89/92] fix: displays of several groups extended the caller's
 lists of styles

---
 menpofit/visualize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 5219f54..b709fc0 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -16,7 +16,7 @@ def _check_multi_argument(arg, n_objects, dtypes, error_str):
         arg = [arg] * n_objects
     elif isinstance(arg, list):
         if len(arg) == 1:
-            arg *= n_objects
+            arg = arg * n_objects
         elif len(arg) != n_objects:
             raise ValueError(error_str)
     else:
-- 
2.43.0


From 291ded7d4e81ce7e89062c42f359c0b8673ca4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:58 +0000
Subject: [PATCH 90/92] fix: steepest descent images of gradient residuals
 mixed up directions of second derivatives

---
 menpofit/lk/residual.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index d908e47..7a9a315 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -719,9 +719,6 @@ class GradientImages(Residual):
         second_grad = second_grad.masked_pixels().flatten().reshape(
             (n_dims, n_dims,  n_channels) + second_grad.shape)
 
-        # Fix crossed derivatives: dydx = dxdy
-        second_grad[1, 0, ...] = second_grad[0, 1, ...]
-
         # compute steepest descent images
         # gradient: dims x dims x ch x (h x w)
         # dw_dp:    dims x           x (h x w) x params
@@ -902,20 +899,18 @@ class GradientCorrelation(Residual):
         second_grad = second_grad.masked_pixels().flatten().reshape(
             (n_dims, n_dims,  n_channels) + second_grad.shape)
 
-        # Fix crossed derivatives: dydx = dxdy
-        second_grad[1, 0, ...] = second_grad[0, 1, ...]
-
         # complete full IGOs gradient computation
         # second_grad:  dims x dims x ch x pixels
-        second_grad[1, ...] = (-sin_phi[None, ...] * second_grad[1, ...])
-        second_grad[0, ...] = (cos_phi[None, ...] * second_grad[0, ...])
+        # (axis 0 is the direction of the derivative, axis 1 is sin and cos)
+        second_grad[:, 1] = -sin_phi[None, ...] * second_grad[:, 1]
+        second_grad[:, 0] = cos_phi[None, ...] * second_grad[:, 0]
 
         # compute steepest descent images
         # gradient: dims x dims x ch x pixels
         # dw_dp:    dims x           x pixels x params
         # sdi:                    ch x pixels x params
         sdi = 0
-        aux = second_grad[..., None] * dW_dp[None, :, None, ...]
+        aux = second_grad[..., None] * dW_dp[:, None, None, ...]
         for a in aux.reshape(((-1,) + aux.shape[2:])):
                 sdi += a
 
-- 
2.43.0


From ada449c97136b1039237cb672b222cf9a1744b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:26 +0000
Subject: [PATCH 91/92] fix: fits that fail must not leave their landmark
 groups on the image

---
 menpofit/fitter.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index bebe973..356e4c6 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -337,15 +337,21 @@ class MultiScaleNonParametricFitter(object):
         scale_transforms : `list` of `menpo.shape.Scale`
             The list of inverse scaling transforms per scale.
         """
-        # Attach landmarks to the image, in order to make transforms easier
-        image.landmarks['__initial_shape'] = initial_shape
-        if gt_shape:
-            image.landmarks['__gt_shape'] = gt_shape
-
-        # Rescale image wrt the scale factor between reference_shape and
-        # initial_shape
-        tmp_image = image.rescale_to_pointcloud(self.reference_shape,
-                                                group='__initial_shape')
+        try:
+            # Attach landmarks to the image, in order to make transforms easier
+            image.landmarks['__initial_shape'] = initial_shape
+            if gt_shape:
+                image.landmarks['__gt_shape'] = gt_shape
+
+            # Rescale image wrt the scale factor between reference_shape and
+            # initial_shape
+            tmp_image = image.rescale_to_pointcloud(self.reference_shape,
+                                                    group='__initial_shape')
+        finally:
+            # Detach added landmarks from image, even if something went wrong
+            for added_group in ('__initial_shape', '__gt_shape'):
+                if added_group in image.landmarks:
+                    del image.landmarks[added_group]
 
         # For each scale:
         #     1. Compute features
@@ -405,11 +411,6 @@ class MultiScaleNonParametricFitter(object):
         else:
             gt_shapes = None
 
-        # Detach added landmarks from image
-        del image.landmarks['__initial_shape']
-        if gt_shape:
-            del image.landmarks['__gt_shape']
-
         return (images, initial_shapes, gt_shapes, affine_transforms,
                 scale_transforms)
 
-- 
2.43.0


From 1fbf133c44a6ecbe567baf74d5cc5746ae2e7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:58 +0000
Subject: [PATCH 92/92] fix: ensembles of regression trees can be given an
 image twice and put training images back when training fails

---
 menpofit/dlib/fitter.py | 47 +++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 6d2d930..68dfd81 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -276,28 +276,35 @@ class DlibERT(MultiScaleNonParametricFitter):
         if group is None:
             group = original_images[0].landmarks.group_labels[0]
 
-        # Temporarily store all the bounding boxes for rescaling
-        for i in original_images:
-            i.landmarks["__gt_bb"] = i.landmarks[group].bounding_box()
-
-        if self.reference_shape is None:
-            # If no reference shape was given, use the mean of the first batch
-            self._reference_shape = compute_reference_shape(
-                [i.landmarks["__gt_bb"] for i in original_images],
-                self.diagonal,
-                verbose=verbose,
-            )
-
-        # Rescale images wrt the scale factor between the existing
-        # reference_shape and their ground truth (group) bboxes
-        images = rescale_images_to_reference_shape(
-            original_images, "__gt_bb", self.reference_shape, verbose=verbose
-        )
+        try:
+            # Temporarily store all the bounding boxes for rescaling
+            for i in original_images:
+                i.landmarks["__gt_bb"] = i.landmarks[group].bounding_box()
+
+            if self.reference_shape is None:
+                # If no reference shape was given, use the mean of the first
+                # batch
+                self._reference_shape = compute_reference_shape(
+                    [i.landmarks["__gt_bb"] for i in original_images],
+                    self.diagonal,
+                    verbose=verbose,
+                )
 
-        # Scaling is done - remove temporary gt bounding boxes
-        for i, i2 in zip(original_images, images):
+            # Rescale images wrt the scale factor between the existing
+            # reference_shape and their ground truth (group) bboxes
+            images = rescale_images_to_reference_shape(
+                original_images, "__gt_bb", self.reference_shape, verbose=verbose
+            )
+        finally:
+            # Remove temporary gt bounding boxes, even if something went wrong
+            # (an image may have been given more than once)
+            for i in original_images:
+                if "__gt_bb" in i.landmarks:
+                    del i.landmarks["__gt_bb"]
+
+        # Scaling is done - no gt bounding boxes are needed any more
+        for i in images:
             del i.landmarks["__gt_bb"]
-            del i2.landmarks["__gt_bb"]
 
         # Create a callable that generates perturbations of the bounding boxes
         # of the provided images.
-- 
2.43.0

