From 284564d23bfe136d61e4538ceeb79b390080e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 01/66] fix: do not set the detector shape of the caller's
 projection geometry

---
 src/corrct/_projector_backends.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 78aa7d1..0e94b8a 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -7,6 +7,7 @@ and ESRF - The European Synchrotron, Grenoble, France
 
 from abc import ABC, abstractmethod
 from collections.abc import Mapping, Sequence
+from dataclasses import replace as dc_replace
 
 import numpy as np
 import skimage
@@ -429,7 +430,7 @@ class ProjectorBackendASTRA(ProjectorBackend):
                 prj_geom = ProjectionGeometry.get_default_parallel(geom_type="3d", rot_axis_shift_pix=rot_axis_shift_pix)
 
             if prj_geom.det_shape_vu is None:
-                prj_geom.det_shape_vu = np.array(self.prj_shape_vwu[list([-3, -1])], dtype=int)
+                prj_geom = dc_replace(prj_geom, det_shape_vu=np.array(self.prj_shape_vwu[list([-3, -1])], dtype=int))
             else:
                 # Here the projections are supposed to be larger or smaller than the sample size
                 self.prj_shape_vwu = np.array([*prj_geom.det_shape_vu[:-1], num_angles, prj_geom.det_shape_vu[-1]])
@@ -454,7 +455,7 @@ class ProjectorBackendASTRA(ProjectorBackend):
                 prj_geom = ProjectionGeometry.get_default_parallel(geom_type="2d", rot_axis_shift_pix=rot_axis_shift_pix)
 
             if prj_geom.det_shape_vu is None:
-                prj_geom.det_shape_vu = np.array(self.prj_shape_vwu[list([-1])], dtype=int)
+                prj_geom = dc_replace(prj_geom, det_shape_vu=np.array(self.prj_shape_vwu[list([-1])], dtype=int))
             else:
                 # Here the projections are supposed to be larger or smaller than the sample size
                 self.prj_shape_vwu = np.array([num_angles, prj_geom.det_shape_vu[-1]])
-- 
2.43.0


From 3b28e3f2f78db4ab910dc28d09f21b701714e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 02/66] fix: do not overwrite the density of the caller's
 compound description

---
 src/corrct/physics/attenuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index ecc747f..d73745a 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -356,7 +356,7 @@ def get_linear_attenuation_coefficient(
         compound = get_compound(compound)
 
     if density is not None:
-        compound["density"] = density
+        compound = {**compound, "density": density}
 
     cmp_cs = get_compound_cross_section(compound, energy_keV)
     return pixel_size_um * CONVERT_UM_TO_CM * compound["density"] * cmp_cs
-- 
2.43.0


From 488d72988c8895b4254a589fc8b3ec8868984651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 03/66] fix: MLEM reports its name also when there is no
 background

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index ad902a1..4f1ca8f 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -683,7 +683,7 @@ class MLEM(Solver):
         str
             info string.
         """
-        return Solver.info(self) + f"(B:{self.data_term.background:g})" if self.data_term.background is not None else ""
+        return Solver.info(self) + (f"(B:{self.data_term.background:g})" if self.data_term.background is not None else "")
 
     def __call__(  # noqa: C901
         self,
-- 
2.43.0


From 3e8f34c5894c11fb81953629365a21d1c3a9b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 04/66] fix: report the indices of the invalid regularizers,
 instead of the valid ones

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 4f1ca8f..bd57356 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -322,7 +322,7 @@ class Solver(ABC):
             if not np.all(check_regs_ok):
                 raise ValueError(
                     "The following regularizers are not derived from the regularizers.BaseRegularizer class: "
-                    f"{np.array(np.arange(len(check_regs_ok))[np.array(check_regs_ok, dtype=bool)])}"
+                    f"{np.array(np.arange(len(check_regs_ok))[np.logical_not(check_regs_ok)])}"
                 )
             else:
                 return list(regularizer)
-- 
2.43.0


From f01bf0b7f2bbe0d30b99f52bc5ba09f3ea782be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 05/66] fix: exclude masked and test pixels from the MLEM
 update

---
 src/corrct/solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index bd57356..dad4e53 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -794,7 +794,11 @@ class MLEM(Solver):
                 Ax = Ax + self.data_term.background
             Ax = Ax.clip(eps, None)
 
-            upd = A.T(b / Ax)
+            ratio = b / Ax
+            if b_mask is not None:
+                ratio *= b_mask
+
+            upd = A.T(ratio)
             x *= upd / tau
 
             if lower_limit is not None or upper_limit is not None:
-- 
2.43.0


From 90e2bfbe217ec954d3702fce16ac6fbc8648a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 06/66] fix: use the last computed residual as cross-validation
 loss, when solvers stop early

---
 src/corrct/param_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 8768981..ea1469d 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -1230,7 +1230,7 @@ class CrossValidation(BaseParameterTuning):
             recs_ii, recs_info_ii, perf_batch_ii = self.process_hp_vals(
                 hp_vals, init_fun_kwds=init_fun_kwds, exec_fun_kwds=exec_fun_kwds
             )
-            f_vals[ii_avg] = np.array([info.residuals_cv_rel[-1] for info in recs_info_ii])
+            f_vals[ii_avg] = np.array([info.residuals_cv_rel[info.iterations - 1] for info in recs_info_ii])
 
             if return_all:
                 results.append((recs_ii, recs_info_ii, perf_batch_ii))
-- 
2.43.0


From a4aea22755381b3376b93e308b7e7c0c6893626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 07/66] fix: plotting the reconstruction errors iterates over
 the axes

---
 src/corrct/param_tuning.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index ea1469d..d1ad4bc 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -860,12 +860,13 @@ class BaseParameterTuning(ABC):
             axs[1].set_xscale("log", nonpositive="clip")  # type: ignore
             axs[1].plot(hp_vals, err_l2, label="Error - l2-norm ^ 2")  # type: ignore
             axs[1].legend()  # type: ignore
-            for tl in axs.get_xticklabels():
-                tl.set_fontsize(13)
-            for tl in axs.get_yticklabels():
-                tl.set_fontsize(13)
-            axs.set_xlabel(r"$\lambda$ values", fontsize=16)
-            axs.yaxis.set_major_formatter(StrMethodFormatter("{x:.1e}"))
+            for ax in axs:
+                for tl in ax.get_xticklabels():
+                    tl.set_fontsize(13)
+                for tl in ax.get_yticklabels():
+                    tl.set_fontsize(13)
+                ax.yaxis.set_major_formatter(StrMethodFormatter("{x:.1e}"))
+            axs[1].set_xlabel(r"$\lambda$ values", fontsize=16)
             fig.tight_layout()
             plt.show(block=False)
 
-- 
2.43.0


From 00c9de4eaf9daf2136daac45f8b31c583f60744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 08/66] fix: the initial solution honours the solution limits
 and mask

---
 src/corrct/solvers.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index dad4e53..93a1a2b 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -594,6 +594,13 @@ class SART(Solver):
             x0 = np.array(x0).copy()
         x = x0
 
+        if lower_limit is not None:
+            x = np.fmax(x, lower_limit)
+        if upper_limit is not None:
+            x = np.fmin(x, upper_limit)
+        if x_mask is not None:
+            x *= x_mask
+
         info = SolutionInfo(self.info(), max_iterations=iterations, tolerance=self.tolerance)
 
         if self.tolerance is not None:
@@ -748,6 +755,8 @@ class MLEM(Solver):
             x = np.ones_like(tau)
         else:
             x = np.array(x0).copy()
+        if lower_limit is not None or upper_limit is not None:
+            x = x.clip(lower_limit, upper_limit)
         if x_mask is not None:
             x *= x_mask
 
@@ -929,6 +938,10 @@ class SIRT(Solver):
             x = np.zeros_like(tau)
         else:
             x = np.array(x0).copy()
+        if lower_limit is not None or upper_limit is not None:
+            x = x.clip(lower_limit, upper_limit)
+        if x_mask is not None:
+            x *= x_mask
 
         self.data_term.assign_data(b, sigma)
 
@@ -1139,6 +1152,10 @@ class PDHG(Solver):
         else:
             x0 = np.array(x0).copy()
         x = x0
+        if lower_limit is not None or upper_limit is not None:
+            x = x.clip(lower_limit, upper_limit)
+        if x_mask is not None:
+            x *= x_mask
         x_relax = x.copy()
 
         self.data_term.assign_data(b, sigma)
@@ -1444,6 +1461,8 @@ class FISTA(Solver):
             x = np.zeros(x_shape, dtype=x_dtype)
         else:
             x = np.array(x0, dtype=x_dtype).copy()
+        if lower_limit is not None or upper_limit is not None:
+            x = x.clip(lower_limit, upper_limit)
         if x_mask is not None:
             x *= x_mask
 
-- 
2.43.0


From dfb7cabebe56421772123cab5dac04f43cbcdf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 09/66] fix: FBP does not use the masked-out data

---
 src/corrct/solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 93a1a2b..3d475f8 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -457,6 +457,8 @@ class FBP(Solver):
             pre_weights = A.get_pre_weights()
             if pre_weights is not None:
                 b = b * pre_weights
+        if b_mask is not None:
+            b = b * b_mask
 
         b_f = local_filter(b)
 
-- 
2.43.0


From 6bcd8094efb5849a5301c3026b2c7e6d235a1adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 10/66] fix: compare the backgrounds of the data terms also
 when they are arrays

---
 src/corrct/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 3d475f8..3f155a1 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -770,7 +770,7 @@ class MLEM(Solver):
             Ax = A(x)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b)
@@ -956,7 +956,7 @@ class SIRT(Solver):
             info.residual0 = self.data_term.compute_residual_norm(res_0)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b, sigma)
@@ -1174,7 +1174,7 @@ class PDHG(Solver):
             info.residual0 = self.data_term.compute_residual_norm(res_0)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b, sigma)
@@ -1454,7 +1454,7 @@ class FISTA(Solver):
         # gradient step here; the gradient is computed analytically from compute_residual).
         self.data_term.assign_data(b)
         if b_test_mask is not None:
-            if self.data_term_test.background != self.data_term.background:
+            if not np.array_equal(self.data_term_test.background, self.data_term.background):
                 print("WARNING - the data_term and data_term_test should have the same background. Making them equal.")
                 self.data_term_test.background = self.data_term.background
             self.data_term_test.assign_data(b)
-- 
2.43.0


From 91de3358a2521205d8a626ce5739706af1ea381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 11/66] fix: do not add the background twice when computing the
 primal-dual gap

---
 src/corrct/data_terms.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 9e5eb06..7ad9205 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -523,8 +523,6 @@ class DataFidelity_Huber(DataFidelityBase):
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
     ) -> float:
-        if self.background is not None:
-            proj_primal = proj_primal + self.background
         return float(
             np.linalg.norm(self.compute_residual(proj_primal, mask), ord=2)
             + self.compute_data_dual_dot(dual)
@@ -586,9 +584,6 @@ class DataFidelity_l1(DataFidelityBase):
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
     ) -> float:
-        if self.background is not None:
-            proj_primal = proj_primal + self.background
-
         residual = self.compute_residual(proj_primal, mask)
         self._apply_threshold(residual)
         residual_inner_norm = self._get_inner_norm(residual)
@@ -834,9 +829,6 @@ class DataFidelity_ln(DataFidelityBase):
         return float(np.linalg.norm(s_p, ord=1))
 
     def compute_primal_dual_gap(self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None):
-        if self.background is not None:
-            proj_primal = proj_primal + self.background
-
         residual = self.compute_residual(proj_primal, mask)
 
         return self.compute_residual_norm(residual) + self.compute_data_dual_dot(dual)
-- 
2.43.0


From 6c797853da8b2c0c052e96da0384d42cc428236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 12/66] fix: do not truncate the background to the data type,
 when the data is integer

---
 src/corrct/data_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 7ad9205..087ae01 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -131,7 +131,7 @@ class DataFidelityBase(ABC):
         self.sigma = sigma
         self.sigma_data = self._compute_sigma_data()
         if self.background is not None and self.data is not None:
-            self.background = self.background.astype(self.data.dtype)
+            self.background = self.background.astype(np.result_type(self.data.dtype, np.float32))
 
     def compute_residual(self, proj_primal: NDArrayFloat, mask: NDArrayFloat | None = None) -> NDArrayFloat:
         """Compute the residual in the dual domain.
-- 
2.43.0


From c744c97e7640379a1bd1d9bf27b13ff8d482cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 13/66] fix: selection of the l2 and l1 points in the Huber
 residual norm

---
 src/corrct/data_terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 087ae01..762d4a3 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -484,8 +484,8 @@ class DataFidelity_Huber(DataFidelityBase):
         super().assign_data(data=data, sigma=sigma)
 
     def compute_residual_norm(self, dual: NDArrayFloat) -> float:
-        l2_points = dual <= self.local_error
-        l1_points = 1 - l2_points
+        l2_points = np.abs(dual) <= self.local_error
+        l1_points = np.logical_not(l2_points)
         return float(np.linalg.norm(dual[l2_points].flatten(), ord=2) ** 2 + np.linalg.norm(dual[l1_points].flatten(), ord=1))
 
     def apply_proximal_dual(self, dual: NDArrayFloat) -> None:
-- 
2.43.0


From 9fdd4eaff64536327930141e04c3b48ac0771458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 14/66] fix: operators return new arrays, instead of the array
 they are applied to

---
 src/corrct/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 9470ff2..959e729 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -378,10 +378,10 @@ class TransformIdentity(BaseTransform):
         super().__init__()
 
     def _op_direct(self, x: NDArray) -> NDArray:
-        return x
+        return x.copy()
 
     def _op_adjoint(self, x: NDArray) -> NDArray:
-        return x
+        return x.copy()
 
 
 class TransformDiagonalScaling(BaseTransform):
@@ -493,7 +493,7 @@ class TransformConvolution(BaseTransform):
             x = spsig.convolve(x, adj_kernel, mode="same")
             return self._crop_valid(x, pw)
         else:
-            return x
+            return x.copy()
 
 
 class BaseWaveletTransform(BaseTransform, ABC):
-- 
2.43.0


From 92eb98bb88f537a621784f095320eaabdcb0267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 15/66] fix: the transpose of a transposed operator is the
 direct operator

---
 src/corrct/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 959e729..a74dab1 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -114,7 +114,7 @@ class BaseTransform(LinearOperator, ABC):
         """
         Op_t = cp.copy(self)
         Op_t.shape = [Op_t.shape[1], Op_t.shape[0]]
-        Op_t.is_dir_operator = False
+        Op_t.is_dir_operator = not self.is_dir_operator
         return Op_t
 
     def _adjoint(self) -> "BaseTransform":
-- 
2.43.0


From 2063490ab81b49374303567038c265ab69af847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 16/66] fix: the absolute value of the convolution operator
 keeps its settings

---
 src/corrct/operators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index a74dab1..d3806ad 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -468,7 +468,13 @@ class TransformConvolution(BaseTransform):
         TransformConvolution
             The absolute value of the convolution operator.
         """
-        return TransformConvolution(self.dir_shape, np.abs(self.kernel))
+        return TransformConvolution(
+            self.dir_shape,
+            np.abs(self.kernel),
+            pad_mode=self.pad_mode,
+            is_symm=self.is_symm,
+            flip_adjoint=self.flip_adjoint,
+        )
 
     def _pad_valid(self, x: NDArray) -> tuple[NDArray, NDArray]:
         pad_width = (np.array(self.kernel.shape) - 1) // 2
-- 
2.43.0


From 47c1fca8e356a6d6f6b12c97adb11ef7e49b8615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 17/66] fix: regularizers do not share the (default) norm
 object

---
 src/corrct/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index f7dfd54..2eb44df 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -8,6 +8,7 @@ and ESRF - The European Synchrotron, Grenoble, France
 
 from abc import ABC, abstractmethod
 from collections.abc import Sequence
+from copy import deepcopy
 
 import numpy as np
 import scipy.ndimage as spimg
@@ -65,7 +66,7 @@ class BaseRegularizer(ABC):
         self.weight = np.array(weight)
         self.dtype = dtype
         self.op = None
-        self.norm = norm
+        self.norm = deepcopy(norm)
         self.upd_mask = upd_mask
 
     def info(self) -> str:
-- 
2.43.0


From 82a218c50b46568de08dfc4fcb174b3f99eb5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 18/66] fix: primal proximal of the stationary wavelet
 regularizers works on the stack of sub-bands

---
 src/corrct/regularizers.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 2eb44df..4f537bb 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -744,29 +744,18 @@ class Regularizer_swl(BaseRegularizer):
                 "Use normalized=True or switch to PDHG."
             )
 
-        # Forward stationary wavelet transform -> list of dicts (pywt swtn format)
-        coeffs_list = self.op(primal)
-        # coeffs_list[0] is the approximation array; coeffs_list[1..level] are
-        # dicts of detail sub-bands keyed by orientation label.
+        # Forward stationary wavelet transform -> stack of sub-bands
+        coeffs = self.op(primal)
+        # coeffs[0] is the approximation sub-band; coeffs[1:] are the detail sub-bands.
 
         threshold = tau * self.weight
 
-        # Threshold detail sub-bands
-        for lvl in range(1, len(coeffs_list)):
-            c_l = coeffs_list[lvl]
-            for lab in list(c_l.keys()):
-                coeff = c_l[lab]
-                self.norm.apply_proximal_primal(coeff, threshold)
-                c_l[lab] = coeff
-
-        # Optionally threshold the approximation sub-band
-        if self.min_approx:
-            approx = coeffs_list[0]
-            self.norm.apply_proximal_primal(approx, threshold)
-            coeffs_list[0] = approx
+        # Threshold detail sub-bands, and optionally the approximation sub-band
+        sub_bands = coeffs if self.min_approx else coeffs[1:]
+        self.norm.apply_proximal_primal(sub_bands, threshold)
 
         # Inverse stationary wavelet transform back to primal domain
-        primal[:] = self.op.T(coeffs_list)
+        primal[:] = self.op.T(coeffs)
 
 
 class Regularizer_l1swl(Regularizer_swl):
-- 
2.43.0


From 9a17863cd79ca5078061a0ee257cbc02c336c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 19/66] fix: remove the reference channel in the vector wavelet
 regularizer

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 4f537bb..5e93738 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1568,7 +1568,7 @@ class Regularizer_vl1wl(Regularizer_l1swl):
         dual_tmp *= self.weight
 
         if self.q_ref is not None:
-            dual_tmp = dual_tmp[:, : dual_tmp.shape[0] - 1 :, ...]
+            dual_tmp = dual_tmp[:, : dual_tmp.shape[1] - 1 :, ...]
 
         dual[:] = dual_tmp[:]
 
-- 
2.43.0


From 3ff088650173c85ad0468c33e303aa7a82201810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 20/66] fix: re-assemble the decimated wavelet coefficients
 over the transformed axes

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 5e93738..f00380f 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -978,7 +978,7 @@ class Regularizer_dwl(BaseRegularizer):
                     c_l[lab] = c_ll[ii]
                 coeffs[ii_l] = c_l
             self.norm.apply_proximal_dual(coeffs[0], self.weight)
-            dual[:] = pywt.coeffs_to_array(coeffs)[0]
+            dual[:] = pywt.coeffs_to_array(coeffs, axes=op_wl.axes)[0]
         else:
             super().apply_proximal_dual(dual)
 
-- 
2.43.0


From 59a5d528a9950d4d8ad566b27a96eabceb6a7df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 21/66] fix: cross-correlations have the size of the data, also
 when it is odd

---
 src/corrct/alignment/fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 15d500e..919f2b0 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -162,7 +162,7 @@ def fit_shifts_vu_xc(
             cc_f = data_vwu_f * proj_vwu_f.conj()
             if normalize_fourier:
                 cc_f /= np.fmax(np.abs(cc_f), eps)
-            cc_r: NDArrayFloat = local_ifftn(cc_f).real
+            cc_r: NDArrayFloat = local_ifftn(cc_f, s=list(new_fft_shapes), axes=fft_axes).real
 
             f_vals, f_coords = extract_peak_region_nd(cc_r, cc_coords=cc_coords)
             shifts_vu[..., ii_a] = np.array([f_coords[0][1], f_coords[1][1]])
@@ -182,7 +182,7 @@ def fit_shifts_vu_xc(
         ccs_f = data_vwu_f * proj_vwu_f.conj()
         if normalize_fourier:
             ccs_f /= np.fmax(np.abs(ccs_f).max(axis=u_axis, keepdims=True), eps)
-        ccs = local_ifftn(ccs_f, axes=fft_dims).real
+        ccs = local_ifftn(ccs_f, s=list(new_fft_shapes), axes=list(fft_dims)).real
 
         f_vals, f_h = extract_peak_regions_1d(ccs, axis=u_axis, cc_coords=cc_coords[u_axis])
         shifts_vu = f_h[1, :]
@@ -252,7 +252,7 @@ def fit_shifts_zyx_xc(
     cc_f = ref_vol_zyx_f * rec_vol_zyx_f.conj()
     if normalize_fourier:
         cc_f /= np.fmax(np.abs(cc_f), eps)
-    cc: NDArrayFloat = local_ifftn(cc_f).real
+    cc: NDArrayFloat = local_ifftn(cc_f, s=list(new_fft_shapes), axes=fft_dims).real
 
     f_vals, f_coords = extract_peak_region_nd(cc, cc_coords=cc_coords)
     shifts_zyx = np.array([coords[1] for coords in f_coords])
-- 
2.43.0


From 6b01823a23fb86fb8610f44a5b1797df231a7edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 22/66] fix: vertical cross-correlation has the size of the
 padded data, also when it is odd

---
 src/corrct/alignment/shifts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index 2c19730..118f740 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -188,7 +188,7 @@ class DetectorShiftsPRE(DetectorShiftsBase):
         if normalize_fourier:
             ccs_f /= np.fmax(np.abs(ccs_f).max(axis=-2, keepdims=True), eps)
 
-        cross_corr = local_ifft(ccs_f, axis=-2).real
+        cross_corr = local_ifft(ccs_f, n=data_vw_p.shape[-2], axis=-2).real
 
         cc_coords = np.fft.fftfreq(cross_corr.shape[-2], 1 / cross_corr.shape[-2])
         f_vals, fc_ax = fitting.extract_peak_regions_1d(cross_corr, axis=-2, cc_coords=cc_coords)
-- 
2.43.0


From d4bd346b3050cd5afbb023be2501e6d652bb9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 23/66] fix: Fourier shift of projections with an odd number of
 pixels

---
 src/corrct/processing/pre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index d2d7e6b..a186782 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -170,7 +170,7 @@ def shift_proj_stack(data_vwu: NDArray, shifts: NDArray, use_fft: bool = False)
             img = data_vwu[..., ii, :]
             img_f = np.fft.rfftn(img)
             img_f = fourier_shift(img_f, shifts[..., ii], n=img.shape[-1])
-            new_data[..., ii, :] = np.fft.irfftn(img_f)
+            new_data[..., ii, :] = np.fft.irfftn(img_f, s=img.shape, axes=tuple(range(img.ndim)))
         else:
             new_data[..., ii, :] = shift(data_vwu[..., ii, :], shifts[..., ii], order=1, mode="nearest")
 
-- 
2.43.0


From 47ef432f7b0164945fbd327405b36ecfb977c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 24/66] fix: plot the real-space phase filters also for odd
 lengths

---
 src/corrct/physics/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/physics/phase.py b/src/corrct/physics/phase.py
index 5a3ae8f..da029f7 100644
--- a/src/corrct/physics/phase.py
+++ b/src/corrct/physics/phase.py
@@ -125,8 +125,8 @@ def plot_filter_responses(
     if domain.lower() == "fourier":
         step = k
     elif domain.lower() == "direct":
-        tie_resp = np.fft.fftshift(np.fft.irfft(tie_resp))
-        ctf_resp = np.fft.fftshift(np.fft.irfft(ctf_resp))
+        tie_resp = np.fft.fftshift(np.fft.irfft(tie_resp, n=filter_length))
+        ctf_resp = np.fft.fftshift(np.fft.irfft(ctf_resp, n=filter_length))
         p = np.fft.fftfreq(filter_length, d=1.0 / (pix_size_um * filter_length))
         p = np.fft.fftshift(p)
         step = p
-- 
2.43.0


From 37e210bd55b65b3d1d71e785de0d82cae274e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 25/66] fix: sum-of-absolute-differences shifts without padding

---
 src/corrct/alignment/fitting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 919f2b0..4d998a6 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -62,6 +62,9 @@ def fit_shifts_u_sad(
         padding[-1, :] = (search_range, search_range)
         pad_data_wu = np.pad(data_wu, pad_width=padding, mode="edge")
         pad_proj_wu = np.pad(proj_wu, pad_width=padding, mode="constant")
+    else:
+        pad_data_wu = data_wu
+        pad_proj_wu = proj_wu
 
     fft_proj_wu = np.fft.fft2(pad_proj_wu)
 
-- 
2.43.0


From f5b2076f1293a5c06ea5659261e48ff6034be865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 26/66] fix: select the detector angles also with slices and
 lists of indices

---
 src/corrct/physics/attenuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index d73745a..4e2dac9 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -325,7 +325,7 @@ class AttenuationVolume:
         if det_ind is None:
             det_angles = self._get_detector_angles()
         else:
-            det_angles = self.detectors[det_ind].angle_rad
+            det_angles = self._get_detector_angles()[det_ind]
         return dict(
             att_maps=self.get_maps(roi=roi, rot_ind=rot_ind, det_ind=det_ind, binning=binning), angles_detectors_rad=det_angles
         )
-- 
2.43.0


From 3ad1e8c1cb7f8327c7d8f06b28d5f351c4138f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 27/66] fix: show the transmittance decay plot

---
 src/corrct/physics/attenuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index 4e2dac9..15c8171 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -492,4 +492,4 @@ def plot_transmittance_decay(
     axs.set_ylim(0.0, 1.0)
     axs.set_title(f"Transmittance curve at {mean_energy_keV:.2f} keV", fontsize=14)
     fig.tight_layout()
-    plt.plot(block=False)
+    plt.show(block=False)
-- 
2.43.0


From 372332abe959f6d30bed25a78c12d8d4b31505ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 28/66] fix: vertical center of the fitted ellipse

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 4d998a6..7ff8414 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -949,7 +949,7 @@ def fit_ellipse_parameters(
         coeffs[4] *= p_v_scaling**2
 
     u = (coeffs[1] - coeffs[2] * coeffs[3]) / (coeffs[0] - coeffs[3] ** 2)
-    v = (coeffs[0] * coeffs[2] - coeffs[1] * coeffs[3]) / (coeffs[0] - coeffs[2] * coeffs[3])
+    v = (coeffs[0] * coeffs[2] - coeffs[1] * coeffs[3]) / (coeffs[0] - coeffs[3] ** 2)
 
     a = coeffs[0] / (coeffs[0] * u**2 + v**2 + 2 * coeffs[3] * u * v - coeffs[4])
     b = a / coeffs[0]
-- 
2.43.0


From 9770d6722d8dfacdcd3f2600013a28fe574ab884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 29/66] fix: return the pre-alignment shifts in acquisition
 order

---
 src/corrct/alignment/shifts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index 118f740..cd826ee 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -410,7 +410,7 @@ class DetectorShiftsXC(DetectorShiftsBase):
 
         shifts_vu[-1] = shifts_u
 
-        return shifts_vu[:, list(angles_order)]
+        return shifts_vu[:, np.argsort(angles_order)]
 
     def fit_u_180(self) -> float:
         """Find the center-of-rotation, using the 0 and 180 degrees projections.
-- 
2.43.0


From d7cb6d92411add0abd304a476bc95d9f68b4406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 30/66] fix: report the unexpected content of the cone-beam
 geometry file

---
 src/corrct/alignment/cone_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/cone_beam.py b/src/corrct/alignment/cone_beam.py
index 7ebbded..e09b7f3 100644
--- a/src/corrct/alignment/cone_beam.py
+++ b/src/corrct/alignment/cone_beam.py
@@ -243,7 +243,7 @@ class ConeBeamGeometry:
         if list(data_tree.keys())[0] != self.__class__.__name__:
             raise ValueError(
                 f"Initialization from JSON: expecting {self.__class__.__name__} class instance,"
-                f" but {data_tree.keys()[0]} passed."
+                f" but {list(data_tree.keys())} passed."
             )
 
         data_dict = data_tree[class_name]
-- 
2.43.0


From 8658fe345ec5c87d8c949e851393e179c3d7e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 31/66] fix: sample size in millimeters, when checking the
 detector parallax

---
 src/corrct/physics/materials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/physics/materials.py b/src/corrct/physics/materials.py
index a87974f..01dc2f4 100644
--- a/src/corrct/physics/materials.py
+++ b/src/corrct/physics/materials.py
@@ -148,13 +148,13 @@ class VolumeMaterial:
         return mass_fraction
 
     def _check_parallax_detector(self, detector: xrf.DetectorXRF, tolerance: float = 1e-2) -> bool:
-        half_sample_size = np.max(self.voxel_size_cm * self.shape) / 2
+        half_sample_size_mm = 10 * np.max(self.voxel_size_cm * np.array(self.shape)) / 2
 
         if isinstance(detector.distance_mm, float) or (
             isinstance(detector.distance_mm, np.ndarray) and detector.distance_mm.size == 1
         ):
             dets = cp.deepcopy(detector)
-            dets.distance_mm = dets.distance_mm + np.array([-half_sample_size, half_sample_size])
+            dets.distance_mm = dets.distance_mm + np.array([-half_sample_size_mm, half_sample_size_mm])
         else:
             dets = detector
 
-- 
2.43.0


From 09efedfcdf125647c448d2c5c0a78ae15b109346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 32/66] fix: background from a single-sided margin

---
 src/corrct/processing/pre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index a186782..168f2c7 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -295,7 +295,7 @@ def background_from_margin(
             background = np.tile(background[None, ...], [data_vwu.shape[-3], 1, 1])
         return background
     else:
-        sum_vals = data_vwu[..., : margin[0]].sum(axis=-1) + data_vwu[..., -margin[1] :].sum(axis=-1)
+        sum_vals = data_vwu[..., : margin[0]].sum(axis=-1) + data_vwu[..., data_shape_u - margin[1] :].sum(axis=-1)
         background: NDArray = sum_vals / margin.sum(axis=-1)
 
         if data_vwu.ndim > 2:
-- 
2.43.0


From 07676433e8956161b13484f9f031f85b8bf5676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 33/66] fix: report the dimensions of the azimuthal integration

---
 src/corrct/processing/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 681e980..a1fc063 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -206,8 +206,8 @@ def azimuthal_integration(img: NDArray, axes: Sequence[int] = (-2, -1), domain:
 
     if num_dims_img < num_dims_int:
         raise ValueError(
-            "Input image ({num_dims_img}D) should be at least the same dimensionality"
-            " of the axes for the integration (#{num_dims_int})."
+            f"Input image ({num_dims_img}D) should be at least the same dimensionality"
+            f" of the axes for the integration (#{num_dims_int})."
         )
     if len(axes) == 0:
         raise ValueError("Input axes should be at least 1.")
-- 
2.43.0


From de7ee3e1a833cdf54f284c7cf19f7d99effee4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 34/66] fix: collapsed detectors keep the detector axis of the
 attenuation maps

---
 src/corrct/projectors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index efeda17..b397d49 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -491,8 +491,9 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
 
     def collapse_detectors(self) -> None:
         """Convert multi-detector configurations into single-detector."""
-        weights = np.reshape(self.weights_det, [1, -1, 1, 1]) / np.sum(self.weights_det)
-        self.att_vol_angles = np.sum(self.att_vol_angles * weights, axis=1)
+        weights = np.reshape(self.weights_det, [1, -1, *np.ones(self.att_vol_angles.ndim - 2, dtype=int)])
+        weights = weights / np.sum(self.weights_det)
+        self.att_vol_angles = np.sum(self.att_vol_angles * weights, axis=1, keepdims=True)
 
         weights = np.squeeze(weights)
         self.angles_det_rad = np.sum(self.angles_det_rad * weights, keepdims=True)
-- 
2.43.0


From 03c64e1d8b4724496f5e302b2ab0a6f697bddb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 35/66] fix: attenuation corrected projectors work also outside
 of with statements

---
 src/corrct/projectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index b397d49..0e1848a 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -583,7 +583,7 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
         NDArray
             The forward-projected sinogram.
         """
-        if self.use_multithreading and isinstance(self.projector_backend, prj_backends.ProjectorBackendSKimage):
+        if self.executor is not None:
             sino_lines = self.executor.map(lambda x: self.fp_angle(vol, x), range(len(self.angles_rot_rad)))
             sino_lines = [*sino_lines]
         else:
@@ -610,7 +610,7 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
             The back-projected volume.
         """
         if self.is_symmetric:
-            if self.use_multithreading and isinstance(self.projector_backend, prj_backends.ProjectorBackendSKimage):
+            if self.executor is not None:
                 vols = self.executor.map(lambda x: self.bp_angle(sino, x), range(len(self.angles_rot_rad)))
                 vols = [*vols]
             else:
-- 
2.43.0


From 5e375a42018aa101feef20acdf9203feca20c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 36/66] fix: shut the executor down also when disposing of the
 backend fails

---
 src/corrct/projectors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index 0e1848a..59f2f63 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -483,8 +483,9 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
 
     def __exit__(self, *args):
         """De-initialize the with statement block."""
-        super().__exit__()
-        if self.use_multithreading and isinstance(self.projector_backend, prj_backends.ProjectorBackendSKimage):
+        try:
+            super().__exit__(*args)
+        finally:
             if self.executor is not None:
                 self.executor.shutdown()
                 self.executor = None
-- 
2.43.0


From aa63dddeefbb4fedf7485b19540d4862194b10cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 37/66] fix: compute the residual of SART over the whole
 sinogram

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 3f155a1..7c3ed95 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -503,7 +503,7 @@ class SART(Solver):
         NDArrayFloat
             The residual.
         """
-        fp = np.stack([A(x, ii) for ii in range(A_num_rows)], axis=-1)
+        fp = np.stack([A(x, ii) for ii in range(A_num_rows)], axis=-2)
         fp = np.ascontiguousarray(fp, dtype=b.dtype)
         res = fp - b
         if b_mask is not None:
-- 
2.43.0


From 83527b9d5016cb95747f03f0f0d2a7cdf82d96e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 38/66] fix: restarting FISTA resets its momentum already in
 the iteration of the restart

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 7c3ed95..cc560e4 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -1512,7 +1512,7 @@ class FISTA(Solver):
 
             # Optional fixed-period restart: reset momentum sequence
             if self.restart_period is not None and (ii + 1) % self.restart_period == 0:
-                t_new = 1.0
+                t = t_new = 1.0
 
             momentum = (t - 1.0) / t_new
             y = x_new + momentum * (x_new - x)
-- 
2.43.0


From b0c9d684ed4c37c10ea1260bca04638a07bf98da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 39/66] fix: FilterMR kept the basis of the first data width,
 and failed on data of another width

---
 src/corrct/filters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/filters.py b/src/corrct/filters.py
index 3973c7c..6d5cb46 100644
--- a/src/corrct/filters.py
+++ b/src/corrct/filters.py
@@ -593,6 +593,7 @@ class FilterMR(Filter):
         """
         num_pad_pixels = self.get_padding_size(data_wu_shape)
 
+        self._num_pad_pixels = num_pad_pixels
         self.basis_r = create_basis(
             num_pad_pixels, binning_type=self.binning_type, binning_start=self.binning_start, dtype=self.dtype
         )
@@ -611,7 +612,7 @@ class FilterMR(Filter):
         projector : ProjectorOperator
             The projector used in the FBP.
         """
-        if not self.is_initialized:
+        if not self.is_initialized or self._num_pad_pixels != self.get_padding_size(data_wu.shape):
             self.initialize(data_wu.shape)
 
         num_sino_pixels = data_wu.shape[-1]
-- 
2.43.0


From ad7d53d96f1ea197eb1740f1ba33f8e0b5f684af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 40/66] fix: group the sub-bands of the same level, in the
 l12-norm of stationary wavelets

---
 src/corrct/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index f00380f..bcb4e96 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -696,8 +696,9 @@ class Regularizer_swl(BaseRegularizer):
 
     def apply_proximal_dual(self, dual: NDArray) -> None:
         if isinstance(self.norm, dt.DataFidelity_l12):
+            # The sub-bands are stored level by level: the norm is over the details of each level
             tmp_dual = dual[1:]
-            tmp_dual = tmp_dual.reshape([-1, self.level, *dual.shape[1:]])
+            tmp_dual = tmp_dual.reshape([self.level, -1, *dual.shape[1:]]).swapaxes(0, 1)
             self.norm.apply_proximal_dual(tmp_dual, self.weight)
             tmp_dual = dual[0:1:]
             self.norm.apply_proximal_dual(tmp_dual, self.weight)
-- 
2.43.0


From 45e8bbee0092e3588f7813685e7afad8b0cd2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 41/66] fix: dual step sizes of the decimated wavelet
 regularizers, which made PDHG converge to the wrong solution

---
 src/corrct/regularizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index bcb4e96..77f255a 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -922,13 +922,13 @@ class Regularizer_dwl(BaseRegularizer):
         # self.dec_func_mult = 2 ** np.arange(self.level, 0, -1)
         # self.rec_func_mult = self.dec_func_mult
 
-        tmp_sigma = [np.ones(self.op.sub_band_shapes[0], self.dtype) * self.dec_func_mult[0]]
-        count = 0
+        tmp_sigma = [np.ones(self.op.sub_band_shapes[0], self.dtype) / self.dec_func_mult[0]]
+        count = 1
         for ii_l in range(self.level):
             d = {}
             for label in self.op.sub_band_shapes[ii_l + 1].keys():
                 # d[label] = np.ones(self.op.sub_band_shapes[ii_l + 1][label], self.dtype) * self.dec_func_mult[ii_l]
-                d[label] = np.ones(self.op.sub_band_shapes[ii_l + 1][label], self.dtype) * self.dec_func_mult[count]
+                d[label] = np.ones(self.op.sub_band_shapes[ii_l + 1][label], self.dtype) / self.dec_func_mult[count]
                 count += 1
             tmp_sigma.append(d)
         self.sigma, _ = pywt.coeffs_to_array(tmp_sigma, axes=self.axes)
-- 
2.43.0


From 7b02991e5e3456cc1783fc6cf8c928d44852ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 42/66] fix: limit constraints subtracted the limit twice from
 the dual, which moved also the values within the limits

---
 src/corrct/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 77f255a..920d64a 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1668,7 +1668,7 @@ class Constraint_LowerLimit(BaseRegularizer):
 
         self.op = operators.TransformIdentity(primal.shape)
 
-        self.norm.assign_data(self.limit, sigma=1)
+        self.norm.assign_data(None, sigma=1)  # The limit is already subtracted by `update_dual`
 
         if not isinstance(self.norm, dt.DataFidelity_l1):
             tau = self.weight
@@ -1735,7 +1735,7 @@ class Constraint_UpperLimit(BaseRegularizer):
 
         self.op = operators.TransformIdentity(primal.shape)
 
-        self.norm.assign_data(self.limit, sigma=1)
+        self.norm.assign_data(None, sigma=1)  # The limit is already subtracted by `update_dual`
 
         if not isinstance(self.norm, dt.DataFidelity_l1):
             tau = self.weight
-- 
2.43.0


From 7e48a34dbe808d685d79d281483c5e6f9a7c6742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 43/66] fix: the cross-correlation of a stack re-orders only
 the correlated axes, and not the stack

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index a1fc063..7dcf479 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -429,7 +429,7 @@ def norm_cross_corr(
     else:
         cc_n = cc / (np.linalg.norm(img1) * np.linalg.norm(img2))
 
-    cc_n = np.fft.ifftshift(cc_n)
+    cc_n = np.fft.ifftshift(cc_n, axes=axes)
 
     if compute_profile:
         cc_l = azimuthal_integration(cc_n, axes=axes, domain="fourier")
-- 
2.43.0


From 2cc8411d8db13180336ee6682a5c933acb6dfc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 44/66] fix: the cross-correlation profiles of a stack are
 cropped along the profile, and not along the stack

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 7dcf479..06f5448 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -436,7 +436,7 @@ def norm_cross_corr(
         cc_o = azimuthal_integration(np.ones_like(cc_n), axes=axes, domain="fourier")
 
         cc_l /= cc_o
-        cc_l = cc_l[: np.min(np.array(img1.shape)[list(axes)])]
+        cc_l = cc_l[..., : np.min(np.array(img1.shape)[list(axes)])]
 
         if plot:
             p_xy = lines_intersection(cc_l, 0.5, position="first")
-- 
2.43.0


From f00b721d467edafc7718fa3531c8e50e0d0f19d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 45/66] fix: objective of the scale and bias fit is the squared
 residual, and not its largest singular value (2D images)

---
 src/corrct/processing/post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index bddb943..3cc1846 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -457,7 +457,7 @@ def fit_scale_bias(img_data: NDArray, prj_data: NDArray, prj: BaseTransform | No
         residual = prj(img_data * a + b) - prj_data
         grad_a = m_y_dot_prj_x + prj_x_2 * a + prj_1_dot_prj_x * b
         grad_b = m_y_dot_prj_1 + prj_1_2 * b + prj_1_dot_prj_x * a
-        return float(np.linalg.norm(residual, ord=2) ** 2) / 2, np.array((grad_a, grad_b))
+        return float(np.sum(residual**2)) / 2, np.array((grad_a, grad_b))
 
     opt_res = minimize(obj_func, [1.0, 0.0], jac=True)
     return float(opt_res.x[0]), float(opt_res.x[1])
-- 
2.43.0


From 94dc2201e41ece111dad66338b6aba0078bde7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 46/66] fix: source to detector vector in the cone-beam
 pre-weights (they were all zero, with the detector as far as the source)

---
 src/corrct/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 377cca1..9ef1886 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -400,7 +400,7 @@ class ProjectionGeometry(Geometry):
             if self.det_shape_vu is not None and np.any(det_shape_vu != self.det_shape_vu):
                 print("WARNING: overriding the detector shape in the computation of the pre-weights.")
 
-            src2det_xyz = self.det_pos_xyz + self.src_pos_xyz
+            src2det_xyz = self.det_pos_xyz - self.src_pos_xyz
 
             pixel_coords_vu = [np.linspace(-s / 2, s / 2, int(s)) for s in det_shape_vu]
             pixel_coords_vu = np.meshgrid(*pixel_coords_vu, indexing="ij")
-- 
2.43.0


From cf1023f46279ec5177c395dd4ed1d6e85e8f483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 47/66] fix: unit spacing of the detector pixels in the
 cone-beam pre-weights

---
 src/corrct/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 9ef1886..9dc1c95 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -402,7 +402,7 @@ class ProjectionGeometry(Geometry):
 
             src2det_xyz = self.det_pos_xyz - self.src_pos_xyz
 
-            pixel_coords_vu = [np.linspace(-s / 2, s / 2, int(s)) for s in det_shape_vu]
+            pixel_coords_vu = [np.linspace(-(s - 1) / 2, (s - 1) / 2, int(s)) for s in det_shape_vu]
             pixel_coords_vu = np.meshgrid(*pixel_coords_vu, indexing="ij")
             pixel_coords_vu = [coords[..., None, None] for coords in pixel_coords_vu]
 
-- 
2.43.0


From c6ce37e7d4d096e7ea3aee88c485d635ce0b42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 48/66] fix: centre of the Fourier transforms of odd-sized
 images, in the fit of rotation and scale (the fit returned no rotation)

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 7ff8414..40d996b 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -325,7 +325,7 @@ def fit_image_rotation_and_scale(
     img_fft_2 = np.abs(np.fft.fftshift(img_fft_2, axes=axes))
 
     # transform to polar coordinates
-    img_center = [s - s // 2 for s in img_shape]
+    img_center = [s // 2 for s in img_shape]
     radius = min([s // 2 for s in img_shape])
     img_fft_1_p = warp_polar(img_fft_1, center=img_center, scaling="log", radius=radius)
     img_fft_2_p = warp_polar(img_fft_2, center=img_center, scaling="log", radius=radius)
-- 
2.43.0


From 92de054a942176e2d548387ba22a98cbfedf8cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 49/66] fix: extremes along U of tilted ellipses

---
 src/corrct/alignment/fitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 40d996b..f316efa 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -1033,8 +1033,9 @@ class Ellipse(Trajectory):
             A tuple containing the most extreme U coordinates (u_min, u_max).
         """
         # Calculate the extreme U coordinates
-        u_min = self.u - np.sqrt(1 / self.a)
-        u_max = self.u + np.sqrt(1 / self.a)
+        half_width_u = np.sqrt(self.b / (self.a * self.b - self.c**2))
+        u_min = self.u - half_width_u
+        u_max = self.u + half_width_u
 
         return u_min, u_max
 
-- 
2.43.0


From 5baaf3ca3d8d215c25eb8e6d386c3ba63580a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 50/66] fix: camera tilt of images with the same shift at every
 line (trailing zeros of polynomials are trimmed)

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index f316efa..db15edc 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -377,7 +377,7 @@ def fit_camera_tilt_angle(img_1: NDArray, img_2: NDArray, pad_u: bool = False, f
     half_img_size = (img_shape[-2] - 1) / 2
     cc_v_coords = np.linspace(-half_img_size, half_img_size, img_shape[-2])
     poly_slope = Polynomial.fit(cc_v_coords, fitted_cors, deg=1)
-    b, a = poly_slope.convert().coef
+    b, a = poly_slope(0.0), poly_slope.deriv()(0.0)
 
     if fit_l1:
 
-- 
2.43.0


From 5f40f70f4b604dafc12b4ad710d456830adf3d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 51/66] fix: parabolic fit of constant values (trailing zeros
 of polynomials are trimmed)

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index db15edc..fa15df6 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -794,7 +794,7 @@ def fit_parabola_min(
     # stable than previous solutions (according to numpy).
     poly = Polynomial.fit(fx_fit, f_vals_fit, deg=2)
     coeffs = poly.convert().coef
-    if coeffs[2] <= 0:
+    if len(coeffs) < 3 or coeffs[2] <= 0:
         print("WARNING: fitted curve is concave. Returning minimum measured point.")
         return fun_x[min_pos], fun_vals[min_pos], None
 
-- 
2.43.0


From 1abf658d9727ae7e53a21be0ada5b9c9cef0548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 52/66] fix: shifts of 2D data above the maximum allowed
 magnitude

---
 src/corrct/alignment/shifts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index cd826ee..d64c510 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -531,6 +531,7 @@ class DetectorShiftsXC(DetectorShiftsBase):
             shifts_vu = fitting.fit_shifts_vu_xc(data_vwu, proj_vwu, decimals=self.decimals, **xc_opts)
             # shifts_vu = fitting.fit_shifts_u_sad(data_vwu, proj_vwu, decimals=self.decimals)
 
-            shifts_vu_all[ii_d] = _filter_shifts(shifts_vu, self.max_shifts)
+            max_shifts = self.max_shifts if shifts_vu.ndim > 1 else self.max_shifts[-1, :]
+            shifts_vu_all[ii_d] = _filter_shifts(shifts_vu, max_shifts)
 
         return np.mean(shifts_vu_all, axis=0)
-- 
2.43.0


From 80af8cab6409c84db987fe13d34aa2291aa9ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 53/66] fix: 2D sub-pixel position of the maximum, for regions
 other than 3 x 3 pixels (coefficients were scaled the wrong way)

---
 src/corrct/alignment/fitting.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index fa15df6..021c2e2 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -677,11 +677,10 @@ def refine_max_position_2d(
     if not (len(f_vals.shape) == 2):
         raise ValueError(f"The fitted values should form a 2-dimensional array. Array of shape: {f_vals.shape} was given.")
     if fy is None:
-        fy = np.linspace(-1, 1, f_vals.shape[0])
-        y_scaling = (f_vals.shape[0] - 1) / 2
+        fy_half_size = (f_vals.shape[0] - 1) / 2
+        fy = np.linspace(-fy_half_size, fy_half_size, f_vals.shape[0])
     else:
         fy = np.array(fy, ndmin=1)
-        y_scaling = 1.0
         if not (len(fy.shape) == 1 and np.all(fy.size == f_vals.shape[0])):
             raise ValueError(
                 f"Vertical coordinates should have the same length as values matrix."
@@ -689,11 +688,10 @@ def refine_max_position_2d(
             )
 
     if fx is None:
-        fx = np.linspace(-1, 1, f_vals.shape[1])
-        x_scaling = (f_vals.shape[1] - 1) / 2
+        fx_half_size = (f_vals.shape[1] - 1) / 2
+        fx = np.linspace(-fx_half_size, fx_half_size, f_vals.shape[1])
     else:
         fx = np.array(fx, ndmin=1)
-        x_scaling = 1.0
     if not (len(fx.shape) == 1 and np.all(fx.size == f_vals.shape[1])):
         raise ValueError(
             f"Horizontal coordinates should have the same length as values matrix."
@@ -706,7 +704,6 @@ def refine_max_position_2d(
 
     coords = np.array([np.ones(f_vals.size), fy, fx, fy * fx, fy**2, fx**2])
     coeffs = np.linalg.lstsq(coords.T, f_vals.flatten(), rcond=None)[0]
-    coeffs *= [1, y_scaling, x_scaling, y_scaling * x_scaling, y_scaling**2, x_scaling**2]
 
     # For a 1D parabola `f(x) = ax^2 + bx + c`, the vertex position is:
     # x_v = -b / 2a. For a 2D parabola, the vertex position is:
-- 
2.43.0


From e13382f6a14733f08071e4df274cd5a92026fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 54/66] fix: possible MURA mask sizes miss the largest one in
 the range

The sizes 4 * l + 1 up to (and including) the FoV size are possible: 13 was not
returned for a FoV of 16 pixels.
---
 src/corrct/struct_illum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index ad2f37c..e9c200b 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -840,7 +840,7 @@ class MaskGeneratorMURA(MaskGenerator):
             return not np.any(div_val == 0)
 
         max_possible_val = (fov_size - 1) // 4
-        test_values = np.arange(1, max_possible_val) * 4 + 1
+        test_values = np.arange(1, max_possible_val + 1) * 4 + 1
         primes = np.array([test_prime(x) for x in test_values])
         return test_values[primes]
 
-- 
2.43.0


From cf8811c487ca7b4330f3f9f036290ed420e354ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 55/66] fix: mask generators accept the documented scalar FoV
 size

The masks are two-dimensional, and generating a collection for a scalar FoV size
failed with an IndexError.
---
 src/corrct/struct_illum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index e9c200b..471ac56 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -464,6 +464,8 @@ class MaskGenerator(ABC):
 
     def _init_fov_mm(self, fov_size_mm: float | Sequence[float] | NDArray, req_res_mm: float) -> NDArrayInt:
         self.fov_size_mm = np.array(fov_size_mm, ndmin=1)
+        if self.fov_size_mm.size == 1:
+            self.fov_size_mm = np.tile(self.fov_size_mm, 2)
         num_points = np.ceil(self.fov_size_mm / req_res_mm).astype(int)
         self.feature_size_mm = self.fov_size_mm / num_points
 
-- 
2.43.0


From a7c84d2db0d46cc934e6172fda8570e161112364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 56/66] fix: ghost imaging projectors declare the shape of
 one-dimensional masks

With mask_dims=1 the number of masks was taken as part of the image shape.
---
 src/corrct/struct_illum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 471ac56..cf9a50f 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -870,7 +870,7 @@ class ProjectorGhostImaging(ProjectorOperator):
         self._axes_fov = np.arange(-len(self.mc.shape_fov), 0)
         self.row_sum = np.sqrt(np.abs(self.mc.masks_enc * self.mc.masks_dec)).sum(axis=tuple(self._axes_fov))
 
-        self.vol_shape = self.mc.masks_enc.shape[-2:]
+        self.vol_shape = self.mc.shape_fov
         self.prj_shape = np.array(self.mc.num_buckets, ndmin=1)
         super().__init__()
 
-- 
2.43.0


From 34c2a95b3bf27e5ce8268b84c465c18bfcf753cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 57/66] fix: ghost tomography projectors declare the shapes of
 their volumes and data

They declared those of the masks, so that they could not be used as linear operators
(matmul, scipy solvers). The shape of the tomographic projections was also taken from
the volume, and the error reporting a mismatch failed with an AttributeError.
---
 src/corrct/struct_illum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index cf9a50f..78b2f85 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -1039,16 +1039,20 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
     def __init__(self, mask_collection: MaskCollection | NDArray, tomo_proj: ProjectorOperator, backend: str = "torch"):
         super().__init__(mask_collection, backend)
 
-        tomo_prj_shape = np.array([*tomo_proj.dir_shape[:-2], tomo_proj.dir_shape[-1]])
+        tomo_prj_shape = np.array([*tomo_proj.prj_shape[:-2], tomo_proj.prj_shape[-1]])
         # Special care should be given to support when implemented
         if len(tomo_prj_shape) != self.mc.mask_dims or any(tomo_prj_shape != self.mc.shape_fov):
             raise ValueError(
-                f"Tomographic projection shape {tomo_prj_shape} ([V]U, from: {self.tomo_proj.dir_shape} [V]WU)"
+                f"Tomographic projection shape {tomo_prj_shape} ([V]U, from: {tomo_proj.prj_shape} [V]WU)"
                 f" does not match ghost imaging projector shape {self.mc.shape_fov} ([V]U, from: {self.masks_enc.shape} M[V]U)"
             )
 
         self.tomo_proj = tomo_proj
 
+        self.vol_shape = tomo_proj.vol_shape
+        self.prj_shape = np.array([tomo_proj.prj_shape[-2], self.mc.num_buckets])
+        ProjectorOperator.__init__(self)
+
     def fp(self, vol_zyx: NDArray) -> NDArray:
         """Compute forward-projection (prediction) of the bucket values.
 
-- 
2.43.0


From b9afdac70bae01bf977e2373599b9bc01801c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 58/66] fix: the FBP of ghost tomography projectors returns the
 volume

It returned the tuple of volume and solution information.
---
 src/corrct/struct_illum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 78b2f85..c758d51 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -1107,4 +1107,5 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
         imgs_wvu = [super().fbp(bs, use_lstsq, adjust_scaling) for bs in bucket_vals]
         imgs_vwu = np.squeeze(np.array(imgs_wvu, ndmin=3).swapaxes(-3, -2))
         solver_fbp = FBP()
-        return solver_fbp(self.tomo_proj, imgs_vwu)
+        vol_zyx, _ = solver_fbp(self.tomo_proj, imgs_vwu)
+        return vol_zyx
-- 
2.43.0


From e8d7733180fa1e27a9be43b0cdcac2cc06c21565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 59/66] fix: minimum of constant loss values (trailing zeros of
 polynomials are trimmed)

---
 src/corrct/param_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index d1ad4bc..0932e7f 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -320,7 +320,7 @@ def fit_func_min(
     # stable than previous solutions (according to numpy).
     poly = Polynomial.fit(lams_reg_fit, f_vals_fit, deg=2)
     coeffs = poly.convert().coef
-    if coeffs[2] <= 0:
+    if len(coeffs) < 3 or coeffs[2] <= 0:
         warn("Fitted curve is concave. Returning minimum measured point.")
         return hp_vals[min_pos], f_vals[min_pos]
 
-- 
2.43.0


From 814f0c17302835b6f8b1ae700e81a28369df9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 60/66] fix: reject unknown domains in azimuthal_integration

---
 src/corrct/processing/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 06f5448..397ad1d 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -217,8 +217,10 @@ def azimuthal_integration(img: NDArray, axes: Sequence[int] = (-2, -1), domain:
     if domain.lower() == "direct":
         half_dims = (img_axes_dims - 1) / 2
         coords = [np.linspace(-h, h, d) for h, d in zip(half_dims, img_axes_dims)]
-    else:
+    elif domain.lower() == "fourier":
         coords = [np.fft.fftfreq(d, 1 / d) for d in img_axes_dims]
+    else:
+        raise ValueError(f"Unknown domain: {domain}. Options are: 'direct' | 'fourier'")
     coords = np.stack(np.meshgrid(*coords, indexing="ij"))
     r = np.sqrt(np.sum(coords**2, axis=0))
 
-- 
2.43.0


From 69eb2235ea8c31730b9241eed5e5085ca3e55ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:54 +0000
Subject: [PATCH 61/66] fix: report unsupported point-wise norms of vectorial
 regularizers, instead of failing to report them

---
 src/corrct/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 920d64a..322094c 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1369,10 +1369,10 @@ class Regularizer_VTV(Regularizer_Grad):
         super().__init__(weight=weight, ndims=ndims, upd_mask=upd_mask)
 
         self.pwise_der_norm = pwise_der_norm
+        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_der_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_chan_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
@@ -1514,10 +1514,10 @@ class Regularizer_vl1wl(Regularizer_l1swl):
         )
 
         self.pwise_lvl_norm = pwise_lvl_norm
+        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_lvl_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_chan_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-- 
2.43.0


From e2e9e1394dabdafcf1a3739877d51d75957e2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 62/66] fix: re-initializing an ASTRA backend releases its
 previous projectors, instead of forgetting them

---
 src/corrct/_projector_backends.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 0e94b8a..53be530 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -379,6 +379,7 @@ class ProjectorBackendASTRA(ProjectorBackend):
         """
         super().__init__()
         self.super_sampling = super_sampling
+        self.proj_id = []
 
     def initialize_geometry(
         self,
@@ -419,7 +420,6 @@ class ProjectorBackendASTRA(ProjectorBackend):
 
         super().initialize_geometry(vol_geom, angles_rot_rad, create_single_projs=create_single_projs)
 
-        self.proj_id = []
         self.dispose()
 
         num_angles = self.angles_w_rad.size
@@ -718,7 +718,6 @@ class ProjectorBackendDirectASTRA(ProjectorBackendASTRA):
 
         ProjectorBackend.initialize_geometry(self, vol_geom, angles_rot_rad, create_single_projs=create_single_projs)
 
-        self.proj_id = []
         self.dispose()
 
         num_angles = self.angles_w_rad.size
-- 
2.43.0


From 8243be308e286ab79048365e82f144c78616d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 63/66] fix: release the ASTRA projectors that were created
 before a failing one

---
 src/corrct/_projector_backends.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 53be530..3626e4f 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -523,14 +523,20 @@ class ProjectorBackendASTRA(ProjectorBackend):
             pixel_sampling = int(self.super_sampling / np.fmin(1, self.vol_geom.vox_size))
             opts = {"VoxelSuperSampling": voxel_sampling, "DetectorSuperSampling": pixel_sampling}
 
+            self._create_projectors(projector_type, opts)
+
+        super().make_ready()
+
+    def _create_projectors(self, projector_type: str, opts: Mapping) -> None:
+        try:
             if self.has_individual_projs:
-                self.proj_id = [
-                    astra.create_projector(projector_type, pg, self.astra_vol_geom, opts) for pg in self.proj_geom_ind
-                ]
+                for pg in self.proj_geom_ind:
+                    self.proj_id.append(astra.create_projector(projector_type, pg, self.astra_vol_geom, opts))
 
             self.proj_id.append(astra.create_projector(projector_type, self.proj_geom_all, self.astra_vol_geom, opts))
-
-        super().make_ready()
+        except Exception:
+            self.dispose()
+            raise
 
     def _check_data(self, x: NDArray, expected_shape: Sequence[int] | NDArray[np.integer]) -> NDArray:
         if x.dtype != np.float32:
@@ -775,10 +781,7 @@ class ProjectorBackendDirectASTRA(ProjectorBackendASTRA):
             pixel_sampling = int(self.super_sampling / np.fmin(1, self.vol_geom.vox_size))
             opts = {"VoxelSuperSampling": voxel_sampling, "DetectorSuperSampling": pixel_sampling}
 
-            if self.has_individual_projs:
-                self.proj_id = [astra.create_projector("cuda3d", pg, self.astra_vol_geom, opts) for pg in self.proj_geom_ind]
-
-            self.proj_id.append(astra.create_projector("cuda3d", self.proj_geom_all, self.astra_vol_geom, opts))
+            self._create_projectors("cuda3d", opts)
 
         ProjectorBackend.make_ready(self)
 
-- 
2.43.0


From c99461a080fdb079967daae6854763d649437935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 64/66] fix: Compton scattering at a detector angle of 0 is
 produced like at any other angle

---
 src/corrct/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/testing.py b/src/corrct/testing.py
index 100ce15..44523eb 100644
--- a/src/corrct/testing.py
+++ b/src/corrct/testing.py
@@ -256,7 +256,7 @@ def phantom_assign_concentration_multi(
         out_energy_keV, vol_yield[ii] = phantom.get_fluo_production(el, in_energy_keV, line)
         vol_lin_att_out[ii] = phantom.get_attenuation(out_energy_keV)
 
-    if detectors_pos_rad:
+    if detectors_pos_rad is not None:
         out_energy_keV, vol_yield[-1] = phantom.get_compton_scattering(in_energy_keV, angle_rad=detectors_pos_rad)
         vol_lin_att_out[-1] = phantom.get_attenuation(out_energy_keV)
 
-- 
2.43.0


From 79871b6716fb6b323892252f9998da21fa378b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 65/66] fix: create_sino applies the psf without attenuation
 volumes as well

---
 src/corrct/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/testing.py b/src/corrct/testing.py
index 44523eb..f0314fd 100644
--- a/src/corrct/testing.py
+++ b/src/corrct/testing.py
@@ -386,7 +386,7 @@ def create_sino(
     detector_solidangle_sr = (2.4 / 2 / 16 / 2) ** 2
 
     if vol_att_in is None and vol_att_out is None:
-        with projectors.ProjectorUncorrected(ph.shape, angles_rad) as p:
+        with projectors.ProjectorUncorrected(ph.shape, angles_rad, psf=psf) as p:
             sino = p.fp(ph)
     else:
         with projectors.ProjectorAttenuationXRF(
-- 
2.43.0


From f9feb5460852af7bec203f65afaba0507e90bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:11 +0000
Subject: [PATCH 66/66] fix: the nuclei phantom reports the pixel sizes of the
 rescaled volume

---
 src/corrct/testing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/testing.py b/src/corrct/testing.py
index f0314fd..9970bf1 100644
--- a/src/corrct/testing.py
+++ b/src/corrct/testing.py
@@ -85,13 +85,14 @@ def create_phantom_nuclei3d(
     phantom = np.array(skd.cells3d(), dtype=dtype).swapaxes(0, 1)
     nuclei: NDArrayFloat = phantom[1]
 
+    scale_factor = 1.0 if FoV_size is None else FoV_size / nuclei.shape[-1]
     if FoV_size is None:
         FoV_size = nuclei.shape[-1]
     else:
         nuclei = skt.rescale(nuclei, scale=FoV_size / nuclei.shape[-1], mode="reflect", channel_axis=0)
     print(f"{FoV_size = }")
-    scale_factor = FoV_size / nuclei.shape[-1]
-    pixel_size_um = np.array([0.29, 0.26, 0.26], dtype=dtype) / scale_factor
+    # The first axis is not rescaled
+    pixel_size_um = np.array([0.29, 0.26 / scale_factor, 0.26 / scale_factor], dtype=dtype)
 
     circ_mask = processing.circular_mask([FoV_size, FoV_size], dtype=dtype)
 
-- 
2.43.0

