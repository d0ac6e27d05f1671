From 9f747f8dfb908840757d6a94148ae7fbb3830bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 01/57] fix: exact stage index in step and sawtooth schedules

it // (total / num_steps) loses a stage whenever the float step length rounds
up at an exact stage boundary (e.g. total=10, num_steps=6): a sawtooth then
returns its target instead of resetting to its initial value.
---
 scikit-topt/sktopt/tools/scheduler.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/scikit-topt/sktopt/tools/scheduler.py b/scikit-topt/sktopt/tools/scheduler.py
index 32d354c..dce2648 100644
--- a/scikit-topt/sktopt/tools/scheduler.py
+++ b/scikit-topt/sktopt/tools/scheduler.py
@@ -105,8 +105,7 @@ def schedule_step(
         return target_value
 
     # Determine which step this iteration belongs to
-    step_length = total / num_steps
-    step_index = min(int(it // step_length), num_steps - 1)
+    step_index = min(int(it * num_steps // total), num_steps - 1)
 
     # Linearly divide values between initial_value and target_value
     alpha = step_index / (num_steps - 1)
@@ -155,8 +154,7 @@ def schedule_step_accelerating(
         return target_value
 
     # Determine current step index
-    step_length = total / num_steps
-    step_index = min(int(it // step_length), num_steps - 1)
+    step_index = min(int(it * num_steps // total), num_steps - 1)
 
     # Use exponential-like interpolation for step values
     alpha = step_index / (num_steps - 1)
@@ -206,8 +204,7 @@ def schedule_step_decelerating(
     if num_steps <= 1:
         return target_value
 
-    step_length = total / num_steps
-    step_index = min(int(it // step_length), num_steps - 1)
+    step_index = min(int(it * num_steps // total), num_steps - 1)
 
     alpha = step_index / (num_steps - 1)
     nonlinear_alpha = 1 - (1 - alpha) ** curvature
@@ -254,7 +251,7 @@ def schedule_sawtooth_decay(
     it0 = it - 1
     total0 = total
     step_size = total0 / num_steps
-    step_index = int(it0 // step_size)
+    step_index = int(it0 * num_steps // total0)
     local_index = it0 - step_index * step_size
     alpha = min(local_index / step_size, 1.0)
 
-- 
2.43.0


From 8985a16252ace5b896d98038589ee84a68e430fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 02/57] fix: RAMP stiffness derivative has the wrong sign in
 the quotient rule

d/drho [rho / (1 + p (1 - rho))] = (1 + p) / (1 + p (1 - rho))^2; the code
subtracted p*rho instead of adding it, so RAMP sensitivities vanished at rho=1
and could even change sign.
---
 scikit-topt/sktopt/core/derivatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/derivatives.py b/scikit-topt/sktopt/core/derivatives.py
index bcea868..3a33365 100644
--- a/scikit-topt/sktopt/core/derivatives.py
+++ b/scikit-topt/sktopt/core/derivatives.py
@@ -59,7 +59,7 @@ def dE_drho_ramp(rho, E0, Emin, p):
     E(rho) = Emin + (E0 - Emin) * rho / (1 + p * (1 - rho))
     """
     denom = 1.0 + p * (1.0 - rho)
-    return (E0 - Emin) * (denom - p * rho) / (denom ** 2)
+    return (E0 - Emin) * (denom + p * rho) / (denom ** 2)
 
 
 def dC_drho_ramp(rho, strain_energy, E0, Emin, p):
@@ -75,7 +75,7 @@ def dE_drho_ramp_inplace(rho, out, E0, Emin, p):
     """
     np.copyto(out, rho)
     denom = 1.0 + p * (1.0 - rho)
-    np.copyto(out, (E0 - Emin) * (denom - p * rho) / (denom ** 2))
+    np.copyto(out, (E0 - Emin) * (denom + p * rho) / (denom ** 2))
 
 
 def dC_drho_ramp_inplace(rho, strain_energy, out, E0, Emin, p):
-- 
2.43.0


From bb621a91bf8f8b0ed8ec35579bc7799fe5ea7fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 03/57] fix: saving interval when fewer iterations than records
 are requested

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index a3377d8..0c63ed7 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1185,7 +1185,7 @@ class DensityMethod(DensityMethodBase):
 
             if any(
                 (
-                    iter_num % (cfg.max_iters // cfg.record_times) == 0,
+                    iter_num % max(1, cfg.max_iters // cfg.record_times) == 0,
                     iter_num == 1,
                     (conv_rho and conv_kkt),
                     (iter_num == iter_limit - 1)
-- 
2.43.0


From e1b8c9c49c31a0429ca3b8a4d6479f2cb4e9e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 04/57] fix: design_dirichlet with no Neumann boundary set
 every density to one

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 0c63ed7..536ddac 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -738,7 +738,8 @@ class DensityMethod(DensityMethodBase):
             iter_end = cfg.max_iters + 1
 
         if cfg.design_dirichlet is True:
-            rho[tsk.neumann_elements] = 1.0
+            if tsk.neumann_elements is not None:
+                rho[tsk.neumann_elements] = 1.0
         else:
             rho[tsk.dirichlet_neumann_elements] = 1.0
         rho[tsk.fixed_elements] = 1.0
@@ -1129,7 +1130,8 @@ class DensityMethod(DensityMethodBase):
                 )
             rho[tsk.design_elements] = rho_design_eles
             if cfg.design_dirichlet is True:
-                rho[tsk.neumann_elements] = 1.0
+                if tsk.neumann_elements is not None:
+                    rho[tsk.neumann_elements] = 1.0
             else:
                 rho[tsk.dirichlet_neumann_elements] = 1.0
 
-- 
2.43.0


From 5f07eea8a1bd3502728cd4a075ac406f8ff80a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 05/57] fix: LogMOC running scale and multiplier are undefined
 on the first iteration after a restart

---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index d003283..36fe61a 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -81,6 +81,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         self.recorder.add("dV_chain", plot_type="min-max-mean-std", ylog=True)
         self.recorder.add("volume_chain_scale", ylog=True)
         self.lambda_v = cfg.lambda_v
+        self.running_scale = None
         self._dL_buffer = None
         self._dV_chain_design = None
         self._dV_projected_full = None
@@ -220,7 +221,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         scale = np.percentile(np.abs(self._dL_buffer), scale_percentile)
         scale = max(scale, cfg.lagrangian_scale_floor)
         self.running_scale = 0.2 * self.running_scale + \
-            (1.0 - 0.2) * scale if iter_num > 1 else scale
+            (1.0 - 0.2) * scale if self.running_scale is not None else scale
         logger.info(f"running_scale: {self.running_scale}")
         self._dL_buffer /= self.running_scale
 
-- 
2.43.0


From b4ee9f3ec9d8e091a1cbe2cbfce29a700e6f5fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 06/57] fix: element lookup by node must not reuse the cache of
 another mesh

---
 scikit-topt/sktopt/mesh/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index ee1067f..4d440e4 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -1,4 +1,5 @@
 from collections import defaultdict
+import weakref
 import numpy as np
 from scipy.sparse import csr_matrix
 from numba import njit, prange
@@ -203,16 +204,20 @@ def get_elements_by_nodes(
         get_elements_by_nodes._cache = {}
 
     mesh_id = id(mesh)
-    if mesh_id not in get_elements_by_nodes._cache:
+    cached = get_elements_by_nodes._cache.get(mesh_id)
+    # an id may be reused once the mesh it belonged to is gone
+    if cached is None or cached[0]() is not mesh:
         # Build: node index → set of element indices
         node_to_elements = defaultdict(set)
         # mesh.t.T: shape = (n_elements, nodes_per_element)
         for e, nodes in enumerate(mesh.t.T):
             for n in nodes:
                 node_to_elements[n].add(e)
-        get_elements_by_nodes._cache[mesh_id] = node_to_elements
+        get_elements_by_nodes._cache[mesh_id] = (
+            weakref.ref(mesh), node_to_elements
+        )
 
-    node_to_elements = get_elements_by_nodes._cache[mesh_id]
+    node_to_elements = get_elements_by_nodes._cache[mesh_id][1]
 
     # Normalize target_nodes
     if isinstance(target_nodes, np.ndarray):
-- 
2.43.0


From 5d93c3d13cea88c6a398efca137f19b82419f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 07/57] fix: element to nodal averages pair densities with the
 wrong nodes

---
 scikit-topt/sktopt/fea/solver_heat.py | 4 ++--
 scikit-topt/sktopt/mesh/task_heat.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 037a157..6708892 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -607,7 +607,7 @@ def _element_to_nodal_average(
 
     rho_nodal = np.zeros(nvert, dtype=float)
     count = np.zeros(nvert, dtype=float)
-    np.add.at(rho_nodal, t.ravel(), np.repeat(rho, nloc))
+    np.add.at(rho_nodal, t.ravel(), np.tile(rho, nloc))
     np.add.at(count, t.ravel(), 1.0)
     rho_nodal /= np.maximum(count, 1.0)
     return rho_nodal, count
@@ -732,7 +732,7 @@ class FEM_SimpLinearHeatConduction():
 
             rho_nodal = np.zeros(nvert, dtype=float)
             count = np.zeros(nvert, dtype=float)
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, k))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, k))
             np.add.at(count,     t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1.0)
 
diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index bad0ae5..19ed3fb 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -90,7 +90,7 @@ def assemble_surface_robin(
             rho_nodal = np.zeros(basis.mesh.nvertices)
             count = np.zeros(basis.mesh.nvertices)
             t = basis.mesh.t
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, t.shape[0]))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, t.shape[0]))
             np.add.at(count, t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1)
         else:
-- 
2.43.0


From a6dd8f28f1a2b7697c58f24e9c590cc9583c3fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 08/57] fix: heat compliance sensitivity ignores the configured
 interpolation law

---
 scikit-topt/sktopt/fea/solver_heat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 6708892..bd55baa 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -942,7 +942,10 @@ class FEM_SimpLinearHeatConduction():
         for i in range(n_loads):
             from sktopt.core import derivatives
 
-            grad_all[:, i] = derivatives.dC_drho_simp(
+            dC_drho = derivatives.dC_drho_ramp if (
+                self.density_interpolation is composer.ramp_interpolation
+            ) else derivatives.dC_drho_simp
+            grad_all[:, i] = dC_drho(
                 rho, energy[:, i], self.k_max, self.k_min, p
             )
 
-- 
2.43.0


From de54dc3e490a4bf8f1eab6ad0db0a7144c513364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 09/57] fix: lists of Robin coefficients crash the virtual
 Robin boundary

---
 scikit-topt/sktopt/fea/solver_heat.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index bd55baa..6d8a95d 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -721,11 +721,6 @@ class FEM_SimpLinearHeatConduction():
         rho_nodal = None
 
         if self.task.robin_coefficient is not None:
-            robin_virtual_bilinear, robin_virtual_linear = get_robin_virtual(
-                self.task.robin_coefficient, self.task.robin_bc_value,
-                p, self.q
-            )
-
             t = basis.mesh.t
             nvert = basis.mesh.nvertices
             k = t.shape[0]
@@ -737,12 +732,22 @@ class FEM_SimpLinearHeatConduction():
             rho_nodal /= np.maximum(count, 1.0)
 
             rho_field = basis.interpolate(rho_nodal)
-            robin_bilinear.append(
-                robin_virtual_bilinear.assemble(self.task.basis, rho=rho_field)
-            )
-            robin_linear.append(
-                robin_virtual_linear.assemble(self.task.basis, rho=rho_field)
-            )
+            h_list = self.task.robin_coefficient if isinstance(
+                self.task.robin_coefficient, list
+            ) else [self.task.robin_coefficient]
+            Tenv_list = self.task.robin_bc_value if isinstance(
+                self.task.robin_bc_value, list
+            ) else [self.task.robin_bc_value]
+            for h_i, Tenv_i in zip(h_list, Tenv_list):
+                virtual_bilinear, virtual_linear = get_robin_virtual(
+                    h_i, Tenv_i, p, self.q
+                )
+                robin_bilinear.append(
+                    virtual_bilinear.assemble(basis, rho=rho_field)
+                )
+                robin_linear.append(
+                    virtual_linear.assemble(basis, rho=rho_field)
+                )
 
         if self.task.design_robin_boundary is True:
             self.task.update_robin_bc(rho, p)
-- 
2.43.0


From 6e9065875858d16fb4340859cdfc48be648a08e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 10/57] fix: heat load cases with different Dirichlet regions
 share one enforced matrix

---
 scikit-topt/sktopt/fea/solver_heat.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 6d8a95d..08dfaba 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -164,6 +164,19 @@ def solve_heat_system_multi(
         x=np.full(D0.N, val0),
     )
 
+    if any(
+        not np.array_equal(D_i.flatten(), D0.flatten())
+        for D_i in dirichlet_dofs_list
+    ):
+        # the enforced matrix depends on the constrained DOFs
+        for i, (D_i, val_i) in enumerate(
+            zip(dirichlet_dofs_list, dirichlet_values_list)
+        ):
+            solve_heat_system_multi(
+                K_csr, emit, [D_i], [val_i], u_all[:, i:i + 1], solver_config
+            )
+        return K_e.tocsr()
+
     F_stack = np.column_stack([
         skfem.enforce(
             K_csr,
-- 
2.43.0


From 6cd4a9bb6bf72db7f3480810f6659e40209ca753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 11/57] fix: heat adjoint problems must vanish on the Dirichlet
 boundary

---
 scikit-topt/sktopt/fea/solver_heat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 08dfaba..dfdddd5 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -855,7 +855,7 @@ class FEM_SimpLinearHeatConduction():
                 K_csr,
                 rhs_vec,
                 dirichlet_dofs_list,
-                dirichlet_values_list,
+                [0.0] * n_loads,
                 λ_all,
                 self.solver_config,
             )
@@ -869,7 +869,7 @@ class FEM_SimpLinearHeatConduction():
                     K_csr,
                     ones_emit,
                     dirichlet_dofs_list,
-                    dirichlet_values_list,
+                    [0.0] * n_loads,
                     λ_avg,
                     self.solver_config,
                 )
@@ -901,7 +901,7 @@ class FEM_SimpLinearHeatConduction():
                 K_csr,
                 ones_emit,
                 dirichlet_dofs_list,
-                dirichlet_values_list,
+                [0.0] * n_loads,
                 λ_all,
                 self.solver_config,
             )
-- 
2.43.0


From a760e72cd1c8d08446655803b270054b93a8a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 12/57] fix: hexahedron volumes use the node numbering of
 scikit-fem

---
 scikit-topt/sktopt/fea/composer.py | 56 +++++++++++++++---------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/scikit-topt/sktopt/fea/composer.py b/scikit-topt/sktopt/fea/composer.py
index 547a805..8001557 100644
--- a/scikit-topt/sktopt/fea/composer.py
+++ b/scikit-topt/sktopt/fea/composer.py
@@ -210,37 +210,37 @@ def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
     for e in prange(n_elements):
         n = t_conn[:, e]
 
-        #   7--------6
+        #   6--------7
         #  /|       /|
-        # 4--------5 |
+        # 3--------5 |
         # | |      | |
-        # | 3------|-2
+        # | 2------|-4
         # |/       |/
         # 0--------1
         vol = 0.0
         vol += _tet_volume_numba(
             p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
+            p_coords[:, n[0]], p_coords[:, n[4]],
+            p_coords[:, n[2]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[6]],
+            p_coords[:, n[3]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[5]],
+            p_coords[:, n[1]], p_coords[:, n[7]]
         )
 
         elements_volume[e] = vol
@@ -272,38 +272,38 @@ def _get_elements_volume_hex_numba(t_conn, p_coords) -> np.ndarray:
         n = t_conn[:, e]
 
         # Tetra 6 division
-        #   7--------6
+        #   6--------7
         #  /|       /|
-        # 4--------5 |
+        # 3--------5 |
         # | |      | |
-        # | 3------|-2
+        # | 2------|-4
         # |/       |/
         # 0--------1
 
         vol = 0.0
         vol += _tet_volume_numba(
             p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
+            p_coords[:, n[0]], p_coords[:, n[4]],
+            p_coords[:, n[2]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[6]],
+            p_coords[:, n[3]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[5]],
+            p_coords[:, n[1]], p_coords[:, n[7]]
         )
 
         elements_volume[e] = vol
-- 
2.43.0


From ebd4615a3a7d4c3f5a5245bb99e1c9ebdb9898dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 13/57] fix: hexahedron orientation uses the node numbering of
 scikit-fem

---
 scikit-topt/sktopt/mesh/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index 4d440e4..2347c3b 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -44,13 +44,14 @@ def fix_hexahedron_orientation(t, p):
         # Compute Jacobian determinant at natural coordinate center
         # Ref: Hex element master nodes index: [0,1,2,3,4,5,6,7]
         v1 = coords[:, 1] - coords[:, 0]  # x-direction
-        v2 = coords[:, 3] - coords[:, 0]  # y-direction
-        v3 = coords[:, 4] - coords[:, 0]  # z-direction
+        v2 = coords[:, 2] - coords[:, 0]  # y-direction
+        v3 = coords[:, 3] - coords[:, 0]  # z-direction
         jac_det = np.dot(np.cross(v1, v2), v3)
 
         if jac_det < 0:
-            # Swap two nodes to flip orientation (commonly swap node 1 and 3)
+            # Exchange the first and third local axes to flip orientation
             t_fixed[1, e], t_fixed[3, e] = t_fixed[3, e], t_fixed[1, e]
+            t_fixed[4, e], t_fixed[6, e] = t_fixed[6, e], t_fixed[4, e]
 
     return t_fixed
 
-- 
2.43.0


From f8bf4ac3cfd247d7145c714c0fb0166dcb62f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 14/57] fix: imported configurations restore their schedules

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 536ddac..3d1d8ef 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -317,6 +317,9 @@ class DensityMethodConfig():
             data = json.load(f)
         # Drop legacy keys that may linger in old configs.
         data.pop("record_timing", None)
+        for key, value in data.items():
+            if isinstance(value, dict) and "scheduler_type" in value:
+                data[key] = tools.SchedulerConfig(**value)
         return cls(**data)
 
     def export(self, path: str):
-- 
2.43.0


From bc0c12110ac61c626e916a08ba018f8afb759dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 15/57] fix: legacy multi-load wrappers pass an argument the
 solvers do not accept

---
 scikit-topt/sktopt/fea/solver.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver.py b/scikit-topt/sktopt/fea/solver.py
index a3937e8..5ab2d6e 100644
--- a/scikit-topt/sktopt/fea/solver.py
+++ b/scikit-topt/sktopt/fea/solver.py
@@ -165,7 +165,6 @@ def solve_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
@@ -201,7 +200,6 @@ def compute_compliance_basis_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
-- 
2.43.0


From 1a6bb477790154f9036b26ab8df67d50ba2b1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 16/57] fix: tagged elasticity meshes with numbered Dirichlet
 boundaries are not recognised

---
 scikit-topt/sktopt/mesh/task_elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 52f4ac4..88892c6 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -281,7 +281,7 @@ class LinearElasticity(FEMDomain):
         design_elements = basis.mesh.subdomains["design"]
         keys = basis.mesh.boundaries.keys()
         dirichlet_keys = sorted(
-            [k for k in keys if re.match(r"dirichlete_\d+$", k)],
+            [k for k in keys if re.match(r"dirichlet_\d+$", k)],
             key=lambda x: int(re.search(r"\d+$", x).group())
         )
         if dirichlet_keys:
-- 
2.43.0


From 53b40c9365a46820413890eeb4d179ef888cfd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 17/57] fix: lists of Dirichlet regions of different sizes

---
 scikit-topt/sktopt/mesh/task_common.py  | 10 ++++++++--
 scikit-topt/sktopt/mesh/task_elastic.py |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 8b1c8c3..80f387f 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -164,7 +164,9 @@ class FEMDomain():
                 raise ValueError("dirichlet_nodes is not np.ndarray or of list")
 
             dirichlet_elements = utils.get_elements_by_nodes(
-                basis.mesh, [dirichlet_nodes]
+                basis.mesh,
+                dirichlet_nodes if isinstance(dirichlet_nodes, list)
+                else [dirichlet_nodes]
             )
         else:
             dirichlet_dofs = None
@@ -231,7 +233,11 @@ class FEMDomain():
         dirichlet_neumann_elements = np.concatenate(valid) \
             if len(valid) > 0 else np.array([], dtype=int)
 
-        free_dofs = setdiff1d(np.arange(basis.N), dirichlet_dofs)
+        free_dofs = setdiff1d(
+            np.arange(basis.N),
+            np.concatenate(dirichlet_dofs)
+            if isinstance(dirichlet_dofs, list) else dirichlet_dofs
+        )
         free_elements = utils.get_elements_by_nodes(
             basis.mesh, [free_dofs]
         )
diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 88892c6..2d9a20c 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -221,6 +221,12 @@ class LinearElasticity(FEMDomain):
             design_elements
         )
 
+        if isinstance(base.dirichlet_dofs, list):
+            # all regions constrain every load case
+            base.dirichlet_dofs = np.unique(
+                np.concatenate(base.dirichlet_dofs)
+            )
+
         neumann_linear = assemble_surface_forces(
             base.basis,
             force_facets_ids=force_facets_ids,
-- 
2.43.0


From 9a9b62066237638601b5f39aa8f6ddd221115a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 18/57] fix: a single heat Dirichlet region given as an array
 is rejected

---
 scikit-topt/sktopt/mesh/task_common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 80f387f..0619b62 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -131,7 +131,8 @@ class FEMDomain():
                     assert isinstance(dirichlet_dir, list)
                     assert len(dirichlet_nodes) == len(dirichlet_dir)
             elif isinstance(dirichlet_nodes, np.ndarray):
-                assert isinstance(dirichlet_dir, str)
+                assert isinstance(dirichlet_dir, str) \
+                    or dirichlet_values is not None
                 # assert dirichlet_dir in _lit_bc
             else:
                 raise ValueError("dirichlet_nodes should be list or np.ndarray")
@@ -158,7 +159,8 @@ class FEMDomain():
                 # dirichlet_nodes = np.concatenate(dirichlet_nodes)
             elif isinstance(dirichlet_nodes, np.ndarray):
                 dofs = basis.get_dofs(nodes=dirichlet_nodes)
-                dirichlet_dofs = dofs.all() if dirichlet_dir == 'all' \
+                dirichlet_dofs = dofs.all() \
+                    if dirichlet_dir in ('all', None) \
                     else dofs.nodal[dirichlet_dir]
             else:
                 raise ValueError("dirichlet_nodes is not np.ndarray or of list")
-- 
2.43.0


From b5f95c8d86fcfc53a9e4ebb57c11f40b33f6ff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 19/57] fix: one temperature for several Dirichlet regions
 constrains all of them

---
 scikit-topt/sktopt/fea/solver_heat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index dfdddd5..fddc1de 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -729,6 +729,12 @@ class FEM_SimpLinearHeatConduction():
         ) else [self.task.dirichlet_values]
 
         basis = self.task.basis
+        if len(dirichlet_nodes_list) > 1 and isinstance(
+            self.task.dirichlet_values, float
+        ):
+            dirichlet_nodes_list = [
+                np.unique(np.concatenate(dirichlet_nodes_list))
+            ]
         robin_bilinear = list(self.task.robin_bilinear or [])
         robin_linear = list(self.task.robin_linear or [])
         rho_nodal = None
-- 
2.43.0


From 92157ed1b62474c3843b2df630dec786291ca5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 20/57] fix: condition.vtu colours every node when a boundary
 kind is absent

---
 scikit-topt/sktopt/mesh/task_common.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 0619b62..08046d3 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -380,9 +380,16 @@ class FEMDomain():
         # Points (shape: [n_nodes, dim])
         points = mesh.p.T
         node_colors_df = np.zeros(mesh.p.shape[1], dtype=int)
-        node_colors_df[self.neumann_nodes_all] = 1
-        node_colors_df[self.dirichlet_nodes] = 2
-        node_colors_df[self.robin_nodes] = 3
+        for nodes, color in (
+            (self.neumann_nodes, 1),
+            (self.dirichlet_nodes, 2),
+            (self.robin_nodes, 3),
+        ):
+            if nodes is None:
+                continue
+            node_colors_df[
+                np.concatenate(nodes) if isinstance(nodes, list) else nodes
+            ] = color
         point_outputs = dict()
         point_outputs["node_color"] = node_colors_df
 
-- 
2.43.0


From 925ec97e8736bb74a11cdc036c5952f1f2bc35a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 21/57] fix: free elements are found by degree of freedom
 instead of node number

---
 scikit-topt/sktopt/mesh/task_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 08046d3..524ddd2 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -240,9 +240,9 @@ class FEMDomain():
             np.concatenate(dirichlet_dofs)
             if isinstance(dirichlet_dofs, list) else dirichlet_dofs
         )
-        free_elements = utils.get_elements_by_nodes(
-            basis.mesh, [free_dofs]
-        )
+        free_elements = np.where(
+            np.isin(basis.element_dofs, free_dofs).any(axis=0)
+        )[0]
         elements_volume = composer.get_elements_volume(basis.mesh)
         print(
             f"all_elements: {all_elements.shape}",
-- 
2.43.0


From fa5b67fc4800c3b3d1697b0ea462e32b217c6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 22/57] fix: length and force scaling keeps load lists,
 volumes, tags and quadrature

---
 scikit-topt/sktopt/mesh/task_common.py  | 10 ++++++----
 scikit-topt/sktopt/mesh/task_elastic.py |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 524ddd2..662be9d 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -422,11 +422,13 @@ class FEMDomain():
     ):
         # this wont work
         # self.basis.mesh.p /= L_scale
-        mesh = self.basis.mesh
-        p_scaled = mesh.p * L_scale
-        mesh_scaled = type(mesh)(p_scaled, mesh.t)
-        basis_scaled = skfem.Basis(mesh_scaled, self.basis.elem)
+        mesh_scaled = self.basis.mesh.scaled(L_scale)
+        basis_scaled = skfem.Basis(
+            mesh_scaled, self.basis.elem,
+            quadrature=(self.basis.X, self.basis.W)
+        )
         self.basis = basis_scaled
+        self.elements_volume = composer.get_elements_volume(mesh_scaled)
 
         if isinstance(self.force, np.ndarray):
             self.force *= F_scale
diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 2d9a20c..74a14ec 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -121,7 +121,7 @@ class LinearElasticity(FEMDomain):
 
     @force.setter
     def force(self, value):
-        self.neumann_linear = value
+        self.neumann_linear = value if isinstance(value, list) else [value]
 
     @property
     def force_elements(self):
-- 
2.43.0


From 87e33bd4c0a2bcd39092c2bc8726e67d45659c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 23/57] fix: importing histories drops registered series that
 hold no data yet

---
 scikit-topt/sktopt/tools/history.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 519a932..1529442 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -683,6 +683,10 @@ class HistoryCollection():
                     data=data_list
                 )
 
+        for name, hist in self.histories.items():
+            if not hist.exists():
+                new_histories.setdefault(name, hist)
+
         # Replace histories with updated ones
         self.histories = new_histories
 
-- 
2.43.0


From c52d48fdd1acd1e13c8a34eb7f7fe8f91ea01165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 24/57] fix: mesh loader never orients tetrahedra

---
 scikit-topt/sktopt/mesh/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/loader.py b/scikit-topt/sktopt/mesh/loader.py
index f8ebe7e..2696015 100644
--- a/scikit-topt/sktopt/mesh/loader.py
+++ b/scikit-topt/sktopt/mesh/loader.py
@@ -23,7 +23,7 @@ def basis_from_file(
     else:
         raise ValueError(f"Unsupported cell types: {cell_types}")
 
-    if hasattr(mesh_skfem, "mesh_skfem"):
+    if hasattr(mesh_skfem, "oriented"):
         mesh_skfem = mesh_skfem.oriented()
 
     basis = skfem.Basis(
-- 
2.43.0


From d9050eece6dbf37231797d682244590e0b92a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 25/57] fix: OC update yields NaN densities for positive
 sensitivities

---
 scikit-topt/sktopt/core/optimizers/oc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 7ffc448..cf0d3e3 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -49,6 +49,7 @@ def bisection_with_physical_volume(
     vol_error = 0.0
     while True:
         np.negative(dC, out=scaling_rate)
+        np.maximum(scaling_rate, 0.0, out=scaling_rate)
         scaling_rate /= (lmid + eps)
         np.power(scaling_rate, eta, out=scaling_rate)
         np.clip(
-- 
2.43.0


From e887af0b8190fc1061cce82184a56df01777ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 26/57] fix: a crash while writing a checkpoint or history
 leaves a partial file that restart picks up

---
 scikit-topt/sktopt/core/misc.py                      | 4 ++--
 scikit-topt/sktopt/core/optimizers/common_density.py | 6 +++++-
 scikit-topt/sktopt/tools/history.py                  | 7 ++++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index f7ad45d..db80a98 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -6,12 +6,12 @@ from sktopt import tools
 
 
 def find_latest_iter_file(dst_path: str):
-    pattern = re.compile(r"(\d{6})-rho\.npz")
+    pattern = re.compile(r"(\d{6,})-rho\.npz")
     max_iter = -1
     latest_file = None
 
     for fname in os.listdir(dst_path):
-        match = pattern.match(fname)
+        match = pattern.fullmatch(fname)
         if match:
             iter_num = int(match.group(1))
             if iter_num > max_iter:
diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 3d1d8ef..4246ce7 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1232,10 +1232,14 @@ class DensityMethod(DensityMethodBase):
                             image_path=cfg.image_path(iter_num, "energy"),
                             image_title=f"Iteration : {iter_num}"
                         )
+                    # written aside and renamed: never visible half-written
+                    ckpt = f"{str(iter_num).zfill(6)}-rho.npz"
+                    ckpt_tmp = f"{cfg.dst_path}/data/tmp-{ckpt}"
                     np.savez_compressed(
-                        f"{cfg.dst_path}/data/{str(iter_num).zfill(6)}-rho.npz",
+                        ckpt_tmp,
                         rho_design_elements=rho[tsk.design_elements]
                     )
+                    os.replace(ckpt_tmp, f"{cfg.dst_path}/data/{ckpt}")
                 with self._timed_section("timing_plot"):
                     self._save_timing_plot()
                 if conv_rho and conv_kkt:
diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 1529442..a8ea4e3 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -598,7 +598,12 @@ class HistoryCollection():
             return
 
         path = os.path.join(self.dst_path, fname)
-        np.savez(path, **histories)
+        # written aside and renamed: never visible half-written
+        with open(f"{path}.tmp", "wb") as f:
+            np.savez(f, **histories)
+        os.replace(
+            f"{path}.tmp", path if path.endswith(".npz") else f"{path}.npz"
+        )
 
         # import copy
         # before_histories = copy.deepcopy(self.histories)
-- 
2.43.0


From 19d253d864fb77671f1cb251a428d51b900ebe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 27/57] fix: a fresh run leaves the checkpoints and histories
 of an earlier run for restart

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 4246ce7..14f9bd4 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -551,12 +551,17 @@ class DensityMethod(DensityMethodBase):
 
         if cfg.restart is True:
             self.load_parameters()
+            os.makedirs(f"{self.cfg.dst_path}/mesh_rho", exist_ok=True)
         else:
             if os.path.exists(f"{self.cfg.dst_path}/mesh_rho"):
                 shutil.rmtree(f"{self.cfg.dst_path}/mesh_rho")
             os.makedirs(f"{self.cfg.dst_path}/mesh_rho")
-            if not os.path.exists(f"{self.cfg.dst_path}/data"):
-                os.makedirs(f"{self.cfg.dst_path}/data")
+            # results of an earlier run must not be mistaken for this one's
+            if os.path.exists(f"{self.cfg.dst_path}/histories.npz"):
+                os.remove(f"{self.cfg.dst_path}/histories.npz")
+            if os.path.exists(f"{self.cfg.dst_path}/data"):
+                shutil.rmtree(f"{self.cfg.dst_path}/data")
+            os.makedirs(f"{self.cfg.dst_path}/data")
 
         if isinstance(tsk, sktopt.mesh.LinearElasticity):
             self.fem = fea.FEM_SimpLinearElasticity(
-- 
2.43.0


From 90febc7438765fe87731143d510e14e34ac9ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 28/57] fix: Helmholtz smoothing of sensitivities is polluted
 by the solid boundary value

The forward pass fixes non-design regions at density 1. Applied to the volume
sensitivity (LogMOC), the Lagrangian gradient and the sensitivity filter it
mixed that value into the gradients near every non-design element.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 2 +-
 scikit-topt/sktopt/core/optimizers/logmoc.py         | 4 ++--
 scikit-topt/sktopt/filters/base.py                   | 5 +++++
 scikit-topt/sktopt/filters/spacial.py                | 3 +++
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 14f9bd4..1cd0bee 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1111,7 +1111,7 @@ class DensityMethod(DensityMethodBase):
             if cfg.sensitivity_filter:
                 logger.info("--- sensitivity filter ---")
                 with self._timed_section("sensitivity_filter"):
-                    filtered = self.filter.forward(dC_drho_full)
+                    filtered = self.filter.forward_linear(dC_drho_full)
                     np.copyto(dC_drho_full, filtered)
 
             dC_drho_design_eles[:] = dC_drho_full[tsk.design_elements]
diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index 36fe61a..f5fce74 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -151,7 +151,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
             # destroys the volume-constraint adjoint for positive test fields.
             # The filter operator is self-adjoint in this setting, so falling
             # back to the forward application preserves the intended chain.
-            dV_backprop = self.filter.forward(self._dV_filtered_full)
+            dV_backprop = self.filter.forward_linear(self._dV_filtered_full)
         np.copyto(self._dV_projected_full, dV_backprop)
         np.copyto(
             self._dV_chain_design,
@@ -207,7 +207,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         if cfg.filter_lagrangian:
             np.copyto(self._dL_full, 0.0)
             self._dL_full[tsk.design_elements] = self._dL_buffer
-            np.copyto(self._dL_full, self.filter.forward(self._dL_full))
+            np.copyto(self._dL_full, self.filter.forward_linear(self._dL_full))
             np.copyto(self._dL_buffer, self._dL_full[tsk.design_elements])
         if cfg.center_lagrangian:
             dL_mean = np.sum(
diff --git a/scikit-topt/sktopt/filters/base.py b/scikit-topt/sktopt/filters/base.py
index 7a73609..692f2ea 100644
--- a/scikit-topt/sktopt/filters/base.py
+++ b/scikit-topt/sktopt/filters/base.py
@@ -33,5 +33,10 @@ class BaseFilter():
     def run(self, rho_element: np.ndarray) -> np.ndarray:
         raise NotImplementedError("")
 
+    def forward_linear(self, v: np.ndarray) -> np.ndarray:
+        """Smooth a sensitivity-like field: ``forward`` without the solid
+        values it imposes on non-design regions."""
+        return self.forward(v) - self.forward(np.zeros_like(v))
+
     def gradient(self, v: np.ndarray) -> np.ndarray:
         raise NotImplementedError("")
diff --git a/scikit-topt/sktopt/filters/spacial.py b/scikit-topt/sktopt/filters/spacial.py
index 3e9cb5a..e89279f 100644
--- a/scikit-topt/sktopt/filters/spacial.py
+++ b/scikit-topt/sktopt/filters/spacial.py
@@ -156,6 +156,9 @@ class SpacialFilter(BaseFilter):
 
         return rho_filtered
 
+    def forward_linear(self, v: np.ndarray) -> np.ndarray:
+        return self.forward(v)
+
     def gradient(self, v: np.ndarray) -> np.ndarray:
         if self.design_mask is None:
             return self.W.T @ v
-- 
2.43.0


From 71a002cd05ba42c1d83f5081b73037a0ef6991b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 29/57] fix: Dirichlet elements excluded from the design are
 not fixed elements

---
 scikit-topt/sktopt/mesh/task_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 662be9d..57a0f99 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -414,6 +414,9 @@ class FEMDomain():
         self.design_elements = setdiff1d(
             self.design_elements, self.dirichlet_elements
         )
+        self.fixed_elements = setdiff1d(
+            self.all_elements, self.design_elements
+        )
 
     def scale(
         self,
-- 
2.43.0


From 4a8072f594f6d424cdf56c3ccc6f87e8c1c3bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 30/57] fix: a run ending with no element above the export
 threshold crashes before saving histories

---
 scikit-topt/sktopt/mesh/visualization.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/visualization.py b/scikit-topt/sktopt/mesh/visualization.py
index 0b1b51a..16d8e29 100644
--- a/scikit-topt/sktopt/mesh/visualization.py
+++ b/scikit-topt/sktopt/mesh/visualization.py
@@ -1,5 +1,9 @@
+import os
+
 import numpy as np
 import sktopt
+from sktopt.tools.logconf import mylogger
+logger = mylogger(__name__)
 
 
 def setdiff1d(a, b):
@@ -21,6 +25,12 @@ def export_submesh(
     kept_elements = setdiff1d(
         tsk.all_elements, remove_elements
     )
+    if kept_elements.size == 0:
+        # a mesh without elements cannot be built; leave no outdated one either
+        logger.warning(f"no element above {threshold}: {dst_path} is not written")
+        if os.path.exists(dst_path):
+            os.remove(dst_path)
+        return
     kept_t = mesh.t[:, kept_elements]
     unique_vertex_indices = np.unique(kept_t)
     new_points = np.ascontiguousarray(mesh.p[:, unique_vertex_indices])
-- 
2.43.0


From 75a05784776270623de6f61cf683dd04850acd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 31/57] fix: exported hexahedra list their corners in the wrong
 order

---
 scikit-topt/sktopt/core/visualization.py | 6 +++++-
 scikit-topt/sktopt/mesh/task_common.py   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/visualization.py b/scikit-topt/sktopt/core/visualization.py
index e9bdee3..aa8b180 100644
--- a/scikit-topt/sktopt/core/visualization.py
+++ b/scikit-topt/sktopt/core/visualization.py
@@ -6,6 +6,7 @@ from typing import Optional
 import numpy as np
 import imageio.v2 as imageio
 import skfem
+from skfem.io.meshio import HEX_MAPPING
 import meshio
 import matplotlib.pyplot as plt
 
@@ -51,10 +52,13 @@ def export_mesh_with_info(
         Output filename (e.g., "result.vtu").
     """
     # Determine element type
+    cells_t = mesh.t
     if isinstance(mesh, skfem.MeshTet):
         cell_type = "tetra"
     elif isinstance(mesh, skfem.MeshHex):
         cell_type = "hexahedron"
+        # skfem numbers the corners of a hexahedron differently from VTK
+        cells_t = cells_t[HEX_MAPPING[:8]]
     else:
         raise ValueError(f"Unsupported mesh type: {type(mesh)}")
 
@@ -77,7 +81,7 @@ def export_mesh_with_info(
     # Build and write meshio.Mesh
     meshio_mesh = meshio.Mesh(
         points=points,
-        cells=[meshio.CellBlock(cell_type, mesh.t.T)],
+        cells=[meshio.CellBlock(cell_type, cells_t.T)],
         point_data=point_data,
         cell_data=cell_data
     )
diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 57a0f99..24cdec1 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -369,11 +369,15 @@ class FEMDomain():
         self, dst_path: str
     ):
         import meshio
+        from skfem.io.meshio import HEX_MAPPING
         mesh = self.basis.mesh
+        cells_t = mesh.t
         if isinstance(mesh, skfem.MeshTet):
             cell_type = "tetra"
         elif isinstance(mesh, skfem.MeshHex):
             cell_type = "hexahedron"
+            # skfem numbers the corners of a hexahedron differently from VTK
+            cells_t = cells_t[HEX_MAPPING[:8]]
         else:
             raise ValueError("Unsupported mesh type for VTU export.")
 
@@ -398,7 +402,7 @@ class FEMDomain():
         element_colors_df[self.free_elements] = 1
         element_colors_df[self.fixed_elements] = 2
         element_colors_df[self.design_elements] = 3
-        cells = [(cell_type, mesh.t.T)]
+        cells = [(cell_type, cells_t.T)]
         cell_outputs = dict()
         cell_outputs["condition"] = [element_colors_df]
 
-- 
2.43.0


From fcc722163498c68153acc39bcdf6c1d841d04a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 32/57] fix: fix_tetrahedron_orientation_numba does not compile

---
 scikit-topt/sktopt/mesh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index 2347c3b..7238d1f 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -115,7 +115,7 @@ def fix_tetrahedron_orientation_numba(t, p):
         tetrahedron is adjusted (if needed) to ensure positive volume.
     """
 
-    t_fixed = np.array(t, copy=True)
+    t_fixed = t.copy()
     n_elem = t.shape[1]
     for e in prange(n_elem):
         n0, n1, n2, n3 = t_fixed[:, e]
-- 
2.43.0


From da98a92462588e11bfb57811e652dc398dc7e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 33/57] fix: a schedule option without a step count crashes the
 command line

---
 scikit-topt/sktopt/core/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index db80a98..b1421bf 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -180,6 +180,8 @@ def args2OC_Config_dict(args) -> dict:
                 stype = "Step"
         else:
             stype = "Step"
+        if stype != "None" and args[f"{keyw}_step"] is None:
+            stype = "Constant"
 
         ret[keyw] = tools.SchedulerConfig.from_defaults(
             name=keyw,
-- 
2.43.0


From 00c61778fc3de788533eea177e702593bcdd09cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 34/57] fix: load_stiffness_matrix passes E and nu as Lame
 parameters

---
 scikit-topt/sktopt/mesh/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/loader.py b/scikit-topt/sktopt/mesh/loader.py
index 2696015..6314da3 100644
--- a/scikit-topt/sktopt/mesh/loader.py
+++ b/scikit-topt/sktopt/mesh/loader.py
@@ -3,7 +3,7 @@ import numpy as np
 
 import meshio
 import skfem
-from skfem.models.elasticity import linear_elasticity
+from skfem.models.elasticity import lame_parameters, linear_elasticity
 
 
 def basis_from_file(
@@ -39,7 +39,9 @@ def load_stiffness_matrix(
     nu: float = 0.3
 ) -> np.ndarray:
     basis = basis_from_file(mesh_path)
-    stiffness_mat = skfem.asm(linear_elasticity(E, nu), basis)
+    stiffness_mat = skfem.asm(
+        linear_elasticity(*lame_parameters(E, nu)), basis
+    )
     return stiffness_mat
 
 
-- 
2.43.0


From b370f51be2d3ceb69d3df19278256723e715037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 35/57] fix: toy_msh pull windows are tuples of tuples and
 crash

---
 scikit-topt/sktopt/mesh/toy_problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/toy_problem.py b/scikit-topt/sktopt/mesh/toy_problem.py
index 30482a8..d7c76d5 100644
--- a/scikit-topt/sktopt/mesh/toy_problem.py
+++ b/scikit-topt/sktopt/mesh/toy_problem.py
@@ -221,14 +221,14 @@ def toy_msh(
         force_value = -800
 
     elif task_elastic_name == "pull":
-        x_range = (x_len-eps, x_len+0.05),
+        x_range = (x_len-eps, x_len+0.05)
         y_range = (y_len*2/5, y_len*3/5)
         z_range = (z_len*2/5, z_len*3/5)
         force_dir_type = "u^1"
         force_value = 1200.0
     elif task_elastic_name == "pull_2":
-        x_range = (x_len-eps, x_len+0.05),
-        y_range = (y_len/2.0-eps, y_len/2+eps),
+        x_range = (x_len-eps, x_len+0.05)
+        y_range = (y_len/2.0-eps, y_len/2+eps)
         z_range = (z_len*2/5, z_len*3/5)
         force_dir_type = "u^1"
         force_value = 200.0
-- 
2.43.0


From 003d55b82d6fa151ccc241bb18a0228b821b03fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 36/57] fix: force_nodes returns the loaded elements

---
 scikit-topt/sktopt/mesh/task_elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 74a14ec..76ee96f 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -133,7 +133,7 @@ class LinearElasticity(FEMDomain):
 
     @property
     def force_nodes(self):
-        return self.neumann_elements
+        return self.neumann_nodes
 
     @force_nodes.setter
     def force_nodes(self, value):
-- 
2.43.0


From 489e7feeaa47aaa7e866b7cd037115fbaa769954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 37/57] fix: stress_tensor_skfem returns element integrals
 instead of stress

---
 scikit-topt/sktopt/fea/composer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scikit-topt/sktopt/fea/composer.py b/scikit-topt/sktopt/fea/composer.py
index 8001557..0632958 100644
--- a/scikit-topt/sktopt/fea/composer.py
+++ b/scikit-topt/sktopt/fea/composer.py
@@ -480,13 +480,11 @@ def stress_tensor_skfem(
     lam_elem = np.tile(lam_elem, (n_qp, 1))  # shape: (n_qp, n_elements)
     mu_elem = np.tile(mu_elem, (n_qp, 1))
 
-    stress_tensor = compute_element_stress_tensor.elemental(
-        basis,
-        uh=uh,
-        # uh=u,
-        lam_elem=lam_elem, mu_elem=mu_elem
+    # stress values, not their integrals over the elements
+    stress_tensor = compute_element_stress_tensor.form(
+        dict(uh=uh, lam_elem=lam_elem, mu_elem=mu_elem)
     )
-    return stress_tensor  # shape: (n_elem, n_qp, 3, 3)
+    return stress_tensor  # shape: (3, 3, n_elem, n_qp)
 
 
 def von_mises_from_stress_tensor(stress_tensor: np.ndarray) -> np.ndarray:
-- 
2.43.0


From d5af198a730e760132df3aa35e3f9ea113c7d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 38/57] fix: heat energy density has a spurious leading axis

---
 scikit-topt/sktopt/fea/solver_heat.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index fddc1de..331618c 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -270,7 +270,6 @@ def solve_multi_load(
 def _heat_energy_density_(w):
     gradT = w['Th'].grad  # shape: (3, nqp, nelems)
     k_elem = w['k_elem'].T  # (nelems, nqp)
-    k_elem = k_elem[None, :, :]  # (1, nqp, nelems)
     # use 0.5 * k |∇T|^2 so that dC/drho = -2 * energy * (dk/drho) / k
     return 0.5 * k_elem * dot(gradT, gradT)
 
-- 
2.43.0


From 665906ebe5896b6d27a05686bd49b4bfaf16f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 39/57] fix: build_element_adjacency_matrix stores shared-node
 counts

---
 scikit-topt/sktopt/mesh/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index 7238d1f..c6b4d84 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -157,6 +157,8 @@ def build_element_adjacency_matrix(mesh):
     adjacency = csr_matrix(
         (data, (rows, cols)), shape=(num_elements, num_elements)
     )
+    # entries of elements sharing several nodes have been summed
+    adjacency.data[:] = 1
 
     return adjacency
 
-- 
2.43.0


From 7e0450f771b6c6395caad6ce8d9d4ac524c01153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 40/57] fix: plot_bar draws sections of equal label on top of
 each other

---
 scikit-topt/sktopt/tools/timer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/tools/timer.py b/scikit-topt/sktopt/tools/timer.py
index 261178e..2ece20a 100644
--- a/scikit-topt/sktopt/tools/timer.py
+++ b/scikit-topt/sktopt/tools/timer.py
@@ -373,7 +373,7 @@ class SectionTimer:
             ]
         data = [metric_map[value](s) for s in stats]
         if moving_average:
-            data = self._update_running_average(names, data)
+            data = self._update_running_average([s.name for s in stats], data)
 
         fig = None
         if ax is None:
@@ -383,7 +383,10 @@ class SectionTimer:
             fig = Figure(figsize=(6, 0.4 * len(stats) + 1))
             ax = fig.add_subplot(111)
 
-        ax.barh(names, data, color=color)
+        # displayed names may repeat: one bar per section, not per label
+        ax.barh(range(len(names)), data, color=color)
+        ax.set_yticks(range(len(names)))
+        ax.set_yticklabels(names)
         ax.set_xlabel(f"{value} [s]" if value in ("total", "avg", "max") else value)
         ax.set_title("Section timing")
         ax.invert_yaxis()
-- 
2.43.0


From 003fe5a5cca56046817ca807b0208ecfe931ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:08 +0000
Subject: [PATCH 41/57] fix: solve_multi_load returns the enforced load vectors
 for a single load case too

---
 scikit-topt/sktopt/fea/solver_elastic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_elastic.py b/scikit-topt/sktopt/fea/solver_elastic.py
index 99f35f2..594af20 100644
--- a/scikit-topt/sktopt/fea/solver_elastic.py
+++ b/scikit-topt/sktopt/fea/solver_elastic.py
@@ -319,7 +319,7 @@ def solve_multi_load(
     )
 
     if len(force_list) == 1:
-        compliance, u = compute_compliance_basis(
+        _, u = compute_compliance_basis(
             basis, free_dofs, dirichlet_dofs, force_list[0],
             E0, Emin, p, nu0,
             rho,
@@ -328,7 +328,9 @@ def solve_multi_load(
             timer=timer,
         )
         u_all[:, 0] = u
-        return np.array([compliance])
+        F_stack = np.array(force_list[0], dtype=float)[:, None]
+        F_stack[dirichlet_dofs, :] = 0.0
+        return F_stack
 
     # Multi-load currently supports direct LU or PETSc.
     if solver_cfg.solver not in ('auto', 'spsolve', 'petsc', 'petsc_spdirect'):
-- 
2.43.0


From 30dcd1b2d78ac55933f3d7bef1162fdf98b84de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 42/57] fix: an integer percentile scales the sensitivities
 like the equal float

---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 2 +-
 scikit-topt/sktopt/core/optimizers/oc.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index f5fce74..d819801 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -216,7 +216,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
             self._dL_buffer -= dL_mean
 
         scale_percentile = cfg.lagrangian_percentile
-        if isinstance(percentile, float):
+        if percentile is not None:
             scale_percentile = percentile
         scale = np.percentile(np.abs(self._dL_buffer), scale_percentile)
         scale = max(scale, cfg.lagrangian_scale_floor)
diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index cf0d3e3..bd51432 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -186,7 +186,7 @@ class OC_Optimizer(common_density.DensityMethod):
 
         eps = 1e-12
         with self._timed_section("percentile_scale"):
-            if isinstance(percentile, float):
+            if percentile is not None:
                 scale = np.percentile(np.abs(dC_drho_design_eles), percentile)
             else:
                 scale = np.max(np.abs(dC_drho_design_eles))
-- 
2.43.0


From 7ff8a5581c8f1fb371ee8eb780dfb4ac818f219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:01 +0000
Subject: [PATCH 43/57] fix: heat tasks accept integer temperatures and
 convection data

---
 scikit-topt/sktopt/fea/solver_heat.py  | 3 ++-
 scikit-topt/sktopt/mesh/task_common.py | 3 ++-
 scikit-topt/sktopt/mesh/task_heat.py   | 7 ++++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 331618c..d33014b 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+from numbers import Real
 from typing import Callable, Literal
 
 import numpy as np
@@ -729,7 +730,7 @@ class FEM_SimpLinearHeatConduction():
 
         basis = self.task.basis
         if len(dirichlet_nodes_list) > 1 and isinstance(
-            self.task.dirichlet_values, float
+            self.task.dirichlet_values, Real
         ):
             dirichlet_nodes_list = [
                 np.unique(np.concatenate(dirichlet_nodes_list))
diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 24cdec1..a4eb83c 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -1,5 +1,6 @@
 from typing import Union, List, Literal, Optional
 from dataclasses import dataclass
+from numbers import Real
 
 import numpy as np
 import skfem
@@ -123,7 +124,7 @@ class FEMDomain():
             if isinstance(dirichlet_nodes, list):
                 if dirichlet_dir is None:
                     is_list = isinstance(dirichlet_values, list)
-                    is_float = isinstance(dirichlet_values, float)
+                    is_float = isinstance(dirichlet_values, Real)
                     assert is_list | is_float
                     if is_list:
                         assert len(dirichlet_nodes) == len(dirichlet_values)
diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index 19ed3fb..828d6a8 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -1,5 +1,6 @@
 from typing import Union, List, Literal, Optional
 from dataclasses import dataclass
+from numbers import Real
 
 import numpy as np
 import skfem
@@ -71,10 +72,10 @@ def assemble_surface_robin(
     facets_list = _to_list(robin_facets_ids)
     robin_h_list = [
         robin_coefficient for _ in range(len(facets_list))
-    ] if isinstance(robin_coefficient, float) else robin_coefficient
+    ] if isinstance(robin_coefficient, Real) else robin_coefficient
     robin_Tenv_list = [
         robin_bc_value for _ in range(len(facets_list))
-    ] if isinstance(robin_bc_value, float) else robin_bc_value
+    ] if isinstance(robin_bc_value, Real) else robin_bc_value
 
     if not (len(facets_list) == len(robin_h_list) == len(robin_Tenv_list)):
         raise ValueError(
@@ -164,7 +165,7 @@ class LinearHeatConduction(FEMDomain):
 
     @property
     def n_tasks(self) -> int:
-        ret = 1 if isinstance(self.dirichlet_values, float) \
+        ret = 1 if isinstance(self.dirichlet_values, Real) \
             else len(self.dirichlet_values)
         return ret
 
-- 
2.43.0


From 446453a4b3cf63a4c325a353d4cb2197a646222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 44/57] fix: several temperatures on one support region are one
 load case each

---
 scikit-topt/sktopt/fea/solver_heat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index d33014b..8ead3fc 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -735,6 +735,10 @@ class FEM_SimpLinearHeatConduction():
             dirichlet_nodes_list = [
                 np.unique(np.concatenate(dirichlet_nodes_list))
             ]
+        elif len(dirichlet_nodes_list) == 1:
+            # one region held at each of the temperatures in turn
+            dirichlet_nodes_list = \
+                dirichlet_nodes_list * len(dirichlet_values_list)
         robin_bilinear = list(self.task.robin_bilinear or [])
         robin_linear = list(self.task.robin_linear or [])
         rho_nodal = None
-- 
2.43.0


From 454c14ca229a5a0d33939843b45b8618c1b1bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:39 +0000
Subject: [PATCH 45/57] fix: in-place RAMP sensitivity is right when its output
 is one of its inputs

---
 scikit-topt/sktopt/core/derivatives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/derivatives.py b/scikit-topt/sktopt/core/derivatives.py
index 3a33365..d95bf89 100644
--- a/scikit-topt/sktopt/core/derivatives.py
+++ b/scikit-topt/sktopt/core/derivatives.py
@@ -83,7 +83,9 @@ def dC_drho_ramp_inplace(rho, strain_energy, out, E0, Emin, p):
     In-place version of dC_drho_ramp.
     Computes the derivative of compliance and stores in `out`.
     """
-    dE_drho_ramp_inplace(rho, out, E0, Emin, p)
+    # evaluated first, since `out` may be one of the inputs
     E_elem = _E_ramp(rho, E0, Emin, p)
+    weight = -2.0 * strain_energy
+    dE_drho_ramp_inplace(rho, out, E0, Emin, p)
     np.divide(out, np.maximum(E_elem, 1e-12), out=out)
-    out *= -2.0 * strain_energy
+    out *= weight
-- 
2.43.0


From 712043f831d5cd0f40f3ae63f3cd9953ad208da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:42 +0000
Subject: [PATCH 46/57] fix: spatial filter does not truncate an integer
 density field

---
 scikit-topt/sktopt/filters/spacial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/filters/spacial.py b/scikit-topt/sktopt/filters/spacial.py
index e89279f..733d613 100644
--- a/scikit-topt/sktopt/filters/spacial.py
+++ b/scikit-topt/sktopt/filters/spacial.py
@@ -147,7 +147,7 @@ class SpacialFilter(BaseFilter):
             volume_correction=False,
             design_mask=self.design_mask
         )
-        rho_filtered = np.copy(rho_element)
+        rho_filtered = np.array(rho_element, dtype=float)
         if self.design_mask is None:
             rho_filtered[:] = self.W @ rho_element
         else:
-- 
2.43.0


From 36061a093a712a9fd7621267733e33068060ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:29 +0000
Subject: [PATCH 47/57] fix: history views also return series whose first value
 is not a Python float

---
 scikit-topt/sktopt/tools/history.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index a8ea4e3..f57d2e0 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -113,11 +113,8 @@ class HistorySeries():
         """
 
         try:
-            value = self.data[0]
-            if isinstance(value, float):
-                return np.array(self.data)
-            elif isinstance(value, list) or isinstance(value, np.ndarray):
-                return np.array(self.data)
+            self.data[0]
+            return np.array(self.data)
 
         except Exception as e:
             raise ValueError(f"data not exit {e}")
-- 
2.43.0


From 88fb0fbc3cf5b3a5909ee163955167ebde2236dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:10 +0000
Subject: [PATCH 48/57] fix: a load region naming a facet twice loads it once

---
 scikit-topt/sktopt/mesh/task_elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 76ee96f..0eccbeb 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -53,7 +53,7 @@ def assemble_surface_forces(
         comp = _dir_to_comp(dir_s)
         fb = FacetBasis(
             basis.mesh, basis.elem,
-            facets=np.asarray(facets, dtype=int)
+            facets=np.unique(np.asarray(facets, dtype=int))
         )
 
         A = asm(l_one, fb)
-- 
2.43.0


From ab39a2bd986b8c1d248927b398088662cbddb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:20 +0000
Subject: [PATCH 49/57] fix: a convection or flux region naming a facet twice
 counts it once

---
 scikit-topt/sktopt/mesh/task_heat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index 828d6a8..9854f40 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -45,7 +45,7 @@ def assemble_surface_neumann(
     for facets, q_flux in zip(facets_list, vals_list):
         fb = FacetBasis(
             basis.mesh, basis.elem,
-            facets=np.asarray(facets, dtype=int)
+            facets=np.unique(np.asarray(facets, dtype=int))
         )
 
         @skfem.LinearForm
@@ -106,7 +106,7 @@ def assemble_surface_robin(
     ):
         fb = FacetBasis(
             basis.mesh, basis.elem,
-            facets=np.asarray(facets, dtype=int)
+            facets=np.unique(np.asarray(facets, dtype=int))
         )
         if rho_field is not None:
             rho_facet = fb.interpolate(rho_nodal)
-- 
2.43.0


From 4244e87e155c6d92bb6350d25ef1abcddd258bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:20 +0000
Subject: [PATCH 50/57] fix: an element named twice in the design set is one
 design element

---
 scikit-topt/sktopt/mesh/task_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index a4eb83c..927fbe8 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -223,6 +223,9 @@ class FEMDomain():
                 [elements_excluded, robin_elements]
             )
 
+        # an element named twice is still one design element
+        _, first = np.unique(design_elements, return_index=True)
+        design_elements = np.asarray(design_elements)[np.sort(first)]
         design_elements = setdiff1d(design_elements, elements_excluded)
         if len(design_elements) == 0:
             error_msg = "⚠️Warning: `design_elements` is empty"
-- 
2.43.0


From 762d460cdacd90bebd5e0f17d091728b47326b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 51/57] fix: plotting does not clear or close the caller's
 figures

---
 scikit-topt/sktopt/core/visualization.py | 3 +--
 scikit-topt/sktopt/mesh/task_common.py   | 3 +--
 scikit-topt/sktopt/tools/history.py      | 3 +--
 scikit-topt/sktopt/tools/scheduler.py    | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/scikit-topt/sktopt/core/visualization.py b/scikit-topt/sktopt/core/visualization.py
index aa8b180..438535a 100644
--- a/scikit-topt/sktopt/core/visualization.py
+++ b/scikit-topt/sktopt/core/visualization.py
@@ -177,7 +177,6 @@ def rho_histo_plot(
     rho: np.ndarray,
     dst_path: str
 ):
-    plt.clf()
     fig, ax = plt.subplots(1, 1, figsize=(8, 6))
     ax.hist(rho.flatten(), bins=50)
     ax.set_xlabel("Density (rho)")
@@ -185,7 +184,7 @@ def rho_histo_plot(
     ax.set_title("Density Distribution")
     ax.grid(True)
     fig.savefig(dst_path)
-    plt.close("all")
+    plt.close(fig)
 
 
 def images2gif(
diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 927fbe8..13e7441 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -476,7 +476,6 @@ class FEMDomain():
         print(f"median: {np.median(element_nearest_dists):.4f}")
         print(f"std:    {np.std(element_nearest_dists):.4f}")
 
-        plt.clf()
         fig, axs = plt.subplots(2, 3, figsize=(14, 6))
 
         axs[0, 0].hist(node_nearest_dists, bins=30, edgecolor='black')
@@ -530,4 +529,4 @@ class FEMDomain():
 
         fig.tight_layout()
         fig.savefig(f"{dst_path}/info-nodes-elements.jpg")
-        plt.close("all")
+        plt.close(fig)
diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index f57d2e0..8c97dd3 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -454,7 +454,6 @@ class HistoryCollection():
 
         if fname is None:
             fname = "progress.jpg"
-        plt.clf()
         num_graphs = len(self.histories)
         graphs_per_page = 8
         num_pages = math.ceil(num_graphs / graphs_per_page)
@@ -526,7 +525,7 @@ class HistoryCollection():
 
             fig.tight_layout()
             fig.savefig(f"{self.dst_path}/{page_index}{fname}")
-            plt.close("all")
+            plt.close(fig)
 
     def histories_to_array(self) -> dict[str, np.ndarray]:
         """
diff --git a/scikit-topt/sktopt/tools/scheduler.py b/scikit-topt/sktopt/tools/scheduler.py
index dce2648..2a160ff 100644
--- a/scikit-topt/sktopt/tools/scheduler.py
+++ b/scikit-topt/sktopt/tools/scheduler.py
@@ -1231,7 +1231,6 @@ class Schedulers():
 
         if fname is None:
             fname = "progress.jpg"
-        plt.clf()
         num_graphs = len(schedules)
         graphs_per_page = 8
         num_pages = math.ceil(num_graphs / graphs_per_page)
@@ -1275,4 +1274,4 @@ class Schedulers():
             fig.tight_layout()
             print(f"{self.dst_path}/schedule-{page_index}-{fname}")
             fig.savefig(f"{self.dst_path}/schedule-{page_index}-{fname}")
-            plt.close("all")
+            plt.close(fig)
-- 
2.43.0


From 76cb4efa2f074f292bfeaaa65e53117f74a26f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:10 +0000
Subject: [PATCH 52/57] fix: the volume chart counts an absent kind of region
 as nothing

---
 scikit-topt/sktopt/mesh/task_common.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 13e7441..86688d9 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -508,11 +508,14 @@ class FEMDomain():
         items = [
             "all", "dirichlet", "force", "design"
         ]
+        # indexing with None would give the whole domain
         values = [
-            np.sum(self.elements_volume),
-            np.sum(self.elements_volume[self.dirichlet_elements]),
-            np.sum(self.elements_volume[self.neumann_elements]),
-            np.sum(self.elements_volume[self.design_elements])
+            0.0 if elements is None
+            else np.sum(self.elements_volume[elements])
+            for elements in (
+                self.all_elements, self.dirichlet_elements,
+                self.neumann_elements, self.design_elements
+            )
         ]
         bars = axs[1, 2].bar(items, values)
         # axs[1, 0].bar_label(bars)
-- 
2.43.0


From 5025f8953a922b9fd499f22fbbcb06f73b673f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:10 +0000
Subject: [PATCH 53/57] fix: stacked timing bars do not subtract the children
 twice

---
 scikit-topt/sktopt/tools/timer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/tools/timer.py b/scikit-topt/sktopt/tools/timer.py
index 2ece20a..f92c441 100644
--- a/scikit-topt/sktopt/tools/timer.py
+++ b/scikit-topt/sktopt/tools/timer.py
@@ -314,7 +314,9 @@ class SectionTimer:
                     for ch in child_names
                 ]
                 child_sum = sum(child_vals)
-                self_val = max(p_val - child_sum, 0.0)
+                # with use_self_time the children are already subtracted
+                self_val = p_val if use_self_time \
+                    else max(p_val - child_sum, 0.0)
 
                 left = 0.0
                 lbl_self = f"{name} (self)"
-- 
2.43.0


From 6ae75fd3ce0aa0bb4f41cac2e71e57588252e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:10 +0000
Subject: [PATCH 54/57] fix: naming a schedule leaves the caller's
 configuration alone

---
 scikit-topt/sktopt/tools/scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/tools/scheduler.py b/scikit-topt/sktopt/tools/scheduler.py
index 2a160ff..67149f2 100644
--- a/scikit-topt/sktopt/tools/scheduler.py
+++ b/scikit-topt/sktopt/tools/scheduler.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from typing import Callable
 from typing import Optional
 from typing import Literal
@@ -1196,7 +1196,8 @@ class Schedulers():
         rewrite_name: str | None
     ):
         if isinstance(rewrite_name, str):
-            cfg.name = rewrite_name
+            # the caller's object keeps its own name
+            cfg = replace(cfg, name=rewrite_name)
 
         self.add_object(
             Scheduler.from_config(cfg)
-- 
2.43.0


From f8a03d01d3832240ee417d5d435be201917c1c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:10 +0000
Subject: [PATCH 55/57] fix: a call after an interrupted one goes on with the
 next iteration

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 1cd0bee..5e74ffb 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1142,6 +1142,9 @@ class DensityMethod(DensityMethodBase):
                     rho[tsk.neumann_elements] = 1.0
             else:
                 rho[tsk.dirichlet_neumann_elements] = 1.0
+            # the design now belongs to this iteration: a call made after an
+            # interruption must not count it again
+            self._iter_next = iter_num + 1
 
             with self._timed_section("record_metrics"):
                 rho_change_max = float(
-- 
2.43.0


From efe641ec4632187c7e082d6cae8de589b7f9d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:10 +0000
Subject: [PATCH 56/57] fix: an interrupted completion does not unscale the
 problem twice

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 5e74ffb..f620020 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -595,6 +595,7 @@ class DensityMethod(DensityMethodBase):
         self._iter_next: int | None = None
         self._iter_end: int | None = None
         self._completed: bool = False
+        self._unscaled: bool = False
 
     def add_recorder(
         self, tsk: sktopt.mesh.FEMDomain
@@ -960,8 +961,9 @@ class DensityMethod(DensityMethodBase):
         if state is None:
             return
         rho = state.rho
-        if cfg.scaling is True:
+        if cfg.scaling is True and not self._unscaled:
             self.unscale()
+            self._unscaled = True
         visualization.rho_histo_plot(
             rho[tsk.design_elements],
             f"{self.cfg.dst_path}/mesh_rho/last.jpg"
-- 
2.43.0


From 0434245928f98681a85e33248136dc7522d9424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:40 +0000
Subject: [PATCH 57/57] fix: animations are made of directories whose names
 hold wildcard characters

---
 scikit-topt/sktopt/core/visualization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/visualization.py b/scikit-topt/sktopt/core/visualization.py
index 438535a..86245bc 100644
--- a/scikit-topt/sktopt/core/visualization.py
+++ b/scikit-topt/sktopt/core/visualization.py
@@ -195,7 +195,8 @@ def images2gif(
 ):
     from scipy.ndimage import zoom
 
-    file_pattern = f"{dir_path}/mesh_rho/info_{prefix}-*.jpg"
+    directory = glob.escape(str(dir_path))
+    file_pattern = f"{directory}/mesh_rho/info_{prefix}-*.jpg"
     image_files = sorted(glob.glob(file_pattern))
     if len(image_files) == 0:
         print("Files not found")
-- 
2.43.0

