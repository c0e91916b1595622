From b8411f3709e426a7b3e44f90ca9f5e75c6c80031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 01/25] fix: correct the sign in the RAMP stiffness derivative

E(rho) = Emin + (E0-Emin) * rho / (1+p(1-rho)) has the derivative
(E0-Emin) * (1+p(1-rho) + p*rho) / (1+p(1-rho))^2.
---
 scikit-topt/sktopt/core/derivatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/derivatives.py b/scikit-topt/sktopt/core/derivatives.py
index bcea868..3a33365 100644
--- a/scikit-topt/sktopt/core/derivatives.py
+++ b/scikit-topt/sktopt/core/derivatives.py
@@ -59,7 +59,7 @@ def dE_drho_ramp(rho, E0, Emin, p):
     E(rho) = Emin + (E0 - Emin) * rho / (1 + p * (1 - rho))
     """
     denom = 1.0 + p * (1.0 - rho)
-    return (E0 - Emin) * (denom - p * rho) / (denom ** 2)
+    return (E0 - Emin) * (denom + p * rho) / (denom ** 2)
 
 
 def dC_drho_ramp(rho, strain_energy, E0, Emin, p):
@@ -75,7 +75,7 @@ def dE_drho_ramp_inplace(rho, out, E0, Emin, p):
     """
     np.copyto(out, rho)
     denom = 1.0 + p * (1.0 - rho)
-    np.copyto(out, (E0 - Emin) * (denom - p * rho) / (denom ** 2))
+    np.copyto(out, (E0 - Emin) * (denom + p * rho) / (denom ** 2))
 
 
 def dC_drho_ramp_inplace(rho, strain_energy, out, E0, Emin, p):
-- 
2.43.0


From edf920d1548ee9aa30f69d909ae96a5994f098cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 02/25] fix: keep OC densities finite when a sensitivity is
 positive

---
 scikit-topt/sktopt/core/optimizers/oc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 7ffc448..f9cb5de 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -50,6 +50,8 @@ def bisection_with_physical_volume(
     while True:
         np.negative(dC, out=scaling_rate)
         scaling_rate /= (lmid + eps)
+        # A non-negative sensitivity has no real power; treat it as zero gain.
+        np.maximum(scaling_rate, 0.0, out=scaling_rate)
         np.power(scaling_rate, eta, out=scaling_rate)
         np.clip(
             scaling_rate, scaling_rate_min, scaling_rate_max,
-- 
2.43.0


From 0cacce3b6a9b036d1030065e77b4f0578ab9c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 03/25] fix: allow fewer iterations than recordings

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index a3377d8..0c63ed7 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1185,7 +1185,7 @@ class DensityMethod(DensityMethodBase):
 
             if any(
                 (
-                    iter_num % (cfg.max_iters // cfg.record_times) == 0,
+                    iter_num % max(1, cfg.max_iters // cfg.record_times) == 0,
                     iter_num == 1,
                     (conv_rho and conv_kkt),
                     (iter_num == iter_limit - 1)
-- 
2.43.0


From bc7149abd977ec02a148c5a71ce75e1734d19416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 04/25] fix: keep densities when there is no Neumann boundary
 and Dirichlet elements are designed

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 0c63ed7..536ddac 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -738,7 +738,8 @@ class DensityMethod(DensityMethodBase):
             iter_end = cfg.max_iters + 1
 
         if cfg.design_dirichlet is True:
-            rho[tsk.neumann_elements] = 1.0
+            if tsk.neumann_elements is not None:
+                rho[tsk.neumann_elements] = 1.0
         else:
             rho[tsk.dirichlet_neumann_elements] = 1.0
         rho[tsk.fixed_elements] = 1.0
@@ -1129,7 +1130,8 @@ class DensityMethod(DensityMethodBase):
                 )
             rho[tsk.design_elements] = rho_design_eles
             if cfg.design_dirichlet is True:
-                rho[tsk.neumann_elements] = 1.0
+                if tsk.neumann_elements is not None:
+                    rho[tsk.neumann_elements] = 1.0
             else:
                 rho[tsk.dirichlet_neumann_elements] = 1.0
 
-- 
2.43.0


From ed1f09c8782480796d005fc8b911c3850edc706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 05/25] fix: compute hexahedron volumes in scikit-fem node
 order

---
 scikit-topt/sktopt/fea/composer.py | 69 +++++++++++++-----------------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/scikit-topt/sktopt/fea/composer.py b/scikit-topt/sktopt/fea/composer.py
index 547a805..6e0c036 100644
--- a/scikit-topt/sktopt/fea/composer.py
+++ b/scikit-topt/sktopt/fea/composer.py
@@ -210,37 +210,33 @@ def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
     for e in prange(n_elements):
         n = t_conn[:, e]
 
-        #   7--------6
-        #  /|       /|
-        # 4--------5 |
-        # | |      | |
-        # | 3------|-2
-        # |/       |/
-        # 0--------1
+        # scikit-fem node order (x, y, z of the reference cube):
+        # 0:000 1:001 2:010 3:100 4:011 5:101 6:110 7:111
+        # Six tetrahedra around the diagonal 0-7.
         vol = 0.0
         vol += _tet_volume_numba(
-            p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[1]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[1]],
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
 
         elements_volume[e] = vol
@@ -271,39 +267,34 @@ def _get_elements_volume_hex_numba(t_conn, p_coords) -> np.ndarray:
     for e in prange(n_elements):
         n = t_conn[:, e]
 
-        # Tetra 6 division
-        #   7--------6
-        #  /|       /|
-        # 4--------5 |
-        # | |      | |
-        # | 3------|-2
-        # |/       |/
-        # 0--------1
+        # scikit-fem node order (x, y, z of the reference cube):
+        # 0:000 1:001 2:010 3:100 4:011 5:101 6:110 7:111
+        # Six tetrahedra around the diagonal 0-7.
 
         vol = 0.0
         vol += _tet_volume_numba(
-            p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[1]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[1]],
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
 
         elements_volume[e] = vol
-- 
2.43.0


From a6948274a1ae41173e3a24aa6e2defc65b8ab0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 06/25] fix: keep hexahedra untangled when flipping their
 orientation

---
 scikit-topt/sktopt/mesh/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index ee1067f..a7e3233 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -48,8 +48,10 @@ def fix_hexahedron_orientation(t, p):
         jac_det = np.dot(np.cross(v1, v2), v3)
 
         if jac_det < 0:
-            # Swap two nodes to flip orientation (commonly swap node 1 and 3)
+            # Mirror the element by exchanging two reference directions:
+            # nodes 1 (001) and 3 (100), and likewise 4 (011) and 6 (110)
             t_fixed[1, e], t_fixed[3, e] = t_fixed[3, e], t_fixed[1, e]
+            t_fixed[4, e], t_fixed[6, e] = t_fixed[6, e], t_fixed[4, e]
 
     return t_fixed
 
-- 
2.43.0


From 1ee4c13189272cab76e51c10bba247750be32ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 07/25] fix: do not reuse the element lookup of a mesh that no
 longer exists

---
 scikit-topt/sktopt/mesh/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index a7e3233..96057d9 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -1,4 +1,5 @@
 from collections import defaultdict
+import weakref
 import numpy as np
 from scipy.sparse import csr_matrix
 from numba import njit, prange
@@ -205,16 +206,20 @@ def get_elements_by_nodes(
         get_elements_by_nodes._cache = {}
 
     mesh_id = id(mesh)
-    if mesh_id not in get_elements_by_nodes._cache:
+    cached = get_elements_by_nodes._cache.get(mesh_id)
+    # An id can be reused once its mesh is gone: trust the entry only if it
+    # was built for this very mesh.
+    if cached is None or cached[0]() is not mesh:
         # Build: node index → set of element indices
         node_to_elements = defaultdict(set)
         # mesh.t.T: shape = (n_elements, nodes_per_element)
         for e, nodes in enumerate(mesh.t.T):
             for n in nodes:
                 node_to_elements[n].add(e)
-        get_elements_by_nodes._cache[mesh_id] = node_to_elements
+        cached = (weakref.ref(mesh), node_to_elements)
+        get_elements_by_nodes._cache[mesh_id] = cached
 
-    node_to_elements = get_elements_by_nodes._cache[mesh_id]
+    node_to_elements = cached[1]
 
     # Normalize target_nodes
     if isinstance(target_nodes, np.ndarray):
-- 
2.43.0


From bbbab09b75734c2d1a9d5c7d7d571d658c37cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 08/25] fix: keep histories that are registered but still empty
 across export and import

---
 scikit-topt/sktopt/tools/history.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 519a932..14d55b2 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -402,7 +402,8 @@ class HistoryCollection():
 
         obj = AttrObj()
         for name, hist in self.histories.items():
-            setattr(obj, name, hist.data_np_array)
+            if hist.exists():
+                setattr(obj, name, hist.data_np_array)
         return obj
 
     def as_object_latest(self):
@@ -423,7 +424,8 @@ class HistoryCollection():
 
         obj = AttrObj()
         for name, hist in self.histories.items():
-            setattr(obj, name, hist.data_np_array[-1])
+            if hist.exists():
+                setattr(obj, name, hist.data_np_array[-1])
         return obj
 
     def export_progress(self, fname: Optional[str] = None):
@@ -683,6 +685,11 @@ class HistoryCollection():
                     data=data_list
                 )
 
+        # Histories registered but not logged yet are not in the file
+        for name, history in self.histories.items():
+            if not history.exists():
+                new_histories.setdefault(name, history)
+
         # Replace histories with updated ones
         self.histories = new_histories
 
-- 
2.43.0


From a9341939e72f1bc5bed2bb56f7c49a89eb981928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:02 +0000
Subject: [PATCH 09/25] fix: let LogMOC restart from a checkpoint

---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index d003283..6ca60ef 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -86,6 +86,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         self._dV_projected_full = None
         self._dV_filtered_full = None
         self._dL_full = None
+        self.running_scale = None
 
     def rho_update(
         self,
@@ -220,7 +221,8 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         scale = np.percentile(np.abs(self._dL_buffer), scale_percentile)
         scale = max(scale, cfg.lagrangian_scale_floor)
         self.running_scale = 0.2 * self.running_scale + \
-            (1.0 - 0.2) * scale if iter_num > 1 else scale
+            (1.0 - 0.2) * scale \
+            if iter_num > 1 and self.running_scale is not None else scale
         logger.info(f"running_scale: {self.running_scale}")
         self._dL_buffer /= self.running_scale
 
-- 
2.43.0


From 13bd3d0f75ded839867cca37a0c43fef16860b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 10/25] fix: find checkpoints beyond iteration 999999 and
 ignore other files

---
 scikit-topt/sktopt/core/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index f7ad45d..db80a98 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -6,12 +6,12 @@ from sktopt import tools
 
 
 def find_latest_iter_file(dst_path: str):
-    pattern = re.compile(r"(\d{6})-rho\.npz")
+    pattern = re.compile(r"(\d{6,})-rho\.npz")
     max_iter = -1
     latest_file = None
 
     for fname in os.listdir(dst_path):
-        match = pattern.match(fname)
+        match = pattern.fullmatch(fname)
         if match:
             iter_num = int(match.group(1))
             if iter_num > max_iter:
-- 
2.43.0


From d028c1eb092a225315b34cf1be46116b97416bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 11/25] fix: accept command lines without continuation steps

---
 scikit-topt/sktopt/core/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index db80a98..a111db1 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -180,6 +180,9 @@ def args2OC_Config_dict(args) -> dict:
                 stype = "Step"
         else:
             stype = "Step"
+        if stype != "None" and args[f"{keyw}_step"] is None:
+            # no continuation requested
+            stype = "Constant"
 
         ret[keyw] = tools.SchedulerConfig.from_defaults(
             name=keyw,
-- 
2.43.0


From 81a8206858c5eca77f55a4e55a98b7ce484d9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:39 +0000
Subject: [PATCH 12/25] fix: restore schedules and solver options when
 importing a configuration

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 536ddac..ff162ef 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -317,6 +317,11 @@ class DensityMethodConfig():
             data = json.load(f)
         # Drop legacy keys that may linger in old configs.
         data.pop("record_timing", None)
+        for key, value in data.items():
+            if isinstance(value, dict):
+                data[key] = PETScOptions(**value) \
+                    if key == "petsc_options" \
+                    else tools.SchedulerConfig(**value)
         return cls(**data)
 
     def export(self, path: str):
-- 
2.43.0


From c6045cf0188acacad1172b3d6b4a1807c879c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:43 +0000
Subject: [PATCH 13/25] fix: multi-load wrappers passed an argument the solvers
 do not take

---
 scikit-topt/sktopt/fea/solver.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver.py b/scikit-topt/sktopt/fea/solver.py
index a3937e8..5ab2d6e 100644
--- a/scikit-topt/sktopt/fea/solver.py
+++ b/scikit-topt/sktopt/fea/solver.py
@@ -165,7 +165,6 @@ def solve_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
@@ -201,7 +200,6 @@ def compute_compliance_basis_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
-- 
2.43.0


From df058a7868baa4c7ec7d40854f2b3f5fe6c666e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:43 +0000
Subject: [PATCH 14/25] fix: nodal densities were averaged from the wrong
 elements

---
 scikit-topt/sktopt/fea/solver_heat.py | 4 ++--
 scikit-topt/sktopt/mesh/task_heat.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 037a157..6708892 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -607,7 +607,7 @@ def _element_to_nodal_average(
 
     rho_nodal = np.zeros(nvert, dtype=float)
     count = np.zeros(nvert, dtype=float)
-    np.add.at(rho_nodal, t.ravel(), np.repeat(rho, nloc))
+    np.add.at(rho_nodal, t.ravel(), np.tile(rho, nloc))
     np.add.at(count, t.ravel(), 1.0)
     rho_nodal /= np.maximum(count, 1.0)
     return rho_nodal, count
@@ -732,7 +732,7 @@ class FEM_SimpLinearHeatConduction():
 
             rho_nodal = np.zeros(nvert, dtype=float)
             count = np.zeros(nvert, dtype=float)
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, k))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, k))
             np.add.at(count,     t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1.0)
 
diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index bad0ae5..19ed3fb 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -90,7 +90,7 @@ def assemble_surface_robin(
             rho_nodal = np.zeros(basis.mesh.nvertices)
             count = np.zeros(basis.mesh.nvertices)
             t = basis.mesh.t
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, t.shape[0]))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, t.shape[0]))
             np.add.at(count, t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1)
         else:
-- 
2.43.0


From c13bc43e5e11fc7a52857251ec1f46f4e9d2455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:18 +0000
Subject: [PATCH 15/25] fix: heat load cases with different Dirichlet nodes
 used the first case's matrix

---
 scikit-topt/sktopt/fea/solver_heat.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 6708892..d140531 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -155,6 +155,25 @@ def solve_heat_system_multi(
         u_all[:, :] = 0.0
         return K_csr
 
+    # K_e depends on the Dirichlet DOF set, so only load cases that share
+    # the set can be solved together.
+    groups: dict[tuple, list[int]] = {}
+    for i, D_i in enumerate(dirichlet_dofs_list):
+        groups.setdefault(tuple(np.unique(D_i.flatten())), []).append(i)
+    if len(groups) > 1:
+        for loads in groups.values():
+            u_loads = np.zeros((u_all.shape[0], len(loads)))
+            K_e = solve_heat_system_multi(
+                K_csr,
+                emit,
+                [dirichlet_dofs_list[i] for i in loads],
+                [dirichlet_values_list[i] for i in loads],
+                u_loads,
+                solver_config,
+            )
+            u_all[:, loads] = u_loads
+        return K_e
+
     D0 = dirichlet_dofs_list[0]
     val0 = dirichlet_values_list[0]
     K_e, _ = skfem.enforce(
-- 
2.43.0


From 083e6fc285a83cc7494e14038450e79af3bd55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 16/25] fix: heat sensitivities used the SIMP derivative with
 RAMP interpolation

---
 scikit-topt/sktopt/fea/solver_heat.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index d140531..4a43d1c 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -958,10 +958,13 @@ class FEM_SimpLinearHeatConduction():
         n_elem, n_loads = energy.shape
         grad_all = np.zeros((n_elem, n_loads), dtype=float)
 
-        for i in range(n_loads):
-            from sktopt.core import derivatives
+        from sktopt.core import derivatives
+        dC_drho = derivatives.dC_drho_ramp \
+            if self.density_interpolation is composer.ramp_interpolation \
+            else derivatives.dC_drho_simp
 
-            grad_all[:, i] = derivatives.dC_drho_simp(
+        for i in range(n_loads):
+            grad_all[:, i] = dC_drho(
                 rho, energy[:, i], self.k_max, self.k_min, p
             )
 
-- 
2.43.0


From 2f3104a6f79f6803ae17752719b805dc0ae5c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:04 +0000
Subject: [PATCH 17/25] fix: lists of Robin coefficients failed in the heat
 objective

---
 scikit-topt/sktopt/fea/solver_heat.py | 39 ++++++++++++++-------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 4a43d1c..ef1c756 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -721,6 +721,15 @@ class FEM_SimpLinearHeatConduction():
         self.q = q
         self._warned_robin_compliance = False
 
+    def _robin_pairs(self) -> list[tuple[float, float]]:
+        """(coefficient, ambient temperature) of every Robin boundary."""
+        h = self.task.robin_coefficient
+        T_env = self.task.robin_bc_value
+        n = max(len(v) if isinstance(v, list) else 1 for v in (h, T_env))
+        h_list = h if isinstance(h, list) else [h] * n
+        Tenv_list = T_env if isinstance(T_env, list) else [T_env] * n
+        return list(zip(h_list, Tenv_list))
+
     def objectives_multi_load(
         self,
         rho: np.ndarray, p: float, u_dofs: np.ndarray,
@@ -740,11 +749,6 @@ class FEM_SimpLinearHeatConduction():
         rho_nodal = None
 
         if self.task.robin_coefficient is not None:
-            robin_virtual_bilinear, robin_virtual_linear = get_robin_virtual(
-                self.task.robin_coefficient, self.task.robin_bc_value,
-                p, self.q
-            )
-
             t = basis.mesh.t
             nvert = basis.mesh.nvertices
             k = t.shape[0]
@@ -756,12 +760,16 @@ class FEM_SimpLinearHeatConduction():
             rho_nodal /= np.maximum(count, 1.0)
 
             rho_field = basis.interpolate(rho_nodal)
-            robin_bilinear.append(
-                robin_virtual_bilinear.assemble(self.task.basis, rho=rho_field)
-            )
-            robin_linear.append(
-                robin_virtual_linear.assemble(self.task.basis, rho=rho_field)
-            )
+            for h, T_env in self._robin_pairs():
+                robin_virtual_bilinear, robin_virtual_linear = get_robin_virtual(
+                    h, T_env, p, self.q
+                )
+                robin_bilinear.append(
+                    robin_virtual_bilinear.assemble(basis, rho=rho_field)
+                )
+                robin_linear.append(
+                    robin_virtual_linear.assemble(basis, rho=rho_field)
+                )
 
         if self.task.design_robin_boundary is True:
             self.task.update_robin_bc(rho, p)
@@ -976,14 +984,7 @@ class FEM_SimpLinearHeatConduction():
         rho_field = basis.interpolate(rho_nodal)
         Th_all = [basis.interpolate(u_dofs[:, i]) for i in range(n_loads)]
 
-        h_list = self.task.robin_coefficient if isinstance(
-            self.task.robin_coefficient, list
-        ) else [self.task.robin_coefficient]
-        Tenv_list = self.task.robin_bc_value if isinstance(
-            self.task.robin_bc_value, list
-        ) else [self.task.robin_bc_value]
-
-        for h, T_env in zip(h_list, Tenv_list):
+        for h, T_env in self._robin_pairs():
             T_env_field = basis.interpolate(np.full(basis.N, T_env))
             for i, Th in enumerate(Th_all):
                 nodal_grad = _robin_compliance_explicit_grad_.assemble(
-- 
2.43.0


From 561151e78b88c3058d73b1002cf314feb4f9f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:38 +0000
Subject: [PATCH 18/25] fix: several Dirichlet regions could not be combined in
 one task

---
 scikit-topt/sktopt/mesh/task_common.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 8b1c8c3..2b61aff 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -148,6 +148,8 @@ class FEMDomain():
                             dirichlet_nodes, dirichlet_dir
                         )
                     ]
+                    # All regions are fixed at once.
+                    dirichlet_dofs = np.unique(np.concatenate(dirichlet_dofs))
                 else:
                     dirichlet_dofs = [
                         basis.get_dofs(nodes=nodes).all()
@@ -164,7 +166,7 @@ class FEMDomain():
                 raise ValueError("dirichlet_nodes is not np.ndarray or of list")
 
             dirichlet_elements = utils.get_elements_by_nodes(
-                basis.mesh, [dirichlet_nodes]
+                basis.mesh, dirichlet_nodes
             )
         else:
             dirichlet_dofs = None
@@ -231,7 +233,11 @@ class FEMDomain():
         dirichlet_neumann_elements = np.concatenate(valid) \
             if len(valid) > 0 else np.array([], dtype=int)
 
-        free_dofs = setdiff1d(np.arange(basis.N), dirichlet_dofs)
+        free_dofs = setdiff1d(
+            np.arange(basis.N),
+            np.concatenate(dirichlet_dofs)
+            if isinstance(dirichlet_dofs, list) else dirichlet_dofs
+        )
         free_elements = utils.get_elements_by_nodes(
             basis.mesh, [free_dofs]
         )
-- 
2.43.0


From 3c50ead114614e9a7f585c6d4bcd5407f4abf0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:38 +0000
Subject: [PATCH 19/25] fix: free_elements took degrees of freedom for node
 numbers

---
 scikit-topt/sktopt/mesh/task_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 2b61aff..163339e 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -238,9 +238,9 @@ class FEMDomain():
             np.concatenate(dirichlet_dofs)
             if isinstance(dirichlet_dofs, list) else dirichlet_dofs
         )
-        free_elements = utils.get_elements_by_nodes(
-            basis.mesh, [free_dofs]
-        )
+        free_elements = np.nonzero(
+            np.isin(basis.element_dofs, free_dofs).any(axis=0)
+        )[0]
         elements_volume = composer.get_elements_volume(basis.mesh)
         print(
             f"all_elements: {all_elements.shape}",
-- 
2.43.0


From 71ac81466087dd5096dc53ed114420e9d606fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:38 +0000
Subject: [PATCH 20/25] fix: fixed_elements kept the old design after excluding
 Dirichlet elements

---
 scikit-topt/sktopt/mesh/task_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 163339e..28c3daa 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -405,6 +405,9 @@ class FEMDomain():
         self.design_elements = setdiff1d(
             self.design_elements, self.dirichlet_elements
         )
+        self.fixed_elements = setdiff1d(
+            self.all_elements, self.design_elements
+        )
 
     def scale(
         self,
-- 
2.43.0


From 5de8c86694a5ee8e870f9b84171bdf1bbbbd2b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:38 +0000
Subject: [PATCH 21/25] fix: numbered Dirichlet tags were ignored by
 LinearElasticity.from_mesh_tags

---
 scikit-topt/sktopt/mesh/task_elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 52f4ac4..cf36aab 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -281,7 +281,7 @@ class LinearElasticity(FEMDomain):
         design_elements = basis.mesh.subdomains["design"]
         keys = basis.mesh.boundaries.keys()
         dirichlet_keys = sorted(
-            [k for k in keys if re.match(r"dirichlete_\d+$", k)],
+            [k for k in keys if re.match(r"dirichlete?_\d+$", k)],
             key=lambda x: int(re.search(r"\d+$", x).group())
         )
         if dirichlet_keys:
-- 
2.43.0


From 6450e36ef6ed918734aa3231be7b3204e0494622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:02 +0000
Subject: [PATCH 22/25] fix: a single Dirichlet set was refused by
 LinearHeatConduction

---
 scikit-topt/sktopt/mesh/task_heat.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index 19ed3fb..5a3392f 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -190,6 +190,14 @@ class LinearHeatConduction(FEMDomain):
                 "'compliance', 'heat_exchange', or 'averaged_temp'"
             )
 
+        # One load case per Dirichlet set.
+        if isinstance(dirichlet_facets_ids, np.ndarray):
+            dirichlet_facets_ids = [dirichlet_facets_ids]
+        if dirichlet_facets_ids is not None \
+                and not isinstance(dirichlet_values, list):
+            dirichlet_values = \
+                [dirichlet_values] * len(dirichlet_facets_ids)
+
         dirichlet_dir = None
         neumann_facets_ids = None
         neumann_dir = None
-- 
2.43.0


From 66c84e48555de26acb025b86c02ba72b860e4995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:02 +0000
Subject: [PATCH 23/25] fix: export of analysis conditions painted every node
 when a condition is absent

---
 scikit-topt/sktopt/mesh/task_common.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 28c3daa..0395fa3 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -378,9 +378,16 @@ class FEMDomain():
         # Points (shape: [n_nodes, dim])
         points = mesh.p.T
         node_colors_df = np.zeros(mesh.p.shape[1], dtype=int)
-        node_colors_df[self.neumann_nodes_all] = 1
-        node_colors_df[self.dirichlet_nodes] = 2
-        node_colors_df[self.robin_nodes] = 3
+        for color, nodes in (
+            (1, self.neumann_nodes),
+            (2, self.dirichlet_nodes),
+            (3, self.robin_nodes),
+        ):
+            if nodes is None:
+                continue
+            if isinstance(nodes, list):
+                nodes = np.concatenate(nodes)
+            node_colors_df[nodes] = color
         point_outputs = dict()
         point_outputs["node_color"] = node_colors_df
 
-- 
2.43.0


From 459fa499accf495f6c9f1407beb52fa6cde07ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:02 +0000
Subject: [PATCH 24/25] fix: setting a single force turned every degree of
 freedom into a load case

---
 scikit-topt/sktopt/mesh/task_elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index cf36aab..3acf96b 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -121,7 +121,7 @@ class LinearElasticity(FEMDomain):
 
     @force.setter
     def force(self, value):
-        self.neumann_linear = value
+        self.neumann_linear = value if isinstance(value, list) else [value]
 
     @property
     def force_elements(self):
-- 
2.43.0


From f62162659cde2698de6b013eca7014ccd1fd0f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:44 +0000
Subject: [PATCH 25/25] fix: scaling a task kept the old element volumes and
 dropped the quadrature

---
 scikit-topt/sktopt/mesh/task_common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 0395fa3..0b495f2 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -426,8 +426,12 @@ class FEMDomain():
         mesh = self.basis.mesh
         p_scaled = mesh.p * L_scale
         mesh_scaled = type(mesh)(p_scaled, mesh.t)
-        basis_scaled = skfem.Basis(mesh_scaled, self.basis.elem)
+        basis_scaled = skfem.Basis(
+            mesh_scaled, self.basis.elem,
+            quadrature=(self.basis.X, self.basis.W)
+        )
         self.basis = basis_scaled
+        self.elements_volume = composer.get_elements_volume(mesh_scaled)
 
         if isinstance(self.force, np.ndarray):
             self.force *= F_scale
-- 
2.43.0

