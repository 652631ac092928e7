From d00efb0c845c644d28cf3174fda01734081282d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 01/44] fix: correct the sign in the RAMP modulus derivative

d/drho [rho / (1 + p(1-rho))] = (1+p) / (1 + p(1-rho))^2; the quotient rule
was applied with the wrong sign, so sensitivities changed sign for p*(2*rho-1) > 1.
---
 scikit-topt/sktopt/core/derivatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/derivatives.py b/scikit-topt/sktopt/core/derivatives.py
index bcea868..3a33365 100644
--- a/scikit-topt/sktopt/core/derivatives.py
+++ b/scikit-topt/sktopt/core/derivatives.py
@@ -59,7 +59,7 @@ def dE_drho_ramp(rho, E0, Emin, p):
     E(rho) = Emin + (E0 - Emin) * rho / (1 + p * (1 - rho))
     """
     denom = 1.0 + p * (1.0 - rho)
-    return (E0 - Emin) * (denom - p * rho) / (denom ** 2)
+    return (E0 - Emin) * (denom + p * rho) / (denom ** 2)
 
 
 def dC_drho_ramp(rho, strain_energy, E0, Emin, p):
@@ -75,7 +75,7 @@ def dE_drho_ramp_inplace(rho, out, E0, Emin, p):
     """
     np.copyto(out, rho)
     denom = 1.0 + p * (1.0 - rho)
-    np.copyto(out, (E0 - Emin) * (denom - p * rho) / (denom ** 2))
+    np.copyto(out, (E0 - Emin) * (denom + p * rho) / (denom ** 2))
 
 
 def dC_drho_ramp_inplace(rho, strain_energy, out, E0, Emin, p):
-- 
2.43.0


From 2339bf97e0fd819857001ee8396152cda12035f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 02/44] fix: compute hexahedron volumes in scikit-fem's node
 order

The six-tetrahedron split assumed VTK node numbering and counted one
tetrahedron twice, so even a unit cube was reported with volume 5/6.
---
 scikit-topt/sktopt/fea/composer.py | 65 +++++++++++++-----------------
 1 file changed, 28 insertions(+), 37 deletions(-)

diff --git a/scikit-topt/sktopt/fea/composer.py b/scikit-topt/sktopt/fea/composer.py
index 547a805..6aba535 100644
--- a/scikit-topt/sktopt/fea/composer.py
+++ b/scikit-topt/sktopt/fea/composer.py
@@ -210,37 +210,33 @@ def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
     for e in prange(n_elements):
         n = t_conn[:, e]
 
-        #   7--------6
-        #  /|       /|
-        # 4--------5 |
-        # | |      | |
-        # | 3------|-2
-        # |/       |/
-        # 0--------1
+        # six tetrahedra around the diagonal 0-7 in scikit-fem's ordering:
+        # 0 is the corner, 1, 2, 3 are its edge neighbours, 4 (of 1, 2),
+        # 5 (of 1, 3) and 6 (of 2, 3) complete its faces, 7 is opposite.
         vol = 0.0
         vol += _tet_volume_numba(
             p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
+            p_coords[:, n[0]], p_coords[:, n[1]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
 
         elements_volume[e] = vol
@@ -271,39 +267,34 @@ def _get_elements_volume_hex_numba(t_conn, p_coords) -> np.ndarray:
     for e in prange(n_elements):
         n = t_conn[:, e]
 
-        # Tetra 6 division
-        #   7--------6
-        #  /|       /|
-        # 4--------5 |
-        # | |      | |
-        # | 3------|-2
-        # |/       |/
-        # 0--------1
+        # six tetrahedra around the diagonal 0-7 in scikit-fem's ordering:
+        # 0 is the corner, 1, 2, 3 are its edge neighbours, 4 (of 1, 2),
+        # 5 (of 1, 3) and 6 (of 2, 3) complete its faces, 7 is opposite.
 
         vol = 0.0
         vol += _tet_volume_numba(
             p_coords[:, n[0]], p_coords[:, n[1]],
-            p_coords[:, n[3]], p_coords[:, n[4]]
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[2]],
-            p_coords[:, n[3]], p_coords[:, n[6]]
+            p_coords[:, n[0]], p_coords[:, n[1]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[5]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[4]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[3]], p_coords[:, n[6]],
-            p_coords[:, n[7]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[2]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[3]],
-            p_coords[:, n[6]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[5]], p_coords[:, n[7]]
         )
         vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
+            p_coords[:, n[0]], p_coords[:, n[3]],
+            p_coords[:, n[6]], p_coords[:, n[7]]
         )
 
         elements_volume[e] = vol
-- 
2.43.0


From e8355047280a65733e2baa9c694f8cba5a07e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 03/44] fix: flip left-handed hexahedra consistently

Exchanging nodes 1 and 3 alone leaves a twisted element; the face nodes
4 and 6 have to be exchanged with them in scikit-fem's node order.
---
 scikit-topt/sktopt/mesh/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index ee1067f..a25c865 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -48,8 +48,10 @@ def fix_hexahedron_orientation(t, p):
         jac_det = np.dot(np.cross(v1, v2), v3)
 
         if jac_det < 0:
-            # Swap two nodes to flip orientation (commonly swap node 1 and 3)
-            t_fixed[1, e], t_fixed[3, e] = t_fixed[3, e], t_fixed[1, e]
+            # Exchange the axes 0-1 and 0-3. In scikit-fem's ordering the
+            # face nodes 4 (of 1, 2) and 6 (of 2, 3) follow them.
+            t_fixed[[1, 3], e] = t_fixed[[3, 1], e]
+            t_fixed[[4, 6], e] = t_fixed[[6, 4], e]
 
     return t_fixed
 
-- 
2.43.0


From 6aa22006b95fba6a33124ba39ae3a6e6decc9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 04/44] fix: do not cache node-to-element tables by object id

The cache was keyed by id(mesh), which is reused once a mesh is garbage
collected, so a later mesh could be answered with another mesh's elements.
---
 scikit-topt/sktopt/mesh/utils.py | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index a25c865..7866def 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -200,34 +200,14 @@ def get_elements_by_nodes(
         include any of the target nodes.
     """
 
-    # Initialize cache once
-    if not hasattr(get_elements_by_nodes, "_cache"):
-        get_elements_by_nodes._cache = {}
-
-    mesh_id = id(mesh)
-    if mesh_id not in get_elements_by_nodes._cache:
-        # Build: node index → set of element indices
-        node_to_elements = defaultdict(set)
-        # mesh.t.T: shape = (n_elements, nodes_per_element)
-        for e, nodes in enumerate(mesh.t.T):
-            for n in nodes:
-                node_to_elements[n].add(e)
-        get_elements_by_nodes._cache[mesh_id] = node_to_elements
-
-    node_to_elements = get_elements_by_nodes._cache[mesh_id]
-
     # Normalize target_nodes
     if isinstance(target_nodes, np.ndarray):
         all_target_nodes = np.unique(target_nodes)
     else:
         all_target_nodes = np.unique(np.concatenate(target_nodes))
 
-    # Accumulate matching element indices
-    elems = set()
-    for node in all_target_nodes:
-        elems.update(node_to_elements.get(node, []))
-
-    return np.ascontiguousarray(np.array(sorted(elems), dtype=np.int32))
+    elems = np.flatnonzero(np.isin(mesh.t, all_target_nodes).any(axis=0))
+    return np.ascontiguousarray(elems, dtype=np.int32)
 
 
 def build_element_adjacency_matrix_fast(mesh):
-- 
2.43.0


From 0cc56fa39d9f7fb1f39b6ebeab77bf1b1b63cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 05/44] fix: orient tetrahedral meshes loaded from file

The guard tested for a non-existing attribute, so the orientation step never ran.
---
 scikit-topt/sktopt/mesh/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/loader.py b/scikit-topt/sktopt/mesh/loader.py
index f8ebe7e..2696015 100644
--- a/scikit-topt/sktopt/mesh/loader.py
+++ b/scikit-topt/sktopt/mesh/loader.py
@@ -23,7 +23,7 @@ def basis_from_file(
     else:
         raise ValueError(f"Unsupported cell types: {cell_types}")
 
-    if hasattr(mesh_skfem, "mesh_skfem"):
+    if hasattr(mesh_skfem, "oriented"):
         mesh_skfem = mesh_skfem.oriented()
 
     basis = skfem.Basis(
-- 
2.43.0


From d15076d1441e0c91fa8401d7c6211692c1d1c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 06/44] fix: accept several Dirichlet regions of different
 sizes

Region lists were wrapped in another list and compared as one ragged array,
so only regions with equally many nodes worked; the union of their degrees
of freedom is now constrained. Numbered elastic regions are read from the
documented 'dirichlet_N' tags.
---
 scikit-topt/sktopt/mesh/task_common.py  | 8 ++++++--
 scikit-topt/sktopt/mesh/task_elastic.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 8b1c8c3..4a92ef9 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -148,6 +148,8 @@ class FEMDomain():
                             dirichlet_nodes, dirichlet_dir
                         )
                     ]
+                    # the supports act together in every load case
+                    dirichlet_dofs = np.unique(np.concatenate(dirichlet_dofs))
                 else:
                     dirichlet_dofs = [
                         basis.get_dofs(nodes=nodes).all()
@@ -164,7 +166,7 @@ class FEMDomain():
                 raise ValueError("dirichlet_nodes is not np.ndarray or of list")
 
             dirichlet_elements = utils.get_elements_by_nodes(
-                basis.mesh, [dirichlet_nodes]
+                basis.mesh, dirichlet_nodes
             )
         else:
             dirichlet_dofs = None
@@ -231,7 +233,9 @@ class FEMDomain():
         dirichlet_neumann_elements = np.concatenate(valid) \
             if len(valid) > 0 else np.array([], dtype=int)
 
-        free_dofs = setdiff1d(np.arange(basis.N), dirichlet_dofs)
+        constrained_dofs = np.concatenate(dirichlet_dofs) \
+            if isinstance(dirichlet_dofs, list) else dirichlet_dofs
+        free_dofs = setdiff1d(np.arange(basis.N), constrained_dofs)
         free_elements = utils.get_elements_by_nodes(
             basis.mesh, [free_dofs]
         )
diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 52f4ac4..88892c6 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -281,7 +281,7 @@ class LinearElasticity(FEMDomain):
         design_elements = basis.mesh.subdomains["design"]
         keys = basis.mesh.boundaries.keys()
         dirichlet_keys = sorted(
-            [k for k in keys if re.match(r"dirichlete_\d+$", k)],
+            [k for k in keys if re.match(r"dirichlet_\d+$", k)],
             key=lambda x: int(re.search(r"\d+$", x).group())
         )
         if dirichlet_keys:
-- 
2.43.0


From 2b9c406c2376230ebf3f8ade4ee0c778c9bea195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 07/44] fix: accept a single Dirichlet region in heat problems

A lone facet array (also what the 'dirichlet' mesh tag yields) failed an
assertion meant for displacement directions.
---
 scikit-topt/sktopt/mesh/task_heat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index bad0ae5..af952eb 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -190,6 +190,9 @@ class LinearHeatConduction(FEMDomain):
                 "'compliance', 'heat_exchange', or 'averaged_temp'"
             )
 
+        if isinstance(dirichlet_facets_ids, np.ndarray):
+            # a single region; temperatures have no direction
+            dirichlet_facets_ids = [dirichlet_facets_ids]
         dirichlet_dir = None
         neumann_facets_ids = None
         neumann_dir = None
-- 
2.43.0


From 4195eb4f696ac7db9f0cb6786217669c321f05ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 08/44] fix: solve each heat load case with its own Dirichlet
 region

The matrix enforced for the first load case was reused for all of them, so
cases with another Dirichlet region did not satisfy their own boundary data.
---
 scikit-topt/sktopt/fea/solver_heat.py | 64 +++++++++++++--------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 037a157..a70a82c 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -155,44 +155,44 @@ def solve_heat_system_multi(
         u_all[:, :] = 0.0
         return K_csr
 
-    D0 = dirichlet_dofs_list[0]
-    val0 = dirichlet_values_list[0]
-    K_e, _ = skfem.enforce(
-        K_csr,
-        emit,
-        D=D0,
-        x=np.full(D0.N, val0),
-    )
-
-    F_stack = np.column_stack([
-        skfem.enforce(
+    F_stack = np.empty((K_csr.shape[0], n_loads))
+    groups: dict[bytes, list[int]] = {}
+    matrices: dict[bytes, scipy.sparse.csr_matrix] = {}
+    for i, (D_i, val_i) in enumerate(
+        zip(dirichlet_dofs_list, dirichlet_values_list)
+    ):
+        K_e_i, F_stack[:, i] = skfem.enforce(
             K_csr,
             emit,
             D=D_i,
             x=np.full(D_i.N, val_i),
-        )[1]
-        for D_i, val_i in zip(dirichlet_dofs_list, dirichlet_values_list)
-    ])
-
-    if solver_name in {"petsc", "petsc_spdirect"}:
-        petsc_options = petsc_options_for_solver(
-            solver_name,
-            solver_config.petsc_options,
-        )
-        u_sol, infos = solve_u_petsc_multi(
-            K_e,
-            F_stack,
-            rtol=solver_config.rtol,
-            maxiter=solver_config.maxiter,
-            petsc_options=petsc_options,
         )
-        logger.info(f"PETSc heat multi-load solver info: {infos}")
-    else:
-        lu = scipy.sparse.linalg.splu(K_e.tocsc())
-        u_sol = lu.solve(F_stack)
+        # the enforced matrix depends on the Dirichlet set, not on its value
+        key = np.unique(D_i.all()).tobytes()
+        groups.setdefault(key, []).append(i)
+        matrices.setdefault(key, K_e_i)
+
+    for key, loads in groups.items():
+        K_e = matrices[key]
+        if solver_name in {"petsc", "petsc_spdirect"}:
+            petsc_options = petsc_options_for_solver(
+                solver_name,
+                solver_config.petsc_options,
+            )
+            u_sol, infos = solve_u_petsc_multi(
+                K_e,
+                F_stack[:, loads],
+                rtol=solver_config.rtol,
+                maxiter=solver_config.maxiter,
+                petsc_options=petsc_options,
+            )
+            logger.info(f"PETSc heat multi-load solver info: {infos}")
+        else:
+            lu = scipy.sparse.linalg.splu(K_e.tocsc())
+            u_sol = lu.solve(F_stack[:, loads])
+        u_all[:, loads] = u_sol
 
-    u_all[:, :] = u_sol
-    return K_e.tocsr()
+    return next(iter(matrices.values())).tocsr()
 
 
 def solve_multi_load(
-- 
2.43.0


From de0bb336dd68639e471201b1e807801d4f9d3e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 09/44] fix: apply a common Dirichlet temperature to all its
 regions

With one value for several regions only the first region was held.
---
 scikit-topt/sktopt/fea/solver_heat.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index a70a82c..01f8fc4 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -711,9 +711,14 @@ class FEM_SimpLinearHeatConduction():
         dirichlet_nodes_list = self.task.dirichlet_nodes if isinstance(
             self.task.dirichlet_nodes, list
         ) else [self.task.dirichlet_nodes]
-        dirichlet_values_list = self.task.dirichlet_values if isinstance(
-            self.task.dirichlet_values, list
-        ) else [self.task.dirichlet_values]
+        if isinstance(self.task.dirichlet_values, list):
+            dirichlet_values_list = self.task.dirichlet_values
+        else:
+            # one load case: a common value holds on all regions together
+            dirichlet_values_list = [self.task.dirichlet_values]
+            dirichlet_nodes_list = [
+                np.unique(np.concatenate(dirichlet_nodes_list))
+            ]
 
         basis = self.task.basis
         robin_bilinear = list(self.task.robin_bilinear or [])
-- 
2.43.0


From 690384a6246b78eba1f149d6ac9d86f6a928dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 10/44] fix: use the RAMP derivative for RAMP heat
 sensitivities

The conduction part was always differentiated as SIMP.
---
 scikit-topt/sktopt/fea/solver_heat.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 01f8fc4..138d1f0 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -944,10 +944,13 @@ class FEM_SimpLinearHeatConduction():
         n_elem, n_loads = energy.shape
         grad_all = np.zeros((n_elem, n_loads), dtype=float)
 
-        for i in range(n_loads):
-            from sktopt.core import derivatives
+        from sktopt.core import derivatives
+        dC_drho = derivatives.dC_drho_ramp \
+            if self.density_interpolation is composer.ramp_interpolation \
+            else derivatives.dC_drho_simp
 
-            grad_all[:, i] = derivatives.dC_drho_simp(
+        for i in range(n_loads):
+            grad_all[:, i] = dC_drho(
                 rho, energy[:, i], self.k_max, self.k_min, p
             )
 
-- 
2.43.0


From ba79be33e3eb5dbdcde19012d3c45eb3dd6e4b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 11/44] fix: assemble interface convection for per-region Robin
 data

Lists of coefficients or ambient temperatures (accepted by the problem
definition and handled by the sensitivities) failed in the state equation.
---
 scikit-topt/sktopt/fea/solver_heat.py | 38 +++++++++++++--------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 138d1f0..577a9e6 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -702,6 +702,14 @@ class FEM_SimpLinearHeatConduction():
         self.q = q
         self._warned_robin_compliance = False
 
+    def _robin_pairs(self) -> list[tuple[float, float]]:
+        """(coefficient, ambient temperature) of each convection term."""
+        h, T_env = self.task.robin_coefficient, self.task.robin_bc_value
+        n = max(len(v) if isinstance(v, list) else 1 for v in (h, T_env))
+        h_list = h if isinstance(h, list) else [h] * n
+        Tenv_list = T_env if isinstance(T_env, list) else [T_env] * n
+        return list(zip(h_list, Tenv_list))
+
     def objectives_multi_load(
         self,
         rho: np.ndarray, p: float, u_dofs: np.ndarray,
@@ -726,11 +734,6 @@ class FEM_SimpLinearHeatConduction():
         rho_nodal = None
 
         if self.task.robin_coefficient is not None:
-            robin_virtual_bilinear, robin_virtual_linear = get_robin_virtual(
-                self.task.robin_coefficient, self.task.robin_bc_value,
-                p, self.q
-            )
-
             t = basis.mesh.t
             nvert = basis.mesh.nvertices
             k = t.shape[0]
@@ -742,12 +745,16 @@ class FEM_SimpLinearHeatConduction():
             rho_nodal /= np.maximum(count, 1.0)
 
             rho_field = basis.interpolate(rho_nodal)
-            robin_bilinear.append(
-                robin_virtual_bilinear.assemble(self.task.basis, rho=rho_field)
-            )
-            robin_linear.append(
-                robin_virtual_linear.assemble(self.task.basis, rho=rho_field)
-            )
+            for h, T_env in self._robin_pairs():
+                robin_virtual_bilinear, robin_virtual_linear = get_robin_virtual(
+                    h, T_env, p, self.q
+                )
+                robin_bilinear.append(
+                    robin_virtual_bilinear.assemble(basis, rho=rho_field)
+                )
+                robin_linear.append(
+                    robin_virtual_linear.assemble(basis, rho=rho_field)
+                )
 
         if self.task.design_robin_boundary is True:
             self.task.update_robin_bc(rho, p)
@@ -962,14 +969,7 @@ class FEM_SimpLinearHeatConduction():
         rho_field = basis.interpolate(rho_nodal)
         Th_all = [basis.interpolate(u_dofs[:, i]) for i in range(n_loads)]
 
-        h_list = self.task.robin_coefficient if isinstance(
-            self.task.robin_coefficient, list
-        ) else [self.task.robin_coefficient]
-        Tenv_list = self.task.robin_bc_value if isinstance(
-            self.task.robin_bc_value, list
-        ) else [self.task.robin_bc_value]
-
-        for h, T_env in zip(h_list, Tenv_list):
+        for h, T_env in self._robin_pairs():
             T_env_field = basis.interpolate(np.full(basis.N, T_env))
             for i, Th in enumerate(Th_all):
                 nodal_grad = _robin_compliance_explicit_grad_.assemble(
-- 
2.43.0


From bfbd37596689dbfa9561138bbbb3527c28fff01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 12/44] fix: let the numba tetrahedron orientation repair
 compile

---
 scikit-topt/sktopt/mesh/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index 7866def..57f2640 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -115,7 +115,7 @@ def fix_tetrahedron_orientation_numba(t, p):
         tetrahedron is adjusted (if needed) to ensure positive volume.
     """
 
-    t_fixed = np.array(t, copy=True)
+    t_fixed = t.copy()
     n_elem = t.shape[1]
     for e in prange(n_elem):
         n0, n1, n2, n3 = t_fixed[:, e]
-- 
2.43.0


From 8462fea55366adb89e415ced414c6ec831c10001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 13/44] fix: keep fixed elements in step when supports leave
 the design

---
 scikit-topt/sktopt/mesh/task_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 4a92ef9..d945245 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -403,6 +403,9 @@ class FEMDomain():
         self.design_elements = setdiff1d(
             self.design_elements, self.dirichlet_elements
         )
+        self.fixed_elements = setdiff1d(
+            self.all_elements, self.design_elements
+        )
 
     def scale(
         self,
-- 
2.43.0


From 7274a51750389597e63086787781ba48491b14cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 14/44] fix: stop passing the removed n_joblib option to the
 multi-load solvers

---
 scikit-topt/sktopt/fea/solver.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver.py b/scikit-topt/sktopt/fea/solver.py
index a3937e8..5ab2d6e 100644
--- a/scikit-topt/sktopt/fea/solver.py
+++ b/scikit-topt/sktopt/fea/solver.py
@@ -165,7 +165,6 @@ def solve_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
@@ -201,7 +200,6 @@ def compute_compliance_basis_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
-- 
2.43.0


From 55d57ef8ff23f0e6e7cc966898ec697947b7486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 15/44] fix: average each element's density onto its own nodes

The interface convection scattered np.repeat(rho) over t.ravel(), which
pairs nodes with the densities of other elements.
---
 scikit-topt/sktopt/fea/solver_heat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 577a9e6..d7f9334 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -607,7 +607,7 @@ def _element_to_nodal_average(
 
     rho_nodal = np.zeros(nvert, dtype=float)
     count = np.zeros(nvert, dtype=float)
-    np.add.at(rho_nodal, t.ravel(), np.repeat(rho, nloc))
+    np.add.at(rho_nodal, t.ravel(), np.tile(rho, nloc))
     np.add.at(count, t.ravel(), 1.0)
     rho_nodal /= np.maximum(count, 1.0)
     return rho_nodal, count
@@ -740,7 +740,7 @@ class FEM_SimpLinearHeatConduction():
 
             rho_nodal = np.zeros(nvert, dtype=float)
             count = np.zeros(nvert, dtype=float)
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, k))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, k))
             np.add.at(count,     t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1.0)
 
-- 
2.43.0


From 65de7f153f49fc0855b922187feef8037808a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 16/44] fix: mark only existing boundary nodes in the condition
 file

Indexing with None coloured every node when a problem has no loads or no
convection, and several Dirichlet regions could not be exported at all.
---
 scikit-topt/sktopt/mesh/task_common.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index d945245..326ab66 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -376,9 +376,15 @@ class FEMDomain():
         # Points (shape: [n_nodes, dim])
         points = mesh.p.T
         node_colors_df = np.zeros(mesh.p.shape[1], dtype=int)
-        node_colors_df[self.neumann_nodes_all] = 1
-        node_colors_df[self.dirichlet_nodes] = 2
-        node_colors_df[self.robin_nodes] = 3
+        for color, nodes in (
+            (1, self.neumann_nodes),
+            (2, self.dirichlet_nodes),
+            (3, self.robin_nodes),
+        ):
+            if nodes is None:
+                continue
+            for nodes_loop in nodes if isinstance(nodes, list) else [nodes]:
+                node_colors_df[nodes_loop] = color
         point_outputs = dict()
         point_outputs["node_color"] = node_colors_df
 
-- 
2.43.0


From 1c58a6e26b057d060066d69b06545a722055e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 17/44] fix: allow more snapshots than iterations

record_times > max_iters made the save interval zero and the run stop with
ZeroDivisionError.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index a3377d8..0c63ed7 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1185,7 +1185,7 @@ class DensityMethod(DensityMethodBase):
 
             if any(
                 (
-                    iter_num % (cfg.max_iters // cfg.record_times) == 0,
+                    iter_num % max(1, cfg.max_iters // cfg.record_times) == 0,
                     iter_num == 1,
                     (conv_rho and conv_kkt),
                     (iter_num == iter_limit - 1)
-- 
2.43.0


From 138caeb8dc00e6d9657e391e61acf64bab55102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 18/44] fix: keep the design of problems without loaded
 elements

With design_dirichlet and no loads (heat), indexing with None set every
density to solid in each iteration.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 0c63ed7..536ddac 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -738,7 +738,8 @@ class DensityMethod(DensityMethodBase):
             iter_end = cfg.max_iters + 1
 
         if cfg.design_dirichlet is True:
-            rho[tsk.neumann_elements] = 1.0
+            if tsk.neumann_elements is not None:
+                rho[tsk.neumann_elements] = 1.0
         else:
             rho[tsk.dirichlet_neumann_elements] = 1.0
         rho[tsk.fixed_elements] = 1.0
@@ -1129,7 +1130,8 @@ class DensityMethod(DensityMethodBase):
                 )
             rho[tsk.design_elements] = rho_design_eles
             if cfg.design_dirichlet is True:
-                rho[tsk.neumann_elements] = 1.0
+                if tsk.neumann_elements is not None:
+                    rho[tsk.neumann_elements] = 1.0
             else:
                 rho[tsk.dirichlet_neumann_elements] = 1.0
 
-- 
2.43.0


From 5b3e7c3914fdfeefbf4720fc1692f6e29a1555da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 19/44] fix: keep OC densities real for positive sensitivities

---
 scikit-topt/sktopt/core/optimizers/oc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 7ffc448..898f354 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -50,6 +50,8 @@ def bisection_with_physical_volume(
     while True:
         np.negative(dC, out=scaling_rate)
         scaling_rate /= (lmid + eps)
+        # A positive sensitivity has no real power; OC shrinks it most.
+        np.maximum(scaling_rate, 0.0, out=scaling_rate)
         np.power(scaling_rate, eta, out=scaling_rate)
         np.clip(
             scaling_rate, scaling_rate_min, scaling_rate_max,
-- 
2.43.0


From faf9722b89de2a66b0c3f20c7b6130155ff520bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 20/44] fix: honour integer percentiles

---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 2 +-
 scikit-topt/sktopt/core/optimizers/oc.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index d003283..d5db0ae 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -215,7 +215,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
             self._dL_buffer -= dL_mean
 
         scale_percentile = cfg.lagrangian_percentile
-        if isinstance(percentile, float):
+        if percentile is not None:
             scale_percentile = percentile
         scale = np.percentile(np.abs(self._dL_buffer), scale_percentile)
         scale = max(scale, cfg.lagrangian_scale_floor)
diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 898f354..ab13030 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -187,7 +187,7 @@ class OC_Optimizer(common_density.DensityMethod):
 
         eps = 1e-12
         with self._timed_section("percentile_scale"):
-            if isinstance(percentile, float):
+            if percentile is not None:
                 scale = np.percentile(np.abs(dC_drho_design_eles), percentile)
             else:
                 scale = np.max(np.abs(dC_drho_design_eles))
-- 
2.43.0


From 66713c2594f825e1e5d3e1604baa315a0fc3b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 21/44] fix: write hexahedra in VTK vertex order

---
 scikit-topt/sktopt/core/visualization.py | 7 ++++++-
 scikit-topt/sktopt/mesh/task_common.py   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/visualization.py b/scikit-topt/sktopt/core/visualization.py
index e9bdee3..9654efd 100644
--- a/scikit-topt/sktopt/core/visualization.py
+++ b/scikit-topt/sktopt/core/visualization.py
@@ -6,6 +6,7 @@ from typing import Optional
 import numpy as np
 import imageio.v2 as imageio
 import skfem
+from skfem.io.meshio import HEX_MAPPING
 import meshio
 import matplotlib.pyplot as plt
 
@@ -57,6 +58,10 @@ def export_mesh_with_info(
         cell_type = "hexahedron"
     else:
         raise ValueError(f"Unsupported mesh type: {type(mesh)}")
+    cell_nodes = mesh.t.T
+    if cell_type == "hexahedron":
+        # skfem numbers hexahedron vertices differently from VTK
+        cell_nodes = cell_nodes[:, HEX_MAPPING[:8]]
 
     # Convert skfem's (dim, n) shape to meshio format
     points = mesh.p.T
@@ -77,7 +82,7 @@ def export_mesh_with_info(
     # Build and write meshio.Mesh
     meshio_mesh = meshio.Mesh(
         points=points,
-        cells=[meshio.CellBlock(cell_type, mesh.t.T)],
+        cells=[meshio.CellBlock(cell_type, cell_nodes)],
         point_data=point_data,
         cell_data=cell_data
     )
diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 326ab66..53768c1 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -365,6 +365,7 @@ class FEMDomain():
         self, dst_path: str
     ):
         import meshio
+        from skfem.io.meshio import HEX_MAPPING
         mesh = self.basis.mesh
         if isinstance(mesh, skfem.MeshTet):
             cell_type = "tetra"
@@ -372,6 +373,10 @@ class FEMDomain():
             cell_type = "hexahedron"
         else:
             raise ValueError("Unsupported mesh type for VTU export.")
+        cell_nodes = mesh.t.T
+        if cell_type == "hexahedron":
+            # skfem numbers hexahedron vertices differently from VTK
+            cell_nodes = cell_nodes[:, HEX_MAPPING[:8]]
 
         # Points (shape: [n_nodes, dim])
         points = mesh.p.T
@@ -393,7 +398,7 @@ class FEMDomain():
         element_colors_df[self.free_elements] = 1
         element_colors_df[self.fixed_elements] = 2
         element_colors_df[self.design_elements] = 3
-        cells = [(cell_type, mesh.t.T)]
+        cells = [(cell_type, cell_nodes)]
         cell_outputs = dict()
         cell_outputs["condition"] = [element_colors_df]
 
-- 
2.43.0


From 46a70f5e9bab28f4073040e89599f1e534b3be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 22/44] fix: finish runs whose design is entirely below the
 threshold

---
 scikit-topt/sktopt/mesh/visualization.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/visualization.py b/scikit-topt/sktopt/mesh/visualization.py
index 0b1b51a..442bfed 100644
--- a/scikit-topt/sktopt/mesh/visualization.py
+++ b/scikit-topt/sktopt/mesh/visualization.py
@@ -1,5 +1,10 @@
+import os
+
 import numpy as np
 import sktopt
+from sktopt.tools.logconf import mylogger
+
+logger = mylogger(__name__)
 
 
 def setdiff1d(a, b):
@@ -21,6 +26,14 @@ def export_submesh(
     kept_elements = setdiff1d(
         tsk.all_elements, remove_elements
     )
+    if kept_elements.size == 0:
+        # An empty mesh cannot be written; do not leave an outdated one.
+        if os.path.exists(dst_path):
+            os.remove(dst_path)
+        logger.warning(
+            f"no element is denser than {threshold}: {dst_path} is not written"
+        )
+        return
     kept_t = mesh.t[:, kept_elements]
     unique_vertex_indices = np.unique(kept_t)
     new_points = np.ascontiguousarray(mesh.p[:, unique_vertex_indices])
-- 
2.43.0


From 4315a0dd7f1d46399cfbe225b9e54e8fc31512b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 23/44] fix: scale and unscale every kind of problem
 consistently

---
 scikit-topt/sktopt/mesh/task_common.py  | 18 +++++-------------
 scikit-topt/sktopt/mesh/task_elastic.py |  8 ++++++++
 scikit-topt/sktopt/mesh/task_heat.py    | 19 +++++++++++++++++++
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 53768c1..4e30287 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -425,19 +425,11 @@ class FEMDomain():
     ):
         # this wont work
         # self.basis.mesh.p /= L_scale
-        mesh = self.basis.mesh
-        p_scaled = mesh.p * L_scale
-        mesh_scaled = type(mesh)(p_scaled, mesh.t)
-        basis_scaled = skfem.Basis(mesh_scaled, self.basis.elem)
-        self.basis = basis_scaled
-
-        if isinstance(self.force, np.ndarray):
-            self.force *= F_scale
-        elif isinstance(self.force, list):
-            for loop in range(len(self.force)):
-                self.force[loop] *= F_scale
-        else:
-            raise ValueError("should be ndarray or list of ndarray")
+        self.basis = skfem.Basis(
+            self.basis.mesh.scaled(L_scale), self.basis.elem,
+            quadrature=self.basis.quadrature
+        )
+        self.elements_volume = self.elements_volume * L_scale**3
 
     def nodes_and_elements_stats(self, dst_path: str):
         node_points = self.basis.mesh.p.T  # shape = (n_points, 3)
diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 88892c6..f709a00 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -123,6 +123,14 @@ class LinearElasticity(FEMDomain):
     def force(self, value):
         self.neumann_linear = value
 
+    def scale(
+        self,
+        L_scale: float,
+        F_scale: float
+    ):
+        super().scale(L_scale, F_scale)
+        self.neumann_linear = [f * F_scale for f in self.neumann_linear]
+
     @property
     def force_elements(self):
         return self.neumann_elements
diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index af952eb..350d72b 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -147,6 +147,25 @@ class LinearHeatConduction(FEMDomain):
     objective: Literal["compliance", "heat_exchange", "averaged_temp"] = "compliance"
     avg_temp_weight: float = 0.0
 
+    def scale(
+        self,
+        L_scale: float,
+        F_scale: float
+    ):
+        # Conduction grows with the length and convection with the area:
+        # h / L_scale keeps the temperatures.
+        super().scale(L_scale, F_scale)
+        if self.robin_coefficient is None:
+            return
+        if isinstance(self.robin_coefficient, list):
+            self.robin_coefficient = [h / L_scale for h in self.robin_coefficient]
+        else:
+            self.robin_coefficient = self.robin_coefficient / L_scale
+        self.robin_bilinear, self.robin_linear = assemble_surface_robin(
+            self.basis, self.robin_facets_ids,
+            self.robin_coefficient, self.robin_bc_value
+        )
+
     def update_robin_bc(self, rho: np.ndarray, p: float):
         robin_bilinear, robin_linear = assemble_surface_robin(
             self.basis,
-- 
2.43.0


From e805406a147b3e611083469057a50dd5804ea8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 24/44] fix: keep the filter radius in the problem's units when
 scaling

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 536ddac..b1df77f 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -536,6 +536,7 @@ class DensityMethod(DensityMethodBase):
         self.cfg = cfg
         self.tsk = tsk
         self.timer: tools.SectionTimer = tools.SectionTimer(hierarchical=True)
+        self.L_scale = 1.0
         if cfg.scaling is True:
             self.scale()
 
@@ -683,13 +684,13 @@ class DensityMethod(DensityMethodBase):
         if self.cfg.filter_type == "spacial":
             self.filter = filters.SpacialFilter.from_defaults(
                 self.tsk.mesh, self.tsk.elements_volume,
-                self.cfg.filter_radius.init_value,
+                self.cfg.filter_radius.init_value / self.L_scale,
                 design_mask=self.tsk.design_mask,
             )
         elif self.cfg.filter_type == "helmholtz":
             self.filter = filters.HelmholtzFilterNodal.from_defaults(
                 self.tsk.mesh, self.tsk.elements_volume,
-                self.cfg.filter_radius.init_value,
+                self.cfg.filter_radius.init_value / self.L_scale,
                 design_mask=self.tsk.design_mask
             )
         # elif self.cfg.filter_type == "helmholtz_ele":
@@ -820,6 +821,7 @@ class DensityMethod(DensityMethodBase):
             if isinstance(
                 cfg.filter_radius.num_steps, (int, float)
             ) else cfg.filter_radius.target_value
+        filter_radius = filter_radius / self.L_scale
         # filter_radius = cfg.filter_radius.init \
         #     if cfg.filter_radius_step > 0 else cfg.filter_radius
         return (
@@ -1036,6 +1038,7 @@ class DensityMethod(DensityMethodBase):
             )
             state.last_iter = iter_num
 
+            filter_radius = filter_radius / self.L_scale
             if filter_radius != self.filter.radius:
                 logger.info("--- Filter Update ---")
                 self.filter.update_radius(filter_radius)
-- 
2.43.0


From c1c6ae42caebb05341255fa32a495836e462493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 25/44] fix: start the running scale when a LogMOC run is
 restarted

A restarted run begins after iteration 1, where the running scale did not
exist yet, and stopped with an AttributeError.
---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index d5db0ae..db14c8c 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -81,6 +81,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         self.recorder.add("dV_chain", plot_type="min-max-mean-std", ylog=True)
         self.recorder.add("volume_chain_scale", ylog=True)
         self.lambda_v = cfg.lambda_v
+        self.running_scale = None
         self._dL_buffer = None
         self._dV_chain_design = None
         self._dV_projected_full = None
@@ -220,7 +221,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         scale = np.percentile(np.abs(self._dL_buffer), scale_percentile)
         scale = max(scale, cfg.lagrangian_scale_floor)
         self.running_scale = 0.2 * self.running_scale + \
-            (1.0 - 0.2) * scale if iter_num > 1 else scale
+            (1.0 - 0.2) * scale if self.running_scale is not None else scale
         logger.info(f"running_scale: {self.running_scale}")
         self._dL_buffer /= self.running_scale
 
-- 
2.43.0


From 52225d15ffdd5d91bba0398f127c5a9751521d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 26/44] fix: recognise exactly the checkpoint files

Names that only start like a checkpoint (000005-rho.npz.tmp) were taken for
one, and iterations of seven or more digits were overlooked.
---
 scikit-topt/sktopt/core/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index f7ad45d..db80a98 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -6,12 +6,12 @@ from sktopt import tools
 
 
 def find_latest_iter_file(dst_path: str):
-    pattern = re.compile(r"(\d{6})-rho\.npz")
+    pattern = re.compile(r"(\d{6,})-rho\.npz")
     max_iter = -1
     latest_file = None
 
     for fname in os.listdir(dst_path):
-        match = pattern.match(fname)
+        match = pattern.fullmatch(fname)
         if match:
             iter_num = int(match.group(1))
             if iter_num > max_iter:
-- 
2.43.0


From 162c746351649f13b6316b9609ef7dbf6081c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 27/44] fix: keep histories without data when importing

Importing (and exporting, which imports again) dropped every registered
history that had no data yet, so feeding it afterwards raised a KeyError.
---
 scikit-topt/sktopt/tools/history.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 519a932..5f96cb5 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -683,6 +683,11 @@ class HistoryCollection():
                     data=data_list
                 )
 
+        # Registered histories without data are not part of the file
+        for name, existing in self.histories.items():
+            if name not in new_histories and not existing.exists():
+                new_histories[name] = existing
+
         # Replace histories with updated ones
         self.histories = new_histories
 
-- 
2.43.0


From 3f6f0e69b886f09879d56b2fff642f5b7990daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 28/44] fix: do not restart from an earlier run's checkpoints

A fresh run in a used folder cleared the mesh files but kept the old
checkpoints and histories, so restarting it continued the earlier run.
---
 scikit-topt/sktopt/core/misc.py                      | 11 +++++++++++
 scikit-topt/sktopt/core/optimizers/common_density.py |  1 +
 2 files changed, 12 insertions(+)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index db80a98..5ade6e7 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -22,6 +22,17 @@ def find_latest_iter_file(dst_path: str):
         if latest_file else None
 
 
+def remove_restart_files(dst_path: str):
+    """Remove the checkpoints and histories an earlier run left in dst_path."""
+    data_dir = os.path.join(dst_path, "data")
+    for fname in os.listdir(data_dir):
+        if re.fullmatch(r"\d{6,}-rho\.npz", fname):
+            os.remove(os.path.join(data_dir, fname))
+    histories = os.path.join(dst_path, "histories.npz")
+    if os.path.exists(histories):
+        os.remove(histories)
+
+
 def str2bool(value):
     if isinstance(value, bool):
         return value
diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index b1df77f..a650213 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -555,6 +555,7 @@ class DensityMethod(DensityMethodBase):
             os.makedirs(f"{self.cfg.dst_path}/mesh_rho")
             if not os.path.exists(f"{self.cfg.dst_path}/data"):
                 os.makedirs(f"{self.cfg.dst_path}/data")
+            misc.remove_restart_files(self.cfg.dst_path)
 
         if isinstance(tsk, sktopt.mesh.LinearElasticity):
             self.fem = fea.FEM_SimpLinearElasticity(
-- 
2.43.0


From 95d2e3c60121f0e49d1fb8e56de3b5acb80c6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 29/44] fix: write checkpoints atomically

A run interrupted while writing a checkpoint left a truncated file that
restarting from the latest checkpoint then failed to read.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index a650213..a3e5d99 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1233,10 +1233,13 @@ class DensityMethod(DensityMethodBase):
                             image_path=cfg.image_path(iter_num, "energy"),
                             image_title=f"Iteration : {iter_num}"
                         )
-                    np.savez_compressed(
-                        f"{cfg.dst_path}/data/{str(iter_num).zfill(6)}-rho.npz",
-                        rho_design_elements=rho[tsk.design_elements]
-                    )
+                    rho_path = f"{cfg.dst_path}/data/{str(iter_num).zfill(6)}-rho.npz"
+                    # an interrupted write must not leave a broken checkpoint
+                    with open(f"{rho_path}.tmp", "wb") as f:
+                        np.savez_compressed(
+                            f, rho_design_elements=rho[tsk.design_elements]
+                        )
+                    os.replace(f"{rho_path}.tmp", rho_path)
                 with self._timed_section("timing_plot"):
                     self._save_timing_plot()
                 if conv_rho and conv_kkt:
-- 
2.43.0


From 0f6421b8ad2af68fdbd9260c8cd23962d7b0013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 30/44] fix: return histories that start from integer data

data_np_array returned None when the initial data were integers.
---
 scikit-topt/sktopt/tools/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 5f96cb5..b2e8696 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -114,7 +114,7 @@ class HistorySeries():
 
         try:
             value = self.data[0]
-            if isinstance(value, float):
+            if isinstance(value, (int, float)):
                 return np.array(self.data)
             elif isinstance(value, list) or isinstance(value, np.ndarray):
                 return np.array(self.data)
-- 
2.43.0


From 942eb1a08fa8b22da50f0a88f5425cef6d0b0a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 31/44] fix: restore the schedules when importing a
 configuration

import_from left every schedule as a plain dict, so an imported
configuration differed from the exported one and could not be run.
---
 scikit-topt/sktopt/core/optimizers/common_density.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index a3e5d99..c2ef548 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -317,6 +317,9 @@ class DensityMethodConfig():
             data = json.load(f)
         # Drop legacy keys that may linger in old configs.
         data.pop("record_timing", None)
+        for key, value in data.items():
+            if isinstance(value, dict) and "scheduler_type" in value:
+                data[key] = tools.SchedulerConfig(**value)
         return cls(**data)
 
     def export(self, path: str):
-- 
2.43.0


From f334381e0b7246ceca5fcedaa791575d55d83267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 32/44] fix: pass arguments that only start like a schedule
 through

Every argument whose name begins with p, such as petsc_options, was taken
for a part of the schedule p and dropped.
---
 scikit-topt/sktopt/core/misc.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index 5ade6e7..8f1944e 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -201,14 +201,12 @@ def args2OC_Config_dict(args) -> dict:
             scheduler_type=stype
         )
 
+    keys_schedulers = {
+        f"{kw}{suffix}" for kw in keyw_schedulers
+        for suffix in ("", "_init", "_step", "_curvature")
+    }
     for keyloop in args.keys():
-        match_kw = next(
-            (kw for kw in keyw_schedulers if keyloop.startswith(kw)), None
-        )
-        if keyloop == "beta_eta":
-            ret[keyloop] = args[keyloop]
-        if match_kw is not None:
-            # print(f"{keyloop} starts with {match_kw}")
+        if keyloop in keys_schedulers:
             continue
 
         ret[keyloop] = args[keyloop]
-- 
2.43.0


From af03bace814920c4b5cdb4d717eb3b59b0e14feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 33/44] fix: report or repair linear solves that did not
 converge

---
 scikit-topt/sktopt/fea/solver_elastic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scikit-topt/sktopt/fea/solver_elastic.py b/scikit-topt/sktopt/fea/solver_elastic.py
index 99f35f2..b32e62d 100644
--- a/scikit-topt/sktopt/fea/solver_elastic.py
+++ b/scikit-topt/sktopt/fea/solver_elastic.py
@@ -134,6 +134,12 @@ def solve_u(
         else:
             raise ValueError(f"Unknown solver: {chosen_solver}")
 
+        if chosen_solver in ('cg_jacobi', 'cg_pyamg') and info != 0:
+            raise RuntimeError(
+                f"{chosen_solver} did not converge to rtol={rtol} "
+                f"(info: {info}, maxiter: {maxiter})"
+            )
+
     except Exception as e:
         if not allow_fallback_to_spsolve:
             raise
-- 
2.43.0


From d99f796e94f4abaf817b3b193479dfbf1dcb6f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 34/44] fix: find the elements of the free degrees of freedom

---
 scikit-topt/sktopt/mesh/task_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 4e30287..fad5306 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -236,8 +236,8 @@ class FEMDomain():
         constrained_dofs = np.concatenate(dirichlet_dofs) \
             if isinstance(dirichlet_dofs, list) else dirichlet_dofs
         free_dofs = setdiff1d(np.arange(basis.N), constrained_dofs)
-        free_elements = utils.get_elements_by_nodes(
-            basis.mesh, [free_dofs]
+        free_elements = np.flatnonzero(
+            np.isin(basis.element_dofs, free_dofs).any(axis=0)
         )
         elements_volume = composer.get_elements_volume(basis.mesh)
         print(
-- 
2.43.0


From 7a16574412d1615b91f883f9bad34e88e2b2763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 35/44] fix: pass Lame parameters to the elasticity form in
 load_stiffness_matrix

---
 scikit-topt/sktopt/mesh/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/loader.py b/scikit-topt/sktopt/mesh/loader.py
index 2696015..c21cb16 100644
--- a/scikit-topt/sktopt/mesh/loader.py
+++ b/scikit-topt/sktopt/mesh/loader.py
@@ -3,6 +3,7 @@ import numpy as np
 
 import meshio
 import skfem
+from skfem.models.elasticity import lame_parameters
 from skfem.models.elasticity import linear_elasticity
 
 
@@ -39,7 +40,9 @@ def load_stiffness_matrix(
     nu: float = 0.3
 ) -> np.ndarray:
     basis = basis_from_file(mesh_path)
-    stiffness_mat = skfem.asm(linear_elasticity(E, nu), basis)
+    stiffness_mat = skfem.asm(
+        linear_elasticity(*lame_parameters(E, nu)), basis
+    )
     return stiffness_mat
 
 
-- 
2.43.0


From 1fd173b8e725917cacc5530085b10f9b027695e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 36/44] fix: give the pull sample problems plain coordinate
 ranges

---
 scikit-topt/sktopt/mesh/toy_problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/toy_problem.py b/scikit-topt/sktopt/mesh/toy_problem.py
index 30482a8..d7c76d5 100644
--- a/scikit-topt/sktopt/mesh/toy_problem.py
+++ b/scikit-topt/sktopt/mesh/toy_problem.py
@@ -221,14 +221,14 @@ def toy_msh(
         force_value = -800
 
     elif task_elastic_name == "pull":
-        x_range = (x_len-eps, x_len+0.05),
+        x_range = (x_len-eps, x_len+0.05)
         y_range = (y_len*2/5, y_len*3/5)
         z_range = (z_len*2/5, z_len*3/5)
         force_dir_type = "u^1"
         force_value = 1200.0
     elif task_elastic_name == "pull_2":
-        x_range = (x_len-eps, x_len+0.05),
-        y_range = (y_len/2.0-eps, y_len/2+eps),
+        x_range = (x_len-eps, x_len+0.05)
+        y_range = (y_len/2.0-eps, y_len/2+eps)
         z_range = (z_len*2/5, z_len*3/5)
         force_dir_type = "u^1"
         force_value = 200.0
-- 
2.43.0


From cb7e2e9ef2def202129bd4ccc1a5919e220bd5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:59 +0000
Subject: [PATCH 37/44] fix: keep filtered densities within [0, 1] before
 projection

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 3 ++-
 scikit-topt/sktopt/core/optimizers/oc.py             | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index c2ef548..f23009e 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1050,7 +1050,8 @@ class DensityMethod(DensityMethodBase):
             logger.info("--- project and filter ---")
             with self._timed_section("filter_and_project"):
                 rho_prev[:] = rho[:]
-                rho_filtered[:] = self.filter.forward(rho)
+                # the Helmholtz solution can leave [0, 1] on a coarse mesh
+                np.clip(self.filter.forward(rho), 0.0, 1.0, out=rho_filtered)
                 projection.heaviside_projection_inplace(
                     rho_filtered, beta=beta, eta=cfg.beta_eta, out=rho_projected
                 )
diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index ab13030..da1954d 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -68,7 +68,10 @@ def bisection_with_physical_volume(
 
         np.copyto(rho_full_candidate, rho_full)
         rho_full_candidate[design_elements] = rho_design_eles
-        np.copyto(rho_filtered_candidate, filter_obj.forward(rho_full_candidate))
+        np.clip(
+            filter_obj.forward(rho_full_candidate), 0.0, 1.0,
+            out=rho_filtered_candidate
+        )
         projection.heaviside_projection_inplace(
             rho_filtered_candidate,
             beta=beta,
-- 
2.43.0


From ed1dadf66297ffdc46f3fbffe9136274f72f3462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:29 +0000
Subject: [PATCH 38/44] fix: return the loaded nodes and elements under their
 names

---
 scikit-topt/sktopt/mesh/task_elastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index f709a00..b73754e 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -141,7 +141,7 @@ class LinearElasticity(FEMDomain):
 
     @property
     def force_nodes(self):
-        return self.neumann_elements
+        return self.neumann_nodes
 
     @force_nodes.setter
     def force_nodes(self, value):
@@ -268,7 +268,7 @@ class LinearElasticity(FEMDomain):
 
     @property
     def force_elements_all(self) -> np.ndarray:
-        return self.neumann_elements_all
+        return self.neumann_elements
 
     @classmethod
     def from_mesh_tags(
-- 
2.43.0


From 3f85f50c6cdd909e0f5a8942cb97217068b05944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:29 +0000
Subject: [PATCH 39/44] fix: show every section and its own time in the timing
 charts

---
 scikit-topt/sktopt/tools/timer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/tools/timer.py b/scikit-topt/sktopt/tools/timer.py
index 261178e..b28cdb6 100644
--- a/scikit-topt/sktopt/tools/timer.py
+++ b/scikit-topt/sktopt/tools/timer.py
@@ -314,7 +314,8 @@ class SectionTimer:
                     for ch in child_names
                 ]
                 child_sum = sum(child_vals)
-                self_val = max(p_val - child_sum, 0.0)
+                # self-time statistics exclude the children already
+                self_val = p_val if use_self_time else max(p_val - child_sum, 0.0)
 
                 left = 0.0
                 lbl_self = f"{name} (self)"
@@ -373,7 +374,7 @@ class SectionTimer:
             ]
         data = [metric_map[value](s) for s in stats]
         if moving_average:
-            data = self._update_running_average(names, data)
+            data = self._update_running_average([s.name for s in stats], data)
 
         fig = None
         if ax is None:
@@ -383,7 +384,10 @@ class SectionTimer:
             fig = Figure(figsize=(6, 0.4 * len(stats) + 1))
             ax = fig.add_subplot(111)
 
-        ax.barh(names, data, color=color)
+        # sections of different parents may share a label: one row for each
+        ax.barh(range(len(names)), data, color=color)
+        ax.set_yticks(range(len(names)))
+        ax.set_yticklabels(names)
         ax.set_xlabel(f"{value} [s]" if value in ("total", "avg", "max") else value)
         ax.set_title("Section timing")
         ax.invert_yaxis()
-- 
2.43.0


From 66081596ca5dc1e96793e4bdab2fbf0575342035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:29 +0000
Subject: [PATCH 40/44] fix: draw histograms of values that differ by rounding
 only

---
 scikit-topt/sktopt/core/visualization.py |  3 ++-
 scikit-topt/sktopt/mesh/task_common.py   | 18 ++++++++++++++----
 scikit-topt/sktopt/mesh/utils.py         | 12 ++++++++++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/scikit-topt/sktopt/core/visualization.py b/scikit-topt/sktopt/core/visualization.py
index 9654efd..5b210c1 100644
--- a/scikit-topt/sktopt/core/visualization.py
+++ b/scikit-topt/sktopt/core/visualization.py
@@ -9,6 +9,7 @@ import skfem
 from skfem.io.meshio import HEX_MAPPING
 import meshio
 import matplotlib.pyplot as plt
+from sktopt.mesh.utils import histogram_range
 
 
 class XvfbWarning(UserWarning):
@@ -180,7 +181,7 @@ def rho_histo_plot(
 ):
     plt.clf()
     fig, ax = plt.subplots(1, 1, figsize=(8, 6))
-    ax.hist(rho.flatten(), bins=50)
+    ax.hist(rho.flatten(), bins=50, range=histogram_range(rho))
     ax.set_xlabel("Density (rho)")
     ax.set_ylabel("Number of Elements")
     ax.set_title("Density Distribution")
diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index fad5306..2b98e1c 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -461,20 +461,27 @@ class FEMDomain():
         plt.clf()
         fig, axs = plt.subplots(2, 3, figsize=(14, 6))
 
-        axs[0, 0].hist(node_nearest_dists, bins=30, edgecolor='black')
+        axs[0, 0].hist(
+            node_nearest_dists, bins=30, edgecolor='black',
+            range=utils.histogram_range(node_nearest_dists)
+        )
         axs[0, 0].set_title("Nearest Neighbor Distance (Nodes)")
         axs[0, 0].set_xlabel("Distance")
         axs[0, 0].set_ylabel("Count")
         axs[0, 0].grid(True)
 
-        axs[0, 1].hist(element_nearest_dists, bins=30, edgecolor='black')
+        axs[0, 1].hist(
+            element_nearest_dists, bins=30, edgecolor='black',
+            range=utils.histogram_range(element_nearest_dists)
+        )
         axs[0, 1].set_title("Nearest Neighbor Distance (Element Centers)")
         axs[0, 1].set_xlabel("Distance")
         axs[0, 1].set_ylabel("Count")
         axs[0, 1].grid(True)
 
         axs[1, 0].hist(
-            self.elements_volume, bins=30, edgecolor='black'
+            self.elements_volume, bins=30, edgecolor='black',
+            range=utils.histogram_range(self.elements_volume)
         )
         axs[1, 0].set_title("elements_volume - all")
         axs[1, 0].set_xlabel("Volume")
@@ -482,7 +489,10 @@ class FEMDomain():
         axs[1, 0].grid(True)
         axs[1, 1].hist(
             self.elements_volume[self.design_elements],
-            bins=30, edgecolor='black'
+            bins=30, edgecolor='black',
+            range=utils.histogram_range(
+                self.elements_volume[self.design_elements]
+            )
         )
         axs[1, 1].set_title("elements_volume - design")
         axs[1, 1].set_xlabel("Volume")
diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index 57f2640..a06f2fe 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -15,6 +15,18 @@ def get_points_in_range(x_rng, y_rng, z_rng):
     return in_range
 
 
+def histogram_range(values):
+    """
+    Range for a histogram of ``values``. ``None`` lets the plot choose; values
+    that differ by rounding only span too little to be divided into bins.
+    """
+    lower, upper = float(np.min(values)), float(np.max(values))
+    pad = 1e-9 * max(abs(lower), abs(upper))
+    if lower < upper <= lower + pad:
+        return lower - pad, upper + pad
+    return None
+
+
 def fix_hexahedron_orientation(t, p):
     """
     Ensures that each hexahedral element in the mesh has positive volume
-- 
2.43.0


From 4b7648f7aa7669443da85731d3b7313445be9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:29 +0000
Subject: [PATCH 41/44] fix: give absent boundaries no volume in the mesh
 statistics

---
 scikit-topt/sktopt/mesh/task_common.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 2b98e1c..96f7c6e 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -503,8 +503,14 @@ class FEMDomain():
         ]
         values = [
             np.sum(self.elements_volume),
-            np.sum(self.elements_volume[self.dirichlet_elements]),
-            np.sum(self.elements_volume[self.neumann_elements]),
+            # a problem may have no such boundary
+            *(
+                np.sum(self.elements_volume[elements])
+                if elements is not None else 0.0
+                for elements in (
+                    self.dirichlet_elements, self.neumann_elements
+                )
+            ),
             np.sum(self.elements_volume[self.design_elements])
         ]
         bars = axs[1, 2].bar(items, values)
-- 
2.43.0


From be229e4ff1696dc488f27e7746995c2164de0e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:29 +0000
Subject: [PATCH 42/44] fix: do not blend the border of animation frames with
 black

---
 scikit-topt/sktopt/core/visualization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/visualization.py b/scikit-topt/sktopt/core/visualization.py
index 5b210c1..a710e59 100644
--- a/scikit-topt/sktopt/core/visualization.py
+++ b/scikit-topt/sktopt/core/visualization.py
@@ -214,7 +214,9 @@ def images2gif(
         ) as writer:
             for filename in image_files:
                 image = imageio.imread(filename)
-                image_small = zoom(image, (scale, scale, 1))  # (H, W, C)
+                image_small = zoom(
+                    image, (scale, scale, 1), mode="nearest"
+                )  # (H, W, C)
                 image_small = image_small.astype("uint8")
                 writer.append_data(image_small)
                 # writer.append_data(image)
-- 
2.43.0


From eeed180ddec1a237d60fd7669561fde5d77f2e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:52 +0000
Subject: [PATCH 43/44] fix: limit the interface direction per element size,
 not in absolute length units

---
 scikit-topt/sktopt/fea/solver_heat.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index d7f9334..009ee22 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -583,7 +583,8 @@ def _robin_compliance_explicit_grad_(v, w):
 
     grad_rho = rho.grad
     interface = np.sqrt(np.sum(grad_rho**2, axis=0))
-    interface_safe = np.maximum(interface, 1e-12)
+    # a density that is uniform up to rounding has no direction
+    interface_safe = np.maximum(interface, w['interface_min'])
 
     a = (rho**p) * ((1.0 - rho)**q)
     da = (
@@ -968,6 +969,8 @@ class FEM_SimpLinearHeatConduction():
         rho_nodal, count = _element_to_nodal_average(basis, rho)
         rho_field = basis.interpolate(rho_nodal)
         Th_all = [basis.interpolate(u_dofs[:, i]) for i in range(n_loads)]
+        # per element size, so that it does not depend on the unit of length
+        interface_min = 1e-12 / float(np.mean(basis.mesh_parameters()))
 
         for h, T_env in self._robin_pairs():
             T_env_field = basis.interpolate(np.full(basis.N, T_env))
@@ -980,6 +983,7 @@ class FEM_SimpLinearHeatConduction():
                     h=float(h),
                     p=float(p),
                     q=float(self.q),
+                    interface_min=interface_min,
                 )
                 grad_all[:, i] += _nodal_gradient_to_element_gradient(
                     basis, nodal_grad, count
-- 
2.43.0


From 7926357a01fb8be41c140727f5a63605541b47b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:25 +0000
Subject: [PATCH 44/44] fix: keep constrained rows at the magnitude of the
 stiffness when solving elastic states

A unit diagonal beside moduli such as 210e9 made the factorization pivot
on the constrained columns and lose up to four digits of the
displacement; clamped nodes moved by 1e-4 of the greatest displacement.
---
 scikit-topt/sktopt/fea/solver_elastic.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_elastic.py b/scikit-topt/sktopt/fea/solver_elastic.py
index b32e62d..4110526 100644
--- a/scikit-topt/sktopt/fea/solver_elastic.py
+++ b/scikit-topt/sktopt/fea/solver_elastic.py
@@ -214,7 +214,11 @@ def compute_compliance_basis(
 
     # enforce
     with section("enforce_bc"):
-        K_e, F_e = skfem.enforce(K_csr, force, D=dirichlet_dofs)
+        # Keep the constrained rows at the magnitude of the stiffness: a unit
+        # diagonal next to it costs the factorization its accuracy.
+        K_e, F_e = skfem.enforce(
+            K_csr, force, D=dirichlet_dofs, diag=K_csr.diagonal().mean()
+        )
     with section("solve"):
         u = solve_u(
             K_e,
@@ -364,7 +368,12 @@ def solve_multi_load(
     # The pattern of K_e depends only on the Dirichlet DOF set, not on
     # the particular load vector, so we can use the first load as a template.
     with section("enforce_bc"):
-        K_e, _ = skfem.enforce(K_csr, force_list[0], D=dirichlet_dofs)
+        # Keep the constrained rows at the magnitude of the stiffness: a unit
+        # diagonal next to it costs the factorization its accuracy.
+        K_e, _ = skfem.enforce(
+            K_csr, force_list[0], D=dirichlet_dofs,
+            diag=K_csr.diagonal().mean()
+        )
 
     # Build all enforced right-hand sides and stack them column-wise.
     with section("build_rhs"):
-- 
2.43.0

