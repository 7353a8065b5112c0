From 815dc4f9c498c88501aa9598c0b5f9ea63cece99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 01/26] fix: interpolate the given indicator function for
 fitted data domains

The new (zero) DG0 function was interpolated into itself, so that the data term
vanished, and the caller's DataDomain was overwritten.
---
 src/dxss/space_time.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 3bd5ccc..71aaf60 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -146,8 +146,12 @@ class SpaceTime:
         # TODO: could this be moved to the constructor of the dataclass?
         if omega.fitted:
             q_ind = fem.FunctionSpace(self.msh, ("DG", 0))
-            self.omega.indicator_function = fem.Function(q_ind)
-            self.omega.indicator_function.interpolate(self.omega.indicator_function)
+            indicator_function = fem.Function(q_ind)
+            indicator_function.interpolate(omega.indicator_function)
+            self.omega = dataclasses.replace(
+                omega,
+                indicator_function=indicator_function,
+            )
         else:
             self.omega.indicator_function = self.omega.indicator_function
 
-- 
2.43.0


From 8955b701b48382a28de63a953cb24e0db594f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 02/26] fix: call the coarse grid correction of the solver in
 pre_twolvl

---
 src/dxss/space_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 71aaf60..6d29349 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1445,7 +1445,7 @@ class SpaceTime:
         self.prolongation(self.tmp2_coarse, x_out)
 
     def pre_twolvl(self, b, x_sol):
-        self.otime.q_op(b, self.tmp3_sol)
+        self.q_op(b, self.tmp3_sol)
         self.apply_spacetime_matrix(self.tmp3_sol, self.tmp4_sol)
         self.tmp5_sol.array[:] = b.array[:]
         self.tmp5_sol.array[:] -= self.tmp4_sol.array[:]
-- 
2.43.0


From 07a0159867b73db4889934b7ce15a34083d4c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 03/26] fix: do not return the cached space-time matrix of the
 other variant

get_spacetime_matrix and get_spacetime_bfi ignored precond once anything was cached.
---
 src/dxss/space_time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 6d29349..c88fa20 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -183,6 +183,7 @@ class SpaceTime:
         # SpaceTime
         self.spacetime_bilinear_form = None
         self.spacetime_matrix = None
+        self.spacetime_precond = None
         # Slab matrix with DG-jumps
         self.slab_bilinear_form = None
         self.slab_matrix = None
@@ -711,7 +712,7 @@ class SpaceTime:
         return A, bilinear_form
 
     def get_spacetime_matrix(self, precond=False):
-        if not self.spacetime_matrix:
+        if not self.spacetime_matrix or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
@@ -719,16 +720,18 @@ class SpaceTime:
             # TODO: was this a bug? also on l663 👇
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_matrix
 
     def get_spacetime_bfi(self, precond=False):
-        if not self.spacetime_bilinear_form:
+        if not self.spacetime_bilinear_form or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
             )
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_bilinear_form
 
     def setup_rhs(self):
-- 
2.43.0


From 496d39d343162d712b77a46022cbbda6e91b382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 04/26] fix: set up everything the iterative solve needs

The work vector was missing when a slab matrix had been requested before, and the
slab matrix without jumps (used by apply_spacetime_matrix) for well-posed problems.
---
 src/dxss/space_time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index c88fa20..b0f1944 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -208,6 +208,7 @@ class SpaceTime:
         self.SpaceTimeRhs = None
 
         # auxiliary vectors
+        self.b_rhs_pre = None
         self.vec_slab1 = None
         self.vec_slab2 = None
         self.vec_coupling1 = None
@@ -1336,8 +1337,9 @@ class SpaceTime:
     def prepare_precondition_gmres(self):
         if not self.slab_matrix:
             self.setup_slab_matrix(with_jumps=True)
+        if not self.b_rhs_pre:
             self.b_rhs_pre, _ = self.slab_matrix.createVecs()
-        if not self.SlabMatFirstSlab and not self.well_posed:
+        if not self.slab_matrix_no_dg_jumps:
             self.setup_slab_matrix(with_jumps=False)
         if not self.coupling_matrix_between_slices:
             self.setup_coupling_matrix_between_slices()
-- 
2.43.0


From a78d60487f057ace0ea141c35ae4d804b005c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 05/26] fix: include the initial data terms in the matrix-free
 operator

For well-posed problems apply_spacetime_matrix omitted the terms on the first slab
which the assembled matrix and the right-hand side contain.
---
 src/dxss/space_time.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index b0f1944..a7a8c38 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1156,10 +1156,12 @@ class SpaceTime:
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
 
-            self.slab_matrix_no_dg_jumps_multiply(
-                self.vec_slab1,
-                self.vec_slab2,
-            )  # multiplication with slab matrix
+            # multiplication with slab matrix
+            if n == 0:
+                # includes the initial data terms if the problem is well-posed
+                self.SlabMatFirstSlab.mult(self.vec_slab1, self.vec_slab2)
+            else:
+                self.slab_matrix_no_dg_jumps_multiply(self.vec_slab1, self.vec_slab2)
 
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
-- 
2.43.0


From afed94f58e3d0d91b155eba6cdf94725f34e0db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 06/26] fix: do not overwrite the initial data when measuring
 errors or exporting

---
 src/dxss/space_time.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index a7a8c38..8736921 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1471,10 +1471,11 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        # not self.u1_0, which holds the initial data
+        u1_end = fem.Function(self.fes_u1_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
         ue = self.solution.v(self.T, self.x)
-        l2_error = fem.form(ufl.inner(self.u1_0 - ue, self.u1_0 - ue) * dx)
+        l2_error = fem.form(ufl.inner(u1_end - ue, u1_end - ue) * dx)
         error_local = fem.assemble_scalar(l2_error)
         error_l2_abs = np.sqrt(self.msh.comm.allreduce(error_local, op=MPI.SUM))
         print(f"t = {self.T}, L2-error = {error_l2_abs} ")
@@ -1842,8 +1843,11 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        # not self.u1_0 and self.u2_0, which hold the initial data
+        u1_end = fem.Function(self.fes_u1_0)
+        u2_end = fem.Function(self.fes_u2_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
+        u2_end.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
 
         u_exact = fem.Function(self.fes_u1_0)
         u_diff = fem.Function(self.fes_u1_0)
@@ -1863,8 +1867,8 @@ class SpaceTime:
         )
         ut_exact.interpolate(ut_expr_exact)
 
-        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - self.u1_0.x.array[:])
-        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - self.u2_0.x.array[:])
+        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - u1_end.x.array[:])
+        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - u2_end.x.array[:])
         print(" u_diff.x.array =", u_diff.x.array)
 
         u_diff.name = "u-abserr"
-- 
2.43.0


From 4b5e655f90bac680ee3eeb3c1170e3b09a97470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 07/26] fix: allow for unfitted data domains in the coarse grid
 matrix

The UFL expression of an unfitted domain cannot be interpolated.
---
 src/dxss/space_time.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 8736921..ef41505 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -370,9 +370,17 @@ class SpaceTime:
         if afes == self.fes:
             omega_ind = self.omega.indicator_function
         else:
-            q_ind = fem.FunctionSpace(afes.mesh, ("DG", 0))
-            omega_ind = fem.Function(q_ind)
-            omega_ind.interpolate(self.omega.indicator_function)
+            omega_ind = self.omega.indicator_function
+            if isinstance(omega_ind, fem.Function):
+                q_ind = fem.FunctionSpace(afes.mesh, ("DG", 0))
+                omega_ind = fem.Function(q_ind)
+                omega_ind.interpolate(self.omega.indicator_function)
+            else:
+                # an expression in the coordinates of the fine mesh
+                omega_ind = ufl.replace(
+                    omega_ind,
+                    {self.x: ufl.SpatialCoordinate(afes.mesh)},
+                )
 
         # retrieve stabilization parameter
         gamma_data = self.stabilisation_terms["data"]
-- 
2.43.0


From fffe9afd6106970aa374787331241f0c3886d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 08/26] fix: transfer each field between the grids with its own
 spatial order

Prolongation and restriction used the order of the primal fields for the dual ones.
---
 src/dxss/space_time.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index ef41505..8c17ef6 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1398,8 +1398,13 @@ class SpaceTime:
             self.fes_coarse.sub(0).sub(0).collapse()
         )
         self.fes_node_fine, self.dofmap_node_fine = self.fes.sub(0).sub(0).collapse()
-        self.u_node_fine = fem.Function(self.fes_node_fine)
-        self.u_node_coarse = fem.Function(self.fes_node_coarse)
+        # one pair for each field, as the spatial orders of the fields may differ
+        self.u_node_fine = [
+            fem.Function(self.fes.sub(j).sub(0).collapse()[0]) for j in range(4)
+        ]
+        self.u_node_coarse = [
+            fem.Function(self.fes_coarse.sub(j).sub(0).collapse()[0]) for j in range(4)
+        ]
 
         self.SpaceTimeMatCoarse, self.SpaceTimeBfiCoarse = self.setup_spacetime_matrix(
             self.fes_coarse,
@@ -1427,13 +1432,13 @@ class SpaceTime:
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_coarse.x.array[:] = x_coarse.array[
+                    self.u_node_coarse[j].x.array[:] = x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
                     ]
-                    self.u_node_fine.interpolate(self.u_node_coarse)
+                    self.u_node_fine[j].interpolate(self.u_node_coarse[j])
                     x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
-                    ] = self.u_node_fine.x.array[:]
+                    ] = self.u_node_fine[j].x.array[:]
             int_idx_q += self.otime.q + 1
             int_idx_qstar += self.otime.qstar + 1
 
@@ -1444,13 +1449,13 @@ class SpaceTime:
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_fine.x.array[:] = x_fine.array[
+                    self.u_node_fine[j].x.array[:] = x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
-                    self.u_node_coarse.interpolate(self.u_node_fine)
+                    self.u_node_coarse[j].interpolate(self.u_node_fine[j])
                     x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
-                    ] = self.u_node_coarse.x.array[:]
+                    ] = self.u_node_coarse[j].x.array[:]
             int_idx_qstar += self.otime.qstar + 1
             int_idx_q += self.otime.q + 1
 
-- 
2.43.0


From 97b08330da6b5fc7ed8ca4a8eb8d085a7b9d70a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 09/26] fix: use the communicator and layout of the right-hand
 side in GMRES

The shell matrix was always created on the default communicator with PETSc's own
layout, which fails for a right-hand side with another one.
---
 src/dxss/gmres.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index 3c14f88..a26d595 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -50,10 +50,15 @@ def get_gmres_solution(
     # Renaming for readability and consistency with PETSc docs. Potentially a minor inefficiency.
     context = A
 
-    N = b.getSize()  # noqa: N806 | global vector size variables use uppercase in PETSc
-
-    # Create a PETSc shell matrix of appropriate global size (N x N)
-    A_shell = PETSc.Mat().createPython(N, context)  # noqa: N806 | convention for matrix
+    sizes = b.getSizes()  # local and global size
+
+    # Create a PETSc shell matrix of appropriate global size (N x N), with the
+    # communicator and the parallel layout of the right-hand side
+    A_shell = PETSc.Mat().createPython(  # noqa: N806 | convention for matrix
+        (sizes, sizes),
+        context,
+        comm=b.getComm(),
+    )
     A_shell.setUp()
 
     ksp = PETSc.KSP()
-- 
2.43.0


From 94c32d587057e89d304e73f4c8881a729468fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 10/26] fix: raise if the mesh nodes are not numbered
 sequentially, not if they are

---
 src/dxss/meshes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index dd74037..fd3ae43 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -491,7 +491,7 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -623,7 +623,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -728,7 +728,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
-- 
2.43.0


From 81daa6d766de410cd73cda045d75ba276970e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 11/26] fix: remove the call of an undefined function in
 get_mesh_inclusion_square

---
 src/dxss/meshes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index fd3ae43..5782d57 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -650,9 +650,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         MPI.COMM_WORLD,
         cells,
         x,
-        ufl_mesh_from_gmsh(  # noqa: F821
-            gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
-        ),  # TODO: this function is undefined!! (old dolfinx api?)
+        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
     )
 
     with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
-- 
2.43.0


From 0850fa8ead6532c42a6d95b1535badf990f029c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 12/26] fix: finalize gmsh in get_3d_mesh_data_all_around

Otherwise the next mesh generated in the process contains the model of this one.
---
 src/dxss/meshes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 5782d57..1ff7393 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -917,6 +917,7 @@ def get_3d_mesh_data_all_around(n_ref, init_h_scale=1.0):
         gmsh_model_rank,
         gdim=gdim,
     )
+    gmsh.finalize()
 
     mesh_hierarchy = []
     mesh_hierarchy.append(mesh)
-- 
2.43.0


From 2ac104d0660fb195678306d53ea4d1ed4907c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 13/26] fix: pass right-hand side and solution in the right
 order to the direct solver

---
 src/dxss/solve_1d.py | 2 +-
 src/dxss/solve_2d.py | 2 +-
 src/dxss/solve_3d.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/solve_1d.py b/src/dxss/solve_1d.py
index 1a0309e..848c8c6 100644
--- a/src/dxss/solve_1d.py
+++ b/src/dxss/solve_1d.py
@@ -170,7 +170,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_2d.py b/src/dxss/solve_2d.py
index 292d46b..e26db7f 100644
--- a/src/dxss/solve_2d.py
+++ b/src/dxss/solve_2d.py
@@ -172,7 +172,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_3d.py b/src/dxss/solve_3d.py
index 9f36f60..9fcb1c9 100644
--- a/src/dxss/solve_3d.py
+++ b/src/dxss/solve_3d.py
@@ -237,7 +237,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
-- 
2.43.0


From 3fcd345d31e89f61c2c955f1e990e0e433c7006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 14/26] fix: allow for a target domain that ends at eta in
 get_mesh_inclusion_square

The default arguments (y_r == eta) failed with a rectangle of height zero.
---
 src/dxss/meshes.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 1ff7393..11fdd7e 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -555,13 +555,16 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 x_r - x_l,
                 eta - y_l,
             )
-            target_dom_plus = gmsh.model.occ.addRectangle(
-                x_l,
-                eta,
-                0,
-                x_r - x_l,
-                y_r - eta,
-            )
+            subdomains = []
+            if y_r > eta:  # otherwise no part of the target domain is above eta
+                target_dom_plus = gmsh.model.occ.addRectangle(
+                    x_l,
+                    eta,
+                    0,
+                    x_r - x_l,
+                    y_r - eta,
+                )
+                subdomains.append((2, target_dom_plus))
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
             gmsh.model.occ.synchronize()
@@ -570,7 +573,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 [
                     (2, target_dom_minus),
                     (2, mu_inner),
-                    (2, target_dom_plus),
+                    *subdomains,
                     (2, remainder_top),
                 ],
             )
-- 
2.43.0


From 8b675577c0ea5659cb3c70e3df759d08cf8f8a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 15/26] fix: do not leave a hole around a smaller target domain
 in get_mesh_inclusion_square

For eta < 1.5 only the default target domain filled the gap left in the square.
---
 src/dxss/meshes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 11fdd7e..0c5a9a2 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -555,7 +555,9 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 x_r - x_l,
                 eta - y_l,
             )
-            subdomains = []
+            # part of the square below eta around the target domain
+            remainder = gmsh.model.occ.addRectangle(-1.25, -1.25, 0, 2.5, 1.25 + eta)
+            subdomains = [(2, remainder)]
             if y_r > eta:  # otherwise no part of the target domain is above eta
                 target_dom_plus = gmsh.model.occ.addRectangle(
                     x_l,
-- 
2.43.0


From 6d859dac912b716f3f9bba7dffd65655bd88809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 16/26] fix: return the residual of the GMRES solution

KSPBuildResidual builds the solution again from the last cycle, which after
the solve adds the correction a second time.
---
 src/dxss/gmres.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index a26d595..4c1cb0c 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -106,6 +106,10 @@ def get_gmres_solution(
         PETSc.Sys.Print(f"Solver did not converge after {ksp_iter} iterations.")
         raise PETSc.Error
 
-    r = ksp.buildResidual()
+    # residual of the returned solution (`ksp.buildResidual` is only meaningful
+    # during the iteration: afterwards it adds the last correction once more)
+    r = b.duplicate()
+    A_shell.mult(x, r)
+    r.aypx(-1.0, b)
 
     return (x, r)
-- 
2.43.0


From 23caed8cc052c146adb19021633325ca8f0b29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 17/26] fix: integrate dual fields exactly when kstar exceeds k

The quadrature degree was chosen from the primal spatial order only, so
that for kstar >= k + 2 the dual stabilisation was under-integrated and
singular.
---
 src/dxss/space_time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 8c17ef6..12a30b7 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -124,7 +124,9 @@ class SpaceTime:
         self.jumps_in_fw_problem, self.well_posed = parameters
 
         # mesh-related
-        self.metadata = {"quadrature_degree": 2 * self.ospace.k + 3}
+        self.metadata = {
+            "quadrature_degree": 2 * max(self.ospace.k, self.ospace.kstar) + 3,
+        }
         self.dx = ufl.Measure("dx", domain=self.msh, metadata=self.metadata)
         self.n_facet = ufl.FacetNormal(self.msh)
         self.h = ufl.CellDiameter(self.msh)
-- 
2.43.0


From 2d8b920c0c3511f42e6740105e03697473d47056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 18/26] fix: set up the first-slab matrix when it is requested
 first

get_slab_bfi_first_slab and get_slab_matrix_first_slab returned None
unless the general slab matrix had been requested before.
---
 src/dxss/space_time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 12a30b7..d633b76 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1130,9 +1130,13 @@ class SpaceTime:
         return self.slab_matrix
 
     def get_slab_bfi_first_slab(self):
+        if not self.SlabBfiFirstSlab:
+            self.setup_slab_matrix(with_jumps=self.well_posed)
         return self.SlabBfiFirstSlab
 
     def get_slab_matrix_first_slab(self):
+        if not self.SlabMatFirstSlab:
+            self.setup_slab_matrix(with_jumps=self.well_posed)
         return self.SlabMatFirstSlab
 
     def set_solver_first_slab(self, solver):
-- 
2.43.0


From 5f474d80f0bdbe9a9f7541ae6b3f21316181afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 19/26] fix: free the GMRES solver and its Krylov basis after
 each solve

---
 src/dxss/gmres.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index 4c1cb0c..cfafbe5 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -97,9 +97,13 @@ def get_gmres_solution(
 
     x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning
 
-    ksp.solve(b, x)  # attempt to iterate to convergence
-    ksp_reason = ksp.getConvergedReason()  # check for convergence
-    ksp_iter = ksp.getIterationNumber()  # iterations completed
+    try:
+        ksp.solve(b, x)  # attempt to iterate to convergence
+        ksp_reason = ksp.getConvergedReason()  # check for convergence
+        ksp_iter = ksp.getIterationNumber()  # iterations completed
+    finally:
+        # petsc4py does not free the solver, and with it the Krylov basis, by itself
+        ksp.destroy()
 
     PETSc.Sys.Print(f"The convergence reason code is {ksp_reason}")
     if ksp_reason < 0:
-- 
2.43.0


From 8b6d91faeffbcc096bce186bf8dc0a3c710a2b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 20/26] fix: measured_errors samples the final time for every
 number of slabs

---
 src/dxss/space_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index d633b76..e651d66 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1550,7 +1550,10 @@ class SpaceTime:
                 total_error_l2l2_dt += omega_i * delta_t * error_dt_tni
 
             for t_sample in self.sample_pts_error:
-                if t_sample >= t_n and t_sample <= (t_n + delta_t):
+                # t_n + delta_t of the last slab may be less than T by rounding
+                if t_sample >= t_n and (
+                    t_sample <= (t_n + delta_t) or n == self.N - 1
+                ):
                     ue = self.solution.v(t_sample, self.x)
                     dt_ue = self.solution.dvdt(t_sample, self.x)
                     uh_at_ti = sum(
-- 
2.43.0


From 7b6887377ce68f2f78baf8daa3c696e07326e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 21/26] fix: release operator and preconditioner after each
 GMRES solve

---
 src/dxss/gmres.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index cfafbe5..bd937a9 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -101,19 +101,30 @@ def get_gmres_solution(
         ksp.solve(b, x)  # attempt to iterate to convergence
         ksp_reason = ksp.getConvergedReason()  # check for convergence
         ksp_iter = ksp.getIterationNumber()  # iterations completed
+    except BaseException:
+        x.destroy()
+        A_shell.destroy()
+        raise
     finally:
-        # petsc4py does not free the solver, and with it the Krylov basis, by itself
+        # petsc4py does not free the solver, and with it the Krylov basis, by itself;
+        # nor the preconditioner and the shell matrix, and with them `pre` and `A`
         ksp.destroy()
+        pc.destroy()
 
     PETSc.Sys.Print(f"The convergence reason code is {ksp_reason}")
     if ksp_reason < 0:
         PETSc.Sys.Print(f"Solver did not converge after {ksp_iter} iterations.")
+        x.destroy()
+        A_shell.destroy()
         raise PETSc.Error
 
     # residual of the returned solution (`ksp.buildResidual` is only meaningful
     # during the iteration: afterwards it adds the last correction once more)
     r = b.duplicate()
-    A_shell.mult(x, r)
+    try:
+        A_shell.mult(x, r)
+    finally:
+        A_shell.destroy()
     r.aypx(-1.0, b)
 
     return (x, r)
-- 
2.43.0


From 9aff75848949dcbba5e64c4fcc21a50b5c3c5e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 22/26] fix: free the right-hand side of each slab in
 pre_time_marching

---
 src/dxss/space_time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index e651d66..71d01b0 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1264,6 +1264,7 @@ class SpaceTime:
             else:
                 self.solver_slab.solve(b_rhs_pre, self.uh_pre.vector)
                 self.uh_pre.x.scatter_forward()
+            b_rhs_pre.destroy()  # petsc4py does not free it by itself
 
             u1_h_p, u2_h_p, z1_h_p, z2_h_p = self.uh_pre.split()
             self.u1_0_pre.x.array[:] = u1_h_p.x.array[self.dofmaps_pre[0][self.otime.q]]
-- 
2.43.0


From 8dd6a0f263f32ce48f436a80946415dec5228ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 23/26] fix: close the gmsh session when a mesh generator fails

A generator that raised (no mesh for the given parameters, an interrupt)
left its session and half-built model open; the next generator added its
geometry to that model and raised, or meshed both.  Every later call in
the process was affected.
---
 src/dxss/meshes.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 0c5a9a2..1fde0ab 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -1,3 +1,4 @@
+from functools import wraps
 from importlib.metadata import version
 
 import gmsh
@@ -19,6 +20,22 @@ GM = GhostMode.shared_facet
 eta = 0.6
 
 
+def closes_gmsh_on_failure(generator):
+    """Let a mesh generator which raises leave no gmsh session (and model) behind."""
+
+    @wraps(generator)
+    def wrapper(*args, **kwargs):
+        try:
+            return generator(*args, **kwargs)
+        except BaseException:
+            if gmsh.isInitialized():
+                gmsh.finalize()
+            raise
+
+    return wrapper
+
+
+@closes_gmsh_on_failure
 def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
     # TODO: Need to understand why there is a an import and subfunction here.
     # Looks like create_mesh could be global level. The following functions have
@@ -121,6 +138,7 @@ def get_mesh_convex(n_ref, init_h_scale=1.0):
     return meshes
 
 
+@closes_gmsh_on_failure
 def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     # TODO: This is very WET from create_inital_mesh_complex above. We need to
     # find some way to not repeat this function. Also fix PLR0915 and remove the
@@ -229,6 +247,7 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     return mesh_hierarchy
 
 
+@closes_gmsh_on_failure
 def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     # TODO: remove suppression of PLR0915 when refactored
     gmsh.initialize()
@@ -321,6 +340,7 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     return mesh_hierarchy
 
 
+@closes_gmsh_on_failure
 def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
     # TODO: remove suppression of PLR0915 when refactored
     gmsh.initialize()
@@ -431,6 +451,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
     return mesh_hierarchy
 
 
+@closes_gmsh_on_failure
 def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     # TODO: remove suppression of PLR0915 when refactored
     cell_type = CellType.triangle
@@ -526,6 +547,7 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     return msh
 
 
+@closes_gmsh_on_failure
 def get_mesh_inclusion_square(  # noqa: PLR0915
     h_init=1.25,
     x_l=-1.25,  # TODO: points could be passed as a tuple
@@ -663,6 +685,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     return msh
 
 
+@closes_gmsh_on_failure
 def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     # TODO: this function has too many statements. Try to reduce the complexity
     # on refactoring and remove the suppression of PLR0915.
@@ -766,6 +789,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     return msh
 
 
+@closes_gmsh_on_failure
 def get_mesh_data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     # TODO: this function has too many statements. Try to reduce the complexity
     # on refactoring and remove the suppression of PLR0915.
@@ -869,6 +893,7 @@ def get_mesh_data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     return mesh_hierarchy
 
 
+@closes_gmsh_on_failure
 def get_3d_mesh_data_all_around(n_ref, init_h_scale=1.0):
     # if proc == 0:
     gdim = 3
-- 
2.43.0


From 8cb48cc578f5d32637361aef171affb57dbb8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:26 +0000
Subject: [PATCH 24/26] fix: errors of a solution that is not a number are not
 finite

max() of a list ignores NaN entries behind the first one, so that the
reported L-infty errors of a solution which breaks down after the first
time slab were those of the slabs before.
---
 src/dxss/space_time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 71d01b0..e40bb6a 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1606,12 +1606,12 @@ class SpaceTime:
 
             int_idx += self.otime.q + 1
 
-        print("L-infty-L2 error u = ", max(l2_error_at_samples))
-        print("L-infty-L2 error u_t = ", max(l2_error_dt_at_samples))
+        print("L-infty-L2 error u = ", np.max(l2_error_at_samples))
+        print("L-infty-L2 error u_t = ", np.max(l2_error_dt_at_samples))
         print("L2-L2 error u_t = ", sqrt(total_error_l2l2_dt))
 
-        err_dict["L-infty-L2-error-u"] = max(l2_error_at_samples)
-        err_dict["L-infty-L2-error-ut"] = max(l2_error_dt_at_samples)
+        err_dict["L-infty-L2-error-u"] = np.max(l2_error_at_samples)
+        err_dict["L-infty-L2-error-ut"] = np.max(l2_error_dt_at_samples)
         err_dict["L2-L2-error-u_t"] = sqrt(total_error_l2l2_dt)
 
         return err_dict
-- 
2.43.0


From f7474938f5dd860b2ede236bf52ae02634614a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:54 +0000
Subject: [PATCH 25/26] fix: nonconvex mesh marked the rest of the target
 region as the remainder and vice versa

The centre of mass of the part of the target region outside the data region
is (0.5, 0.6125); (0.5, 0.5) is that of the remainder.
---
 src/dxss/meshes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 1fde0ab..eaca4ad 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -272,7 +272,7 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
             print(com)
             if np.allclose(com, [0.5, 0.275, 0]):
                 gmsh.model.addPhysicalGroup(2, [surface[1]], omega_marker)
-            elif np.allclose(com, [0.5, 0.5, 0]):
+            elif np.allclose(com, [0.5, 0.6125, 0]):
                 gmsh.model.addPhysicalGroup(2, [surface[1]], b_withoutomega_marker)
             else:
                 gmsh.model.addPhysicalGroup(2, [surface[1]], rest_marker)
-- 
2.43.0


From 096cd2a412433b2bef40f90b9164cae960459314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:54 +0000
Subject: [PATCH 26/26] fix: inclusion meshes marked lines through the middle
 of the domain as its border

The domain is the square (-1.5, 1.5)^2, not the unit square.
---
 src/dxss/meshes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index eaca4ad..7d3a53c 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -493,10 +493,10 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
         for line in gmsh.model.getEntities(dim=1):
             com = gmsh.model.occ.getCenterOfMass(line[0], line[1])
             if (
-                np.isclose(com[0], 0)
-                or np.isclose(com[0], 1)
-                or np.isclose(com[1], 0)
-                or np.isclose(com[1], 1)
+                np.isclose(com[0], -1.5)
+                or np.isclose(com[0], 1.5)
+                or np.isclose(com[1], -1.5)
+                or np.isclose(com[1], 1.5)
             ):
                 bnd_square.append(line[1])
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
@@ -630,10 +630,10 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         for line in gmsh.model.getEntities(dim=1):
             com = gmsh.model.occ.getCenterOfMass(line[0], line[1])
             if (
-                np.isclose(com[0], 0)
-                or np.isclose(com[0], 1)
-                or np.isclose(com[1], 0)
-                or np.isclose(com[1], 1)
+                np.isclose(com[0], -1.5)
+                or np.isclose(com[0], 1.5)
+                or np.isclose(com[1], -1.5)
+                or np.isclose(com[1], 1.5)
             ):
                 bnd_square.append(line[1])
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
-- 
2.43.0

