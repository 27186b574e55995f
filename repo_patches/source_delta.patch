From f253d4b893fd6afc9715d82ba6641e0813b16673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 01/23] fix: interpolate the user's indicator for fitted data
 domains

The indicator was overwritten by a zero function before being interpolated from
itself, and the caller's DataDomain was modified.
---
 src/dxss/space_time.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 3bd5ccc..171495b 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -146,10 +146,9 @@ class SpaceTime:
         # TODO: could this be moved to the constructor of the dataclass?
         if omega.fitted:
             q_ind = fem.FunctionSpace(self.msh, ("DG", 0))
-            self.omega.indicator_function = fem.Function(q_ind)
-            self.omega.indicator_function.interpolate(self.omega.indicator_function)
-        else:
-            self.omega.indicator_function = self.omega.indicator_function
+            indicator = fem.Function(q_ind)
+            indicator.interpolate(omega.indicator_function)
+            self.omega = dataclasses.replace(omega, indicator_function=indicator)
 
         # FESpaces
         self.fes = None
-- 
2.43.0


From 9e4f09e6399e50fd892c4bc2c77f2ee911cdc2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 02/23] fix: pre_twolvl calls its own coarse correction

OrderTime has no q_op, every application raised AttributeError.
---
 src/dxss/space_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 171495b..b6d6b3d 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1440,7 +1440,7 @@ class SpaceTime:
         self.prolongation(self.tmp2_coarse, x_out)
 
     def pre_twolvl(self, b, x_sol):
-        self.otime.q_op(b, self.tmp3_sol)
+        self.q_op(b, self.tmp3_sol)
         self.apply_spacetime_matrix(self.tmp3_sol, self.tmp4_sol)
         self.tmp5_sol.array[:] = b.array[:]
         self.tmp5_sol.array[:] -= self.tmp4_sol.array[:]
-- 
2.43.0


From e56a1e61ca79e7a49aad17b75fe293786b0fd8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 03/23] fix: cache space-time matrices per precond flag

get_spacetime_matrix/get_spacetime_bfi returned whichever variant was built first.
---
 src/dxss/space_time.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index b6d6b3d..eaef64e 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -176,8 +176,9 @@ class SpaceTime:
 
         # Bilinear forms / matrices
         # SpaceTime
-        self.spacetime_bilinear_form = None
-        self.spacetime_matrix = None
+        # (one for each value of the precond flag)
+        self.spacetime_bilinear_form = {}
+        self.spacetime_matrix = {}
         # Slab matrix with DG-jumps
         self.slab_bilinear_form = None
         self.slab_matrix = None
@@ -706,25 +707,25 @@ class SpaceTime:
         return A, bilinear_form
 
     def get_spacetime_matrix(self, precond=False):
-        if not self.spacetime_matrix:
+        if precond not in self.spacetime_matrix:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
             )
             # TODO: was this a bug? also on l663 👇
-            self.spacetime_bilinear_form = bilinear_form
-            self.spacetime_matrix = A
-        return self.spacetime_matrix
+            self.spacetime_bilinear_form[precond] = bilinear_form
+            self.spacetime_matrix[precond] = A
+        return self.spacetime_matrix[precond]
 
     def get_spacetime_bfi(self, precond=False):
-        if not self.spacetime_bilinear_form:
+        if precond not in self.spacetime_bilinear_form:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
             )
-            self.spacetime_bilinear_form = bilinear_form
-            self.spacetime_matrix = A
-        return self.spacetime_bilinear_form
+            self.spacetime_bilinear_form[precond] = bilinear_form
+            self.spacetime_matrix[precond] = A
+        return self.spacetime_bilinear_form[precond]
 
     def setup_rhs(self):
         w1, w2, y1, y2 = ufl.TestFunctions(self.fes)
-- 
2.43.0


From f7adb6fed6a7628cb7652e408ba9d50e1c568945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 04/23] fix: prepare all work vectors and slab matrices for
 every call order

b_rhs_pre was missing when the slab matrix had been requested before, the slab matrix
of matrix-free products was never built for well-posed problems.
---
 src/dxss/space_time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index eaef64e..bf1fcef 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1329,9 +1329,9 @@ class SpaceTime:
     def prepare_precondition_gmres(self):
         if not self.slab_matrix:
             self.setup_slab_matrix(with_jumps=True)
-            self.b_rhs_pre, _ = self.slab_matrix.createVecs()
-        if not self.SlabMatFirstSlab and not self.well_posed:
+        if not self.slab_matrix_no_dg_jumps:
             self.setup_slab_matrix(with_jumps=False)
+        self.b_rhs_pre, _ = self.slab_matrix.createVecs()
         if not self.coupling_matrix_between_slices:
             self.setup_coupling_matrix_between_slices()
         if not self.SpaceTimeRhs:
-- 
2.43.0


From 621a814e05bbd77017dabefd668f5bff120ad736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 05/23] fix: build the first-slab matrix on request

The accessors returned None when no slab matrix had been requested before.
---
 src/dxss/space_time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index bf1fcef..09af2d9 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1112,9 +1112,13 @@ class SpaceTime:
         return self.slab_matrix
 
     def get_slab_bfi_first_slab(self):
+        if not self.SlabBfiFirstSlab:
+            self.setup_slab_matrix(with_jumps=self.well_posed)
         return self.SlabBfiFirstSlab
 
     def get_slab_matrix_first_slab(self):
+        if not self.SlabMatFirstSlab:
+            self.setup_slab_matrix(with_jumps=self.well_posed)
         return self.SlabMatFirstSlab
 
     def set_solver_first_slab(self, solver):
-- 
2.43.0


From c0c3336551b57270b2cdafa93594d506305addb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 06/23] fix: include initial data terms in the matrix-free
 product

For well-posed problems the product differed from the assembled matrix in the first slab.
---
 src/dxss/space_time.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 09af2d9..bcf81de 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1152,10 +1152,14 @@ class SpaceTime:
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
 
-            self.slab_matrix_no_dg_jumps_multiply(
-                self.vec_slab1,
-                self.vec_slab2,
-            )  # multiplication with slab matrix
+            if n == 0 and self.well_posed:
+                # includes the initial data terms
+                self.SlabMatFirstSlab.mult(self.vec_slab1, self.vec_slab2)
+            else:
+                self.slab_matrix_no_dg_jumps_multiply(
+                    self.vec_slab1,
+                    self.vec_slab2,
+                )  # multiplication with slab matrix
 
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
-- 
2.43.0


From 55a47ad954dd2b54944f5f4185cc7d4b24793830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 07/23] fix: pass right-hand side and solution to the direct
 solver in order

KSP.solve and PySolver.solve take (b, x); the fallback solved for the right-hand side.
---
 src/dxss/solve_1d.py | 2 +-
 src/dxss/solve_2d.py | 2 +-
 src/dxss/solve_3d.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/solve_1d.py b/src/dxss/solve_1d.py
index 1a0309e..848c8c6 100644
--- a/src/dxss/solve_1d.py
+++ b/src/dxss/solve_1d.py
@@ -170,7 +170,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_2d.py b/src/dxss/solve_2d.py
index 292d46b..e26db7f 100644
--- a/src/dxss/solve_2d.py
+++ b/src/dxss/solve_2d.py
@@ -172,7 +172,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_3d.py b/src/dxss/solve_3d.py
index 9f36f60..9fcb1c9 100644
--- a/src/dxss/solve_3d.py
+++ b/src/dxss/solve_3d.py
@@ -237,7 +237,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
-- 
2.43.0


From dafe859433f9dcd1f3cb3a1a7b291d8b6383e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 08/23] fix: sample the error at the final time for every
 number of slabs

---
 src/dxss/space_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index bcf81de..fd02884 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1527,7 +1527,10 @@ class SpaceTime:
                 total_error_l2l2_dt += omega_i * delta_t * error_dt_tni
 
             for t_sample in self.sample_pts_error:
-                if t_sample >= t_n and t_sample <= (t_n + delta_t):
+                # the end of the last slab is T, whatever the rounding of its sum
+                if t_sample >= t_n and (
+                    t_sample <= (t_n + delta_t) or n == self.N - 1
+                ):
                     ue = self.solution.v(t_sample, self.x)
                     dt_ue = self.solution.dvdt(t_sample, self.x)
                     uh_at_ti = sum(
-- 
2.43.0


From d080a9f1c3e7bf69b786bf7dc17133f81b0dddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 09/23] fix: coarse-grid preparation builds the linear form on
 request

---
 src/dxss/space_time.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index fd02884..9d92ff5 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1395,12 +1395,13 @@ class SpaceTime:
             precond=False,
         )
 
-        self.tmp1_fine = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp2_fine = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp3_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp4_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp5_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
-        self.tmp6_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
+        linear_form = self.get_spacetime_lfi()
+        self.tmp1_fine = fem.petsc.create_vector(linear_form)
+        self.tmp2_fine = fem.petsc.create_vector(linear_form)
+        self.tmp3_sol = fem.petsc.create_vector(linear_form)
+        self.tmp4_sol = fem.petsc.create_vector(linear_form)
+        self.tmp5_sol = fem.petsc.create_vector(linear_form)
+        self.tmp6_sol = fem.petsc.create_vector(linear_form)
         self.tmp1_coarse, self.tmp2_coarse = self.SpaceTimeMatCoarse.createVecs()
 
     def get_spacetime_matrix_coarse(self):
-- 
2.43.0


From 81d66a6d9723e1e4a2bf329272883631732666e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 10/23] fix: error measurement and export leave the initial
 data alone

---
 src/dxss/space_time.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 9d92ff5..62c9e9c 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1469,10 +1469,11 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        # the initial data of the problem must not be overwritten
+        u1_end = fem.Function(self.fes_u1_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
         ue = self.solution.v(self.T, self.x)
-        l2_error = fem.form(ufl.inner(self.u1_0 - ue, self.u1_0 - ue) * dx)
+        l2_error = fem.form(ufl.inner(u1_end - ue, u1_end - ue) * dx)
         error_local = fem.assemble_scalar(l2_error)
         error_l2_abs = np.sqrt(self.msh.comm.allreduce(error_local, op=MPI.SUM))
         print(f"t = {self.T}, L2-error = {error_l2_abs} ")
@@ -1843,8 +1844,11 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        # the initial data of the problem must not be overwritten
+        u1_end = fem.Function(self.fes_u1_0)
+        u2_end = fem.Function(self.fes_u2_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
+        u2_end.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
 
         u_exact = fem.Function(self.fes_u1_0)
         u_diff = fem.Function(self.fes_u1_0)
@@ -1864,8 +1868,8 @@ class SpaceTime:
         )
         ut_exact.interpolate(ut_expr_exact)
 
-        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - self.u1_0.x.array[:])
-        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - self.u2_0.x.array[:])
+        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - u1_end.x.array[:])
+        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - u2_end.x.array[:])
         print(" u_diff.x.array =", u_diff.x.array)
 
         u_diff.name = "u-abserr"
-- 
2.43.0


From 7920a66b62bb89606c09aef8759b22f66ed60003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 11/23] fix: transfer dual variables in their own spaces
 between meshes

---
 src/dxss/space_time.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 62c9e9c..862f263 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -247,6 +247,8 @@ class SpaceTime:
         self.dofmap_node_fine = None
         self.u_node_fine = None
         self.u_node_coarse = None
+        self.z_node_fine = None
+        self.z_node_coarse = None
 
     def setup_spacetime_finite_elements(self):
         # Full Space-time system
@@ -1389,6 +1391,9 @@ class SpaceTime:
         self.fes_node_fine, self.dofmap_node_fine = self.fes.sub(0).sub(0).collapse()
         self.u_node_fine = fem.Function(self.fes_node_fine)
         self.u_node_coarse = fem.Function(self.fes_node_coarse)
+        # the dual variables may have another degree in space
+        self.z_node_fine = fem.Function(self.fes.sub(2).sub(0).collapse()[0])
+        self.z_node_coarse = fem.Function(self.fes_coarse.sub(2).sub(0).collapse()[0])
 
         self.SpaceTimeMatCoarse, self.SpaceTimeBfiCoarse = self.setup_spacetime_matrix(
             self.fes_coarse,
@@ -1416,14 +1421,16 @@ class SpaceTime:
         for _n in range(self.N):
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
+                node_coarse = self.u_node_coarse if j in [0, 1] else self.z_node_coarse
+                node_fine = self.u_node_fine if j in [0, 1] else self.z_node_fine
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_coarse.x.array[:] = x_coarse.array[
+                    node_coarse.x.array[:] = x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
                     ]
-                    self.u_node_fine.interpolate(self.u_node_coarse)
+                    node_fine.interpolate(node_coarse)
                     x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
-                    ] = self.u_node_fine.x.array[:]
+                    ] = node_fine.x.array[:]
             int_idx_q += self.otime.q + 1
             int_idx_qstar += self.otime.qstar + 1
 
@@ -1433,14 +1440,16 @@ class SpaceTime:
         for _n in range(self.N):
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
+                node_coarse = self.u_node_coarse if j in [0, 1] else self.z_node_coarse
+                node_fine = self.u_node_fine if j in [0, 1] else self.z_node_fine
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_fine.x.array[:] = x_fine.array[
+                    node_fine.x.array[:] = x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
-                    self.u_node_coarse.interpolate(self.u_node_fine)
+                    node_coarse.interpolate(node_fine)
                     x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
-                    ] = self.u_node_coarse.x.array[:]
+                    ] = node_coarse.x.array[:]
             int_idx_qstar += self.otime.qstar + 1
             int_idx_q += self.otime.q + 1
 
-- 
2.43.0


From 9f8d71847266f175c885309c62683cc7d1a69276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 12/23] fix: accept sequential node numberings from the mesh
 generator, refuse others

---
 src/dxss/meshes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index dd74037..fd3ae43 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -491,7 +491,7 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -623,7 +623,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -728,7 +728,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
-- 
2.43.0


From fd0bffeb5d137bd6259128b2580ebb66fad61dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 13/23] fix: get_mesh_inclusion_square called an undefined
 function

---
 src/dxss/meshes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index fd3ae43..5782d57 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -650,9 +650,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         MPI.COMM_WORLD,
         cells,
         x,
-        ufl_mesh_from_gmsh(  # noqa: F821
-            gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
-        ),  # TODO: this function is undefined!! (old dolfinx api?)
+        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
     )
 
     with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
-- 
2.43.0


From 93d82b4ac2c932299f61e932be4ee60239d5abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 14/23] fix: get_mesh_inclusion_square without a target part
 above eta (its default)

---
 src/dxss/meshes.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 5782d57..0bb7b2b 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -555,13 +555,10 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 x_r - x_l,
                 eta - y_l,
             )
-            target_dom_plus = gmsh.model.occ.addRectangle(
-                x_l,
-                eta,
-                0,
-                x_r - x_l,
-                y_r - eta,
-            )
+            target_dom_plus = []
+            if y_r > eta:  # no part of the target domain above eta otherwise
+                tag = gmsh.model.occ.addRectangle(x_l, eta, 0, x_r - x_l, y_r - eta)
+                target_dom_plus.append((2, tag))
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
             gmsh.model.occ.synchronize()
@@ -570,7 +567,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 [
                     (2, target_dom_minus),
                     (2, mu_inner),
-                    (2, target_dom_plus),
+                    *target_dom_plus,
                     (2, remainder_top),
                 ],
             )
-- 
2.43.0


From 58932901261f903936e9fe16a669d88d7c196e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 15/23] fix: close the mesh generator on every process after
 use

---
 src/dxss/meshes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 0bb7b2b..7130215 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -78,7 +78,7 @@ def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -382,7 +382,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -914,6 +914,7 @@ def get_3d_mesh_data_all_around(n_ref, init_h_scale=1.0):
         gmsh_model_rank,
         gdim=gdim,
     )
+    gmsh.finalize()
 
     mesh_hierarchy = []
     mesh_hierarchy.append(mesh)
-- 
2.43.0


From 65442a03334ef2061f61a4da097211ecf32474cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 16/23] fix: close the mesh generator when a node numbering is
 refused

---
 src/dxss/meshes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 7130215..8524058 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -492,6 +492,7 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     idx -= 1
     srt = np.argsort(idx)
     if not np.all(idx[srt] == np.arange(len(idx))):
+        gmsh.finalize()
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -621,6 +622,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     idx -= 1
     srt = np.argsort(idx)
     if not np.all(idx[srt] == np.arange(len(idx))):
+        gmsh.finalize()
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -724,6 +726,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     idx -= 1
     srt = np.argsort(idx)
     if not np.all(idx[srt] == np.arange(len(idx))):
+        gmsh.finalize()
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
-- 
2.43.0


From 4fe1ec051b8ad8b8451abdfc06408ae1fbc5277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 17/23] fix: processes other than the root import an empty part
 of the mesh

---
 src/dxss/meshes.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 8524058..b92442b 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -505,9 +505,13 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(
+        gmsh.model.mesh.getElementType("triangle", order),
+    )
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
+    # only the root has elements
+    cells = node_tags[0] if len(node_tags) > 0 else np.empty(0, dtype=np.uint64)
+    cells = cells.reshape(-1, num_nodes) - 1
     if cell_type == CellType.triangle:
         gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
     elif cell_type == CellType.quadrilateral:
@@ -635,9 +639,13 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(
+        gmsh.model.mesh.getElementType("triangle", order),
+    )
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
+    # only the root has elements
+    cells = node_tags[0] if len(node_tags) > 0 else np.empty(0, dtype=np.uint64)
+    cells = cells.reshape(-1, num_nodes) - 1
     if cell_type == CellType.triangle:
         gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
     elif cell_type == CellType.quadrilateral:
@@ -739,9 +747,13 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
         num_nodes,
         local_coords,
         num_first_order_nodes,
-    ) = gmsh.model.mesh.getElementProperties(element_types[0])
+    ) = gmsh.model.mesh.getElementProperties(
+        gmsh.model.mesh.getElementType("triangle", order),
+    )
 
-    cells = node_tags[0].reshape(-1, num_nodes) - 1
+    # only the root has elements
+    cells = node_tags[0] if len(node_tags) > 0 else np.empty(0, dtype=np.uint64)
+    cells = cells.reshape(-1, num_nodes) - 1
     if cell_type == CellType.triangle:
         gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
     elif cell_type == CellType.quadrilateral:
-- 
2.43.0


From f041cc748928181290f9a7c54be30c0b46537b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 18/23] fix: sparse conversion keeps the shape when trailing
 columns are empty

---
 src/dxss/space_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 862f263..f2d9758 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -67,7 +67,7 @@ _DEFAULT_PARAMETERS = ProblemParameters()
 # TODO: this is duplicated... factor out to a "PETSc interface functions" file?
 def get_sparse_matrix(mat):
     ai, aj, av = mat.getValuesCSR()
-    return sp.csr_matrix((av, aj, ai))
+    return sp.csr_matrix((av, aj, ai), shape=(len(ai) - 1, mat.getSize()[1]))
 
 
 class SpaceTime:
-- 
2.43.0


From b5ad00b7282dcfd63b6e4dcd7092cf5d653acce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 19/23] fix: return the residual of the returned solution

---
 src/dxss/gmres.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index 3c14f88..826fea2 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -101,6 +101,8 @@ def get_gmres_solution(
         PETSc.Sys.Print(f"Solver did not converge after {ksp_iter} iterations.")
         raise PETSc.Error
 
-    r = ksp.buildResidual()
+    r = b.duplicate()
+    A_shell.mult(x, r)
+    r.aypx(-1.0, b)  # residual b - A @ x of the returned solution
 
     return (x, r)
-- 
2.43.0


From ee64378c6995e1927a481debaefc4715ad0ab9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:02 +0000
Subject: [PATCH 20/23] fix: coarse-mesh 3D data region includes its end points
 like the others

---
 src/dxss/solve_3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/solve_3d.py b/src/dxss/solve_3d.py
index 9fcb1c9..08ba185 100644
--- a/src/dxss/solve_3d.py
+++ b/src/dxss/solve_3d.py
@@ -129,10 +129,10 @@ if GCC:
         x = ufl.SpatialCoordinate(MSH)
         omega_indicator = ufl.Not(
             ufl.And(
-                ufl.And(x[0] >= DATA_SIZE, x[0] <= 1.0 - DATA_SIZE),
+                ufl.And(x[0] > DATA_SIZE, x[0] < 1.0 - DATA_SIZE),
                 ufl.And(
-                    ufl.And(x[1] >= DATA_SIZE, x[1] <= 1.0 - DATA_SIZE),
-                    ufl.And(x[2] >= DATA_SIZE, x[2] <= 1.0 - DATA_SIZE),
+                    ufl.And(x[1] > DATA_SIZE, x[1] < 1.0 - DATA_SIZE),
+                    ufl.And(x[2] > DATA_SIZE, x[2] < 1.0 - DATA_SIZE),
                 ),
             ),
         )
-- 
2.43.0


From 76e2761c4815e19c763d0ee0e002f900c6ba13eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 21/23] fix: get_mesh_inclusion_square leaves no hole around a
 smaller target

---
 src/dxss/meshes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index b92442b..df55bec 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -566,6 +566,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 target_dom_plus.append((2, tag))
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
+            remainder = gmsh.model.occ.addRectangle(-1.25, -1.25, 0, 2.5, 1.15 + eta)
             gmsh.model.occ.synchronize()
             gmsh.model.occ.fragment(
                 [(2, 3)],
@@ -574,6 +575,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                     (2, mu_inner),
                     *target_dom_plus,
                     (2, remainder_top),
+                    (2, remainder),
                 ],
             )
 
-- 
2.43.0


From 9706e53bd4003aeb884ffc99a3a34b1061b2061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 22/23] fix: resolve the upper edge of the target domain below
 eta in get_mesh_inclusion_square

---
 src/dxss/meshes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index df55bec..94cd1b1 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -558,7 +558,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 y_l,
                 0,
                 x_r - x_l,
-                eta - y_l,
+                min(eta, y_r) - y_l,
             )
             target_dom_plus = []
             if y_r > eta:  # no part of the target domain above eta otherwise
-- 
2.43.0


From 6b8d800aac65ab05fe9f6f26a7aa1aa7e38b2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 23/23] fix: close gmsh when a mesh generator raises

---
 src/dxss/meshes.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 94cd1b1..e0db928 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -1,3 +1,4 @@
+from functools import wraps
 from importlib.metadata import version
 
 import gmsh
@@ -19,6 +20,22 @@ GM = GhostMode.shared_facet
 eta = 0.6
 
 
+def closes_gmsh_on_error(generator):
+    """Do not leave gmsh initialised when a mesh generator raises."""
+
+    @wraps(generator)
+    def closing_generator(*args, **kwargs):
+        try:
+            return generator(*args, **kwargs)
+        except Exception:
+            if gmsh.isInitialized():
+                gmsh.finalize()
+            raise
+
+    return closing_generator
+
+
+@closes_gmsh_on_error
 def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
     # TODO: Need to understand why there is a an import and subfunction here.
     # Looks like create_mesh could be global level. The following functions have
@@ -121,6 +138,7 @@ def get_mesh_convex(n_ref, init_h_scale=1.0):
     return meshes
 
 
+@closes_gmsh_on_error
 def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     # TODO: This is very WET from create_inital_mesh_complex above. We need to
     # find some way to not repeat this function. Also fix PLR0915 and remove the
@@ -229,6 +247,7 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     return mesh_hierarchy
 
 
+@closes_gmsh_on_error
 def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     # TODO: remove suppression of PLR0915 when refactored
     gmsh.initialize()
@@ -321,6 +340,7 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     return mesh_hierarchy
 
 
+@closes_gmsh_on_error
 def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
     # TODO: remove suppression of PLR0915 when refactored
     gmsh.initialize()
@@ -431,6 +451,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
     return mesh_hierarchy
 
 
+@closes_gmsh_on_error
 def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     # TODO: remove suppression of PLR0915 when refactored
     cell_type = CellType.triangle
@@ -531,6 +552,7 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     return msh
 
 
+@closes_gmsh_on_error
 def get_mesh_inclusion_square(  # noqa: PLR0915
     h_init=1.25,
     x_l=-1.25,  # TODO: points could be passed as a tuple
@@ -667,6 +689,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     return msh
 
 
+@closes_gmsh_on_error
 def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     # TODO: this function has too many statements. Try to reduce the complexity
     # on refactoring and remove the suppression of PLR0915.
@@ -775,6 +798,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     return msh
 
 
+@closes_gmsh_on_error
 def get_mesh_data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     # TODO: this function has too many statements. Try to reduce the complexity
     # on refactoring and remove the suppression of PLR0915.
@@ -878,6 +902,7 @@ def get_mesh_data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     return mesh_hierarchy
 
 
+@closes_gmsh_on_error
 def get_3d_mesh_data_all_around(n_ref, init_h_scale=1.0):
     # if proc == 0:
     gdim = 3
-- 
2.43.0

