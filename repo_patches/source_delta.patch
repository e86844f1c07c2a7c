From 86d4a87552d5e57b4df361fd6b335108ca87d63d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 01/54] fix: filter wrap-around index past a periodic boundary

wrap() returned 2*i - N for i >= N (and 2*i + N for i < 0) rather than the
index wrapped by one period, so get_W crashed or filtered with the wrong cell.
---
 angler/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/filter.py b/angler/filter.py
index 27b18d3..1c700a6 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -8,7 +8,7 @@ from autograd import grad
 from functools import partial
 
 def wrap(i, N):
-    return i + (i >= N)*(i - N) + (i < 0)*(i + N)
+    return i % N
 
 def dist(r1, r2):
     return np.sqrt(np.sum(np.square(r1 - r2)))
-- 
2.43.0


From 657c6c2e62b0d998884721febc14bb4c7ca8a59e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 02/54] fix: LBFGS optimization with current scipy

fmin_l_bfgs_b no longer takes iprint and disp, so run(method='LBFGS'), the
default, raised a TypeError.
---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 57d3f63..8c6886b 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -314,8 +314,8 @@ class Optimization():
         # minimize
         (rho_final, _, _) = fmin_l_bfgs_b(_objfn, rho0, fprime=_grad, args=(), approx_grad=0,
                             bounds=rho_bounds, m=10, factr=10,
-                            pgtol=1e-15, epsilon=1e-08, iprint=-1,
-                            maxfun=15000, maxiter=self.Nsteps, disp=self.verbose,
+                            pgtol=1e-15, epsilon=1e-08,
+                            maxfun=15000, maxiter=self.Nsteps,
                             callback=_update_iter_count, maxls=20)
 
         # finally, set the simulation permittivity to that found via optimization
-- 
2.43.0


From 95d5ba8bd16ca37b19c56b5a3daaaa79a8f0b610 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 03/54] fix: undefined name in the nonlinear Hx and Hy
 gradients

---
 angler/gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 1f34835..e03b4c3 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -153,7 +153,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = -1/1j/omega/MU_0_ * Dyb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
@@ -191,7 +191,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = 1/1j/omega/MU_0_ * Dxb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
-- 
2.43.0


From f146938f9743d6c95042a2fd1e024ba716ab66d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 04/54] fix: undefined name in the scipy branch of
 solver_complex2real

---
 angler/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 6a62179..b079e60 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -176,7 +176,7 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
         pSolve.clear()
 
     elif solver.lower() == 'scipy':
-        x = spsolve(Areal, np.hstack((b_re, b_im)))
+        x = spl.spsolve(Areal.tocsr(), np.hstack((b_re, b_im)))
 
     else:
         raise ValueError('Invalid solver choice: {}, options are pardiso or scipy'.format(str(solver)))
-- 
2.43.0


From 250f93267ca55dabfa403b2d43f56c676ce98bde Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 05/54] fix: derivative along a dimension with a single cell is
 zero

createDws returned the identity, which added 1/mu_0 to the diagonal of the
1D system matrix and gave a spurious transverse field component.
---
 angler/derivatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/derivatives.py b/angler/derivatives.py
index 8bbba51..6ce4ca0 100644
--- a/angler/derivatives.py
+++ b/angler/derivatives.py
@@ -26,7 +26,7 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dxb = sp.diags([1, -1, -1], [0, -1, Nx-1], shape=(Nx, Nx))
                 Dws = 1/dx*sp.kron(dxb, sp.eye(Ny), format=matrix_format)
         else:
-            Dws = sp.eye(Ny)            
+            Dws = sp.csr_matrix((Ny, Ny)).asformat(matrix_format)
     if w is 'y':
         if Ny > 1:
             if s is 'f':
@@ -36,7 +36,7 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dyb = sp.diags([1, -1, -1], [0, -1, Ny-1], shape=(Ny, Ny))
                 Dws = 1/dy*sp.kron(sp.eye(Nx), dyb, format=matrix_format)
         else:
-            Dws = sp.eye(Nx)
+            Dws = sp.csr_matrix((Nx, Nx)).asformat(matrix_format)
     return Dws
 
 
-- 
2.43.0


From f8a14e01bc4083cd90313c348885cae4897a2522 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 06/54] fix: keep a 1D permittivity assigned to eps_r as a
 column of the 2D grid

The result of reshape was discarded.
---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 244f1ae..98a9fc0 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -94,7 +94,7 @@ class Simulation:
         grid_shape = new_eps.shape
         if len(grid_shape) == 1:
             grid_shape = (grid_shape[0], 1)
-            new_eps.reshape(grid_shape)
+            new_eps = new_eps.reshape(grid_shape)
 
         (Nx, Ny) = grid_shape
         self.Nx = Nx
-- 
2.43.0


From 10f2f28dc4c009ac816500244d302f6f55e56664 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 07/54] fix: init_design_region(style='halfway') wrote into the
 caller's array

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 98a9fc0..5b7fafc 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -314,7 +314,7 @@ class Simulation:
 
         elif style == 'halfway':
             # halfway between 1 and eps_m in design region
-            eps_halfway = self.eps_r
+            eps_halfway = self.eps_r.copy()
             eps_halfway[design_region == 1] = eps_m/2 + 1/2
             self.eps_r = eps_halfway
 
-- 
2.43.0


From ccd17bc51a0d9d9cb033e7a20c6f3f7190fc9345 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:11 +0000
Subject: [PATCH 08/54] fix: newton solver reports an unsupported polarization
 instead of a NameError

---
 angler/nonlinear_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/nonlinear_solvers.py b/angler/nonlinear_solvers.py
index 0b4df9a..b5678a4 100644
--- a/angler/nonlinear_solvers.py
+++ b/angler/nonlinear_solvers.py
@@ -113,7 +113,7 @@ def newton_solve(simulation,
 		return (Hx, Hy, Ez, conv_array)
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 def nl_eq_and_jac(simulation,
 				  averaging=True, Ex=None, Ey=None, Ez=None, compute_jac=True,
@@ -145,7 +145,7 @@ def nl_eq_and_jac(simulation,
 		raise ValueError('angler doesnt support newton method for Hz polarization yet')		
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 	if compute_jac:
 		return (fE, Jac11, Jac12)
-- 
2.43.0


From 54e3449064bb4bcb3e677cad1efc213b18ce194d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:11 +0000
Subject: [PATCH 09/54] fix: hybrid nonlinear solver ignored conv_threshold
 when switching to newton

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 5b7fafc..b7d688e 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -208,7 +208,7 @@ class Simulation:
             (Fx, Fy, Fz, conv_array) = born_solve(self, Estart,
                                               conv_threshold, 20,
                                               averaging=averaging) 
-            if conv_array[-1] > 1e-10:
+            if conv_array[-1] > conv_threshold:
                 (Fx, Fy, Fz, conv_array) = newton_solve(self, Fz,
                                                     conv_threshold, 20,
                                                     averaging=averaging)                                       
-- 
2.43.0


From 5bbadb5ef94e9ee24e002f741f2964e9b4807ca2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:11 +0000
Subject: [PATCH 10/54] fix: PML is Nw_pml cells on both sides of the domain

The formulas are for cells counted from 1 but were evaluated counting from 0,
so the PML had one cell too many on the low side and one too few on the high
side, and a mirror symmetric structure had asymmetric fields.
---
 angler/pml.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/angler/pml.py b/angler/pml.py
index 412f3be..59b2235 100644
--- a/angler/pml.py
+++ b/angler/pml.py
@@ -25,17 +25,18 @@ def create_sfactor(wrange, L0, s, omega, Nw, Nw_pml):
         return sfactor_array
     hw = np.diff(wrange)[0]/Nw
     dw = Nw_pml*hw
-    for i in range(0, Nw):
+    # NOTE: i counts the cells from 1
+    for i in range(1, Nw+1):
         if s is 'f':
             if i <= Nw_pml:
-                sfactor_array[i] = S(hw * (Nw_pml - i + 0.5), dw, omega, L0)
+                sfactor_array[i-1] = S(hw * (Nw_pml - i + 0.5), dw, omega, L0)
             elif i > Nw - Nw_pml:
-                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) - 0.5), dw, omega, L0)
+                sfactor_array[i-1] = S(hw * (i - (Nw - Nw_pml) - 0.5), dw, omega, L0)
         if s is 'b':
             if i <= Nw_pml:
-                sfactor_array[i] = S(hw * (Nw_pml - i + 1), dw, omega, L0)
+                sfactor_array[i-1] = S(hw * (Nw_pml - i + 1), dw, omega, L0)
             elif i > Nw - Nw_pml:
-                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) - 1), dw, omega, L0)
+                sfactor_array[i-1] = S(hw * (i - (Nw - Nw_pml) - 1), dw, omega, L0)
     return sfactor_array
 
 
-- 
2.43.0


From cc5e45f646f4e452c760848e0f2268fdefbac998 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:11 +0000
Subject: [PATCH 11/54] fix: Ex, Ey use the averaged permittivity of the Hz
 system matrix by default

The matrix is built with the permittivity averaged onto the E field locations,
but solve_fields divided by the cell centered one, so the E fields did not
satisfy Maxwell's equations at material interfaces.
---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index b7d688e..1083124 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -110,7 +110,7 @@ class Simulation:
         self.fields = {f: None for f in ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz']}
         self.fields_nl = {f: None for f in ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz']}
 
-    def solve_fields(self, include_nl=False, timing=False, averaging=False,
+    def solve_fields(self, include_nl=False, timing=False, averaging=True,
                      matrix_format=DEFAULT_MATRIX_FORMAT):
         # performs direct solve for A given source
 
-- 
2.43.0


From 3e837abe457a45db44b3dd9f78f01724cd7e5f8d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:31 +0000
Subject: [PATCH 12/54] fix: flux_probe averages the field onto the plane where
 H (or E) is

Averaging only the probed slice gave E at c+1/2 while H is at c-1/2, so the
flux was off by a factor that depends on the local wavelength and a lossless
structure did not conserve power.  It also failed for probes that touch the
upper edge of the domain and gave 0 for a center of -1.
---
 angler/simulation.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 1083124..4ffb51b 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -251,11 +251,11 @@ class Simulation:
 
         # first extract the slice of the permittivity
         if direction_normal == "x":
-            inds_x = [center[0], center[0]+1]
+            inds_x = [center[0] % self.Nx, center[0] % self.Nx + 1]
             inds_y = [int(center[1]-width/2), int(center[1]+width/2)]
         elif direction_normal == "y":
             inds_x = [int(center[0]-width/2), int(center[0]+width/2)]
-            inds_y = [center[1], center[1]+1]
+            inds_y = [center[1] % self.Ny, center[1] % self.Ny + 1]
         else:
             raise ValueError("The value of direction_normal is neither x nor y!")
 
@@ -270,9 +270,8 @@ class Simulation:
                 field_val_Hy = self.fields['Hy']
                 field_val_Hx = self.fields['Hx']
 
-            Ez_x = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1,:-1]
-            Ez_y = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1,:-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            Ez_x = grid_average(field_val_Ez, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Ez_y = grid_average(field_val_Ez, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
 
             if direction_normal == "x":
                 Sx = -1/2*np.real(Ez_x*np.conj(field_val_Hy[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]))
@@ -292,9 +291,8 @@ class Simulation:
                 field_val_Ey = self.fields['Ey']
                 field_val_Ex = self.fields['Ex']
 
-            Hz_x = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1, :-1]
-            Hz_y = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1, :-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            Hz_x = grid_average(field_val_Hz, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Hz_y = grid_average(field_val_Hz, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
 
             if direction_normal == "x":
                 Sx = 1/2*np.real(field_val_Ey[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]*np.conj(Hz_x))
-- 
2.43.0


From d755db34fb18e2c24cd9f663871bb2edab482d16 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:31 +0000
Subject: [PATCH 13/54] fix: density filter is a weighted average up to the
 edge of its range

get_W scaled the columns of the kernel instead of its rows, so near the edge
of the range the filtered density exceeded 1, and design cells beyond the
range were forced to vacuum.  The sensitivity needs the transpose of the
filter, which differs from the filter there.
---
 angler/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index 1c700a6..2bb3873 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -78,10 +78,11 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
     W_des = W.dot(des_mat) + no_des_mat
 
     norm_vec = W.dot(np.ones((Nx*Ny,)))
+    no_filt_mat = sp.diags(1.0*(norm_vec == 0), shape=(N, N))    # cells too close to the edge to be filtered
     norm_vec[norm_vec == 0] = 1
     norm_mat = sp.diags(1/norm_vec, shape=(N, N))
 
-    W = W.dot(norm_mat)
+    W = norm_mat.dot(W) + no_filt_mat
 
     return des_mat.dot(W) + no_des_mat
 
@@ -128,7 +129,7 @@ def rho2eps(rho, eps_m, W, eta=0.5, beta=100):
 
 def drhot_drho(W):
     # derivative of filtered density with respect to design density
-    return W
+    return W.T
 
 
 def drhob_drhot(rho_t, eta=0.5, beta=100):
-- 
2.43.0


From 7d228bd035973d9ccd37b0a28cb54c37e3b53074 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:31 +0000
Subject: [PATCH 14/54] fix: mode normalization with a negative center or other
 sources present

W_in was 0 for a center counted from the end, and included the power of every
other source in the simulation.
---
 angler/source/mode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 2fe8ae8..c53c966 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -34,17 +34,18 @@ class mode:
 
         # make a new simulation and get a new probe center
         simulation_norm = deepcopy(simulation)
+        simulation_norm.src = np.zeros_like(simulation.src)
         new_center = list(self.center)
 
         # compute where the source and waveguide should be
         if self.direction_normal == "x":
             inds_y = original_eps[self.center[0], :] > 1
             norm_eps[:, inds_y] = eps_max
-            new_center[0] = Nx - new_center[0]
+            new_center[0] = (Nx - new_center[0]) % Nx
         elif self.direction_normal == "y":
             inds_x = original_eps[:, self.center[1]] > 1
             norm_eps[inds_x, :] = eps_max
-            new_center[1] = Ny - new_center[1]
+            new_center[1] = (Ny - new_center[1]) % Ny
         else:
             raise ValueError("The value of direction_normal is not x or y!")
 
-- 
2.43.0


From f4caef9b9304c4f3623243473e235509433bd6d5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:44 +0000
Subject: [PATCH 15/54] fix: distance of filter neighbours across a periodic x
 boundary

i2 was wrapped in place inside the inner loop, so all but the first
neighbour of a wrapped column were given the distance across the domain.
---
 angler/filter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index 2bb3873..21aa1ef 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -56,10 +56,7 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
                     r2 = np.array([i2, j2])
 
                     # wrap around for periodic BC
-                    i2 = wrap(i2, Nx)
-                    j2 = wrap(j2, Ny)
-
-                    col_index = sub2ind((Nx, Ny), i2, j2)
+                    col_index = sub2ind((Nx, Ny), wrap(i2, Nx), wrap(j2, Ny))
 
                     val = R - dist(r1, r2)
 
-- 
2.43.0


From 0aeb29e399e5e1376b8111a837baec4430b50d59 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:23 +0000
Subject: [PATCH 16/54] fix: run an optimization without calling
 init_design_region first

simulation.rho did not exist and eps2rho was called without eps_m.
---
 angler/optimization.py | 2 +-
 angler/simulation.py   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 8c6886b..7a86cf7 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -194,7 +194,7 @@ class Optimization():
         # get the material density from the simulation if only the first time being run
         if self.simulation.rho is None:
             eps = copy.deepcopy(self.simulation.eps_r)
-            self.simulation.rho = eps2rho(eps)
+            self.simulation.rho = eps2rho(eps, self.eps_m)
         
         self.fields_current = False
         
diff --git a/angler/simulation.py b/angler/simulation.py
index 4ffb51b..4e4a84a 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -47,6 +47,7 @@ class Simulation:
 
         # construct the system matrix
         self.eps_r = eps_r
+        self.rho = None
 
         self.modes = []
         self.nonlinearity = []
-- 
2.43.0


From 9b3ad4ba23054b1a0e190f5620c4d588949b9c1f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:23 +0000
Subject: [PATCH 17/54] fix: optimization changed the permittivity outside of
 the design region

The density was clipped to [0, 1] and projected everywhere, so a background
with a permittivity above eps_m or between 1 and eps_m was altered.
---
 angler/optimization.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 7a86cf7..f9d250d 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -105,8 +105,7 @@ class Optimization():
         """ Returns a list of analytical and numerical derivatives to check grad accuracy"""
 
         self.fields_current = False
-        self.simulation.eps_r = rho2eps(rho=self.simulation.rho, eps_m=self.eps_m, W=self.W,
-                                        eta=self.eta, beta=self.beta)
+        self._set_rho(self.simulation, self.simulation.rho)
 
         # solve for the linear fields and grad of the linear objective function
         grad_avm = self.compute_dJ(self.simulation, self.design_region)
@@ -129,11 +128,7 @@ class Optimization():
 
             # make a copy of the current simulation
             sim_new = copy.deepcopy(self.simulation)
-            eps_new = rho2eps(rho=rho_new, eps_m=self.eps_m, W=self.W,
-                              eta=self.eta, beta=self.beta)
-
-            sim_new.rho = rho_new
-            sim_new.eps_r = eps_new
+            self._set_rho(sim_new, rho_new)
 
             self.fields_current = False
 
@@ -374,6 +369,16 @@ class Optimization():
         fname = self.temp_plt.folder + ('it%06d.png' % np.int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
+    def _set_rho(self, simulation, rho):
+        """ Sets the density and the corresponding permittivity in design_region.
+            The permittivity outside of design_region is not touched.
+        """
+
+        eps_new = rho2eps(rho=rho, eps_m=self.eps_m, W=self.W,
+                          eta=self.eta, beta=self.beta)
+        simulation.rho = rho
+        simulation.eps_r = np.where(self.design_region == 1, eps_new, simulation.eps_r)
+
     def _set_design_region(self, x):
         """ Inserts a vector x into design region of simulation.rho """
 
@@ -386,10 +391,7 @@ class Optimization():
         if np.linalg.norm(x - rho_vec[des_vec == 1])/np.linalg.norm(x) > 1e-10:
             rho_vec[des_vec == 1] = x
             rho_new = np.reshape(rho_vec, self.simulation.rho.shape)
-            self.simulation.rho = rho_new
-            eps_new = rho2eps(rho=rho_new, eps_m=self.eps_m, W=self.W,
-                              eta=self.eta, beta=self.beta)
-            self.simulation.eps_r = eps_new
+            self._set_rho(self.simulation, rho_new)
 
         self.fields_current = False
 
@@ -427,12 +429,9 @@ class Optimization():
     def _update_rho(self, grad, step_size):
         """ Manually updates the permittivity with the grad info """
 
-        self.simulation.rho = self.simulation.rho + self.design_region * step_size * grad
-        self.simulation.rho[self.simulation.rho < 0] = 0
-        self.simulation.rho[self.simulation.rho > 1] = 1
-
-        self.simulation.eps_r = rho2eps(self.simulation.rho, self.eps_m, self.W,
-                                        eta=self.eta, beta=self.beta)
+        rho_new = np.clip(self.simulation.rho + step_size * grad, 0, 1)
+        rho_new = np.where(self.design_region == 1, rho_new, self.simulation.rho)
+        self._set_rho(self.simulation, rho_new)
         self.fields_current = False
 
     def _step_adam(self, gradient, mopt_old, vopt_old, iteration, beta1, beta2, epsilon=1e-8):
-- 
2.43.0


From c286dbe78bb73d064bcb2f971ce353ecbd7f387d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:23 +0000
Subject: [PATCH 18/54] fix: optimization evaluates its first step at the
 filtered, projected density

The initial permittivity was not filtered and projected while the gradient
assumes that it is, so the first objective and gradient were inconsistent.
---
 angler/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index f9d250d..844d5d2 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -190,7 +190,10 @@ class Optimization():
         if self.simulation.rho is None:
             eps = copy.deepcopy(self.simulation.eps_r)
             self.simulation.rho = eps2rho(eps, self.eps_m)
-        
+
+        # start from the permittivity of this density (filtered and projected)
+        self._set_rho(self.simulation, self.simulation.rho)
+
         self.fields_current = False
         
         allowed = ['LBFGS', 'GD', 'ADAM']
-- 
2.43.0


From 45c28d2ccf29787a662bd9ec7f870196f0ebf39d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:23 +0000
Subject: [PATCH 19/54] fix: compute_J and compute_dJ used fields of another
 simulation

The stored fields were reused after check_deriv or scan_frequency (which leave
those of a perturbed copy), for a different simulation, and after a change of
its permittivity, source or nonlinearity.
---
 angler/optimization.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 844d5d2..59ccab7 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -43,6 +43,16 @@ class Optimization():
         self.objfn_list = []
         self.fields_current = False     # are the field_args current?  if not, will need to recompute
 
+    def _fields_valid(self, simulation):
+        """ are the stored fields those of this simulation, as it is now? """
+
+        if not self.fields_current:
+            return False
+        (A, src, nonlinearity, arg_list) = self.solved_for
+        return (A is simulation.A and np.array_equal(src, simulation.src)
+                and nonlinearity == list(simulation.nonlinearity)
+                and arg_list == list(self.objective.arg_list))
+
     def _solve_objfn_arg_fields(self, simulation):
         """ 
             solves for all of the fields needed in the objective function.
@@ -50,7 +60,7 @@ class Optimization():
         """
 
         # do something only if the fields are not current, or there are no stored fields
-        if not self.fields_current or not self.field_arg_list:
+        if not self._fields_valid(simulation):
 
             _ = simulation.solve_fields()
             if not self.objective.is_linear():
@@ -69,6 +79,8 @@ class Optimization():
 
             # store these arguments (so that they dont have to be recomputed)
             self.field_arg_list = field_arg_list
+            self.solved_for = (simulation.A, simulation.src.copy(),
+                               list(simulation.nonlinearity), list(self.objective.arg_list))
 
             # lets other functions know the field_arg_list is up to date
             self.fields_current = True
-- 
2.43.0


From 1be9843599d93cecfa5c61ee5a56c5828a039caf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:23 +0000
Subject: [PATCH 20/54] fix: source amplitude far above the allowed index shift

For sqrt(ratio) below epsilon the source changed sign and grew with the excess;
without any index shift it became infinite.
---
 angler/optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 59ccab7..33d2395 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -421,7 +421,7 @@ class Optimization():
     def _set_source_amplitude(self, epsilon=1e-2, N=1):
         """ If max_index_shift specified, sets the self.simulation.src amplitude
             low enough so that this is satisfied.
-            'epsilon' is the amount to subtract from source to get it under.
+            'epsilon' is the fraction to subtract from source to get it under.
         """
 
         # keep a running list of the source amplitudes
@@ -436,9 +436,11 @@ class Optimization():
                 # compute the index shift and update the source according to the ratio
                 dn = self.simulation.compute_index_shift()
                 max_dn = np.max(dn)
+                if max_dn == 0:
+                    break
                 ratio = self.max_ind_shift / max_dn
 
-                self.simulation.src = self.simulation.src * (np.sqrt(ratio) - epsilon)
+                self.simulation.src = self.simulation.src * np.sqrt(ratio) * (1 - epsilon)
         self.fields_current = False
 
     def _update_rho(self, grad, step_size):
-- 
2.43.0


From 61aec96dabd313e7b8256cc026821e71bcda585e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 21/54] fix: live plotting during an optimization with current
 numpy

np.int is gone, and a single panel is not an array of axes.
---
 angler/optimization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 33d2395..26ebadc 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -356,13 +356,14 @@ class Optimization():
             axs = faxs.ravel()
         else:
             f, axs = plt.subplots(1, Nplots, figsize=self.temp_plt.figsize)
+            axs = np.atleast_1d(axs)
 
         for n, plots in enumerate(self.temp_plt.plot_what):
             if plots == 'eps':
                 ax = axs[n]
                 self.simulation.plt_eps(outline=False, cbar=False, ax=ax)
                 ax.set_title('Permittivity')
-                ax.annotate('Iteration:%4d' % np.int(iteration), (0.2, 0.92),
+                ax.annotate('Iteration:%4d' % int(iteration), (0.2, 0.92),
                     xycoords='axes fraction',
                     size='medium',
                     color='k',
@@ -381,7 +382,7 @@ class Optimization():
                 self.simulation.plt_abs(outline=True, cbar=False, ax=ax, nl=True, logscale=True, vmin=vmin, vmax=vmax)
                 ax.set_title('Nonlinear field')
         
-        fname = self.temp_plt.folder + ('it%06d.png' % np.int(iteration))
+        fname = self.temp_plt.folder + ('it%06d.png' % int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
     def _set_rho(self, simulation, rho):
-- 
2.43.0


From e1c00b0ed70a00f975212ae2d988388be5fbc114 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 22/54] fix: default of Temp_plt.plot_what is a tuple

('eps') is the string, so three empty panels were drawn.
---
 angler/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/plot.py b/angler/plot.py
index 25ce832..24cb1c8 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -89,7 +89,7 @@ def plt_base_ani(field_val, cbar=True, Nframes=40, interval=80):
 
 class Temp_plt():
 
-    def __init__(self, it_plot=1, plot_what=('eps'), folder='figs/data/temp_im/', 
+    def __init__(self, it_plot=1, plot_what=('eps',), folder='figs/data/temp_im/', 
                     dpi=100, figsize=(4, 4), vlims=(None,None)):
         self.it_plot = it_plot
         self.plot_what = plot_what 
-- 
2.43.0


From e1a1513c683f7feaada22fc6d0cf0af77183ff55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 23/54] fix: log scale field plots with current matplotlib

imshow does not take vmin and vmax together with norm.
---
 angler/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/plot.py b/angler/plot.py
index 24cb1c8..a3edfb5 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -17,7 +17,7 @@ def plt_base(field_val, outline_val, cmap, vmin, vmax, label,
     if not logscale:
         h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower')
     else:
-        h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
+        h = ax.imshow(field_val, cmap=cmap, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
 
     if cbar:
         plt.colorbar(h, label=label, ax=ax)
-- 
2.43.0


From 007b7018247732c6872992d06ebcad9b7cc651b9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 24/54] fix: plt_objs() without axes, as in the README, raised
 an AttributeError

---
 angler/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 26ebadc..0fceae2 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -466,6 +466,9 @@ class Optimization():
     def plt_objs(self, norm=None, ax=None):
         """ Plots objective function vs. iteration"""
 
+        if ax is None:
+            fig, ax = plt.subplots(1, constrained_layout=True)
+
         iter_range = range(1, len(self.objfn_list) + 1)
         if norm == 'field':
             obj_scaled = [o/a for o, a in zip(self.objfn_list, self.src_amplitudes)]
-- 
2.43.0


From e498a2dc0182f6c346f45d9ac523ca2075916393 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 25/54] fix: deps_drho_bar returned the derivative of rho_bar
 with respect to eps

---
 angler/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/utils.py b/angler/utils.py
index e470064..d909a91 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -15,7 +15,7 @@ def rho_bar2eps(rho_bar, eps_m):
     return rho_bar * (eps_m - 1) + 1
 
 def deps_drho_bar(eps, eps_m):
-    return 1 / (eps_m - 1)
+    return eps_m - 1
 
 def rho_bar(rho, eta=0.5, beta=100):
     num = npa.tanh(beta*eta) + npa.tanh(beta*(rho - eta))
-- 
2.43.0


From 8f6815e01636dde451473f14d595c8195c341b2f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 26/54] fix: undefined names in drho_bar_drho

---
 angler/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/utils.py b/angler/utils.py
index d909a91..e116f9d 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -1,7 +1,8 @@
 import numpy as np
 import autograd.numpy as npa
 import matplotlib.pylab as plt
-from functools import wraps
+from functools import partial, wraps
+from autograd import grad
 from autograd.scipy.signal import convolve
 
 """ This is meant to be a place to write convenience functions and objects to
@@ -23,8 +24,7 @@ def rho_bar(rho, eta=0.5, beta=100):
     return num / den
 
 def drho_bar_drho(rho, eta=0.5, beta=100):
-    rho_bar = partial(rho_bar, eta=eta, beta=beta)
-    grad_rho_bar = grad(rho_bar)
+    grad_rho_bar = grad(partial(rho_bar, eta=eta, beta=beta))
     grad_rho_bar = np.vectorize(grad_rho_bar)
     return grad_rho_bar(rho)
 
-- 
2.43.0


From 1a4c308bcad475939833c54066830b03b8fd2e5a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 27/54] fix: binarized objectives keep the signature of the
 objective

Objective() counts the arguments of J, and rejected every binarized one.
---
 angler/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/utils.py b/angler/utils.py
index e116f9d..58cb882 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -83,6 +83,7 @@ class Binarizer():
 
         # note, this is the actual generator being returned
         # defines how to combine J_bin (binarization function) with original J
+        @wraps(J)
         def J_new(*args, **kwargs):
 
             eps = args[2]
@@ -117,6 +118,7 @@ class Binarizer():
 
         # note, this is the actual generator being returned
         # defines how to combine J_bin (binarization function) with original J
+        @wraps(J)
         def J_new(*args, **kwargs):
 
             eps = args[2]
@@ -170,6 +172,7 @@ class Binarizer():
 
         # note, this is the actual generator being returned
         # defines how to combine J_bin (binarization function) with original J
+        @wraps(J)
         def J_new(*args, **kwargs):
 
             eps = args[2]
-- 
2.43.0


From 64da2a90a73f3033e8a168b82d433426d1565ab5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 28/54] fix: gradient for the Hz polarization

It did not match the finite difference (wrong by tens of percent to a change
of sign): the system matrix uses the permittivity averaged onto the E field
locations and backward differences for the E fields, the transpose of
T*D is D^T*T, and E depends directly on the permittivity as well.
---
 angler/gradients.py | 223 ++++++++------------------------------------
 1 file changed, 41 insertions(+), 182 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index e03b4c3..ee1bb58 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -225,215 +225,74 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
 ####################################################################################################################################
 
 
-def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
+def grad_linear_Hz(optimization, dJ, Hz, args):
+    """gives the linear field gradient: partial J/ partial * H_lin dH_lin / deps"""
 
-    EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
-    omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
-
-    eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
-
-    if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
-    else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
-
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-
-    # get fields
-    Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
-
-    # adjoint
-    # partial = -dJ(*args)
-    # partial_vec = partial.reshape((-1,))
+    return _grad_linear_Hz_pol(optimization, Hz, -dJ(*args))
 
-    b_aj = -dJ(*args)
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
-
-    # set up filtering bits
-    rho = optimization.simulation.rho
-    rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
-    eps_mat = (optimization.eps_m - 1)
-
-    filt_mat = drhot_drho(optimization.W)
-    proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
-
-    if averaging:
-
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+def grad_linear_Ex(optimization, dJ, Hz, args):
+    """gives the linear field gradient: partial J/ partial * E_lin dE_lin / deps"""
 
-    else:
+    return _grad_linear_Hz_pol(optimization, Hz, -dJ(*args), component='Ex')
 
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+def grad_linear_Ey(optimization, dJ, Hz, args):
+    """gives the linear field gradient: partial J/ partial * E_lin dE_lin / deps"""
 
-    return 1*np.real(np.reshape(sensitivity_vec, rho.shape))    
+    return _grad_linear_Hz_pol(optimization, Hz, -dJ(*args), component='Ey')
 
-def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
+def _grad_linear_Hz_pol(optimization, Hz, partial, component='Hz'):
+    """gradient for the Hz polarization, where 'partial' is -dJ/d(component)"""
 
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
-
-    eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
-
-    if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
-    else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
+    Dxb = optimization.simulation.derivs['Dxb']
+    Dyb = optimization.simulation.derivs['Dyb']
 
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
+    # permittivity at the E field locations, as in the system matrix
+    eps_r = optimization.simulation.eps_r
+    vector_eps_x = grid_average(EPSILON_0_*eps_r, 'x').reshape((-1,))
+    vector_eps_y = grid_average(EPSILON_0_*eps_r, 'y').reshape((-1,))
 
     # get fields
     Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
-
-    partial = -dJ(*args)
-    partial_vec = partial.reshape((-1,))
-
-    b_aj_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb.T).dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Hz.shape)
-
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
-
-    # set up filtering bits
-    rho = optimization.simulation.rho
-    rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
-    eps_mat = (optimization.eps_m - 1)
-
-    filt_mat = drhot_drho(optimization.W)
-    proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
-
-    if averaging:
-
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
-
-    else:
-
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
-
-    return 1*np.real(np.reshape(sensitivity_vec, rho.shape)) 
-
-def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
-
-    EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
-    MU_0_ = MU_0*optimization.simulation.L0
-    omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
-
-    eps_tot = optimization.simulation.eps_r
-    M = eps_tot.size
-
-    if averaging:
-        eps_x = grid_average(EPSILON_0_*(eps_tot), 'x')
-        vector_eps_x = eps_x.reshape((-1,))
-        eps_y = grid_average(EPSILON_0_*(eps_tot), 'y')
-        vector_eps_y = eps_y.reshape((-1,))
+    partial_vec = np.reshape(partial, (-1,))
+    Ex_vec =  1/1j/omega * Dyb.dot(Hz_vec)/vector_eps_y
+    Ey_vec = -1/1j/omega * Dxb.dot(Hz_vec)/vector_eps_x
+
+    # adjoint source
+    if component == 'Ex':
+        b_aj_vec =  1/1j/omega * Dyb.T.dot(partial_vec/vector_eps_y)
+    elif component == 'Ey':
+        b_aj_vec = -1/1j/omega * Dxb.T.dot(partial_vec/vector_eps_x)
     else:
-        vector_eps_x = EPSILON_0_*(eps_tot).reshape((-1,))
-        vector_eps_y = EPSILON_0_*(eps_tot).reshape((-1,))
+        b_aj_vec = partial_vec
 
-    T_eps_x_inv = sp.spdiags(1/vector_eps_x, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
-    T_eps_y_inv = sp.spdiags(1/vector_eps_y, 0, M, M,
-                          format=DEFAULT_MATRIX_FORMAT)
+    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj_vec, averaging=True)
 
-    # get fields
-    Hz_vec = np.reshape(Hz, (-1,))
-    Ex_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb).dot(Hz_vec)
-    Ey_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb).dot(Hz_vec) 
+    # sensitivity to the permittivity at the E field locations
+    sens_y = omega**2*EPSILON_0_*Ex_vec*np.reshape(Ex_aj, (-1,))
+    sens_x = omega**2*EPSILON_0_*Ey_vec*np.reshape(Ey_aj, (-1,))
 
-    partial = -dJ(*args)
-    partial_vec = partial.reshape((-1,))
+    # E depends on the permittivity also directly
+    if component == 'Ex':
+        sens_y = sens_y + EPSILON_0_*partial_vec*Ex_vec/vector_eps_y
+    elif component == 'Ey':
+        sens_x = sens_x + EPSILON_0_*partial_vec*Ey_vec/vector_eps_x
 
-    b_aj_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb.T).dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Hz.shape)
-
-    (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
-    Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
-    Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
+    # from there to the cell centers (transpose of grid_average)
+    sens_x = np.reshape(sens_x, eps_r.shape)
+    sens_y = np.reshape(sens_y, eps_r.shape)
+    sens = 1/2*(sens_x + np.roll(sens_x, -1, axis=0) + sens_y + np.roll(sens_y, -1, axis=1))
 
     # set up filtering bits
     rho = optimization.simulation.rho
     rho_t = rho2rhot(rho, optimization.W)
-    rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
     filt_mat = drhot_drho(optimization.W)
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
-    if averaging:
-
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
-
-    else:
-
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    sensitivity_vec = eps_mat*filt_mat.dot(proj_mat*np.reshape(optimization.design_region*sens, (-1,)))
 
     return 1*np.real(np.reshape(sensitivity_vec, rho.shape))
 
-- 
2.43.0


From 87508310c711f266240a734cd67995035dd43722 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 29/54] fix: plt_abs(logscale=True) without vmin

The lower limit was 0, which a log scale does not have.
---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 4e4a84a..86fa800 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -369,7 +369,7 @@ class Simulation:
         if vmax is None:
             vmax = field_val.max()
         if vmin is None:
-            vmin = 0.0
+            vmin = field_val[field_val > 0].min() if logscale else 0.0
 
         cmap = "magma"
 
-- 
2.43.0


From 7d478146e5f9cb675db39978fbb99163d65d71c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:12 +0000
Subject: [PATCH 30/54] fix: Hz mode sources normal to x

The permittivity was averaged along the (single cell) normal instead of across
the waveguide, so the source was not the mode that one normal to y is.
---
 angler/source/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index c53c966..721f76f 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -79,7 +79,7 @@ class mode:
         Dxf = createDws('x', 'f', [simulation.dl], [N], matrix_format=matrix_format)
 
         vector_eps = EPSILON_0_*eps_r.reshape((-1,))
-        vector_eps_x = EPSILON_0_*grid_average(eps_r, 'x').reshape((-1,))
+        vector_eps_x = EPSILON_0_*grid_average(eps_r.reshape((-1,)), 'x')
         T_eps = sp.spdiags(vector_eps, 0, N, N, format=matrix_format)
         T_epsxinv = sp.spdiags(vector_eps_x**(-1), 0, N, N, format=matrix_format)
 
-- 
2.43.0


From 2ee2bbb45df9a0b5a4d9795ba1f50dca391d36e6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:12 +0000
Subject: [PATCH 31/54] fix: mode order is counted from the mode closest to
 neff

The eigenvalue solver does not return the modes in any particular order, so
add_mode(order=2) and higher could insert another one than asked for.
---
 angler/source/mode.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 721f76f..663b80c 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -92,10 +92,9 @@ class mode:
         est_beta = simulation.omega*np.sqrt(MU_0_*EPSILON_0_)*self.neff
         (vals, vecs) = solver_eigs(A, self.order, guess_value=np.square(est_beta))
 
-        if self.order == 1:
-            src = vecs
-        else:
-            src = vecs[:, self.order-1]
+        # the order-th closest to the estimate (the solver does not sort them)
+        closest = np.argsort(np.abs(vals - np.square(est_beta)))
+        src = vecs[:, closest[self.order-1]]
 
         src *= self.scale
 
-- 
2.43.0


From 7334a17c8b79f98027d7ad0d0de7425444ae94b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:36 +0000
Subject: [PATCH 32/54] fix: mode sources have a reproducible sign

The sign of the eigenvector is random, so the interference of the fields of
two mode sources changed from one run to the next.
---
 angler/source/mode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 663b80c..33beec8 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -96,6 +96,10 @@ class mode:
         closest = np.argsort(np.abs(vals - np.square(est_beta)))
         src = vecs[:, closest[self.order-1]]
 
+        # the solver returns the mode with a random sign: make its first lobe positive
+        first = np.argmax(np.abs(src) > np.abs(src).max()/2)
+        src = src*np.sign(np.real(src[first]))
+
         src *= self.scale
 
         if self.direction_normal == 'x':
-- 
2.43.0


From af6019b787339c5d781806ebd06bdac88c23d568 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 33/54] fix: inaccurate solutions of the pardiso solver

With its default pivot perturbation pardiso returned solutions that were off
by up to 100% for some well conditioned system matrices, mostly of structures
with uniform blocks and periodic boundaries.
---
 angler/linalg.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/angler/linalg.py b/angler/linalg.py
index b079e60..697daf6 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -120,6 +120,15 @@ def solver_eigs(A, Neigs, guess_value=0, guess_vector=None, timing=False):
     return (values, vectors)
 
 
+def set_pivoting(pSolve):
+    # pardiso replaces small pivots by 1e-13 rather than to exchange rows, and
+    # dividing by that loses most digits.  Replace them by 1e-6 instead, and
+    # let iterative refinement (up to 10 steps) recover the solution
+
+    pSolve.iparm[7] = 10
+    pSolve.iparm[9] = 6
+
+
 def solver_direct(A, b, timing=False, solver=SOLVER):
     # solves linear system of equations
 
@@ -134,6 +143,7 @@ def solver_direct(A, b, timing=False, solver=SOLVER):
 
     if solver.lower() == 'pardiso':
         pSolve = pardisoSolver(A, mtype=13) # Matrix is complex unsymmetric due to SC-PML
+        set_pivoting(pSolve)
         pSolve.factor()
         x = pSolve.solve(b)
         pSolve.clear()
@@ -171,6 +181,7 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
 
     if solver.lower() == 'pardiso':
         pSolve = pardisoSolver(Areal, mtype=11)  # Matrix is real unsymmetric
+        set_pivoting(pSolve)
         pSolve.factor()
         x = pSolve.solve(np.hstack((b_re, b_im)))
         pSolve.clear()
-- 
2.43.0


From 711c6ff17ddda36543d58e1c4b9d453947f69adf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:00 +0000
Subject: [PATCH 34/54] fix: flux_probe reaching an edge of the domain

A probe that extends below the first cell, or to the last one with its center
counted from the end, was an empty slice and reported a flux of 0.
---
 angler/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 86fa800..34c85de 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -253,9 +253,9 @@ class Simulation:
         # first extract the slice of the permittivity
         if direction_normal == "x":
             inds_x = [center[0] % self.Nx, center[0] % self.Nx + 1]
-            inds_y = [int(center[1]-width/2), int(center[1]+width/2)]
+            inds_y = [max(int(center[1] % self.Ny - width/2), 0), int(center[1] % self.Ny + width/2)]
         elif direction_normal == "y":
-            inds_x = [int(center[0]-width/2), int(center[0]+width/2)]
+            inds_x = [max(int(center[0] % self.Nx - width/2), 0), int(center[0] % self.Nx + width/2)]
             inds_y = [center[1] % self.Ny, center[1] % self.Ny + 1]
         else:
             raise ValueError("The value of direction_normal is neither x nor y!")
-- 
2.43.0


From 2cdf2503a60b4882810eca6e1cafb4e7f23d95d8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:00 +0000
Subject: [PATCH 35/54] fix: mode source reaching an edge of the domain

As for flux_probe, the slice was empty, and the eigensolver failed.
---
 angler/source/mode.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 33beec8..372f9a2 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -63,12 +63,13 @@ class mode:
         MU_0_ = MU_0*simulation.L0
 
         # first extract the slice of the permittivity
+        center = [self.center[0] % simulation.Nx, self.center[1] % simulation.Ny]
         if self.direction_normal == "x":
-            inds_x = [self.center[0], self.center[0]+1]
-            inds_y = [int(self.center[1]-self.width/2), int(self.center[1]+self.width/2)]
+            inds_x = [center[0], center[0]+1]
+            inds_y = [max(int(center[1]-self.width/2), 0), int(center[1]+self.width/2)]
         elif self.direction_normal == "y":
-            inds_x = [int(self.center[0]-self.width/2), int(self.center[0]+self.width/2)]
-            inds_y = [self.center[1], self.center[1]+1]
+            inds_x = [max(int(center[0]-self.width/2), 0), int(center[0]+self.width/2)]
+            inds_y = [center[1], center[1]+1]
         else:
             raise ValueError("The value of direction_normal is not x or y!")
 
-- 
2.43.0


From e286e799e7f6f657c00fd3a2f79569356cd52a42 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:48 +0000
Subject: [PATCH 36/54] fix: wrong solution when pardiso fails silently

---
 angler/linalg.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 697daf6..12b2f1d 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -129,6 +129,24 @@ def set_pivoting(pSolve):
     pSolve.iparm[9] = 6
 
 
+def pardiso_solve(A, b, mtype):
+    # solves A x = b with pardiso, and with scipy if pardiso did not succeed
+    # (it gives no sign of too many small pivots but a wrong solution)
+
+    pSolve = pardisoSolver(A, mtype=mtype)
+    set_pivoting(pSolve)
+    pSolve.factor()
+    x = pSolve.solve(b)
+    pSolve.clear()
+
+    residual = np.abs(A.dot(x) - b).max()
+    scale = np.abs(A).max()*np.abs(x).max() + np.abs(b).max()
+    if not residual <= 1e-10*scale:
+        x = spl.spsolve(A.tocsr(), b)
+
+    return x
+
+
 def solver_direct(A, b, timing=False, solver=SOLVER):
     # solves linear system of equations
 
@@ -142,11 +160,7 @@ def solver_direct(A, b, timing=False, solver=SOLVER):
         t = time()
 
     if solver.lower() == 'pardiso':
-        pSolve = pardisoSolver(A, mtype=13) # Matrix is complex unsymmetric due to SC-PML
-        set_pivoting(pSolve)
-        pSolve.factor()
-        x = pSolve.solve(b)
-        pSolve.clear()
+        x = pardiso_solve(A, b, mtype=13) # Matrix is complex unsymmetric due to SC-PML
 
     elif solver.lower() == 'scipy':
         x = spl.spsolve(A, b)
@@ -180,11 +194,7 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
         t = time()
 
     if solver.lower() == 'pardiso':
-        pSolve = pardisoSolver(Areal, mtype=11)  # Matrix is real unsymmetric
-        set_pivoting(pSolve)
-        pSolve.factor()
-        x = pSolve.solve(np.hstack((b_re, b_im)))
-        pSolve.clear()
+        x = pardiso_solve(Areal, np.hstack((b_re, b_im)), mtype=11)  # Matrix is real unsymmetric
 
     elif solver.lower() == 'scipy':
         x = spl.spsolve(Areal.tocsr(), np.hstack((b_re, b_im)))
-- 
2.43.0


From 975e080e359d5b6e241dbc4aaa46753bc4a9f958 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:02 +0000
Subject: [PATCH 37/54] fix: mode with an effective index that is exactly the
 one requested

---
 angler/linalg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 12b2f1d..3e84695 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -113,7 +113,11 @@ def solver_eigs(A, Neigs, guess_value=0, guess_vector=None, timing=False):
 
     if timing:
         start = time()
-    (values, vectors) = spl.eigs(A, k=Neigs, sigma=guess_value, v0=guess_vector, which='LM')
+    try:
+        (values, vectors) = spl.eigs(A, k=Neigs, sigma=guess_value, v0=guess_vector, which='LM')
+    except RuntimeError:
+        # the guess is an eigenvalue, for example that of a plane wave: move away from it a little
+        (values, vectors) = spl.eigs(A, k=Neigs, sigma=guess_value*(1 + 1e-8), v0=guess_vector, which='LM')
     if timing:
         end = time()
         print('Elapsed time for eigs() is %.4f secs' % (end - start))
-- 
2.43.0


From 597436f9ef6f68a83c015f50c883415faeb2aef8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 38/54] fix: gradient after the simulation was solved for
 another source in between

---
 angler/gradients.py    | 6 +++---
 angler/optimization.py | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index ee1bb58..5515461 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -120,8 +120,8 @@ def grad_kerr_Ez(optimization, dJ, Ez_nl, args):
     """gives the linear field gradient: partial J/ partial * E_lin dE_lin / deps"""
 
     b_aj = -dJ(*args)
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
@@ -156,8 +156,8 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
@@ -194,8 +194,8 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
-    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
     optimization.simulation.compute_nl(Ez_nl)
+    Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
 
     EPSILON_0_ = EPSILON_0*optimization.simulation.L0
     omega = optimization.simulation.omega
diff --git a/angler/optimization.py b/angler/optimization.py
index 0fceae2..61ab4e4 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -48,8 +48,10 @@ class Optimization():
 
         if not self.fields_current:
             return False
-        (A, src, nonlinearity, arg_list) = self.solved_for
-        return (A is simulation.A and np.array_equal(src, simulation.src)
+        (A, src, nonlinearity, arg_list, Fz, Fz_nl) = self.solved_for
+        return (A is simulation.A and Fz is simulation.fields[simulation.pol]
+                and (self.objective.is_linear() or Fz_nl is simulation.fields_nl[simulation.pol])
+                and np.array_equal(src, simulation.src)
                 and nonlinearity == list(simulation.nonlinearity)
                 and arg_list == list(self.objective.arg_list))
 
@@ -80,7 +82,8 @@ class Optimization():
             # store these arguments (so that they dont have to be recomputed)
             self.field_arg_list = field_arg_list
             self.solved_for = (simulation.A, simulation.src.copy(),
-                               list(simulation.nonlinearity), list(self.objective.arg_list))
+                               list(simulation.nonlinearity), list(self.objective.arg_list),
+                               simulation.fields[simulation.pol], simulation.fields_nl[simulation.pol])
 
             # lets other functions know the field_arg_list is up to date
             self.fields_current = True
-- 
2.43.0


From 2b8d148471ec5d7f633fc207a940b9c0a316b45c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:09 +0000
Subject: [PATCH 39/54] fix: compute_dJ of a simulation other than that of the
 optimization

---
 angler/optimization.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 61ab4e4..048ebb2 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -104,15 +104,22 @@ class Optimization():
         # stores all of the fields for the objective function in self.field_arg_list
         self._solve_objfn_arg_fields(simulation)
 
+        # the gradient functions take the simulation from the optimization
+        simulation_orig = self.simulation
+        self.simulation = simulation
+
         # sum up gradient contributions from each argument in J
         gradient_sum = 0
-        for gradient_fn, dJ, arg in zip(self.objective.grad_fn_list, self.objective.dJ_list, self.objective.arg_list):
-            if not arg.nl:
-                Fz = simulation.fields[simulation.pol]
-            else:
-                Fz = simulation.fields_nl[simulation.pol]
-            gradient = gradient_fn(self, dJ, Fz, self.field_arg_list)
-            gradient_sum += gradient
+        try:
+            for gradient_fn, dJ, arg in zip(self.objective.grad_fn_list, self.objective.dJ_list, self.objective.arg_list):
+                if not arg.nl:
+                    Fz = simulation.fields[simulation.pol]
+                else:
+                    Fz = simulation.fields_nl[simulation.pol]
+                gradient = gradient_fn(self, dJ, Fz, self.field_arg_list)
+                gradient_sum += gradient
+        finally:
+            self.simulation = simulation_orig
 
         return gradient_sum
 
-- 
2.43.0


From 0978692947556d9efd88e354bcb96143803c8681 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:02 +0000
Subject: [PATCH 40/54] fix: plt_base_ani needs matplotlib.animation, and axes
 of the size of the field

---
 angler/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/angler/plot.py b/angler/plot.py
index a3edfb5..c1261b9 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -1,6 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
+import matplotlib.animation
 from matplotlib.colors import LogNorm
 
 
@@ -64,14 +65,14 @@ def plt_base_ani(field_val, cbar=True, Nframes=40, interval=80):
     field_val = field_val.transpose()
 
     fig, ax = plt.subplots(1, constrained_layout=True)
-    h = ax.imshow(np.zeros(field_val.shape).transpose(), origin='lower')
+    h = ax.imshow(np.zeros(field_val.shape), origin='lower')
 
     ax.set_xticks([])
     ax.set_yticks([])
 
     def init():
         vmax = np.abs(field_val).max()
-        h.set_data(np.zeros(field_val.shape).transpose())
+        h.set_data(np.zeros(field_val.shape))
         h.set_cmap('RdBu')
         h.set_clim(vmin=-vmax, vmax=+vmax)
 
-- 
2.43.0


From d5aec44157ccab1a0ffe0241ba231da4148f6071 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:02 +0000
Subject: [PATCH 41/54] fix: plots of nonlinear fields that were not solved for
 are rejected, those that were are not

---
 angler/simulation.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 34c85de..2a988d1 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -351,16 +351,14 @@ class Simulation:
     def plt_abs(self, nl=False, cbar=True, outline=True, ax=None, vmin=None, vmax=None, logscale=False, tiled_y=1):
         # plot np.absolute value of primary field (e.g. Ez/Hz)
 
-        if self.fields[self.pol] is None:
+        fields = self.fields_nl if nl else self.fields
+        if fields[self.pol] is None:
             raise ValueError("need to solve the simulation first")
 
         eps_r = deepcopy(self.eps_r)
         eps_r = np.hstack(tiled_y*[eps_r])
 
-        if nl:
-            field_val = np.abs(self.fields_nl[self.pol])
-        else:
-            field_val = np.abs(self.fields[self.pol])
+        field_val = np.abs(fields[self.pol])
 
         field_val = np.hstack(tiled_y*[field_val])
 
@@ -382,13 +380,11 @@ class Simulation:
         eps_r = deepcopy(self.eps_r)
         eps_r = np.hstack(tiled_y*[eps_r])
 
-        if self.fields[self.pol] is None:
+        fields = self.fields_nl if nl else self.fields
+        if fields[self.pol] is None:
             raise ValueError("need to solve the simulation first")
 
-        if nl:
-            field_val = np.real(self.fields_nl[self.pol])
-        else:
-            field_val = np.real(self.fields[self.pol])
+        field_val = np.real(fields[self.pol])
 
         field_val = np.hstack(tiled_y*[field_val])
 
-- 
2.43.0


From aaef607e421168dabd167ba7bdd3a2d30360f1b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:02 +0000
Subject: [PATCH 42/54] fix: an unknown optimization method is rejected before
 plots are removed or the permittivity is set

---
 angler/optimization.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 048ebb2..6f8aaf9 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -202,6 +202,10 @@ class Optimization():
             beta1=0.9, beta2=0.999, verbose=True, temp_plt=None):
         """ Runs an optimization."""
 
+        allowed = ['LBFGS', 'GD', 'ADAM']
+        if method.upper() not in allowed:
+            raise ValueError("'method' must be in {}".format(allowed))
+
         self.Nsteps = Nsteps
         self.verbose = verbose
         self.temp_plt = temp_plt
@@ -217,8 +221,6 @@ class Optimization():
         self._set_rho(self.simulation, self.simulation.rho)
 
         self.fields_current = False
-        
-        allowed = ['LBFGS', 'GD', 'ADAM']
 
         if method.lower() in ['lbfgs']:
             self._run_LBFGS()
@@ -229,9 +231,6 @@ class Optimization():
         elif method.lower() == 'adam':
             self._run_ADAM(step_size=step_size, beta1=beta1, beta2=beta2)
 
-        else:
-            raise ValueError("'method' must be in {}".format(allowed))
-
     def _run_GD(self, step_size):
         """ Performs simple grad descent optimization"""
 
-- 
2.43.0


From e4590597cb10a9d732dd7bb83d650875aa560a83 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:02 +0000
Subject: [PATCH 43/54] fix: setting up a mode source wrote into the source
 array of the caller

---
 angler/source/mode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 372f9a2..33fcf80 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -21,7 +21,9 @@ class mode:
         self.compute_normalization(simulation, matrix_format=matrix_format)
 
         # insert the mode into the waveguide
-        self.insert_mode(simulation, simulation.src, matrix_format=matrix_format)
+        src = simulation.src.copy()
+        self.insert_mode(simulation, src, matrix_format=matrix_format)
+        simulation.src = src
 
     def compute_normalization(self, simulation, matrix_format=DEFAULT_MATRIX_FORMAT):
         # creates a single waveguide simulation, solves the source, computes the power
-- 
2.43.0


From 399897804afc85d698bcf8ba6f68d8dc5ebcd271 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:03 +0000
Subject: [PATCH 44/54] fix: plots of one-dimensional simulations failed
 drawing the outline

---
 angler/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/plot.py b/angler/plot.py
index c1261b9..af437c5 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -23,7 +23,7 @@ def plt_base(field_val, outline_val, cmap, vmin, vmax, label,
     if cbar:
         plt.colorbar(h, label=label, ax=ax)
 
-    if outline:
+    if outline and min(outline_val.shape) > 1:    # no contours in 1D
         # Do black and white so we can see on both magma and RdBu
         ax.contour(outline_val, levels=2, linewidths=1.0, colors='w')
         ax.contour(outline_val, levels=2, linewidths=0.5, colors='k')
@@ -49,7 +49,7 @@ def plt_base_eps(field_val, outline_val, cmap, vmin, vmax,
     if cbar:
         plt.colorbar(h, label='relative permittivity', ax=ax)
 
-    if outline:
+    if outline and min(outline_val.shape) > 1:    # no contours in 1D
         # Do black and white so we can see on both magma and RdBu
         ax.contour(outline_val, levels=2, linewidths=1.0, colors='w')
         ax.contour(outline_val, levels=2, linewidths=0.5, colors='k')
-- 
2.43.0


From 260ccf269920d122470af0cd5b3237273c443005 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:02 +0000
Subject: [PATCH 45/54] fix: design regions of an integer permittivity were
 initialized to rounded values

---
 angler/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/angler/simulation.py b/angler/simulation.py
index 2a988d1..e3eb89c 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -101,6 +101,10 @@ class Simulation:
         self.Nx = Nx
         self.Ny = Ny
 
+        # integers would round what is written into a copy of them later
+        if not np.issubdtype(new_eps.dtype, np.inexact):
+            new_eps = new_eps.astype(float)
+
         self.__eps_r = new_eps
         (A, derivs) = construct_A(self.omega, self.xrange, self.yrange,
                                   self.eps_r, self.NPML, self.pol, self.L0,
-- 
2.43.0


From 8b5b205af38d3c18fcac338d30083e2c713e144a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:18 +0000
Subject: [PATCH 46/54] fix: random initialization discarded the loss outside
 of the design region

---
 angler/simulation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index e3eb89c..44a7c8b 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -330,16 +330,14 @@ class Simulation:
         elif style == 'random':
             # random pixels in design region
             eps_random = (eps_m-1)*np.random.random(self.eps_r.shape)+1
-            eps_random[design_region == 0] = self.eps_r[design_region == 0]
-            self.eps_r = eps_random
+            self.eps_r = np.where(design_region == 0, self.eps_r, eps_random)
 
         elif style == 'random_sym':
             # random pixels in design region.  Symmetric across y=0
             R = np.random.random(self.eps_r.shape)
             R_sym = 1/2*(np.fliplr(R) + R)
             eps_random = (eps_m-1)*R_sym+1
-            eps_random[design_region == 0] = self.eps_r[design_region == 0]
-            self.eps_r = eps_random
+            self.eps_r = np.where(design_region == 0, self.eps_r, eps_random)
 
         self.rho = eps2rho(self.eps_r, eps_m)
 
-- 
2.43.0


From 2d12299a666e4f6b797854fdcf467a0cfff4334a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:49 +0000
Subject: [PATCH 47/54] fix: live plots failed without mode source, for 'Hz'
 and for other scales, and ignored vlims

---
 angler/optimization.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 6f8aaf9..2a735a9 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -344,21 +344,15 @@ class Optimization():
         Nplots = len(self.temp_plt.plot_what)
         plt.close('all')
 
-        Ez_lin = self.simulation.fields['Ez']
-
-        # This is what was used for the T-port in the paper    
-        vmin = 4 * np.sqrt(self.simulation.W_in)
-        vmax = np.abs(Ez_lin).max()/1.5
-
-        # # This is more general but less flexible
-        # if self.temp_plt.vlims[0] == None:
-        #     vmin = np.abs(Ez_lin).min()
-        # else:
-        #     vmin = self.temp_plt.vlims[0]
-        # if self.temp_plt.vlims[1] == None:
-        #     vmax = np.abs(Ez_lin).max()
-        # else:
-        #     vmax = self.temp_plt.vlims[1]
+        # limits of the field plots, if not given: what was used for the T-port in the paper
+        (vmin, vmax) = self.temp_plt.vlims
+        if vmax is None:
+            vmax = np.abs(self.simulation.fields[self.simulation.pol]).max()/1.5
+        if vmin is None:
+            vmin = 4 * np.sqrt(np.abs(getattr(self.simulation, 'W_in', 0)))
+            if not 0 < vmin < vmax:
+                # no mode source, or not a useful limit
+                vmin = vmax/1e3
 
         if Nplots == 4:
             f, faxs = plt.subplots(2, 2, figsize=self.temp_plt.figsize)
-- 
2.43.0


From 45e95b5904344a7cbcd905b531484c1e4a0ca058 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 48/54] fix: Newton's method and the adjoint of a nonlinearity
 scaled with a lossy permittivity

The coefficient of the conjugate field is the derivative with respect to
the conjugate field, which is the conjugate of the other derivative only
if the permittivity is real.
---
 angler/adjoint.py           | 3 ++-
 angler/nonlinear_solvers.py | 3 ++-
 angler/nonlinearity.py      | 4 ++++
 angler/simulation.py        | 3 +++
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/angler/adjoint.py b/angler/adjoint.py
index a3ad326..5d48c39 100644
--- a/angler/adjoint.py
+++ b/angler/adjoint.py
@@ -76,9 +76,10 @@ def adjoint_kerr_Ez(simulation, b_aj,
     Ez = simulation.fields_nl['Ez']
     Anl = simulation.A + simulation.Anl
     dAde = omega**2*EPSILON_0_*simulation.dnl_de
+    dAde_conj = omega**2*EPSILON_0_*simulation.dnl_de_conj
 
     C11 = Anl + sp.spdiags((dAde*Ez).reshape((-1,)), 0, M, M, format=matrix_format)
-    C12 = sp.spdiags((np.conj(dAde)*Ez).reshape((-1)), 0, M, M, format=matrix_format)
+    C12 = sp.spdiags((dAde_conj*Ez).reshape((-1)), 0, M, M, format=matrix_format)
     C_full = sp.vstack((sp.hstack((C11, C12)), np.conj(sp.hstack((C12, C11)))))
     b_aj = b_aj.reshape((-1,))
 
diff --git a/angler/nonlinear_solvers.py b/angler/nonlinear_solvers.py
index b5678a4..b5a75f6 100644
--- a/angler/nonlinear_solvers.py
+++ b/angler/nonlinear_solvers.py
@@ -138,8 +138,9 @@ def nl_eq_and_jac(simulation,
 		if compute_jac:
 			simulation.compute_nl(Ez)
 			dAde = (simulation.dnl_de).reshape((-1,))*omega**2*EPSILON_0_
+			dAde_conj = (simulation.dnl_de_conj).reshape((-1,))*omega**2*EPSILON_0_
 			Jac11 = Anl + sp.spdiags(dAde*Ez.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
-			Jac12 = sp.spdiags(np.conj(dAde)*Ez.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
+			Jac12 = sp.spdiags(dAde_conj*Ez.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
 
 	elif simulation.pol == 'Hz':
 		raise ValueError('angler doesnt support newton method for Hz polarization yet')		
diff --git a/angler/nonlinearity.py b/angler/nonlinearity.py
index 5d5a41e..9d1bc67 100644
--- a/angler/nonlinearity.py
+++ b/angler/nonlinearity.py
@@ -14,6 +14,7 @@ class Nonlinearity:
         self.eps_max = eps_max
         self.eps_nl = []
         self.dnl_de = []
+        self.dnl_de_conj = []
         self.dnl_deps = []
 
         if self.nl_type == 'kerr':
@@ -24,15 +25,18 @@ class Nonlinearity:
                 else:
                     kerr_nonlinearity     = lambda e, eps_r:3*chi*nl_region*np.square(np.abs(e))*((eps_r-1)/(eps_max - 1))
                     kerr_nl_de            = lambda e, eps_r:3*chi*nl_region*np.conj(e)*((eps_r-1)/(eps_max - 1))
+                    kerr_nl_de_conj       = lambda e, eps_r:3*chi*nl_region*e*((eps_r-1)/(eps_max - 1))
                     kerr_nl_deps          = lambda e, eps_r:3*chi*nl_region*np.square(np.abs(e))*(1/(eps_max - 1))
 
             else:
                 kerr_nonlinearity     = lambda e, eps_r:3*chi*nl_region*np.square(np.abs(e))
                 kerr_nl_de            = lambda e, eps_r:3*chi*nl_region*np.conj(e)
+                kerr_nl_de_conj       = lambda e, eps_r:3*chi*nl_region*e
                 kerr_nl_deps          = lambda e, eps_r:0
 
             self.eps_nl = kerr_nonlinearity
             self.dnl_de = kerr_nl_de
+            self.dnl_de_conj = kerr_nl_de_conj
             self.dnl_deps = kerr_nl_deps
 
         else:
diff --git a/angler/simulation.py b/angler/simulation.py
index 44a7c8b..102ef63 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -53,6 +53,7 @@ class Simulation:
         self.nonlinearity = []
         self.eps_nl = np.zeros(eps_r.shape)
         self.dnl_de = np.zeros(eps_r.shape)
+        self.dnl_de_conj = np.zeros(eps_r.shape)
         self.dnl_deps = np.zeros(eps_r.shape)
 
     def setup_modes(self):
@@ -71,10 +72,12 @@ class Simulation:
         # evaluates the nonlinear functions for a field e
         self.eps_nl = np.zeros(self.eps_r.shape)
         self.dnl_de = np.zeros(self.eps_r.shape)
+        self.dnl_de_conj = np.zeros(self.eps_r.shape)
         self.dnl_deps = np.zeros(self.eps_r.shape)
         for nli in self.nonlinearity:
             self.eps_nl = self.eps_nl + nli.eps_nl(e, self.eps_r)
             self.dnl_de = self.dnl_de + nli.dnl_de(e, self.eps_r)
+            self.dnl_de_conj = self.dnl_de_conj + nli.dnl_de_conj(e, self.eps_r)
             self.dnl_deps = self.dnl_deps + nli.dnl_deps(e, self.eps_r)
         Nbig = self.Nx*self.Ny
         Anl = sp.spdiags(self.omega**2*EPSILON_0*self.L0*self.eps_nl.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
-- 
2.43.0


From 7e302b0bb964350ef761789632787ab4b85c821e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 49/54] fix: grid size after assigning a permittivity of
 another shape

xrange and yrange stayed those of the first permittivity, so that the
cells were stretched.
---
 angler/simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 102ef63..40b2a8b 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -38,9 +38,6 @@ class Simulation:
         self.mu_r = np.ones((self.Nx, self.Ny))
         self.src = np.zeros((self.Nx, self.Ny), dtype=np.complex64)
 
-        self.xrange = [0, float(self.Nx*self.dl)]
-        self.yrange = [0, float(self.Ny*self.dl)]
-
         self.NPML = [int(n) for n in self.NPML]
         self.omega = float(self.omega)
         self.dl = float(dl)
@@ -103,6 +100,8 @@ class Simulation:
         (Nx, Ny) = grid_shape
         self.Nx = Nx
         self.Ny = Ny
+        self.xrange = [0, float(self.Nx*self.dl)]
+        self.yrange = [0, float(self.Ny*self.dl)]
 
         # integers would round what is written into a copy of them later
         if not np.issubdtype(new_eps.dtype, np.inexact):
-- 
2.43.0


From 03dfa2659f133e9e234a7004cd5d432ba47b3110 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 50/54] fix: density filter with a boolean design region

---
 angler/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/filter.py b/angler/filter.py
index 21aa1ef..22bb786 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -67,7 +67,7 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
 
     W = sp.csr_matrix((vals, (row_indeces, col_indeces)), shape=(N, N))
 
-    des_vec = design_region.reshape((-1,))
+    des_vec = 1.0*design_region.reshape((-1,))    # may be a boolean mask
     no_des_vec = 1-des_vec
     des_mat = sp.diags(des_vec, shape=(N, N))
     no_des_mat = sp.diags(no_des_vec, shape=(N, N))
-- 
2.43.0


From 293630a9928751dd90d32df6a676f8ba8771ff87 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 51/54] fix: binarized objectives called with arguments by name

Arguments given by name were silently dropped.
---
 angler/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/angler/utils.py b/angler/utils.py
index 58cb882..f092663 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -2,6 +2,7 @@ import numpy as np
 import autograd.numpy as npa
 import matplotlib.pylab as plt
 from functools import partial, wraps
+from inspect import signature
 from autograd import grad
 from autograd.scipy.signal import convolve
 
@@ -86,8 +87,8 @@ class Binarizer():
         @wraps(J)
         def J_new(*args, **kwargs):
 
-            eps = args[2]
-            return J(*args) * J_bin(eps)
+            eps = signature(J).bind(*args, **kwargs).args[2]
+            return J(*args, **kwargs) * J_bin(eps)
 
         return J_new
 
@@ -121,8 +122,8 @@ class Binarizer():
         @wraps(J)
         def J_new(*args, **kwargs):
 
-            eps = args[2]
-            return J(*args) * J_bin(eps)
+            eps = signature(J).bind(*args, **kwargs).args[2]
+            return J(*args, **kwargs) * J_bin(eps)
 
         return J_new
 
@@ -175,10 +176,10 @@ class Binarizer():
         @wraps(J)
         def J_new(*args, **kwargs):
 
-            eps = args[2]
+            eps = signature(J).bind(*args, **kwargs).args[2]
             # print(J_bin(eps))
 
-            return J(*args) * J_bin(eps)
+            return J(*args, **kwargs) * J_bin(eps)
 
         return J_new
 
-- 
2.43.0


From eea3634b759f158178cfac68bb45e0bc06d3c495 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:44 +0000
Subject: [PATCH 52/54] fix: input power of a mode source in more than one
 material, or with a cladding

The waveguide of the normalization had the largest permittivity wherever
that of the structure was more than 1.
---
 angler/source/mode.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 33fcf80..fc9b2d8 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -31,8 +31,7 @@ class mode:
         # get some information from the permittivity
         original_eps = simulation.eps_r
         (Nx, Ny) = original_eps.shape
-        eps_max = np.max(np.abs(original_eps))
-        norm_eps = np.ones((Nx, Ny))
+        norm_eps = original_eps.copy()
 
         # make a new simulation and get a new probe center
         simulation_norm = deepcopy(simulation)
@@ -41,12 +40,10 @@ class mode:
 
         # compute where the source and waveguide should be
         if self.direction_normal == "x":
-            inds_y = original_eps[self.center[0], :] > 1
-            norm_eps[:, inds_y] = eps_max
+            norm_eps[:, :] = original_eps[[self.center[0]], :]
             new_center[0] = (Nx - new_center[0]) % Nx
         elif self.direction_normal == "y":
-            inds_x = original_eps[:, self.center[1]] > 1
-            norm_eps[inds_x, :] = eps_max
+            norm_eps[:, :] = original_eps[:, [self.center[1]]]
             new_center[1] = (Ny - new_center[1]) % Ny
         else:
             raise ValueError("The value of direction_normal is not x or y!")
-- 
2.43.0


From a7bd87e1fd8e5e5fafd93cbf4a9cfba87835404c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:17 +0000
Subject: [PATCH 53/54] fix: live plots in a folder given without trailing
 slash

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 2a735a9..b8b5dce 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -1,6 +1,7 @@
 import numpy as np
 import scipy.sparse as sp
 import copy
+import os
 import progressbar
 import matplotlib.pylab as plt
 from scipy.optimize import minimize, fmin_l_bfgs_b
@@ -385,7 +386,7 @@ class Optimization():
                 self.simulation.plt_abs(outline=True, cbar=False, ax=ax, nl=True, logscale=True, vmin=vmin, vmax=vmax)
                 ax.set_title('Nonlinear field')
         
-        fname = self.temp_plt.folder + ('it%06d.png' % int(iteration))
+        fname = os.path.join(self.temp_plt.folder, 'it%06d.png' % int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
     def _set_rho(self, simulation, rho):
@@ -615,7 +616,6 @@ class Optimization():
     def _check_temp_plt(self):
         if self.temp_plt is not None:
         # Clear the temp_plt folder from previous runs
-            import os, shutil
             folder = self.temp_plt.folder
             if not os.path.exists(folder):
                 os.makedirs(folder)
-- 
2.43.0


From a0905a948e3e88b1138a5fb76b9d470b95f461ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:14 +0000
Subject: [PATCH 54/54] fix: modes of lossy cross-sections are reproducible

The eigensolver returns complex eigenvectors with a random phase.  Only its
sign was removed, so that in a lossy cross-section the sign pattern written
to the source was random.
---
 angler/source/mode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index fc9b2d8..fa0139e 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -96,9 +96,9 @@ class mode:
         closest = np.argsort(np.abs(vals - np.square(est_beta)))
         src = vecs[:, closest[self.order-1]]
 
-        # the solver returns the mode with a random sign: make its first lobe positive
+        # the solver returns the mode with a random phase: make its first lobe positive
         first = np.argmax(np.abs(src) > np.abs(src).max()/2)
-        src = src*np.sign(np.real(src[first]))
+        src = src*np.conj(src[first])/np.abs(src[first])
 
         src *= self.scale
 
-- 
2.43.0

