From 9fc44784bbd21b12441720c8d00507044a4c768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:16 +0000
Subject: [PATCH 01/38] fix: the derivative along a singleton axis is zero, not
 the identity

createDws returned an identity matrix for an axis with a single cell, which
added 1/mu_0 to the system matrix of every 1D simulation (wave number
sqrt(k^2+1)) and gave a spurious H (or E) component along it.
---
 angler/derivatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/derivatives.py b/angler/derivatives.py
index 8bbba51..0a901c9 100644
--- a/angler/derivatives.py
+++ b/angler/derivatives.py
@@ -26,7 +26,7 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dxb = sp.diags([1, -1, -1], [0, -1, Nx-1], shape=(Nx, Nx))
                 Dws = 1/dx*sp.kron(dxb, sp.eye(Ny), format=matrix_format)
         else:
-            Dws = sp.eye(Ny)            
+            Dws = sp.csr_matrix((Ny, Ny))   # no variation along a singleton axis
     if w is 'y':
         if Ny > 1:
             if s is 'f':
@@ -36,7 +36,7 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dyb = sp.diags([1, -1, -1], [0, -1, Ny-1], shape=(Ny, Ny))
                 Dws = 1/dy*sp.kron(sp.eye(Nx), dyb, format=matrix_format)
         else:
-            Dws = sp.eye(Nx)
+            Dws = sp.csr_matrix((Nx, Nx))   # no variation along a singleton axis
     return Dws
 
 
-- 
2.43.0


From 31c19eabeadfeedb227c505dad7eb3d7dcd93461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:16 +0000
Subject: [PATCH 02/38] fix: use 0-based cell indices in the PML profile

The profile was written for 1-based indices: with NPML=n it stretched n+1
cells on the low side and only n-1 on the high side of each axis (none at
all for n=1), so the domain was not terminated symmetrically.
---
 angler/pml.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/angler/pml.py b/angler/pml.py
index 412f3be..4906d07 100644
--- a/angler/pml.py
+++ b/angler/pml.py
@@ -27,15 +27,15 @@ def create_sfactor(wrange, L0, s, omega, Nw, Nw_pml):
     dw = Nw_pml*hw
     for i in range(0, Nw):
         if s is 'f':
-            if i <= Nw_pml:
-                sfactor_array[i] = S(hw * (Nw_pml - i + 0.5), dw, omega, L0)
-            elif i > Nw - Nw_pml:
-                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) - 0.5), dw, omega, L0)
+            if i < Nw_pml:
+                sfactor_array[i] = S(hw * (Nw_pml - i - 0.5), dw, omega, L0)
+            elif i >= Nw - Nw_pml:
+                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) + 0.5), dw, omega, L0)
         if s is 'b':
-            if i <= Nw_pml:
-                sfactor_array[i] = S(hw * (Nw_pml - i + 1), dw, omega, L0)
-            elif i > Nw - Nw_pml:
-                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) - 1), dw, omega, L0)
+            if i < Nw_pml:
+                sfactor_array[i] = S(hw * (Nw_pml - i), dw, omega, L0)
+            elif i >= Nw - Nw_pml:
+                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml)), dw, omega, L0)
     return sfactor_array
 
 
-- 
2.43.0


From 433602dbb89fa93c1846627990b812b6dc199594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:37 +0000
Subject: [PATCH 03/38] fix: build the Hz system matrix with the permittivity
 the fields use

solve_fields, the adjoint solver and the gradients all default to
averaging=False, but construct_A was called with its own default
(averaging=True).  The electric fields returned for 'Hz' polarization
therefore did not satisfy Faraday's law with the Hz they came from, and the
Hz gradients belonged to a different operator.
---
 angler/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/angler/simulation.py b/angler/simulation.py
index 244f1ae..43ad38a 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -103,6 +103,7 @@ class Simulation:
         self.__eps_r = new_eps
         (A, derivs) = construct_A(self.omega, self.xrange, self.yrange,
                                   self.eps_r, self.NPML, self.pol, self.L0,
+                                  averaging=False,
                                   matrix_format=DEFAULT_MATRIX_FORMAT,
                                   timing=False)
         self.A = A
-- 
2.43.0


From 4391ce5d2b47ce013c3626a182eb0339f8629a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:37 +0000
Subject: [PATCH 04/38] fix: the Hz gradients use the fields of the backward
 derivatives

The system matrix is Dxf*1/eps*Dxb + Dyf*1/eps*Dyb: the sensitivity pairs the
adjoint field, Dxf.T*hz_aj, with the forward field, Dxb*hz.
---
 angler/gradients.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 1f34835..687b85a 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -230,8 +230,8 @@ def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
     MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
+    Dxb = optimization.simulation.derivs['Dxb']
+    Dyb = optimization.simulation.derivs['Dyb']
 
     eps_tot = optimization.simulation.eps_r
     M = eps_tot.size
@@ -300,8 +300,8 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
     MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
+    Dxb = optimization.simulation.derivs['Dxb']
+    Dyb = optimization.simulation.derivs['Dyb']
 
     eps_tot = optimization.simulation.eps_r
     M = eps_tot.size
@@ -371,8 +371,8 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
     MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
+    Dxb = optimization.simulation.derivs['Dxb']
+    Dyb = optimization.simulation.derivs['Dyb']
 
     eps_tot = optimization.simulation.eps_r
     M = eps_tot.size
-- 
2.43.0


From 59d72a4a5c33768f8b57cb169329029ca887732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:54 +0000
Subject: [PATCH 05/38] fix: adjoint source and explicit term of the Ex and Ey
 gradients

Ex = 1/(i omega) 1/eps Dyb Hz, so the adjoint source is Dyb.T applied to
1/eps times the partial derivative (not the other way round), and Ex depends
on eps explicitly as well as through Hz.  The same for Ey.
---
 angler/gradients.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 687b85a..cb96e3a 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -328,7 +328,7 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
     partial = -dJ(*args)
     partial_vec = partial.reshape((-1,))
 
-    b_aj_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb.T).dot(partial_vec)
+    b_aj_vec =  1/1j/omega * Dyb.T.dot(T_eps_y_inv).dot(partial_vec)
     b_aj = b_aj_vec.reshape(Hz.shape)
 
     (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
@@ -364,6 +364,11 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
         dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
         sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
 
+    # Ex also depends on the permittivity explicitly (through 1/eps)
+    design_vec = np.reshape(optimization.design_region, (-1,))
+    explicit_vec = design_vec*EPSILON_0_*T_eps_y_inv.dot(Ex_vec*partial_vec)
+    sensitivity_vec = sensitivity_vec + eps_mat*filt_mat.dot(proj_mat*explicit_vec)
+
     return 1*np.real(np.reshape(sensitivity_vec, rho.shape)) 
 
 def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
@@ -399,7 +404,7 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
     partial = -dJ(*args)
     partial_vec = partial.reshape((-1,))
 
-    b_aj_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb.T).dot(partial_vec)
+    b_aj_vec = -1/1j/omega * Dxb.T.dot(T_eps_x_inv).dot(partial_vec)
     b_aj = b_aj_vec.reshape(Hz.shape)
 
     (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
@@ -435,6 +440,11 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
         dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
         sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
 
+    # Ey also depends on the permittivity explicitly (through 1/eps)
+    design_vec = np.reshape(optimization.design_region, (-1,))
+    explicit_vec = design_vec*EPSILON_0_*T_eps_x_inv.dot(Ey_vec*partial_vec)
+    sensitivity_vec = sensitivity_vec + eps_mat*filt_mat.dot(proj_mat*explicit_vec)
+
     return 1*np.real(np.reshape(sensitivity_vec, rho.shape))
 
 def grad_kerr_Hz(optimization, dJ, Ez_nl, args):
-- 
2.43.0


From fcbb550f832717b38d5fbd213539f38e8ffc801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:54 +0000
Subject: [PATCH 06/38] fix: NameError in the nonlinear Hx and Hy gradients

---
 angler/gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index cb96e3a..027d452 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -153,7 +153,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = -1/1j/omega/MU_0_ * Dyb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
@@ -191,7 +191,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = 1/1j/omega/MU_0_ * Dxb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
-- 
2.43.0


From 2ed6acb0691e19090f3366db4f1257b086dea791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:54 +0000
Subject: [PATCH 07/38] fix: wrap() maps indices onto the periodic grid

i >= N was mapped to 2*i - N and i < 0 to 2*i + N, so the filter of a
structure without PML had its neighbours in the wrong cells, or outside of
the matrix.
---
 angler/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/filter.py b/angler/filter.py
index 27b18d3..1c700a6 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -8,7 +8,7 @@ from autograd import grad
 from functools import partial
 
 def wrap(i, N):
-    return i + (i >= N)*(i - N) + (i < 0)*(i + N)
+    return i % N
 
 def dist(r1, r2):
     return np.sqrt(np.sum(np.square(r1 - r2)))
-- 
2.43.0


From ede638aa634fd5325c741473658e8287410281c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:54 +0000
Subject: [PATCH 08/38] fix: normalize the rows of the filter matrix

The filtered density is a weighted average over the neighbourhood of each
cell, so every row has to sum to 1.  Scaling the columns made the weights of
cells close to the PML margin sum to far more than 1.
---
 angler/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/filter.py b/angler/filter.py
index 1c700a6..2a81686 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -81,7 +81,7 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
     norm_vec[norm_vec == 0] = 1
     norm_mat = sp.diags(1/norm_vec, shape=(N, N))
 
-    W = W.dot(norm_mat)
+    W = norm_mat.dot(W)
 
     return des_mat.dot(W) + no_des_mat
 
-- 
2.43.0


From 3296f7e51b9d31103c3687bc2c0303284990156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:11 +0000
Subject: [PATCH 09/38] fix: cells in the PML margin keep their density in the
 filter

The filter matrix has no weights for cells within R of the PML, so design
cells there were set to vacuum whatever their density.
---
 angler/filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/angler/filter.py b/angler/filter.py
index 2a81686..626c97e 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -78,6 +78,7 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
     W_des = W.dot(des_mat) + no_des_mat
 
     norm_vec = W.dot(np.ones((Nx*Ny,)))
+    W = W + sp.diags((norm_vec == 0)*1.0, shape=(N, N))   # cells too close to the PML to be filtered keep their density
     norm_vec[norm_vec == 0] = 1
     norm_mat = sp.diags(1/norm_vec, shape=(N, N))
 
-- 
2.43.0


From d9a8b371bbfb6f23fd3725886066859c7d2c7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:11 +0000
Subject: [PATCH 10/38] fix: gradients apply the transpose of the filter matrix

drho/d(filtered rho) was applied as W instead of W.T, which is only right for
design cells whose whole neighbourhood has the same normalization.
---
 angler/gradients.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 027d452..1668edb 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -28,7 +28,7 @@ def grad_linear_Ez(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -66,7 +66,7 @@ def grad_linear_Hx(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -104,7 +104,7 @@ def grad_linear_Hy(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -133,7 +133,7 @@ def grad_kerr_Ez(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -169,7 +169,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -207,7 +207,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -270,7 +270,7 @@ def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
@@ -341,7 +341,7 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
@@ -417,7 +417,7 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     if averaging:
-- 
2.43.0


From 26b43d28bf5fda82f9d17756e9373de138b1f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:33 +0000
Subject: [PATCH 11/38] fix: NameError in solver_complex2real with the scipy
 solver

---
 angler/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 6a62179..28b72f3 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -176,7 +176,7 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
         pSolve.clear()
 
     elif solver.lower() == 'scipy':
-        x = spsolve(Areal, np.hstack((b_re, b_im)))
+        x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
 
     else:
         raise ValueError('Invalid solver choice: {}, options are pardiso or scipy'.format(str(solver)))
-- 
2.43.0


From ede80319962699241309d48de7d318f0f671f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:33 +0000
Subject: [PATCH 12/38] fix: a 1D permittivity assigned to a simulation is
 stored as (Nx, 1)

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 43ad38a..532dcb3 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -94,7 +94,7 @@ class Simulation:
         grid_shape = new_eps.shape
         if len(grid_shape) == 1:
             grid_shape = (grid_shape[0], 1)
-            new_eps.reshape(grid_shape)
+            new_eps = new_eps.reshape(grid_shape)
 
         (Nx, Ny) = grid_shape
         self.Nx = Nx
-- 
2.43.0


From c2f9d7c639f3eba6c43eaf0cfb568a7e09c60f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:33 +0000
Subject: [PATCH 13/38] fix: init_design_region('halfway') changed the caller's
 array in place

Two simulations built from one array share it, so the other one was left with
a permittivity that its system matrix did not have.
---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 532dcb3..cc3556e 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -315,7 +315,7 @@ class Simulation:
 
         elif style == 'halfway':
             # halfway between 1 and eps_m in design region
-            eps_halfway = self.eps_r
+            eps_halfway = self.eps_r.copy()
             eps_halfway[design_region == 1] = eps_m/2 + 1/2
             self.eps_r = eps_halfway
 
-- 
2.43.0


From 5f553212a7a8e54106f12cb01075d4e7aa8da0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:33 +0000
Subject: [PATCH 14/38] fix: normalize a mode without the other sources of the
 simulation

The copy used to compute the input power kept whatever was in src already, for
example the other modes.
---
 angler/source/mode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 2fe8ae8..2f7ad09 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -50,6 +50,7 @@ class mode:
 
         # reset the permittivity to be a straight waveguide, solve fields, compute power
         simulation_norm.eps_r = norm_eps
+        simulation_norm.src = np.zeros(simulation.src.shape, dtype=simulation.src.dtype)
         self.insert_mode(simulation_norm, simulation_norm.src, matrix_format=matrix_format)
         simulation_norm.solve_fields()
         W_in = simulation_norm.flux_probe(self.direction_normal, new_center, self.width)
-- 
2.43.0


From dd17732fec79c1116cd6b28be33d29e7360076b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:03 +0000
Subject: [PATCH 15/38] fix: flux_probe averages the z field at the position of
 the in-plane fields

The in-plane fields sit half a cell before the z field (backward
differences), but the z field was averaged with the next cell: the flux
through a closed box without sources or losses was not zero.
---
 angler/simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index cc3556e..10b7840 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -271,9 +271,9 @@ class Simulation:
                 field_val_Hy = self.fields['Hy']
                 field_val_Hx = self.fields['Hx']
 
-            Ez_x = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1,:-1]
-            Ez_y = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1,:-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            Ez_x = grid_average(field_val_Ez, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Ez_y = grid_average(field_val_Ez, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            # NOTE: averaged over the cells on both sides of the in-plane fields, so that power is conserved
 
             if direction_normal == "x":
                 Sx = -1/2*np.real(Ez_x*np.conj(field_val_Hy[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]))
@@ -293,9 +293,9 @@ class Simulation:
                 field_val_Ey = self.fields['Ey']
                 field_val_Ex = self.fields['Ex']
 
-            Hz_x = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1, :-1]
-            Hz_y = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1, :-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            Hz_x = grid_average(field_val_Hz, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Hz_y = grid_average(field_val_Hz, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            # NOTE: averaged over the cells on both sides of the in-plane fields, so that power is conserved
 
             if direction_normal == "x":
                 Sx = 1/2*np.real(field_val_Ey[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]*np.conj(Hz_x))
-- 
2.43.0


From 9d8f30868e9848e406be77ffe12edd75a022749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:03 +0000
Subject: [PATCH 16/38] fix: running an optimization without init_design_region

Optimization.run derives the density from the permittivity if simulation.rho
is None, but the attribute did not exist, and eps_m was not passed.
---
 angler/optimization.py | 2 +-
 angler/simulation.py   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 57d3f63..fb61c9b 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -194,7 +194,7 @@ class Optimization():
         # get the material density from the simulation if only the first time being run
         if self.simulation.rho is None:
             eps = copy.deepcopy(self.simulation.eps_r)
-            self.simulation.rho = eps2rho(eps)
+            self.simulation.rho = eps2rho(eps, self.eps_m)
         
         self.fields_current = False
         
diff --git a/angler/simulation.py b/angler/simulation.py
index 10b7840..99124f0 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -48,6 +48,7 @@ class Simulation:
         # construct the system matrix
         self.eps_r = eps_r
 
+        self.rho = None     # material density, set by init_design_region() or the optimization
         self.modes = []
         self.nonlinearity = []
         self.eps_nl = np.zeros(eps_r.shape)
-- 
2.43.0


From baf696bca59a93c2df4ad1256d96c32672acda45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:03 +0000
Subject: [PATCH 17/38] fix: keep the permittivity outside of the design region

The projection was applied to the whole domain, and changed every permittivity
outside of the design region other than 1 and eps_m (a cladding, for example);
the gradient descent steps clipped it to [1, eps_m] too.
---
 angler/optimization.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index fb61c9b..909cc65 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -105,8 +105,7 @@ class Optimization():
         """ Returns a list of analytical and numerical derivatives to check grad accuracy"""
 
         self.fields_current = False
-        self.simulation.eps_r = rho2eps(rho=self.simulation.rho, eps_m=self.eps_m, W=self.W,
-                                        eta=self.eta, beta=self.beta)
+        self.simulation.eps_r = self._get_eps(self.simulation.rho)
 
         # solve for the linear fields and grad of the linear objective function
         grad_avm = self.compute_dJ(self.simulation, self.design_region)
@@ -129,8 +128,7 @@ class Optimization():
 
             # make a copy of the current simulation
             sim_new = copy.deepcopy(self.simulation)
-            eps_new = rho2eps(rho=rho_new, eps_m=self.eps_m, W=self.W,
-                              eta=self.eta, beta=self.beta)
+            eps_new = self._get_eps(rho_new)
 
             sim_new.rho = rho_new
             sim_new.eps_r = eps_new
@@ -374,6 +372,12 @@ class Optimization():
         fname = self.temp_plt.folder + ('it%06d.png' % np.int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
+    def _get_eps(self, rho):
+        """ Permittivity for a density: filtered and projected in the design region, unchanged outside of it """
+
+        eps = rho2eps(rho=rho, eps_m=self.eps_m, W=self.W, eta=self.eta, beta=self.beta)
+        return np.where(self.design_region == 1, eps, self.simulation.eps_r)
+
     def _set_design_region(self, x):
         """ Inserts a vector x into design region of simulation.rho """
 
@@ -387,8 +391,7 @@ class Optimization():
             rho_vec[des_vec == 1] = x
             rho_new = np.reshape(rho_vec, self.simulation.rho.shape)
             self.simulation.rho = rho_new
-            eps_new = rho2eps(rho=rho_new, eps_m=self.eps_m, W=self.W,
-                              eta=self.eta, beta=self.beta)
+            eps_new = self._get_eps(rho_new)
             self.simulation.eps_r = eps_new
 
         self.fields_current = False
@@ -431,8 +434,7 @@ class Optimization():
         self.simulation.rho[self.simulation.rho < 0] = 0
         self.simulation.rho[self.simulation.rho > 1] = 1
 
-        self.simulation.eps_r = rho2eps(self.simulation.rho, self.eps_m, self.W,
-                                        eta=self.eta, beta=self.beta)
+        self.simulation.eps_r = self._get_eps(self.simulation.rho)
         self.fields_current = False
 
     def _step_adam(self, gradient, mopt_old, vopt_old, iteration, beta1, beta2, epsilon=1e-8):
-- 
2.43.0


From 605ce4f6a235e1063874a03580d8e87b8c53bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:24 +0000
Subject: [PATCH 18/38] fix: start an optimization from the filtered and
 projected density

The first objective value and gradient of a run were those of the permittivity
the simulation happened to have, not those of its density.
---
 angler/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 909cc65..a5225d1 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -193,7 +193,10 @@ class Optimization():
         if self.simulation.rho is None:
             eps = copy.deepcopy(self.simulation.eps_r)
             self.simulation.rho = eps2rho(eps, self.eps_m)
-        
+
+        # the starting permittivity is the filtered and projected density, as for every later iteration
+        self.simulation.eps_r = self._get_eps(self.simulation.rho)
+
         self.fields_current = False
         
         allowed = ['LBFGS', 'GD', 'ADAM']
-- 
2.43.0


From e055c3ed6522a717fdf6d532920bddee75ae99d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:45 +0000
Subject: [PATCH 19/38] fix: recompute the objective when the simulation is not
 the one last solved

compute_J and compute_dJ reused the stored fields for whatever simulation they
were given: after check_deriv or scan_frequency the objective of the optimized
simulation was that of the last perturbed copy, and a new source or
permittivity was ignored.
---
 angler/optimization.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index a5225d1..eca8536 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -50,7 +50,7 @@ class Optimization():
         """
 
         # do something only if the fields are not current, or there are no stored fields
-        if not self.fields_current or not self.field_arg_list:
+        if not self.fields_current or not self.field_arg_list or not self._is_solved_for(simulation):
 
             _ = simulation.solve_fields()
             if not self.objective.is_linear():
@@ -72,7 +72,14 @@ class Optimization():
 
             # lets other functions know the field_arg_list is up to date
             self.fields_current = True
+            self._solved_for = (simulation, simulation.A, copy.deepcopy(simulation.src), list(simulation.nonlinearity))
 
+    def _is_solved_for(self, simulation):
+        """ Whether the stored fields are those of this simulation, with its current permittivity, source and nonlinearity """
+
+        (solved, A, src, nonlinearity) = self._solved_for
+        return (simulation is solved and simulation.A is A and np.array_equal(simulation.src, src)
+                and simulation.nonlinearity == nonlinearity)
 
     def compute_J(self, simulation):
         """ Returns the current objective function of a simulation"""
-- 
2.43.0


From 2c4c4300e9060ec9146162dd861d00e19bd5ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:45 +0000
Subject: [PATCH 20/38] fix: NameError in drho_bar_drho

---
 angler/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/utils.py b/angler/utils.py
index e470064..1f7c3a1 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -1,7 +1,8 @@
 import numpy as np
 import autograd.numpy as npa
 import matplotlib.pylab as plt
-from functools import wraps
+from functools import wraps, partial
+from autograd import grad
 from autograd.scipy.signal import convolve
 
 """ This is meant to be a place to write convenience functions and objects to
-- 
2.43.0


From 5d34e18eb4bae058a089c574fa2e6fd623e3a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:45 +0000
Subject: [PATCH 21/38] fix: deps_drho_bar returned the inverse of the
 derivative

eps = rho_bar*(eps_m - 1) + 1, so deps/drho_bar is eps_m - 1.
---
 angler/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/utils.py b/angler/utils.py
index 1f7c3a1..2c69b2e 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -16,7 +16,7 @@ def rho_bar2eps(rho_bar, eps_m):
     return rho_bar * (eps_m - 1) + 1
 
 def deps_drho_bar(eps, eps_m):
-    return 1 / (eps_m - 1)
+    return eps_m - 1
 
 def rho_bar(rho, eta=0.5, beta=100):
     num = npa.tanh(beta*eta) + npa.tanh(beta*(rho - eta))
-- 
2.43.0


From a732d715da3a4eedad162219480ceb095b96321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:47 +0000
Subject: [PATCH 22/38] fix: report the unsupported polarization in the Newton
 solver instead of a NameError

---
 angler/nonlinear_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/nonlinear_solvers.py b/angler/nonlinear_solvers.py
index 0b4df9a..b5678a4 100644
--- a/angler/nonlinear_solvers.py
+++ b/angler/nonlinear_solvers.py
@@ -113,7 +113,7 @@ def newton_solve(simulation,
 		return (Hx, Hy, Ez, conv_array)
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 def nl_eq_and_jac(simulation,
 				  averaging=True, Ex=None, Ey=None, Ez=None, compute_jac=True,
@@ -145,7 +145,7 @@ def nl_eq_and_jac(simulation,
 		raise ValueError('angler doesnt support newton method for Hz polarization yet')		
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 	if compute_jac:
 		return (fE, Jac11, Jac12)
-- 
2.43.0


From 25c5e0a8bcc460f2ac55289d90de65d8a2ca5909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:14 +0000
Subject: [PATCH 23/38] fix: drho_bar_drho shadowed the function it
 differentiates

---
 angler/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/utils.py b/angler/utils.py
index 2c69b2e..1f93f6d 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -24,8 +24,8 @@ def rho_bar(rho, eta=0.5, beta=100):
     return num / den
 
 def drho_bar_drho(rho, eta=0.5, beta=100):
-    rho_bar = partial(rho_bar, eta=eta, beta=beta)
-    grad_rho_bar = grad(rho_bar)
+    rho_bar_fn = partial(rho_bar, eta=eta, beta=beta)
+    grad_rho_bar = grad(rho_bar_fn)
     grad_rho_bar = np.vectorize(grad_rho_bar)
     return grad_rho_bar(rho)
 
-- 
2.43.0


From 88bbe8fa354d757c05982a73ec2fcfb928758918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:46 +0000
Subject: [PATCH 24/38] fix: compare the derivative's axis and side by value,
 not identity

---
 angler/derivatives.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/angler/derivatives.py b/angler/derivatives.py
index 0a901c9..c525d32 100644
--- a/angler/derivatives.py
+++ b/angler/derivatives.py
@@ -11,15 +11,15 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
 
     Nx = N[0]
     dx = dL[0]
-    if len(N) is not 1:
+    if len(N) != 1:
         Ny = N[1]
         dy = dL[1]
     else:
         Ny = 1
         dy = 1
-    if w is 'x':
+    if w == 'x':
         if Nx > 1:
-            if s is 'f':
+            if s == 'f':
                 dxf = sp.diags([-1, 1, 1], [0, 1, -Nx+1], shape=(Nx, Nx))
                 Dws = 1/dx*sp.kron(dxf, sp.eye(Ny), format=matrix_format)
             else:
@@ -27,9 +27,9 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 Dws = 1/dx*sp.kron(dxb, sp.eye(Ny), format=matrix_format)
         else:
             Dws = sp.csr_matrix((Ny, Ny))   # no variation along a singleton axis
-    if w is 'y':
+    if w == 'y':
         if Ny > 1:
-            if s is 'f':
+            if s == 'f':
                 dyf = sp.diags([-1, 1, 1], [0, 1, -Ny+1], shape=(Ny, Ny))
                 Dws = 1/dy*sp.kron(sp.eye(Nx), dyf, format=matrix_format)
             else:
-- 
2.43.0


From 7e31d1c7898935f3df329f340a12256b83a456f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:46 +0000
Subject: [PATCH 25/38] fix: compare the PML side by value, not identity

---
 angler/pml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/pml.py b/angler/pml.py
index 4906d07..9497faf 100644
--- a/angler/pml.py
+++ b/angler/pml.py
@@ -26,12 +26,12 @@ def create_sfactor(wrange, L0, s, omega, Nw, Nw_pml):
     hw = np.diff(wrange)[0]/Nw
     dw = Nw_pml*hw
     for i in range(0, Nw):
-        if s is 'f':
+        if s == 'f':
             if i < Nw_pml:
                 sfactor_array[i] = S(hw * (Nw_pml - i - 0.5), dw, omega, L0)
             elif i >= Nw - Nw_pml:
                 sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) + 0.5), dw, omega, L0)
-        if s is 'b':
+        if s == 'b':
             if i < Nw_pml:
                 sfactor_array[i] = S(hw * (Nw_pml - i), dw, omega, L0)
             elif i >= Nw - Nw_pml:
-- 
2.43.0


From c6347fa36e349e8de7a9e14ea90cde3d9d1a87af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:32 +0000
Subject: [PATCH 26/38] fix: the filter wrapped the cell index before measuring
 the distance

---
 angler/filter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index 626c97e..56f3a3d 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -56,10 +56,7 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
                     r2 = np.array([i2, j2])
 
                     # wrap around for periodic BC
-                    i2 = wrap(i2, Nx)
-                    j2 = wrap(j2, Ny)
-
-                    col_index = sub2ind((Nx, Ny), i2, j2)
+                    col_index = sub2ind((Nx, Ny), wrap(i2, Nx), wrap(j2, Ny))
 
                     val = R - dist(r1, r2)
 
-- 
2.43.0


From 08ce0fb5e054da3868351f453757cd2e16171cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:32 +0000
Subject: [PATCH 27/38] fix: L-BFGS passed options that scipy removed

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index eca8536..9ea16e3 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -322,8 +322,8 @@ class Optimization():
         # minimize
         (rho_final, _, _) = fmin_l_bfgs_b(_objfn, rho0, fprime=_grad, args=(), approx_grad=0,
                             bounds=rho_bounds, m=10, factr=10,
-                            pgtol=1e-15, epsilon=1e-08, iprint=-1,
-                            maxfun=15000, maxiter=self.Nsteps, disp=self.verbose,
+                            pgtol=1e-15, epsilon=1e-08,
+                            maxfun=15000, maxiter=self.Nsteps,
                             callback=_update_iter_count, maxls=20)
 
         # finally, set the simulation permittivity to that found via optimization
-- 
2.43.0


From 97396e147332f819cb93f8546afce990d8e42c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:04 +0000
Subject: [PATCH 28/38] fix: the Hz mode along y used an averaged permittivity
 that the simulation does not

---
 angler/source/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 2f7ad09..446face 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -79,7 +79,7 @@ class mode:
         Dxf = createDws('x', 'f', [simulation.dl], [N], matrix_format=matrix_format)
 
         vector_eps = EPSILON_0_*eps_r.reshape((-1,))
-        vector_eps_x = EPSILON_0_*grid_average(eps_r, 'x').reshape((-1,))
+        vector_eps_x = EPSILON_0_*eps_r.reshape((-1,))    # not averaged, as in the simulation
         T_eps = sp.spdiags(vector_eps, 0, N, N, format=matrix_format)
         T_epsxinv = sp.spdiags(vector_eps_x**(-1), 0, N, N, format=matrix_format)
 
-- 
2.43.0


From 56975df144b80e9c2637dea01ec803f46ae256cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:53 +0000
Subject: [PATCH 29/38] fix: init_design_region dropped the imaginary part or
 fraction of the permittivity

---
 angler/simulation.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 99124f0..9b14fa9 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -310,35 +310,30 @@ class Simulation:
 
         if style == 'full':
             # eps_m filled in design region
-            eps_full = self.eps_r.copy()
-            eps_full[design_region == 1] = eps_m
+            eps_full = np.where(design_region == 1, eps_m, self.eps_r)
             self.eps_r = eps_full
 
         elif style == 'halfway':
             # halfway between 1 and eps_m in design region
-            eps_halfway = self.eps_r.copy()
-            eps_halfway[design_region == 1] = eps_m/2 + 1/2
+            eps_halfway = np.where(design_region == 1, eps_m/2 + 1/2, self.eps_r)
             self.eps_r = eps_halfway
 
         elif style == 'empty':
             # nothing in design region
-            eps_empty = self.eps_r.copy()
-            eps_empty[design_region == 1] = 1
+            eps_empty = np.where(design_region == 1, 1, self.eps_r)
             self.eps_r = eps_empty
 
         elif style == 'random':
             # random pixels in design region
             eps_random = (eps_m-1)*np.random.random(self.eps_r.shape)+1
-            eps_random[design_region == 0] = self.eps_r[design_region == 0]
-            self.eps_r = eps_random
+            self.eps_r = np.where(design_region == 0, self.eps_r, eps_random)
 
         elif style == 'random_sym':
             # random pixels in design region.  Symmetric across y=0
             R = np.random.random(self.eps_r.shape)
             R_sym = 1/2*(np.fliplr(R) + R)
             eps_random = (eps_m-1)*R_sym+1
-            eps_random[design_region == 0] = self.eps_r[design_region == 0]
-            self.eps_r = eps_random
+            self.eps_r = np.where(design_region == 0, self.eps_r, eps_random)
 
         self.rho = eps2rho(self.eps_r, eps_m)
 
-- 
2.43.0


From 1bbead8eb9fc2d8a78c9d5de9f5f6bee77d1a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:50 +0000
Subject: [PATCH 30/38] fix: keep the spacing of the system matrix when the
 permittivity changes shape

---
 angler/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/angler/simulation.py b/angler/simulation.py
index 9b14fa9..41ea430 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -101,6 +101,10 @@ class Simulation:
         self.Nx = Nx
         self.Ny = Ny
 
+        # keep the spacing if the shape changes
+        self.xrange = [0, float(self.Nx*self.dl)]
+        self.yrange = [0, float(self.Ny*self.dl)]
+
         self.__eps_r = new_eps
         (A, derivs) = construct_A(self.omega, self.xrange, self.yrange,
                                   self.eps_r, self.NPML, self.pol, self.L0,
-- 
2.43.0


From 62d1125851532bc58e41fe01a8a34f1e7de75986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:36 +0000
Subject: [PATCH 31/38] fix: the binarizers dropped keyword arguments of the
 objective

---
 angler/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/utils.py b/angler/utils.py
index 1f93f6d..b7889c5 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -87,7 +87,7 @@ class Binarizer():
         def J_new(*args, **kwargs):
 
             eps = args[2]
-            return J(*args) * J_bin(eps)
+            return J(*args, **kwargs) * J_bin(eps)
 
         return J_new
 
@@ -121,7 +121,7 @@ class Binarizer():
         def J_new(*args, **kwargs):
 
             eps = args[2]
-            return J(*args) * J_bin(eps)
+            return J(*args, **kwargs) * J_bin(eps)
 
         return J_new
 
@@ -176,7 +176,7 @@ class Binarizer():
             eps = args[2]
             # print(J_bin(eps))
 
-            return J(*args) * J_bin(eps)
+            return J(*args, **kwargs) * J_bin(eps)
 
         return J_new
 
-- 
2.43.0


From fe783c36246cf9aebe53f77ff20d60c46c2dd92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 32/38] fix: do not reuse objective fields after the simulation
 was solved for another state

Optimization reused its field arguments when permittivity, source and
nonlinearity were those of its last solve, although compute_dJ reads the
fields of the simulation, which may have been solved for another source or
nonlinearity (and restored) in between.
---
 angler/optimization.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 9ea16e3..8b29dee 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -72,14 +72,26 @@ class Optimization():
 
             # lets other functions know the field_arg_list is up to date
             self.fields_current = True
-            self._solved_for = (simulation, simulation.A, copy.deepcopy(simulation.src), list(simulation.nonlinearity))
+            self._solved_for = (simulation, simulation.A, copy.deepcopy(simulation.src), list(simulation.nonlinearity),
+                                self._stored_fields(simulation))
 
     def _is_solved_for(self, simulation):
-        """ Whether the stored fields are those of this simulation, with its current permittivity, source and nonlinearity """
+        """ Whether the stored fields are those of this simulation, with its current permittivity, source and nonlinearity,
+            and the simulation has not been solved for anything else since
+        """
 
-        (solved, A, src, nonlinearity) = self._solved_for
+        (solved, A, src, nonlinearity, fields) = self._solved_for
         return (simulation is solved and simulation.A is A and np.array_equal(simulation.src, src)
-                and simulation.nonlinearity == nonlinearity)
+                and simulation.nonlinearity == nonlinearity
+                and all(f is g for f, g in zip(self._stored_fields(simulation), fields)))
+
+    def _stored_fields(self, simulation):
+        """ The fields of the simulation that the objective function and its gradient use """
+
+        fields = list(simulation.fields.values())
+        if not self.objective.is_linear():
+            fields += list(simulation.fields_nl.values())
+        return fields
 
     def compute_J(self, simulation):
         """ Returns the current objective function of a simulation"""
-- 
2.43.0


From 098a43ff09fa049a92cfa66dd4a12e64ea5ce5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 33/38] fix: logarithmic field plots raised a ValueError

---
 angler/plot.py       | 2 +-
 angler/simulation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/plot.py b/angler/plot.py
index 25ce832..1eaefec 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -17,7 +17,7 @@ def plt_base(field_val, outline_val, cmap, vmin, vmax, label,
     if not logscale:
         h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower')
     else:
-        h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
+        h = ax.imshow(field_val, cmap=cmap, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
 
     if cbar:
         plt.colorbar(h, label=label, ax=ax)
diff --git a/angler/simulation.py b/angler/simulation.py
index 41ea430..44f8bda 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -370,7 +370,7 @@ class Simulation:
         
         if vmax is None:
             vmax = field_val.max()
-        if vmin is None:
+        if vmin is None and not logscale:
             vmin = 0.0
 
         cmap = "magma"
-- 
2.43.0


From bdac8d53e16d88106254734beb1cac94d23bbc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 34/38] fix: plt_objs without an axis raised an AttributeError

---
 angler/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 8b29dee..ae2f82e 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -473,6 +473,9 @@ class Optimization():
     def plt_objs(self, norm=None, ax=None):
         """ Plots objective function vs. iteration"""
 
+        if ax is None:
+            fig, ax = plt.subplots(1, constrained_layout=True)
+
         iter_range = range(1, len(self.objfn_list) + 1)
         if norm == 'field':
             obj_scaled = [o/a for o, a in zip(self.objfn_list, self.src_amplitudes)]
-- 
2.43.0


From 48a8d3c4def3689e9105ff2202e4d208e43cc2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 35/38] fix: plt_base_ani used a module that was not imported

---
 angler/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/angler/plot.py b/angler/plot.py
index 1eaefec..d60beec 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -1,6 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
+import matplotlib.animation
 from matplotlib.colors import LogNorm
 
 
-- 
2.43.0


From 82514db939440bfbab7d6d4dd3fbd67abc945fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 36/38] fix: the animation of a field that is not square was
 distorted

---
 angler/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/plot.py b/angler/plot.py
index d60beec..92b92b5 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -65,14 +65,14 @@ def plt_base_ani(field_val, cbar=True, Nframes=40, interval=80):
     field_val = field_val.transpose()
 
     fig, ax = plt.subplots(1, constrained_layout=True)
-    h = ax.imshow(np.zeros(field_val.shape).transpose(), origin='lower')
+    h = ax.imshow(np.zeros(field_val.shape), origin='lower')
 
     ax.set_xticks([])
     ax.set_yticks([])
 
     def init():
         vmax = np.abs(field_val).max()
-        h.set_data(np.zeros(field_val.shape).transpose())
+        h.set_data(np.zeros(field_val.shape))
         h.set_cmap('RdBu')
         h.set_clim(vmin=-vmax, vmax=+vmax)
 
-- 
2.43.0


From 796abae9bf0eafe6eb87eb97c0175b5c0fdbbf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:38 +0000
Subject: [PATCH 37/38] fix: plots during an optimization used an alias that
 numpy removed

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index ae2f82e..6b9f6f2 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -372,7 +372,7 @@ class Optimization():
                 ax = axs[n]
                 self.simulation.plt_eps(outline=False, cbar=False, ax=ax)
                 ax.set_title('Permittivity')
-                ax.annotate('Iteration:%4d' % np.int(iteration), (0.2, 0.92),
+                ax.annotate('Iteration:%4d' % int(iteration), (0.2, 0.92),
                     xycoords='axes fraction',
                     size='medium',
                     color='k',
@@ -391,7 +391,7 @@ class Optimization():
                 self.simulation.plt_abs(outline=True, cbar=False, ax=ax, nl=True, logscale=True, vmin=vmin, vmax=vmax)
                 ax.set_title('Nonlinear field')
         
-        fname = self.temp_plt.folder + ('it%06d.png' % np.int(iteration))
+        fname = self.temp_plt.folder + ('it%06d.png' % int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
     def _get_eps(self, rho):
-- 
2.43.0


From 006bf58b55255fccee88d39a063efaf988f4b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:38 +0000
Subject: [PATCH 38/38] fix: a single plot during an optimization raised a
 TypeError

---
 angler/optimization.py | 1 +
 angler/plot.py         | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 6b9f6f2..b7ba6ef 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -366,6 +366,7 @@ class Optimization():
             axs = faxs.ravel()
         else:
             f, axs = plt.subplots(1, Nplots, figsize=self.temp_plt.figsize)
+            axs = np.atleast_1d(axs)
 
         for n, plots in enumerate(self.temp_plt.plot_what):
             if plots == 'eps':
diff --git a/angler/plot.py b/angler/plot.py
index 92b92b5..c1261b9 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -90,7 +90,7 @@ def plt_base_ani(field_val, cbar=True, Nframes=40, interval=80):
 
 class Temp_plt():
 
-    def __init__(self, it_plot=1, plot_what=('eps'), folder='figs/data/temp_im/', 
+    def __init__(self, it_plot=1, plot_what=('eps',), folder='figs/data/temp_im/', 
                     dpi=100, figsize=(4, 4), vlims=(None,None)):
         self.it_plot = it_plot
         self.plot_what = plot_what 
-- 
2.43.0

