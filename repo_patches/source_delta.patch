From 9174a480c56a06417e89e75b1d3f1a919db72654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:29 +0000
Subject: [PATCH 01/54] fix: order the integration weights like the grid points

Xa and Xr are flattened angular-index-fastest; the weights were flattened
radial-index-fastest, so grids with NMa != NMr integrated with the wrong weights.
---
 CADMium/psgrid/initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/initialize.py b/CADMium/psgrid/initialize.py
index f0eb0c7..40fd28f 100644
--- a/CADMium/psgrid/initialize.py
+++ b/CADMium/psgrid/initialize.py
@@ -60,7 +60,7 @@ def initialize(self, DISP=False, factor=True):
     wr = wr.reshape(len(wr), 1)
     
     #2d Grid of integration weights
-    self.wi = np.reshape(wa@wr.T, (self.Nelem))
+    self.wi = np.reshape(wa@wr.T, (self.Nelem), order="F")
     
     if DISP is True:
         print(" Building finite difference opperators ... \n")
-- 
2.43.0


From b5d1daaf0ec5ca8b6a3e7a87610f206917bf746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:29 +0000
Subject: [PATCH 02/54] fix: mixed-spin density gradient is the product of the
 two gradients

@ and * have the same precedence, so a derivative of a product was taken instead.
---
 CADMium/psgrid/sigma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/sigma.py b/CADMium/psgrid/sigma.py
index f4fbad8..23015c0 100644
--- a/CADMium/psgrid/sigma.py
+++ b/CADMium/psgrid/sigma.py
@@ -16,7 +16,7 @@ def sigma(self, n):
         sigma = np.zeros((npoints, 3))
         sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) ** 2
         sigma[:,0] = (self.grada @ n[:, 0]) ** 2 +  (self.gradr @ n[:, 0]) ** 2
-        sigma[:,1] = self.grada @ n[:, 0] * self.grada @ n[:,1] + self.gradr @ n[:, 0] * self.gradr @ n[:,1]
+        sigma[:,1] = (self.grada @ n[:, 0]) * (self.grada @ n[:, 1]) + (self.gradr @ n[:, 0]) * (self.gradr @ n[:, 1])
 
     else:
         raise ValueError("Shape of density in second axis should not be greater than 2")
-- 
2.43.0


From 45b61af26c021b8c7cc43dd6ece422012c3c0067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:29 +0000
Subject: [PATCH 03/54] fix: reduced_grad returns the reduced gradient of each
 spin channel

It multiplied scalars with @, wrote both channels to column 0 and the grid
method dropped the result.
---
 CADMium/psgrid/psgrid.py       | 2 +-
 CADMium/psgrid/reduced_grad.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/CADMium/psgrid/psgrid.py b/CADMium/psgrid/psgrid.py
index c3d839a..9e4830c 100644
--- a/CADMium/psgrid/psgrid.py
+++ b/CADMium/psgrid/psgrid.py
@@ -269,7 +269,7 @@ class Psgrid():
         factorize_laplacian(self, DISP)
 
     def reduced_grad(self, n):
-        reduced_grad(self, n)
+        return reduced_grad(self, n)
 
     def plotter(self, fin, max=1, sym=1):
         full, z, x = plotter(self, fin, max, sym)
diff --git a/CADMium/psgrid/reduced_grad.py b/CADMium/psgrid/reduced_grad.py
index b3a64bf..bf4af67 100644
--- a/CADMium/psgrid/reduced_grad.py
+++ b/CADMium/psgrid/reduced_grad.py
@@ -12,12 +12,13 @@ def reduced_grad(self, n):
     pol = n.shape[1]
 
     if pol == 1:
-        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) @ n** (4/3) )
+        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) * n** (4/3) )
 
     if pol == 2:
         s = np.zeros_like(n)
-        s[:, 0] = self.sigma(2 * n[:,0])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,0])**(4/3))
-        s[:, 0] = self.sigma(2 * n[:,1])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,1])**(4/3))
+        for i in range(pol):
+            ni = 2 * n[:, i:i+1]
+            s[:, i:i+1] = self.sigma(ni)**(0.5) / (2 * (3*np.pi**2)**(1/3) * ni**(4/3))
 
     #WARNING: S might be zero, in that case, that particular cell should be turned to zero#
 
-- 
2.43.0


From 52e86cfe2cabb958aa0c702f115ae2eea656312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:29 +0000
Subject: [PATCH 04/54] fix: apply the pivoting permutations of the factorised
 Laplacian

splu factorises Pr @ elap @ Pc; the Hartree solver ignored Pr, which is not the
identity on every grid (e.g. NP=7, NM=[12, 4]).
---
 CADMium/hartree/hartree.py            | 6 ++++--
 CADMium/psgrid/factorize_laplacian.py | 3 +++
 CADMium/psgrid/psgrid.py              | 2 ++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/CADMium/hartree/hartree.py b/CADMium/hartree/hartree.py
index e768823..fd3b7ee 100644
--- a/CADMium/hartree/hartree.py
+++ b/CADMium/hartree/hartree.py
@@ -70,9 +70,11 @@ class Hartree():
         b = b.reshape(self.grid.Na * self.grid.Nr, 1, order='F')
         
         #Solve discretized Poisson equation using LU decomposed labplacian
-        x  = spsolve(self.grid.L_lap, b)
+        pb = np.zeros_like(b)
+        pb[self.grid.perm_r_lap] = b
+        x  = spsolve(self.grid.L_lap, pb)
         vh = np.zeros((x.shape[0], pol))
-        vh[:, 0] = spsolve(self.grid.U_lap, x)
+        vh[:, 0] = spsolve(self.grid.U_lap, x)[self.grid.perm_c_lap]
 
         if pol == 2:
             vh[:, 1] = vh[:, 0] 
diff --git a/CADMium/psgrid/factorize_laplacian.py b/CADMium/psgrid/factorize_laplacian.py
index 35ea94b..a43b4c4 100644
--- a/CADMium/psgrid/factorize_laplacian.py
+++ b/CADMium/psgrid/factorize_laplacian.py
@@ -15,6 +15,9 @@ def factorize_laplacian(self, DISP):
     LU = splu(self.elap, permc_spec="NATURAL")
     self.L_lap = LU.L
     self.U_lap = LU.U
+    #Pivoting permutations: L_lap @ U_lap is elap with its rows and columns reordered
+    self.perm_r_lap = LU.perm_r
+    self.perm_c_lap = LU.perm_c
         
     if DISP is True:
         print(" Done")
\ No newline at end of file
diff --git a/CADMium/psgrid/psgrid.py b/CADMium/psgrid/psgrid.py
index 9e4830c..234d470 100644
--- a/CADMium/psgrid/psgrid.py
+++ b/CADMium/psgrid/psgrid.py
@@ -233,6 +233,8 @@ class Psgrid():
         self.h3 = None
         self.L_lap = None
         self.U_lap = None
+        self.perm_r_lap = None
+        self.perm_c_lap = None
         self.DISP = True
 
 
-- 
2.43.0


From 78de10a7b050051ba65226d92e52311e20a92330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 05/54] fix: give each energy record its own arrays

Mutable ndarray defaults were shared by all instances (and are rejected when the
module is imported on Python >= 3.11).
---
 CADMium/kohnsham/kohnsham.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index 12f3397..f3c4a91 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -2,7 +2,7 @@
 kohnsham.py
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from multiprocessing import Process, Manager, current_process
 from pydantic import validator, BaseModel
 import numpy as np
@@ -25,8 +25,8 @@ class E:
     E  : float = 0.0 
     Ec : float = 0.0
     Ex : float = 0.0
-    Eks: np.ndarray = np.empty((1,1))
-    Vks: np.ndarray = np.empty((1,1))
+    Eks: np.ndarray = field(default_factory=lambda: np.zeros((1,1)))
+    Vks: np.ndarray = field(default_factory=lambda: np.zeros((1,1)))
 
 class KohnShamOptions(BaseModel):
     interaction_type : str = 'dft'
-- 
2.43.0


From b525d797e2771fa5641a02f16dd44830488d9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 06/54] fix: set_veff_external distributes the potential it is
 given

---
 CADMium/kohnsham/kohnsham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index f3c4a91..93ef9fa 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -181,7 +181,7 @@ class Kohnsham():
         """
         for j in range(self.Nmo.shape[1]):
             for i in range(self.Nmo.shape[0]):
-                self.solver[i,j].setveff(self.veff[:,j])
+                self.solver[i,j].setveff(veff[:,j])
 
     def calc_density(self, ITERATIVE=False, dif=0.0):
         """
-- 
2.43.0


From 992ee3c7308c2ca611e59956422f6363af214acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 07/54] fix: honour mixed-case options in the Kohn-Sham scf

They were accepted by the validation but then silently dropped.
---
 CADMium/kohnsham/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 62c753d..be0c427 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -23,8 +23,8 @@ def scf(self, optKS):
     SCF method to handle self consistent field calculations
     """
 
+    optKS = {k.lower(): v for k, v in optKS.items()}
     for i in optKS.keys():
-        i = i.lower()
         if i not in KohnShamSCFOptions().dict().keys():
             raise ValueError(f"{i} is not a valid option for the SCF procedure")
     optKS = KohnShamSCFOptions(**optKS)
-- 
2.43.0


From 6a996f4c727f7da43d49e1f86e9b3fbfb6ef33f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 08/54] fix: undefined names in the auto_tol branch of the
 Kohn-Sham scf

---
 CADMium/kohnsham/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index be0c427..d4eb1d4 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -61,7 +61,7 @@ def scf(self, optKS):
         num_iter_not_min = 0
 
 
-    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < opt.KS.auto_tol_iter) and iter < optKS.maxiter:
+    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < optKS.auto_tol_iter) and iter < optKS.maxiter:
 
 
         #Calculate and set new effective potential:
@@ -104,7 +104,7 @@ def scf(self, optKS):
         old_n = self.n
 
         if optKS.auto_tol is True:
-            if dif < min_dif:
+            if diff < min_dif:
                 num_iter_not_min = 0
                 min_dif = diff
             else:
-- 
2.43.0


From bbe36a187496c4798568abd736e9d3747cc4918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 09/54] fix: symmetrise the potential before handing it to the
 orbital solvers

---
 CADMium/kohnsham/scf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index d4eb1d4..4390d1d 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -68,14 +68,14 @@ def scf(self, optKS):
         self.calc_hxc_potential() 
         self.veff = self.vnuc + self.vext + self.vhxc
 
-        for i in range(self.Nmo.shape[0]):
-            for j in range(self.Nmo.shape[1]):
-                self.solver[i,j].setveff(self.veff[:,j])
-
         #Spin flip mirror symmetry
         if optKS.spinflipsym is True:
             self.veff = (self.veff + self.grid.mirror(self.grid.spinflip(self.veff))) / 2
 
+        for i in range(self.Nmo.shape[0]):
+            for j in range(self.Nmo.shape[1]):
+                self.solver[i,j].setveff(self.veff[:,j])
+
         #Calculate new density
         if optKS.iterative is True and optKS.continuing is True:
             nout = self.calc_density(ITERATIVE=optKS.iterative)
-- 
2.43.0


From 451c035f2b3d76fc8142a184bc0b9fb3362d1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 10/54] fix: only update orbitals for which a correction was
 computed

A converged orbital was updated with the correction of the previous one, or with
an undefined name when it is the first.
---
 CADMium/pssolver/iter_orbitals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 3b0598b..4bc8e95 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -54,9 +54,9 @@ def iter_orbitals(self, solver_id, return_dict):
                 else:
                     x = spsolve(C, rhs)
                 
-            self.phi[:, j] -= x[:Nelem]
-            self.eig[j]    -= x[-1]
-            self.normalize_orbitals()
+                self.phi[:, j] -= x[:Nelem]
+                self.eig[j]    -= x[-1]
+                self.normalize_orbitals()
         
     else:
         self.eig = np.array([-1 / np.finfo(float).eps])
-- 
2.43.0


From eedc61425b9a896ac6737066f8c93e845f86423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 11/54] fix: order the orbitals of a repeated diagonalisation
 and build a missing Hamiltonian

---
 CADMium/pssolver/calc_orbitals.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index af37616..49466ad 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -29,7 +29,7 @@ def calc_orbitals(self, solver_id, return_dict):
         Veff = spdiags(data= W @ self.veff, diags=0, m=Nelem, n=Nelem)
 
         if self.H0 is None:
-            self.hamiltionian()
+            self.hamiltonian()
 
         #Construct Hamiltonian
         H = self.H0 + Veff
@@ -47,9 +47,10 @@ def calc_orbitals(self, solver_id, return_dict):
 
         while np.isnan(self.phi).all() != np.zeros_like(self.phi).all():
             e0 = e0 - 0.1
-            self.eig, self.phi = eigs(spsolve(W, H), k=self.Nmo, sigma=e0, v0=self.opt["v0"])
-            self.eig = self.eig.real
-            self.phi = self.phi.real
+            eig, phi = eigs(spsolve(W, H), k=self.Nmo, sigma=e0, v0=self.opt["v0"])
+            indx = eig.real.argsort()
+            self.eig = eig.real[indx]
+            self.phi = phi.real[:,indx]
 
         #Check for degenerate and nearly degenerate orbitals
         for i in range(self.Nmo-1):
-- 
2.43.0


From ed0480c19f067f573e0dd9f6185263f3edbd7002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 12/54] fix: fractional kinetic energy density uses the
 fractionally occupied orbital

---
 CADMium/pssolver/calc_ked_WFI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_ked_WFI.py b/CADMium/pssolver/calc_ked_WFI.py
index 956717b..bb3a5b0 100644
--- a/CADMium/pssolver/calc_ked_WFI.py
+++ b/CADMium/pssolver/calc_ked_WFI.py
@@ -41,7 +41,7 @@ def calc_ked_WFI(self):
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional and nu != 0:
         #Normalized orbital
-        phi_norm = self.phi[:,i] / self.grid.integrate( self.phi[:, int(Nocc+1) ]**2)**0.5
+        phi_norm = self.phi[:, int(Nocc)] / self.grid.integrate( self.phi[:, int(Nocc)]**2)**0.5
         phi_norm = phi_norm[:, None]
         self.ked_WFI += nu * ( phi_norm * (self.H0 @ phi_norm) ) / self.grid.w[:, None]
 
-- 
2.43.0


From 79fbfc2869d954bf11bfbcf9dd6dd07886365690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 13/54] fix: response of the fractionally occupied orbital

It selected the wrong orbital with a float index, added the accumulated response
to itself and ignored the pivoting of the factorisation.
---
 CADMium/pssolver/calc_response.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index 464d725..134c618 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -8,7 +8,6 @@ from scipy.sparse import vstack as csc_vstack
 from scipy.sparse import hstack as csc_hstack
 from scipy.sparse import csc_matrix
 from scipy.sparse.linalg import spsolve
-from scipy.sparse.linalg import splu
 
 def calc_response(self):
     """
@@ -69,8 +68,7 @@ def calc_response(self):
     #If we are doing a fractional orbitals and are non-integer
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional is  True and nu != 0:
-        print("Warning, you may need to confirm calc_response in CADMium")
-        j = Nocc + 1
+        j = int(Nocc)
 
         #Select the orbital and normalize
         phi_j = self.phi[:, j] / self.grid.integrate( self.phi[:, j]**2 )**0.5
@@ -87,16 +85,11 @@ def calc_response(self):
         A = csc_vstack(( A_inside_1, A_inside_2 ))
         A = csc_matrix(A)
 
-        lu = splu(A)
-        #Take matrox L and U from decomposition
-        L = lu.L.A
-        U = lu.U.A
-
         #Solve linear equation
-        x = spsolve( U , spsolve(L, rhs))
+        x = spsolve(A, rhs)
 
         #Add orbital density response into total response
-        self.chi += self.chi + nu * 2 * PHI * x[0:Nelem, 0:Nelem]
+        self.chi += nu * 2 * PHI @ x[0:Nelem, 0:Nelem]
 
     #Scale responses accordingly
     if self.pol == 1:
-- 
2.43.0


From 34d64d9f04043274c3e60d973c5af2183666f91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 14/54] fix: scale the response of m>0 levels with their
 occupation like the density

---
 CADMium/pssolver/calc_response.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index 134c618..52007e0 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -92,7 +92,14 @@ def calc_response(self):
         self.chi += nu * 2 * PHI @ x[0:Nelem, 0:Nelem]
 
     #Scale responses accordingly
-    if self.pol == 1:
-        self.chi = 2 * self.chi
+    if self.m == 0:
+        if self.pol == 1:
+            self.chi = 2 * self.chi
+
+    else: # m>0 orbitals hold twice as many electrons due to +-m symmetry
+        if self.pol == 1:
+            self.chi = 4 * self.chi
+        else:
+            self.chi = 2 * self.chi
 
 
-- 
2.43.0


From bd59b642a346a9ae0bb948b1ce2facfb4cdefc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 15/54] fix: undefined attribute when the electron number is
 left to the orbital count

---
 CADMium/pssolver/pssolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/pssolver.py b/CADMium/pssolver/pssolver.py
index e5d46fb..7040aa7 100644
--- a/CADMium/pssolver/pssolver.py
+++ b/CADMium/pssolver/pssolver.py
@@ -89,7 +89,7 @@ class i_solver():
         self.pol = pol
 
         if self.N == -1:
-            if self.polarization == 1:
+            if self.pol == 1:
                 self.N = 2 * self.Nmo
             else:
                 self.N = self.Nmo
-- 
2.43.0


From 1a9b086e9d6bbafe89822ae6ea9e0e4104164bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 16/54] fix: keep both end corrections of a single-block
 integration rule

With one block the corrections of the two ends overlap and one replaced the other.
---
 CADMium/common/NC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/common/NC.py b/CADMium/common/NC.py
index 6f975b2..153a3b4 100644
--- a/CADMium/common/NC.py
+++ b/CADMium/common/NC.py
@@ -30,7 +30,7 @@ def NC(N, Nm):
     NP = (N-1) * Nm + 1
     wi = np.zeros(NP)
     wi[:N-1] = w1[:]
-    wi[-(N-1):] = w1[::-1]
+    wi[-(N-1):] += w1[::-1]
 
     for i in range(Nm):
         wi[np.array(range(N))+(N-1)*(i)] = wi[np.array(range(N))+(N-1)*(i)] + w
-- 
2.43.0


From ced95f45e1997cb73b4553c180f761d45e75c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 17/54] fix: count both ensemble components of fragment B in
 the energies

---
 CADMium/partition/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/energy.py b/CADMium/partition/energy.py
index eca7c39..7c7f98e 100644
--- a/CADMium/partition/energy.py
+++ b/CADMium/partition/energy.py
@@ -24,7 +24,7 @@ def energy(self):
         iks_b = [self.KSb]
     else:
         iks_a = [self.KSa, self.KSA]
-        iks_b = [self.KSB, self.KSB]
+        iks_b = [self.KSb, self.KSB]
 
     for i_KS in iks_a:
         if i_KS.E is None:
-- 
2.43.0


From 59c4a677e8da354fc5ea6cb8efbf8720b3866bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 18/54] fix: build both ensemble components when only one
 fragment is an ensemble

---
 CADMium/partition/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 5e6f118..14d5524 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -256,7 +256,7 @@ class Partition():
 
         self.KSa = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_a, self.N_a, optKS)
         self.KSb = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_b, self.N_b, optKS)
-        if self.nu_a != 1.0 and self.nu_b != 1.0:
+        if self.ens:
 
             self.KSA = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_A, self.N_A, optKS)
             self.KSB = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_B, self.N_B, optKS)
-- 
2.43.0


From 5b711846077de755cbceea6b7fd7b556564d14fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 19/54] fix: initialise nb_frac

---
 CADMium/partition/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 14d5524..b4c7914 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -189,7 +189,7 @@ class Partition():
         self.Za, self.Zb = Za, Zb           # Fragment nuclear charges
         
         #Fragment ensembles, mixing rations, sum of fragment ensembles
-        self.na_frac, self.nb_fac = None, None
+        self.na_frac, self.nb_frac = None, None
         self.nu_a, self.nu_b = nu_a, nu_b  
 
         # Are we doing an ensemble calculation?
-- 
2.43.0


From 9081413913c241860df50b93846b1ca046d06559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 20/54] fix: mirror the fragment Hartree energy density once

---
 CADMium/partition/ep_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index 79ead77..9acd1d1 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -28,7 +28,7 @@ def ep_hxc(self):
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
                     ehf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.eh[:, None]
-                ehf += self.grid.mirror(ehf)
+            ehf += self.grid.mirror(ehf)
 
         else:
             if not self.ens:
-- 
2.43.0


From 9f764ed653aff42124faa25638a8ae92eb4119ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 21/54] fix: ensemble correlated Hartree energy without an
 ensemble

Misspelled option attribute, and the density was summed over the grid before integrating.
---
 CADMium/partition/EnsCorHar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/EnsCorHar.py b/CADMium/partition/EnsCorHar.py
index d43e9c9..9680c1f 100644
--- a/CADMium/partition/EnsCorHar.py
+++ b/CADMium/partition/EnsCorHar.py
@@ -7,15 +7,15 @@ import numpy as np
 
 def EnsCorHar(self):
     if not self.ens:  # No Ensemble
-        if not self.optPartiton.ens_spin_sym: #Not ENS Spin Symmetry
+        if not self.optPartition.ens_spin_sym: #Not ENS Spin Symmetry
             self.KSa.E.Ehcor = 0.0
             self.KSb.E.Ehcor = 0.0
             self.KSa.V.vhcor = np.zeros_like( self.KSa.V.vh )
             self.KSb.V.vhcor = np.zeros_like( self.KSb.V.vh )
             self.E.Ehcor = 0.0
         else:                                 #With ENS Spin Symmetry
-            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh) ))   / 2.0
-            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh) ))   / 2.0
+            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh), axis=1 )) / 2.0
+            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh), axis=1 )) / 2.0
             self.KSa.V.vhcor = self.grid.spinflip( self.KSb.V.vh )
             self.KSb.V.vhcor = self.grid.spinflip( self.KSa.V.vh )
             self.E.Ehcor = 0.0
-- 
2.43.0


From c8aad9365ea424d622bdde2c1f312496339ba708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 22/54] fix: compare the HOMOs of both fragments

The HOMO of fragment B replaced that of fragment A.
---
 CADMium/partition/vp_kinetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 2a6a3aa..f1cd933 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -61,7 +61,7 @@ def vp_kinetic(self):
                 if self.KSa.solver[i,j].homo is not None:
                     ua = np.max( (ua, self.KSa.solver[i,j].homo) )
                 if self.KSb.solver[i,j].homo is not None:
-                    ua = np.max( (ub, self.KSb.solver[i,j].homo) )
+                    ub = np.max( (ub, self.KSb.solver[i,j].homo) )
 
         if self.ens:
             for i in range(self.Nmo_A.shape[0]):
@@ -69,7 +69,7 @@ def vp_kinetic(self):
                     if self.KSA.solver[i,j].homo is not None:
                         ua = np.max( (ua, self.KSA.solver[i,j].homo) )
                     if self.KSB.solver[i,j].homo is not None:
-                        ua = np.max( (ub, self.KSB.solver[i,j].homo) )
+                        ub = np.max( (ub, self.KSB.solver[i,j].homo) )
         u = np.max((ua, ub))
         nspin = self.pol - 1
 
-- 
2.43.0


From c52984e0cd9e3e665289ecb9670b0a1f1cdb227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 23/54] fix: auto_tol of the partition scf reads its own option

---
 CADMium/partition/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 31f2c22..1caa474 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -139,7 +139,7 @@ def scf(self, optSCF={}):
 
     #-----> SCF Procedure Begins
     while (dif > optSCF.e_tol 
-           or (optSCF.auto_tol is True and num_iter_not_min < self.optPartition["AutoTolIter"])) \
+           or (optSCF.auto_tol is True and num_iter_not_min < optSCF.auto_tol_iter)) \
            and iterations <= optSCF.max_iter                                                     \
            and STOP is False:
 
-- 
2.43.0


From 9c68525a5b5d6996196a058456e24914b8932f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 24/54] fix: misspelled spinflip

---
 CADMium/partition/partition_potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/partition_potential.py b/CADMium/partition/partition_potential.py
index 068c2d5..61f2087 100644
--- a/CADMium/partition/partition_potential.py
+++ b/CADMium/partition/partition_potential.py
@@ -87,7 +87,7 @@ def partition_potential(self):
                 if hasattr(i_KS.V, 'vp_kin') is True:
                     vs0 -= i_KS.V.vp_kin * i_KS.Q
             if self.optPartition.ens_spin_sym:
-                vs0 += self.grid.spinfip(vs0)
+                vs0 += self.grid.spinflip(vs0)
         else:
             phi0, e0, vs0 = self.initialguessinvert()
 
-- 
2.43.0


From 099f617269c5482e609e1d53d10a4814b5fc0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 25/54] fix: sign of the ensemble Hartree term of the
 overlap_hxc potential

The energy is F * Ep_hxc + (1 - F) * Ehcor, so its derivative holds -Ehcor * dF/dn.
---
 CADMium/partition/vp_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_hxc.py b/CADMium/partition/vp_hxc.py
index a6b6458..6bf938d 100644
--- a/CADMium/partition/vp_hxc.py
+++ b/CADMium/partition/vp_hxc.py
@@ -81,7 +81,7 @@ def vp_hxc(self):
             i_KS.V.vp_hxc = self.E.F * (i_KS.V.vp_h + i_KS.V.vp_x + i_KS.V.vp_c) + \
                             + (self.E.Ep_h + self.E.Ep_x + self.E.Ep_c) * i_KS.V.dFdn \
                             + (1 - self.E.F) * (i_KS.V.vhcor) \
-                            + (self.E.Ehcor) * i_KS.V.dFdn
+                            - (self.E.Ehcor) * i_KS.V.dFdn
 
     # elif self.optPartition.hxc_part_type == "overlap_hxc_2":
     #     #Overlap approximation for H2p
-- 
2.43.0


From 1fe0c81a69a97c9fdb5d04a0c6d761979e64143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 26/54] fix: two orbital functional derivative with respect to
 the first density

---
 CADMium/partition/vp_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index f1cd933..3a99454 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -142,7 +142,7 @@ def vp_kinetic(self):
         dTO_dphi2 = (eT @ phi2) / self.grid.w[:,None]
 
         # Functional derivative of KEF wrt density one
-        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (       dTO_dphi1)[:,0] ))
+        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
         dTO1_dn2 = -(1/2) * (C * n2)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
 
         dTO2_dn1 = dTO_dphi2 * ( (1/4 - 1/2*(C * n1)**(-0.5)*phi1) /phi2) + 0.5 * (phi1/(C*n1)**(0.5)) * self.grid.integrate( (phi1**2 / phi2 * dTO_dphi2)[:,0] )
-- 
2.43.0


From 0b15307ef714687043b70298b29c177d8c33ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 27/54] fix: fragment kinetic energy density counted twice

---
 CADMium/partition/ep_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index b15adc9..fc1c623 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -159,7 +159,7 @@ def ep_kinetic(self):
             tsf += i_KS.Q * i_KS.V.ts[:,None]
 
         if self.optPartition.ab_sym:
-            tsf += tsf + self.grid.mirror(tsf)
+            tsf += self.grid.mirror(tsf)
             Tsf *= 2      
 
         # print("Yo soy Tsf", tsf)
-- 
2.43.0


From a96457feef24634b212d8a195fe7134380ed10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 28/54] fix: von Weizsaecker partition kinetic energy

The molecular term had the wrong sign and the fragment terms were not integrated.
---
 CADMium/partition/ep_kinetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index fc1c623..7c9fa2d 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -13,7 +13,7 @@ def ep_kinetic(self):
         #Use the von-Weizacker inversion
         Tsm =   (2 * np.pi * self.grid.hr * self.grid.ha ) \
               * np.sum(self.grid.wi * np.sum(self.nf, axis=1)**0.5 \
-              * (0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
+              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
 
         tsm =   (np.sum(self.nf, axis=1)**(-0.5)) / self.grid.w \
               * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5 )
@@ -30,8 +30,8 @@ def ep_kinetic(self):
 
         for i_KS in iks:
             Tsf += i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) \
-                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 ) \
-                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 )
+                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 \
+                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 ) )
 
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
-- 
2.43.0


From 508ae2b702cd0b8fbf27e41f29f7459bb286e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 29/54] fix: von Weizsaecker initial guess of the Wu-Yang
 inversion

Undefined name, and weights of the wrong shape.
---
 CADMium/inverter/linresponse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index d3a052b..9cdf63a 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -18,14 +18,14 @@ def linresponse(self, n0, vs0=None):
     self.pol = pol
     self.n0  = n0
     Nelem = n0.shape[0]
-    w = self.grid.w if pol == 1 else np.hstack((self.grid.w, self.grid.w))
+    w = self.grid.w[:, None]
     
     if self.solver[0,0].veff is None:
         if vs0 is None:
             #If no initial guess is provided
             #Use the von weizacker inversion
             vs0 = (0.5 * self.grid.elap @ (n0**0.5)) / (n0**0.5 * w) 
-            vs0 -= vs[-1]
+            vs0 -= vs0[-1]
     else:
         vs0 = self.solver[0,0].veff[:,None] if len(self.solver[0,0].veff.shape) == 1 else self.solver[0,0].veff
 
-- 
2.43.0


From 6cce432d85534f8ba1a0ecd0be993459038765cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 30/54] fix: index the chemical potential of a spin polarised
 inversion

---
 CADMium/inverter/linresponse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 9cdf63a..a1192db 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -91,7 +91,7 @@ def linresponse(self, n0, vs0=None):
                 output[j,i] = res_lsq
 
             self.vs[:,i] = res_lsq.x
-            self.us[i]   = self.solver[0,i].get_homo()
+            self.us[0,i] = self.solver[0,i].get_homo()
 
 
     return flag, output
-- 
2.43.0


From d59f41fc073eba4105fe2983507378c945887113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 31/54] fix: constrain the potential that is being evaluated

The last residual of the Wu-Yang equations read the potential of the previous inversion.
---
 CADMium/inverter/inverter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/inverter.py b/CADMium/inverter/inverter.py
index 2cbebc8..b24251a 100644
--- a/CADMium/inverter/inverter.py
+++ b/CADMium/inverter/inverter.py
@@ -191,7 +191,7 @@ class Inverter():
             print("vs is inf")
 
         #Calculate error function
-        grad = np.vstack( ( self.B @ (n-self.n0[:, spin][:,None]), self.vs[self.Nelem-1, spin] ) )
+        grad = np.vstack( ( self.B @ (n-self.n0[:, spin][:,None]), vs[self.Nelem-1] ) )
         grad = np.squeeze(grad)
 
         if np.isnan(grad).any() is True:
-- 
2.43.0


From 090d43bd1c51ff3e54864951ffffca0952febd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 32/54] fix: Jacobian of the inversion holds the response of
 every angular momentum level

---
 CADMium/inverter/inverter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CADMium/inverter/inverter.py b/CADMium/inverter/inverter.py
index b24251a..ed5a428 100644
--- a/CADMium/inverter/inverter.py
+++ b/CADMium/inverter/inverter.py
@@ -209,7 +209,8 @@ class Inverter():
         """
 
         #Calculate jacobian of error function.
-        Jac = np.vstack( ( self.B @ self.solver[0,spin].chi, np.zeros((1, self.Nelem)) ) )
+        chi = sum(self.solver[i,spin].chi for i in range(self.solver.shape[0]))
+        Jac = np.vstack( ( self.B @ chi, np.zeros((1, self.Nelem)) ) )
         Jac = np.asarray(Jac)
         Jac[-1, -1] = 1
 
-- 
2.43.0


From 1161f3b490e337a1758eecf4a912df0104c87c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 33/54] fix: kinetic energy density adds up all angular
 momentum levels

---
 CADMium/inverter/get_ts_WFI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/get_ts_WFI.py b/CADMium/inverter/get_ts_WFI.py
index e58e3e6..5190b5e 100644
--- a/CADMium/inverter/get_ts_WFI.py
+++ b/CADMium/inverter/get_ts_WFI.py
@@ -23,7 +23,7 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
                 if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
 
     else:
         for i in range(self.solver.shape[0]):
@@ -33,6 +33,6 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
                 if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
 
     return ts
\ No newline at end of file
-- 
2.43.0


From a3291ea7aac14f81681237b1f47bfffaa05c52ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 34/54] fix: every orbital inversion returns its own
 information record

---
 CADMium/inverter/orbitalinvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index e345268..2542a36 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -472,7 +472,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
         flag = True
 
 
-    inv_info = inversion_info
+    inv_info = inversion_info()
     inv_info.nfev       = iter 
     inv_info.optimality = res
     output = np.empty((1,1), dtype=object)
-- 
2.43.0


From 7e567d34a27961d62180adb8f75b5be2e9dace16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 35/54] fix: undefined name in the iterative orbital inversion

---
 CADMium/inverter/orbitalinvert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index 2542a36..e1f9fcb 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -10,6 +10,7 @@ from scipy.sparse import block_diag
 from scipy.sparse import spdiags
 from scipy.sparse import eye
 from scipy.sparse.linalg import qmr
+from scipy.sparse.linalg import splu
 from scipy.sparse.linalg import LinearOperator
 #from scipy.sparse.linalg import spilu
 from scipy.sparse.linalg import spsolve
@@ -372,7 +373,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
                     M_inv = inv(M)
 
-                    lu = scipy.sparse.linalg.splu(M)
+                    lu = splu(M)
 
                     #Neet to build a Linear operator out of L and U Matrix.
                     #QMR is not written to take matrices, but Linear Operators. 
-- 
2.43.0


From 57fa42008e4befc62dcf6cac7773df81e17c6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:26 +0000
Subject: [PATCH 36/54] fix: report every level of a spin symmetric inversion

---
 CADMium/inverter/linresponse.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index a1192db..897edf7 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -57,15 +57,13 @@ def linresponse(self, n0, vs0=None):
         #Get solution from least squares object
         self.vs[:,0] = res_lsq.x
         self.us[0] = self.solver[0,0].get_homo()
-        flag[0,0] = res_lsq.status
-        output[0,0] = res_lsq
-
         #Copy information
         self.vs = np.hstack((self.vs, self.vs))
         self.us = np.hstack((self.us, self.us))
-        self.solver[0,1].setveff(self.vs[:,0])
-        flag[0,1] = res_lsq.status
-        output[0,1] = res_lsq
+        for j in range(self.solver.shape[0]):
+            self.solver[j,1].setveff(self.vs[:,0])
+            flag[j,:] = res_lsq.status
+            output[j,:] = res_lsq
 
     else:
         for i in range(pol):
-- 
2.43.0


From d566c1ce0ba2fcbfc210c5f53cac48d4803e5d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:26 +0000
Subject: [PATCH 37/54] fix: initial guess for fragments with different numbers
 of levels

---
 CADMium/partition/initialguessinvert.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index 9ae016e..85da194 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -59,14 +59,14 @@ def initialguessinvert(self, ispin=0):
         m   = None
 
         #--> Alpha Kohn Sham object
-        if len( self.KSa.solver[:,ispin]) >= i-1:
+        if len( self.KSa.solver[:,ispin]) >= i:
             phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
             self.KSa.solver[i-1, ispin].hamiltonian()
             H0  = self.KSa.solver[i-1, ispin].H0
-            m   = self.KSb.solver[i-1, ispin].m
+            m   = self.KSa.solver[i-1, ispin].m
 
         if self.ens: # Ensemble?
-            if len( self.KSA.solver[:,ispin]) >= i-1:
+            if len( self.KSA.solver[:,ispin]) >= i:
                 phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1)
                 self.KSA.solver[i-1, ispin].hamiltonian()
                 H0  = self.KSA.solver[i-1, ispin].H0
@@ -79,7 +79,7 @@ def initialguessinvert(self, ispin=0):
 
         #--> Beta Kohn Sham object
         else:
-            if len(self.KSb.solver) >= i-1:
+            if len(self.KSb.solver) >= i:
                 phi = np.append(phi, self.KSb.solver[i-1, ispin].phi, axis = 1 )
                 if H0 is None:
                     H0 = self.KSb.solver[i-1, ispin].H0
@@ -87,7 +87,7 @@ def initialguessinvert(self, ispin=0):
                     m = self.KSb.solver[i-1, ispin].m
             
             if self.ens: # Ensemble?
-                if len(self.KSB.solver) >= i-1:
+                if len(self.KSB.solver) >= i:
                     phi = np.append(phi, self.KSB.solver[i-1, ispin].phi, axis = 1 )
                     if H0 is None:
                         H0 = self.KSB.solver[i-1, ispin].H0
-- 
2.43.0


From 231b7f88985bf87fffd6c7ee3e236f594323a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:57 +0000
Subject: [PATCH 38/54] fix: chemical potential of an inversion is its highest
 occupied level

Only the first angular momentum level was considered.
---
 CADMium/inverter/linresponse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 897edf7..6c3f515 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -56,7 +56,7 @@ def linresponse(self, n0, vs0=None):
 
         #Get solution from least squares object
         self.vs[:,0] = res_lsq.x
-        self.us[0] = self.solver[0,0].get_homo()
+        self.us[0] = max(self.solver[j,0].get_homo() for j in range(self.solver.shape[0]))
         #Copy information
         self.vs = np.hstack((self.vs, self.vs))
         self.us = np.hstack((self.us, self.us))
@@ -89,7 +89,7 @@ def linresponse(self, n0, vs0=None):
                 output[j,i] = res_lsq
 
             self.vs[:,i] = res_lsq.x
-            self.us[0,i] = self.solver[0,i].get_homo()
+            self.us[0,i] = max(self.solver[j,i].get_homo() for j in range(self.solver.shape[0]))
 
 
     return flag, output
-- 
2.43.0


From a179e9a8026e8958d3ca6d861677b89dd4f32bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:33 +0000
Subject: [PATCH 39/54] fix: highest level of fragments with different numbers
 of levels

The levels of fragment B were looked up with the number of levels of fragment A.
---
 CADMium/partition/vp_kinetic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 3a99454..378020b 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -60,6 +60,9 @@ def vp_kinetic(self):
             for j in range(self.Nmo_a.shape[1]):
                 if self.KSa.solver[i,j].homo is not None:
                     ua = np.max( (ua, self.KSa.solver[i,j].homo) )
+
+        for i in range(self.Nmo_b.shape[0]):
+            for j in range(self.Nmo_b.shape[1]):
                 if self.KSb.solver[i,j].homo is not None:
                     ub = np.max( (ub, self.KSb.solver[i,j].homo) )
 
@@ -68,6 +71,9 @@ def vp_kinetic(self):
                 for j in range(self.Nmo_A.shape[1]):
                     if self.KSA.solver[i,j].homo is not None:
                         ua = np.max( (ua, self.KSA.solver[i,j].homo) )
+
+            for i in range(self.Nmo_B.shape[0]):
+                for j in range(self.Nmo_B.shape[1]):
                     if self.KSB.solver[i,j].homo is not None:
                         ub = np.max( (ub, self.KSB.solver[i,j].homo) )
         u = np.max((ua, ub))
-- 
2.43.0


From 1f317662107cfbf03ff42cd136cfeaa54b8c571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:55 +0000
Subject: [PATCH 40/54] fix: repeated inversion of a spin polarised density
 starts from each spin's potential

---
 CADMium/inverter/linresponse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 6c3f515..4edb1f1 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -27,7 +27,7 @@ def linresponse(self, n0, vs0=None):
             vs0 = (0.5 * self.grid.elap @ (n0**0.5)) / (n0**0.5 * w) 
             vs0 -= vs0[-1]
     else:
-        vs0 = self.solver[0,0].veff[:,None] if len(self.solver[0,0].veff.shape) == 1 else self.solver[0,0].veff
+        vs0 = np.column_stack([self.solver[0,i].veff for i in range(pol)])
 
     self.vs = np.zeros_like(vs0)
     self.us = np.zeros((1, pol))
-- 
2.43.0


From ecb83380a7a629672d9bc451f21a23adf8d11e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 41/54] fix: fragment shares in the partition energy densities

A fragment holds the fraction scale * n / nf of the total density. Q summed over spins is twice that, Q times scale counts the
ensemble weight twice, and the inverted kinetic energy density was an N x N array counting every level.
---
 CADMium/partition/ep_hxc.py     | 25 +++++++++++++++++++------
 CADMium/partition/ep_kinetic.py | 16 +++++++---------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index 9acd1d1..c583f80 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -3,6 +3,13 @@ ep_hxc.py
 """
 import numpy as np
 
+def share(self, i_KS):
+    """
+    Fraction of the total density that belongs to a fragment
+    """
+    Q = np.sum(i_KS.Q * self.nf, axis=1) / np.sum(self.nf, axis=1)
+    return np.nan_to_num(Q, nan=0.0, posinf=0.0, neginf=0.0)[:,None]
+
 def ep_hxc(self):
     """
     calculate dft components of Ep
@@ -27,7 +34,7 @@ def ep_hxc(self):
 
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
-                    ehf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.eh[:, None]
+                    ehf += share(self, i_KS) * i_KS.V.eh[:, None]
             ehf += self.grid.mirror(ehf)
 
         else:
@@ -37,7 +44,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA, self.KSb, self.KSB]
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
-                    ehf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.eh[:, None]
+                    ehf += share(self, i_KS) * i_KS.V.eh[:, None]
 
         
         ###Exchange
@@ -57,7 +64,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    exf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.ex
+                    exf += share(self, i_KS) * i_KS.V.ex
             exf += self.grid.mirror(exf)
 
         else:
@@ -68,7 +75,7 @@ def ep_hxc(self):
 
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    exf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.ex
+                    exf += share(self, i_KS) * i_KS.V.ex
 
         ###Correlation
         Ecm = self.e_c
@@ -85,7 +92,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    ecf += np.sum(i_KS.Q, axis=1)[:, None] * i_KS.V.ec
+                    ecf += share(self, i_KS) * i_KS.V.ec
 
             ecf += self.grid.mirror(ecf)
 
@@ -96,7 +103,13 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA, self.KSb, self.KSB]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    ecf += np.sum(i_KS.Q, axis=1)[:, None] * i_KS.V.ec
+                    ecf += share(self, i_KS) * i_KS.V.ec
+
+        #Account for the spin flipped components
+        if self.optPartition.ens_spin_sym:
+            ehf *= 2.0
+            exf *= 2.0
+            ecf *= 2.0
 
         self.E.Ep_h = Ehm - Ehf 
         self.E.Ep_x = Exm - Exf 
diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 7c9fa2d..943b4f1 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -2,6 +2,7 @@
 ep_kinetic.py
 """
 import numpy as np
+from .ep_hxc import share
 
 def ep_kinetic(self):
     """
@@ -36,7 +37,7 @@ def ep_kinetic(self):
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
 
-            tsf += i_KS.scale * np.sum(i_KS.Q, axis=1) * i_KS.V.ts
+            tsf += share(self, i_KS)[:,0] * i_KS.V.ts
 
     elif self.optPartition.kinetic_part_type == "libxcke" or \
          self.optPartition.kinetic_part_type == "paramke":
@@ -59,7 +60,7 @@ def ep_kinetic(self):
         # Ts and ts for fragments obtained in ep_kinetic
         for iKS in iks:
             Tsf += iKS.scale * iKS.V.Ts
-            tsf += iKS.scale * np.sum( iKS.Q, axis=1 ) * iKS.V.ts[:,0]
+            tsf += share(self, iKS)[:,0] * iKS.V.ts[:,0]
 
     elif self.optPartition.kinetic_part_type == "inversion":
         
@@ -68,8 +69,8 @@ def ep_kinetic(self):
 
         #Evaluate kinetic energy for fragments
         Tsf = 0.0
+        tsm = tsm[:, None]
         tsf = np.zeros_like(tsm)
-        tsf = tsf[:, None]
 
         if self.optPartition.ab_sym is not True:
             if not self.ens:
@@ -86,7 +87,6 @@ def ep_kinetic(self):
             assert i_KS.E.Ts != None, ("Fragment energies must be evaluated before partition energy")
             Tsf += i_KS.scale * i_KS.E.Ts
             
-            i_KS.V.ts = np.zeros_like( i_KS.n )
             ts = np.zeros((self.grid.Nelem, self.pol))
 
             for i in range(i_KS.solver.shape[0]):
@@ -97,13 +97,11 @@ def ep_kinetic(self):
             for i in range(i_KS.solver.shape[0]):
                 for j in range(i_KS.solver.shape[1]):
                     if i_KS.solver[i,j].ked_WFI is not None:
-                        ts[:,j] = np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
+                        ts[:,j] += np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
 
-            for i in range(i_KS.solver.shape[0]):
-                for j in range(i_KS.solver.shape[1]):
-                    i_KS.V.ts += np.sum( ts, axis=1)[:,None] / np.sum(i_KS.n, axis=1)[:,None]
+            i_KS.V.ts = np.sum( ts, axis=1)[:,None] / np.sum(i_KS.n, axis=1)[:,None]
 
-            tsf += i_KS.scale * np.sum( i_KS.Q, axis=1 )[:,None] * np.sum( i_KS.V.ts, axis=1 )[:,None]
+            tsf += share(self, i_KS) * i_KS.V.ts
 
         if self.optPartition.ab_sym is True:
             tsf += self.grid.mirror(tsf)
-- 
2.43.0


From 08c079542d3cb5035792ba99c2a33ff9208734d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 42/54] fix: two orbital kinetic potential was half the
 functional derivative

---
 CADMium/partition/vp_kinetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 378020b..f07bdcb 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -135,7 +135,7 @@ def vp_kinetic(self):
             iks = [self.KSa, self.KSA, self.KSb, self.KSB]
 
         for i_KS in iks:
-            i_KS.V.vt = (eT @ i_KS.n ** 0.5) / (2 * self.grid.w[:,None] * i_KS.n**0.5)
+            i_KS.V.vt = (eT @ i_KS.n ** 0.5) / (self.grid.w[:,None] * i_KS.n**0.5)
 
         integrand = (n1**(0.5) - n2**(0.5))**2
         C = self.grid.integrate( np.sum(integrand, axis=1)  ) # If pol == 2 we may need to sum axis ==1 
@@ -144,8 +144,8 @@ def vp_kinetic(self):
         phi2 = ((n1 + n2)/2 - phi1**2)**0.5
 
         # Functional derivative of KEF wrt phi1
-        dTO_dphi1 = (eT @ phi1) / self.grid.w[:,None]
-        dTO_dphi2 = (eT @ phi2) / self.grid.w[:,None]
+        dTO_dphi1 = 2 * (eT @ phi1) / self.grid.w[:,None]
+        dTO_dphi2 = 2 * (eT @ phi2) / self.grid.w[:,None]
 
         # Functional derivative of KEF wrt density one
         dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
-- 
2.43.0


From 3844abbe3abb11eafe9f08fae9543e2885008418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 43/54] fix: initial guess of mirror symmetric partitions uses
 the mirrored orbitals

---
 CADMium/partition/initialguessinvert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index 85da194..a4e8571 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -73,9 +73,9 @@ def initialguessinvert(self, ispin=0):
                 m   = self.KSA.solver[i-1, ispin].m
 
         if self.optPartition.ab_sym is True:
-            phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
+            phi = np.append(phi, self.grid.mirror(self.KSa.solver[i-1, ispin].phi), axis = 1 )
             if self.ens:
-                phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1 )
+                phi = np.append(phi, self.grid.mirror(self.KSA.solver[i-1, ispin].phi), axis = 1 )
 
         #--> Beta Kohn Sham object
         else:
-- 
2.43.0


From af0d785b636511337275b03e7d6aea83e7b94055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:03 +0000
Subject: [PATCH 44/54] fix: stack the guessed orbitals one after the other for
 the inversion

---
 CADMium/partition/vp_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index f07bdcb..7a2e2c1 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -94,7 +94,7 @@ def vp_kinetic(self):
             if self.pol == 2:
                 ntarget = 2 * ntarget
             phi0, e0, vs0 = self.initialguessinvert(ispin)
-            phi0 = phi0.flatten()[:,None]
+            phi0 = phi0.flatten("F")[:,None]
             e0   = e0.flatten()
 
             #Invert molecular problem:
-- 
2.43.0


From ef65561f2f9224acbee5686cee3c2dac28d2a2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 45/54] fix: measure the guessed levels of an orbital inversion
 from the highest occupied one

---
 CADMium/inverter/orbitalinvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index e1f9fcb..f2f7c63 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -257,7 +257,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
     #Initial Guess
     if isolver[0].phi is None:
         X = np.vstack((  phi0[:np.sum(Nmo) * Nelem], 
-                         (e0[:np.sum(Nmo)-1] - e0[-1])[:, None], 
+                         (e0[:np.sum(Nmo)-1] - e0[np.sum(Nmo)-1])[:, None], 
                          np.zeros((North, 1)),
                          vs0 - e0[np.sum(Nmo)-1]
                         ))
-- 
2.43.0


From cf2b79228ac5a21913a0d2bf8bdf83a28d7ccb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 46/54] fix: derivative of the overlap measure counted the
 ensemble weight twice

---
 CADMium/partition/vp_overlap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/vp_overlap.py b/CADMium/partition/vp_overlap.py
index 9313a0b..bc913c2 100644
--- a/CADMium/partition/vp_overlap.py
+++ b/CADMium/partition/vp_overlap.py
@@ -23,7 +23,7 @@ def vp_overlap(self):
     
     for KSa in iksa:
         #Functional derivative of the overlap
-        KSa.V.dSdn = KSa.scale * 0.5 * (self.nb_frac / self.na_frac)**0.5
+        KSa.V.dSdn = 0.5 * (self.nb_frac / self.na_frac)**0.5
         if self.optPartition is True:
             KSa.V.dSdn = np.repeat(KSa.V.dSdn, 2, axis=1)
         #Remove any Nans
@@ -33,7 +33,7 @@ def vp_overlap(self):
 
     for KSb in iksb:
         #Functional derivative of the overlap
-        KSb.V.dSdn = KSb.scale * 0.5 *  (self.na_frac / self.nb_frac)**0.5
+        KSb.V.dSdn = 0.5 *  (self.na_frac / self.nb_frac)**0.5
         if self.optPartition is True:
             KSb.V.dSdn = np.repeat(KSb.V.dSdn, 2, axis=1)
         #Remove any Nans
-- 
2.43.0


From b544715bd2f7c42f6dd2ddd1a18551e23c593c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 47/54] fix: derivative of the overlap measure of a spin
 polarised density

---
 CADMium/partition/vp_overlap.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/CADMium/partition/vp_overlap.py b/CADMium/partition/vp_overlap.py
index bc913c2..3027b40 100644
--- a/CADMium/partition/vp_overlap.py
+++ b/CADMium/partition/vp_overlap.py
@@ -21,10 +21,14 @@ def vp_overlap(self):
         iksa = [self.KSa, self.KSA]
         iksb = [self.KSb, self.KSB]
     
+    #The overlap depends on the densities summed over spin
+    na = np.sum(self.na_frac, axis=1, keepdims=True)
+    nb = np.sum(self.nb_frac, axis=1, keepdims=True)
+
     for KSa in iksa:
         #Functional derivative of the overlap
-        KSa.V.dSdn = 0.5 * (self.nb_frac / self.na_frac)**0.5
-        if self.optPartition is True:
+        KSa.V.dSdn = 0.5 * (nb / na)**0.5
+        if self.pol == 2:
             KSa.V.dSdn = np.repeat(KSa.V.dSdn, 2, axis=1)
         #Remove any Nans
         KSa.V.dSdn[ np.isinf(KSa.V.dSdn) ] = 0.0
@@ -33,8 +37,8 @@ def vp_overlap(self):
 
     for KSb in iksb:
         #Functional derivative of the overlap
-        KSb.V.dSdn = 0.5 *  (self.na_frac / self.nb_frac)**0.5
-        if self.optPartition is True:
+        KSb.V.dSdn = 0.5 * (na / nb)**0.5
+        if self.pol == 2:
             KSb.V.dSdn = np.repeat(KSb.V.dSdn, 2, axis=1)
         #Remove any Nans
         KSb.V.dSdn[ np.isinf(KSb.V.dSdn) ] = 0.0
-- 
2.43.0


From caf9ce1b86e6d1d309a32cd9bd1e53be0edcf46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 48/54] fix: ensemble correlated Hartree energy left out the
 spin flipped components

---
 CADMium/partition/EnsCorHar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CADMium/partition/EnsCorHar.py b/CADMium/partition/EnsCorHar.py
index 9680c1f..18f7178 100644
--- a/CADMium/partition/EnsCorHar.py
+++ b/CADMium/partition/EnsCorHar.py
@@ -41,4 +41,6 @@ def EnsCorHar(self):
 
         self.E.Ehcor = 0.0
         for iks in [self.KSa, self.KSA, self.KSb, self.KSB]:
-            self.E.Ehcor += iks.scale * iks.E.Ehcor       
+            self.E.Ehcor += iks.scale * iks.E.Ehcor
+        if self.optPartition.ens_spin_sym:    #Spin flipped components
+            self.E.Ehcor *= 2.0       
-- 
2.43.0


From 6cdb58079393033a5ee0dad6f65669ab6117fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:29 +0000
Subject: [PATCH 49/54] fix: von Weizsaecker partition energy of polarised
 densities is summed over spins like its potential

---
 CADMium/partition/ep_kinetic.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 943b4f1..a53cc98 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -13,11 +13,11 @@ def ep_kinetic(self):
 
         #Use the von-Weizacker inversion
         Tsm =   (2 * np.pi * self.grid.hr * self.grid.ha ) \
-              * np.sum(self.grid.wi * np.sum(self.nf, axis=1)**0.5 \
-              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
+              * np.sum(self.grid.wi * np.sum(self.nf**0.5 \
+              * (-0.5 * self.grid.elap @ self.nf**0.5), axis=1))
 
-        tsm =   (np.sum(self.nf, axis=1)**(-0.5)) / self.grid.w \
-              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5 )
+        tsm =   np.sum(self.nf**0.5 * (-0.5 * self.grid.elap @ self.nf**0.5), axis=1) \
+              / (self.grid.w * np.sum(self.nf, axis=1))
 
         #Evaluate kinetic energy for integer ocupation 
         #Densities
@@ -31,11 +31,11 @@ def ep_kinetic(self):
 
         for i_KS in iks:
             Tsf += i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) \
-                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 \
-                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 ) )
+                              * np.sum( self.grid.wi * np.sum(i_KS.n**0.5 \
+                              * ( -0.5 * self.grid.elap @ i_KS.n**0.5 ), axis=1) )
 
-            i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
-                        * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
+            i_KS.V.ts = np.sum( i_KS.n**0.5 * (-0.5 * self.grid.elap @ i_KS.n**0.5), axis=1 ) \
+                        / (self.grid.w * np.sum( i_KS.n, axis=1 ))
 
             tsf += share(self, i_KS)[:,0] * i_KS.V.ts
 
-- 
2.43.0


From 06e3a4b00ddb201d1b3b6920c151a2070fc52d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:41 +0000
Subject: [PATCH 50/54] fix: mirror combinations of degenerate orbitals need a
 mirror symmetric potential

---
 CADMium/pssolver/calc_orbitals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index 49466ad..a0062f6 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -53,9 +53,11 @@ def calc_orbitals(self, solver_id, return_dict):
             self.phi = phi.real[:,indx]
 
         #Check for degenerate and nearly degenerate orbitals
+        #Combinations of definite parity are only eigenstates of a mirror symmetric potential
+        mirror_symmetric = np.allclose(self.veff, self.grid.mirror(self.veff))
         for i in range(self.Nmo-1):
             for j in range(i+1, self.Nmo):
-                if np.abs(self.eig[i]-self.eig[j]) < 1e-9:
+                if mirror_symmetric and np.abs(self.eig[i]-self.eig[j]) < 1e-9:
                     even = self.phi[:, i] + self.grid.mirror(self.phi[:,i]) + self.phi[:,j] + self.grid.mirror(self.phi[:,j])
                     odd  = self.phi[:, i] - self.grid.mirror(self.phi[:,i]) + self.phi[:,j] - self.grid.mirror(self.phi[:,j])
                     self.phi[:, i] = even/norm(even)
-- 
2.43.0


From 07881c77cca0ac79a3db3b54f0d3bba9683b4434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:08 +0000
Subject: [PATCH 51/54] fix: an empty spin channel must not hide the density
 change from the convergence checks

---
 CADMium/kohnsham/scf.py  | 3 ++-
 CADMium/partition/scf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 4390d1d..8dce652 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -96,7 +96,8 @@ def scf(self, optKS):
 
         #Convergence check
         dif_E = np.abs( (self.E.E - old_E) / self.E.E )
-        dif_n = np.max(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )
+        #A spin without electrons has no change
+        dif_n = np.max(np.nan_to_num(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  ))
 
 
         diff = max(dif_E, dif_n)
diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 1caa474..e987387 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -198,7 +198,8 @@ def scf(self, optSCF={}):
 
     #-----> Convergence Check
         dif_E  = np.abs( np.sum(self.E.E - old_E) / self.E.E )
-        dif_nf = np.max(self.grid.integrate(np.abs(self.nf-old_nf)) / self.grid.integrate(np.abs(self.nf)))
+        #A spin without electrons has no change
+        dif_nf = np.max(np.nan_to_num(self.grid.integrate(np.abs(self.nf-old_nf)) / self.grid.integrate(np.abs(self.nf))))
         dif    = max(dif_E, dif_nf)
         old_E  = self.E.E
         old_nf = self.nf
-- 
2.43.0


From 040ddf058203720c36cc8ef5aab4dbf0f8275fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 52/54] fix: overlap functionals of a fresh partition
 calculation read fragment energies before they exist

---
 CADMium/partition/scf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index e987387..4cb14af 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -116,6 +116,8 @@ def scf(self, optSCF={}):
             nout = i_KS.calc_density(optSCF.iterative)
             i_KS.n = nout
             i_KS.calc_chempot()
+            #Overlap functionals need the fragment energies already in the first pass
+            i_KS.energy()
 
     if self.optPartition.ab_sym == True:
         self.mirrorAB()
-- 
2.43.0


From f9823f6633b67a6f6f16f2ff1737e1bdbe6a9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:27 +0000
Subject: [PATCH 53/54] fix: orbital inversion with a partly filled highest
 orbital

---
 CADMium/inverter/orbitalinvert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index f2f7c63..8e4a6cb 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -199,7 +199,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
     isolver = self.solver[:, ispin]
     Nsol = isolver.shape[0]
-    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int)
+    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=float), np.empty((Nsol), dtype=int)
     for i, j in enumerate(isolver):
         j.hamiltonian()
         Nmo[i] = j.Nmo
@@ -223,7 +223,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 nu = N[it] - np.floor(N[it])
             
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
         
         else:
             D[it,0] = 4 *  np.ones((Nmo[it,0], 1))
@@ -233,7 +233,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 nu = N[it] / 2 - np.floor(N[it] / 2)
 
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
 
 
     H_matrices = []
-- 
2.43.0


From 120143b12e02ce6e81be556bdfb0a42d6f40d341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:48 +0000
Subject: [PATCH 54/54] fix: a given target density no longer leaves the
 fragments' parts of the density unset

---
 CADMium/partition/scf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 4cb14af..a94b10d 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -123,8 +123,11 @@ def scf(self, optSCF={}):
         self.mirrorAB()
 
     #---> Form protomolecule and calculate Q-Functions
-    if not optSCF.from_target_density: 
-        self.calc_protomolecule()
+    target_nf = self.nf if optSCF.from_target_density else None
+    self.calc_protomolecule()
+    if optSCF.from_target_density:
+        #The total density is given, its parts are the ones of the fragments
+        self.nf = target_nf
     self.calc_Q()
 
     #---> SCF Initialization
@@ -193,8 +196,9 @@ def scf(self, optSCF={}):
             self.mirrorAB()
     
         #Form promolecule and calculate q functions
-        if not optSCF.from_target_density: 
-            self.calc_protomolecule()        
+        self.calc_protomolecule()
+        if optSCF.from_target_density:
+            self.nf = target_nf
         self.calc_Q()
         self.energy()
 
-- 
2.43.0

