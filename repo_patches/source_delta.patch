From c4631eadd4f574053cdec43a2f023f496d54f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:58 +0000
Subject: [PATCH 01/38] fix: KMM_RB, KMMRK3_RB: solve the temperature equation
 (HelmholtzSolverT arguments were swapped)

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 0721c49..5ef6458 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -79,7 +79,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, rk, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, rk, context):
     u_hat, g_hat = KMMRK3_solve_linear(u_hat, g_hat, rhs, rk, **context)
-    p_hat = context.la.HelmholtzSolverT[rk](p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT[rk](rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index d6d7c30..0d52600 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -94,7 +94,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, context):
     u_hat, g_hat = KMM_solve_linear(u_hat, g_hat, rhs, **context)
-    p_hat = context.la.HelmholtzSolverT(p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT(rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
-- 
2.43.0


From be891009dea545dcc14eae11fba192a35658284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:58 +0000
Subject: [PATCH 02/38] fix: KMMRK3_RB: N_hat and rhs alias the same work
 array, which dropped temperature advection

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 5ef6458..d4b0b6b 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -115,7 +115,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     dTdxi[2] = FSTp.backward(1j*K[2]*p_hat, dTdxi[2])
     N[:] = Ua[0]*dTdxi[0] + Ua[1]*dTdxi[1] + Ua[2]*dTdxi[2]
     N_hat = FSTp.forward(N, N_hat)
-    rhs = mat.BDD.matvec(N_hat, rhs)
+    rhs = mat.BDD.matvec(N_hat.copy(), rhs)
     return rhs
 
 def integrate(u_hat, g_hat, p_hat, rhs, dt, solver, context):
-- 
2.43.0


From 53eba85be93038f20a6df50481c665cebc12b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:58 +0000
Subject: [PATCH 03/38] fix: KMM_RB, KMMRK3_RB: sign of the derivative of the
 temperature lifting in Standard convection

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index d4b0b6b..f30aa5c 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -108,7 +108,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(Ua[0], 0, True)]
     Ua = VFSp.backward(u_hat, Ua)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 0d52600..69da226 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -143,7 +143,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(UCN[0], 0, True)]
     UCN = VFSp.backward(U_hat0, UCN)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
-- 
2.43.0


From 950e3a65c760ae7757a0ead61c552192e04a7e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:58 +0000
Subject: [PATCH 04/38] fix: KMM_RB, KMMRK3_RB: use the configured quadrature
 for the temperature space

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index f30aa5c..3b35c7e 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -15,7 +15,7 @@ KMMRK3_solve_linear = solve_linear
 def get_context():
     c = KMMRK3_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 69da226..61360d5 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -15,7 +15,7 @@ KMM_solve_linear = solve_linear
 def get_context():
     c = KMM_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
@@ -43,7 +43,7 @@ def get_context():
     c.la.HelmholtzSolverT = Helmholtz(ADD, BDD,
                                       -np.ones((1, 1, 1)),
                                       (c.K2[0]+2.0/kappa/dt)[np.newaxis, :, :])
-    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0)
+    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0, c.ST.quad)
 
     c.hdf5file = RBFile(config.params.solver,
                         checkpoint={'space': c.VFS,
-- 
2.43.0


From e1723e8a13eb15a8e0770910727cf5f26cca5287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:58 +0000
Subject: [PATCH 05/38] fix: KMM_RB: keep the inhomogeneous boundary values of
 temperature with the 2/3-rule

---
 spectralDNS/solvers/KMM_RB.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 61360d5..7a14b47 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -30,6 +30,9 @@ def get_context():
     c.N_hat = Function(FRB)
     c.N_hat0 = Function(FRB)
 
+    # Lifting of the boundary values bc=(1, 0) of RB
+    c.phi_lift = 0.5*(1-c.X[0]) if config.params.dealias == '2/3-rule' else None
+
     # primary variable
     c.u = (c.U_hat, c.g, c.phi_hat)
 
@@ -99,13 +102,16 @@ def solve_linear(u_hat, g_hat, p_hat, rhs, context):
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
                     UCN, VFSp, U_hat0, phi_ab, phi0, mat, K, N_hat,
-                    phi_hat0, phi_hat1, FRBp, FSBp, FSTp, work, **context):
+                    phi_hat0, phi_hat1, FRBp, FSBp, FSTp, phi_lift, work, **context):
     uT_hat = work[(p_hat, 0, True)]
     F_tmp = work[(u_hat, 0, True)]
 
     UCN = VFSp.backward(0.5*(u_hat + U_hat0), UCN)
     phi_ab[:] = 1.5*phi_hat0 - 0.5*phi_hat1
     phi0 = FRBp.backward(phi_ab, phi0)
+    if phi_lift is not None:
+        # The 2/3-rule truncates the boundary dofs as well. Put them back.
+        phi0 += phi_lift
     uT_hat = FSBp.forward(phi0*UCN[0], uT_hat)
     F_tmp[0] = mat.CDB.matvec(uT_hat, F_tmp[0])
     uT_hat = FSTp.forward(phi0*UCN[1], uT_hat)
-- 
2.43.0


From a280207511fcb5dee6ffcb54d5b9d9ce0b5b0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:13 +0000
Subject: [PATCH 06/38] fix: KMM: wall normal derivative in Divergence and Skew
 convection was projected to the biharmonic space

---
 spectralDNS/solvers/KMM.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index bb958b0..e378c13 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -326,15 +326,16 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     """c_i = div(u_i u_j)"""
     if not add:
         rhs.fill(0)
-    F_tmp = Function(VFSp, buffer=work[(rhs, 0, True)])
-    F_tmp2 = Function(VFSp, buffer=work[(rhs, 1, True)])
+    VFSTp = VectorSpace([FSTp, FSTp, FSTp])
+    F_tmp = Function(VFSTp, buffer=work[(rhs, 0, True)])
+    F_tmp2 = Function(VFSTp, buffer=work[(rhs, 1, True)])
     U = u_dealias
 
     F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
 
-    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSp, output_array=F_tmp2)
+    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSTp, output_array=F_tmp2)
     rhs += F_tmp2
 
     F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-- 
2.43.0


From 961affddf6b41e359e18b48d1789696802ac2bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 07/38] fix: KMMr: Standard, Divergence and Skew convection
 used KMM's axes and a missing LUsolve routine

---
 spectralDNS/solvers/KMMr.py | 74 +++++++++++++++----------------------
 1 file changed, 30 insertions(+), 44 deletions(-)

diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index a38d0ae..4871ded 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -14,6 +14,7 @@ from shenfun.chebyshev.la import Helmholtz, Biharmonic
 from .spectralinit import *
 from ..shen.Matrices import BiharmonicCoeff, HelmholtzCoeff
 from ..shen import LUsolve
+from shenfun import project
 
 def get_context():
     """Set up context for solver"""
@@ -286,32 +287,25 @@ def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     U = u_dealias
     Uc = work[(U, 1, True)]
     Uc2 = work[(U, 2, True)]
-    F_tmp = work[(rhs, 0, True)]
 
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(u_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    dudx = Uc[0] = FSTp.backward(F_tmp[0], Uc[0])
-
-    LUsolve.Mult_CTD_3D_n(params.N[0], u_hat[1], u_hat[2], F_tmp[1], F_tmp[2])
-    dvdx = Uc[1] = FCTp.backward(F_tmp[1], Uc[1])
-    dwdx = Uc[2] = FCTp.backward(F_tmp[2], Uc[2])
+    # dwdz = 0 from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    dudz = project(Dx(u_hat[0], 2, 1), FCTp).backward()
+    dvdz = project(Dx(u_hat[1], 2, 1), FCTp).backward()
+    dwdz = project(Dx(u_hat[2], 2, 1), FSTp).backward()
 
-    dudy = Uc2[0] = FSBp.backward(1j*K[1]*u_hat[0], Uc2[0])
-    dudz = Uc2[1] = FSBp.backward(1j*K[2]*u_hat[0], Uc2[1])
+    dudx = Uc[0] = FSTp.backward(1j*K[0]*u_hat[0], Uc[0])
+    dudy = Uc[1] = FSTp.backward(1j*K[1]*u_hat[0], Uc[1])
     rhs[0] = FSTp.forward(U[0]*dudx + U[1]*dudy + U[2]*dudz, rhs[0])
 
     Uc2[:] = 0
-    dvdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[0])
-
-    dvdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[1], Uc2[1])
+    dvdx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[1], Uc2[0])
+    dvdy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[1])
     rhs[1] = FSTp.forward(U[0]*dvdx + U[1]*dvdy + U[2]*dvdz, rhs[1])
 
     Uc2[:] = 0
-    dwdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[2], Uc2[0])
-    dwdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[2], Uc2[1])
-
+    dwdx = Uc2[0] = FSBp.backward(1j*K[0]*u_hat[2], Uc2[0])
+    dwdy = Uc2[1] = FSBp.backward(1j*K[1]*u_hat[2], Uc2[1])
     rhs[2] = FSTp.forward(U[0]*dwdx + U[1]*dwdy + U[2]*dwdz, rhs[2])
 
     return rhs
@@ -321,36 +315,28 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     """c_i = div(u_i u_j)"""
     if not add:
         rhs.fill(0)
-    F_tmp = work[(rhs, 0, True)]
-    F_tmp2 = work[(rhs, 1, True)]
+    VFSTp = VectorSpace([FSTp, FSTp, FSTp])
+    F_tmp = Function(VFSTp, buffer=work[(rhs, 0, True)])
+    F_tmp2 = Function(VFSTp, buffer=work[(rhs, 1, True)])
     U = u_dealias
 
-    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
-    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
-    F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
-
-    F_tmp2[0] = mat.CDD.matvec(F_tmp[0], F_tmp2[0])
-    F_tmp2[1] = mat.CDD.matvec(F_tmp[1], F_tmp2[1])
-    F_tmp2[2] = mat.CDD.matvec(F_tmp[2], F_tmp2[2])
-    F_tmp2[0] = la.TDMASolverD(F_tmp2[0])
-    F_tmp2[1] = la.TDMASolverD(F_tmp2[1])
-    F_tmp2[2] = la.TDMASolverD(F_tmp2[2])
-    rhs[0] += F_tmp2[0]
-    rhs[1] += F_tmp2[1]
-    rhs[2] += F_tmp2[2]
-
-    F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-    F_tmp2[1] = FSTp.forward(U[0]*U[2], F_tmp2[1])
-    rhs[0] += 1j*K[1]*F_tmp2[0] # duvdy
-    rhs[0] += 1j*K[2]*F_tmp2[1] # duwdz
-
-    F_tmp[0] = FSTp.forward(U[1]*U[1], F_tmp[0])
+    F_tmp[0] = FSTp.forward(U[0]*U[2], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[1]*U[2], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[2]*U[2], F_tmp[2])
-    rhs[1] += 1j*K[1]*F_tmp[0]  # dvvdy
-    rhs[1] += 1j*K[2]*F_tmp[1]  # dvwdz
-    rhs[2] += 1j*K[1]*F_tmp[1]  # dvwdy
-    rhs[2] += 1j*K[2]*F_tmp[2]  # dwwdz
+
+    F_tmp2 = project(Dx(F_tmp, 2, 1), VFSTp, output_array=F_tmp2)
+    rhs += F_tmp2
+
+    rhs[2] += 1j*K[0]*F_tmp[0]  # dwudx
+    rhs[2] += 1j*K[1]*F_tmp[1]  # dwvdy
+
+    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
+    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
+    F_tmp[2] = FSTp.forward(U[1]*U[1], F_tmp[2])
+    rhs[0] += 1j*K[0]*F_tmp[0]  # duudx
+    rhs[0] += 1j*K[1]*F_tmp[1]  # duvdy
+    rhs[1] += 1j*K[0]*F_tmp[1]  # dvudx
+    rhs[1] += 1j*K[1]*F_tmp[2]  # dvvdy
 
     return rhs
 
-- 
2.43.0


From 43b17b7510c964c0044c4956a144e3956e711edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:16 +0000
Subject: [PATCH 08/38] fix: Cython ForwardEuler and ForwardEuler_2D: signature
 did not match the caller

---
 spectralDNS/optimization/cython_integrators.in | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index 80ef204..bc602b7 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -52,7 +52,6 @@ def RK4(np.ndarray[complex_t, ndim=4] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler(np.ndarray[complex_t, ndim=4] U_hat,
-                 np.ndarray[complex_t, ndim=4] U_hat0,
                  np.ndarray[complex_t, ndim=4] dU,
                  real_t dt,
                  solver,
@@ -139,7 +138,6 @@ def RK4_2D(np.ndarray[complex_t, ndim=3] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler_2D(np.ndarray[complex_t, ndim=3] U_hat,
-                    np.ndarray[complex_t, ndim=3] U_hat0,
                     np.ndarray[complex_t, ndim=3] dU,
                     real_t dt,
                     solver,
-- 
2.43.0


From ff3baba34e46d0de860be378391c68e7cff1aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:16 +0000
Subject: [PATCH 09/38] fix: Cython AB2_2D: first step is tstep 0, as in AB2

---
 spectralDNS/optimization/cython_integrators.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index bc602b7..94b299e 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -163,7 +163,7 @@ def AB2_2D(np.ndarray[complex_t, ndim=3] U_hat,
     cdef unsigned int rk, i, j, k
     dU = solver.ComputeRHS(dU, U_hat, solver, **context)
 
-    if tstep == 1:
+    if tstep == 0:
         for i in range(dU.shape[0]):
             for j in range(dU.shape[1]):
                 for k in range(dU.shape[2]):
-- 
2.43.0


From 5ef22d1f88e7f174cf62e604828725eb0ee26eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:16 +0000
Subject: [PATCH 10/38] fix: Cython _cross3_2D: index the broadcastable
 wavenumber arrays within their bounds

---
 spectralDNS/optimization/cython_maths.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_maths.in b/spectralDNS/optimization/cython_maths.in
index 918fefe..6019d52 100644
--- a/spectralDNS/optimization/cython_maths.in
+++ b/spectralDNS/optimization/cython_maths.in
@@ -138,8 +138,8 @@ def _cross3_2D(np.ndarray[complex_t, ndim=2] c,
 
     for i in xrange(b.shape[1]):
         for j in xrange(b.shape[2]):
-            a0 = kx[i,j]
-            a1 = ky[i,j]
+            a0 = kx[i,0]
+            a1 = ky[0,j]
             b0 = b[0,i,j]
             b1 = b[1,i,j]
             c[i,j].real = -(a0*b1.imag - a1*b0.imag)
-- 
2.43.0


From 9e66ac48de1020aa42424f614abfa0e54c637162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:36 +0000
Subject: [PATCH 11/38] fix: AB2, BS5: start with a proper first step also when
 params.tstep is nonzero (restart or second solve)

---
 spectralDNS/maths/integrators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 3f97ce5..fc0e306 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -4,6 +4,7 @@ __date__ = "2015-04-07"
 __copyright__ = "Copyright (C) 2015-2018 " + __author__
 __license__ = "GNU Lesser GPL version 3 or any later version"
 
+from itertools import count
 import numpy as np
 from mpi4py import MPI
 from ..optimization import optimizer, wraps
@@ -217,12 +218,15 @@ def getintegrator(rhs, u0, solver, context):
         fY_hat = np.zeros((s,) + u0.shape, dtype=u0.dtype)
         sc = np.zeros_like(u0)
         err = np.zeros_like(u0)
+        # Steps taken by this integrator. Not params.tstep, that is nonzero
+        # for a restart, and there is no previous right hand side to use then.
+        steps = count()
 
         @wraps(adaptiveRK)
         def func():
             return adaptiveRK(A, b, bhat, err_order, fY_hat, u1, sc, err, fsal,
                               offset, params.TOL, params.TOL, adaptive, errnorm,
-                              rhs, u0, solver, params.dt, params.tstep, context,
+                              rhs, u0, solver, params.dt, next(steps), context,
                               solver.additional_callback, params)
         return func
 
@@ -233,7 +237,9 @@ def getintegrator(rhs, u0, solver, context):
         return func
 
     elif params.integrator == "AB2":
+        # Steps taken by this integrator, see BS5
+        steps = count()
         @wraps(AB2)
         def func():
-            return AB2(u0, u1, rhs, params.dt, params.tstep, solver, context)
+            return AB2(u0, u1, rhs, params.dt, next(steps), solver, context)
         return func
-- 
2.43.0


From 72565501c8f0f1d10dea47a4a54a65e871139c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:49 +0000
Subject: [PATCH 12/38] fix: BS5_adaptive: normalise the error by the global
 size, so that dt does not depend on the number of processes

---
 spectralDNS/maths/integrators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index fc0e306..1c46f17 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -94,7 +94,7 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
             if comm.Get_rank() == 0:
                 est_to_bcast = np.zeros(1)
                 est = np.max(np.sqrt(nsquared))
-                est /= np.sqrt(np.array(context.T.shape(True)).prod())
+                est /= np.sqrt(np.array(context.T.global_shape(True)).prod())
                 est_to_bcast[0] = est
             est_to_bcast = comm.bcast(est_to_bcast, root=0)
             est = est_to_bcast[0]
-- 
2.43.0


From 3b7aca80ffafca702a0babf29a8991e68b1dca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:04 +0000
Subject: [PATCH 13/38] fix: HDF5File.close: do not crash when no step was
 taken

---
 spectralDNS/h5io/HDF5File.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index cf7de8d..61eb0dd 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -99,9 +99,10 @@ class HDF5File(object):
         self.wfile.open()
 
     def close(self):
-        if self.cfile.f:
+        # The files are not created until the first update
+        if self.cfile is not None and self.cfile.f:
             self.cfile.close()
-        if self.wfile.f:
+        if self.wfile is not None and self.wfile.f:
             self.wfile.close()
 
     @staticmethod
-- 
2.43.0


From 5b65f2ca303bb8fcbc9028a2c3fe69e1af8410a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:04 +0000
Subject: [PATCH 14/38] fix: HDF5File: opening an existing checkpoint with
 filemode 'a' reset its time

---
 spectralDNS/h5io/HDF5File.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index 61eb0dd..6b956f8 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -67,8 +67,10 @@ class HDF5File(object):
                                      self.checkpoint['space'],
                                      mode=params.filemode)
             self.cfile.open()
-            self.cfile.f.attrs.create('tstep', 0)
-            self.cfile.f.attrs.create('t', 0.0)
+            # Keep the time of an existing checkpoint (filemode 'a')
+            if 't' not in self.cfile.f.attrs:
+                self.cfile.f.attrs.create('tstep', 0)
+                self.cfile.f.attrs.create('t', 0.0)
             self.cfile.close()
         if self.wfile is None:
             self.wfile = ShenfunFile(self.filename+'_w',
-- 
2.43.0


From a6c730d47882adf95d6c01aa23c0359b523bcd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:53 +0000
Subject: [PATCH 15/38] fix: single precision: apply the Nyquist mask without
 shenfun's double precision routine

---
 spectralDNS/solvers/Bq2D.py | 2 +-
 spectralDNS/solvers/MHD.py  | 2 +-
 spectralDNS/solvers/NS.py   | 2 +-
 spectralDNS/solvers/VV.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spectralDNS/solvers/Bq2D.py b/spectralDNS/solvers/Bq2D.py
index a8526c1..dbda9af 100644
--- a/spectralDNS/solvers/Bq2D.py
+++ b/spectralDNS/solvers/Bq2D.py
@@ -169,7 +169,7 @@ def ComputeRHS(rhs, ur_hat, solver, work, K, K2, K_over_K2, P_hat, T, Tp,
     """
     rhs = solver.conv(rhs, ur_hat, work, T, Tp, VM, VMp, K, ur_dealias)
     if mask is not None:
-        rhs.mask_nyquist(mask)
+        rhs *= mask
     rhs = solver.add_pressure_diffusion(rhs, ur_hat, P_hat, K_over_K2, K, K2,
                                         params.nu, params.Ri, params.Pr)
 
diff --git a/spectralDNS/solvers/MHD.py b/spectralDNS/solvers/MHD.py
index 41751e0..eecd7ab 100644
--- a/spectralDNS/solvers/MHD.py
+++ b/spectralDNS/solvers/MHD.py
@@ -170,7 +170,7 @@ def ComputeRHS(rhs, ub_hat, solver, Tp, VMp, K, K2, K_over_K2, P_hat,
     """
     rhs = solver.conv(rhs, ub_hat, Tp, VMp, K, ub_dealias, ZZ_hat)
     if mask is not None:
-        rhs.mask_nyquist(mask)
+        rhs *= mask
     rhs = solver.add_pressure_diffusion(rhs, ub_hat, params.nu, params.eta, K2,
                                         K, P_hat, K_over_K2)
     return rhs
diff --git a/spectralDNS/solvers/NS.py b/spectralDNS/solvers/NS.py
index 6a11909..ca9427a 100644
--- a/spectralDNS/solvers/NS.py
+++ b/spectralDNS/solvers/NS.py
@@ -251,7 +251,7 @@ def ComputeRHS(rhs, u_hat, solver, work, Tp, VTp, P_hat, K, K2, u_dealias,
     """
     rhs = solver.conv(rhs, u_hat, work, Tp, VTp, K, u_dealias)
     if mask is not None:
-        rhs.mask_nyquist(mask)
+        rhs *= mask
 
     rhs = solver.add_pressure_diffusion(rhs, u_hat, params.nu, K2, K, P_hat,
                                         K_over_K2)
diff --git a/spectralDNS/solvers/VV.py b/spectralDNS/solvers/VV.py
index df96576..d34de79 100644
--- a/spectralDNS/solvers/VV.py
+++ b/spectralDNS/solvers/VV.py
@@ -141,6 +141,6 @@ def ComputeRHS(rhs, w_hat, solver, work, Tp, VT, VTp, K, K2, K_over_K2,
     """
     rhs = solver.conv(rhs, w_hat, work, Tp, VTp, K, K_over_K2, u_dealias)
     if mask is not None:
-        rhs.mask_nyquist(mask)
+        rhs *= mask
     rhs = solver.add_linear(rhs, w_hat, params.nu, K2, Source)
     return rhs
-- 
2.43.0


From ccd71f2d87d17e819b172ad385b157e265e42cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:30 +0000
Subject: [PATCH 16/38] fix: single precision: keep time in double, such that
 runs end at T

---
 spectralDNS/config.py            |  5 ++++-
 spectralDNS/maths/integrators.py | 12 +++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index ff1771f..371c372 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -121,7 +121,10 @@ class Params(AttributeDict):
             raise KeyError
 
     def __getattribute__(self, key):
-        if key in ('nu', 'dt', 'Ri', 'Pr', 'eta'):
+        if key == 'dt':
+            # Time is always double. A rounded dt does not add up to T
+            return float64(dict.__getattribute__(self, key))
+        if key in ('nu', 'Ri', 'Pr', 'eta'):
             fl = float32 if self['precision'] == 'single' else float64
             return fl(dict.__getattribute__(self, key))
         return dict.__getattribute__(self, key)
diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 1c46f17..e010009 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -188,7 +188,9 @@ def getintegrator(rhs, u0, solver, context):
         u2 = u0.copy()
         @wraps(RK4)
         def func():
-            return RK4(u0, u1, u2, rhs, a, b, params.dt, solver, context)
+            dt = params.dt
+            RK4(u0, u1, u2, rhs, a, b, context.float(dt), solver, context)
+            return u0, dt, dt
         return func
 
     elif params.integrator in ("BS5_adaptive", "BS5_fixed"):
@@ -233,7 +235,9 @@ def getintegrator(rhs, u0, solver, context):
     elif params.integrator == "ForwardEuler":
         @wraps(ForwardEuler)
         def func():
-            return ForwardEuler(u0, rhs, params.dt, solver, context)
+            dt = params.dt
+            ForwardEuler(u0, rhs, context.float(dt), solver, context)
+            return u0, dt, dt
         return func
 
     elif params.integrator == "AB2":
@@ -241,5 +245,7 @@ def getintegrator(rhs, u0, solver, context):
         steps = count()
         @wraps(AB2)
         def func():
-            return AB2(u0, u1, rhs, params.dt, next(steps), solver, context)
+            dt = params.dt
+            AB2(u0, u1, rhs, context.float(dt), next(steps), solver, context)
+            return u0, dt, dt
         return func
-- 
2.43.0


From 8ba63bfbcbcc2d58f6e2be633f26ca274faa225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:30 +0000
Subject: [PATCH 17/38] fix: AB2: rescale the previous right hand side when dt
 changes (e.g., the last step, that ends at T)

---
 spectralDNS/maths/integrators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index e010009..47e6020 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -243,9 +243,14 @@ def getintegrator(rhs, u0, solver, context):
     elif params.integrator == "AB2":
         # Steps taken by this integrator, see BS5
         steps = count()
+        dt_prev = [params.dt]
         @wraps(AB2)
         def func():
             dt = params.dt
+            if dt != dt_prev[0]:
+                # u1 is the previous right hand side times the previous dt
+                u1[:] *= context.float(dt/dt_prev[0])
+                dt_prev[0] = dt
             AB2(u0, u1, rhs, context.float(dt), next(steps), solver, context)
             return u0, dt, dt
         return func
-- 
2.43.0


From 25651e79315eb39e2aa4374180ce6694964cac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:46 +0000
Subject: [PATCH 18/38] fix: KMM, KMMr: compute_derivatives called a missing
 LUsolve routine (and KMM's axes in KMMr)

---
 spectralDNS/solvers/KMM.py  |  2 +-
 spectralDNS/solvers/KMMr.py | 26 +++++++++++++-------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index e378c13..9ec1a9f 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -271,7 +271,7 @@ def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
     F_tmp[0] = la.TDMASolverD(F_tmp[0])
     duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2], 0)
     duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
     duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
     duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index 4871ded..357bb8d 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -265,20 +265,20 @@ def compute_curl(c, u_hat, g, K, FCTp, FSTp, FSBp, work):
 def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     duidxj = np.zeros((3, 3)+U.shape[1:])
     F_tmp = work[(U_hat, 0, True)]
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
-    duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
-    duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
-    duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
-    duidxj[0, 2] = dudz = FSB.backward(1j*K[2]*U_hat[0], duidxj[0, 2])
+    # dwdz = 0 from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    LUsolve.Mult_CTD_3D_ptr(params.N[2], U_hat[0], U_hat[1], F_tmp[0], F_tmp[1], 2)
+    duidxj[0, 2] = dudz = FCT.backward(F_tmp[0], duidxj[0, 2])  # proj to Cheb
+    duidxj[1, 2] = dvdz = FCT.backward(F_tmp[1], duidxj[1, 2])  # proj to Cheb
+    F_tmp[2] = mat.CDB.matvec(U_hat[2], F_tmp[2], axis=2)
+    F_tmp[2] = la.TDMASolverD(F_tmp[2], axis=2)
+    duidxj[2, 2] = dwdz = FST.backward(F_tmp[2], duidxj[2, 2])
+    duidxj[0, 0] = dudx = FST.backward(1j*K[0]*U_hat[0], duidxj[0, 0])
+    duidxj[0, 1] = dudy = FST.backward(1j*K[1]*U_hat[0], duidxj[0, 1])
+    duidxj[1, 0] = dvdx = FST.backward(1j*K[0]*U_hat[1], duidxj[1, 0])
     duidxj[1, 1] = dvdy = FST.backward(1j*K[1]*U_hat[1], duidxj[1, 1])
-    duidxj[1, 2] = dvdz = FST.backward(1j*K[2]*U_hat[1], duidxj[1, 2])
-    duidxj[2, 1] = dwdy = FST.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
-    duidxj[2, 2] = dwdz = FST.backward(1j*K[2]*U_hat[2], duidxj[2, 2])
+    duidxj[2, 0] = dwdx = FSB.backward(1j*K[0]*U_hat[2], duidxj[2, 0])  # ShenB
+    duidxj[2, 1] = dwdy = FSB.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
     return duidxj
 
 def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
-- 
2.43.0


From 417d05b4ac46ac652da54c24621eee1ce09ae094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:09 +0000
Subject: [PATCH 19/38] fix: VV.get_divergence: use the velocity (it left the
 curl of the curl in U_hat)

---
 spectralDNS/solvers/VV.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/VV.py b/spectralDNS/solvers/VV.py
index d34de79..69dbefc 100644
--- a/spectralDNS/solvers/VV.py
+++ b/spectralDNS/solvers/VV.py
@@ -71,9 +71,9 @@ def get_velocity(W_hat, U, work, VT, K_over_K2, **context):
     U = compute_velocity(U, W_hat, work, VT, K_over_K2)
     return U
 
-def get_divergence(T, K, U_hat, W_hat, **context):
+def get_divergence(T, K, K_over_K2, U_hat, W_hat, **context):
     div_u = Array(T)
-    U_hat = cross2(U_hat, K, W_hat)
+    U_hat = cross2(U_hat, K_over_K2, W_hat)
     div_u = T.backward(1j*(K[0]*U_hat[0]+K[1]*U_hat[1]+K[2]*U_hat[2]), div_u)
     return div_u
 
-- 
2.43.0


From cb3fc2ad4c7d8fa35e3044154057ad6117550e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:09 +0000
Subject: [PATCH 20/38] fix: config.Params: a missing attribute is an
 AttributeError (hasattr, getattr with a default and copy failed)

---
 spectralDNS/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index 371c372..fd26b69 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -118,7 +118,7 @@ class Params(AttributeDict):
             return 2**mval
 
         else:
-            raise KeyError
+            raise AttributeError(key)
 
     def __getattribute__(self, key):
         if key == 'dt':
-- 
2.43.0


From 1c73b0dbfedff14f6774788bc5a6a1719f0a46d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:35 +0000
Subject: [PATCH 21/38] fix: cpp/spectralDNS.cpp: first Runge-Kutta stage used
 the velocity of the last stage of the previous step

---
 cpp/spectralDNS.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cpp/spectralDNS.cpp b/cpp/spectralDNS.cpp
index be72c6c..79ba723 100644
--- a/cpp/spectralDNS.cpp
+++ b/cpp/spectralDNS.cpp
@@ -268,6 +268,17 @@ int main( int argc, char *argv[] )
             W_hat[z] = W_hat1[z];
         }
 
+    // Velocity at the end of the step, used by the first stage of the next
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(U_hat.data()), U.data());
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(V_hat.data()), V.data());
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(W_hat.data()), W.data());
+    for (int k=0; k<U.size(); k++)
+    {
+      U[k] /= tot;
+      V[k] /= tot;
+      W[k] /= tot;
+    }
+
     if (tstep % 2 == 0)
     {
         s_in[0] = 0.0;
-- 
2.43.0


From 0547dfceda9c94d5b30395799bb4287cc80fb4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:29 +0000
Subject: [PATCH 22/38] fix: BS5_adaptive: reject a step that overflows (est is
 nan, and was accepted)

---
 spectralDNS/maths/integrators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 47e6020..4f60777 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -128,7 +128,8 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
             factor = min(facmax, max(facmin, fac*pow((1/est), exponent)*dt/last_dt*pow(last_est/est, exponent)))
         if adaptive:
             dt = dt*factor
-            if  est > 1.0:
+            # A step that overflows has est nan, and must be rejected as well
+            if not est <= 1.0:
                 facmax = 1
                 context.is_step_rejected_callback = True
                 context.dt_rejected = dt_prev
-- 
2.43.0


From 020436c872665e004ef8841ca31a89af01d74e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:25 +0000
Subject: [PATCH 23/38] fix: KMM_RB: temperature lifting of the 2/3-rule on the
 mesh of the dealiased space (failed on several processes)

---
 spectralDNS/solvers/KMM_RB.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 7a14b47..eb0bf7e 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -31,7 +31,7 @@ def get_context():
     c.N_hat0 = Function(FRB)
 
     # Lifting of the boundary values bc=(1, 0) of RB
-    c.phi_lift = 0.5*(1-c.X[0]) if config.params.dealias == '2/3-rule' else None
+    c.phi_lift = 0.5*(1-FRBp.local_mesh(True)[0]) if config.params.dealias == '2/3-rule' else None
 
     # primary variable
     c.u = (c.U_hat, c.g, c.phi_hat)
-- 
2.43.0


From adddc76e75bdc55002622fc55e47e7fd50690fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:10 +0000
Subject: [PATCH 24/38] fix: doublyperiodic --convection accepted any substring
 of 'Vortex'

---
 spectralDNS/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index fd26b69..d6a3394 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -249,7 +249,7 @@ doublyperiodic.add_argument('--integrator', default='RK4',
 doublyperiodic.add_argument('--L', default=[2*pi, 2*pi], nargs=2, metavar=('Lx', 'Ly'),
                             help='Physical mesh size')
 doublyperiodic.add_argument('--convection', default='Vortex',
-                            choices=('Vortex'),
+                            choices=('Vortex',),
                             help='Choose method for computing the nonlinear convective term')
 doublyperiodic.add_argument('--TOL', type=float, default=1e-6,
                             help='Tolerance for adaptive time integrator')
-- 
2.43.0


From 47a5d5257798ada0b2c5b2d55200001789f12bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:34 +0000
Subject: [PATCH 25/38] fix: config.update: solver parameters eta, Ri, Pr were
 ignored (subparser defaults override)

---
 spectralDNS/config.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index d6a3394..5681104 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -315,3 +315,10 @@ def update(new, mesh="triplyperiodic"):
         fft_plans.update(new['planner_effort'])
         new['planner_effort'] = fft_plans
     globals()[mesh].set_defaults(**new)
+    # Arguments of the solvers themselves (eta, Ri, Pr, ...) belong to the subparsers
+    subparsers = {'triplyperiodic': trippelsubparsers,
+                  'doublyperiodic': doublesubparsers,
+                  'channel': channelsubparsers}[mesh]
+    for subparser in subparsers.choices.values():
+        subparser.set_defaults(**{key: val for key, val in new.items()
+                                  if subparser.get_default(key) is not None})
-- 
2.43.0


From 622c4471f211f7282029f41ac54be5e2ee4ba0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:46 +0000
Subject: [PATCH 26/38] fix: config: parameters set for one mesh type changed
 the defaults of the others

---
 spectralDNS/config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index 5681104..5c1ddaf 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -46,6 +46,7 @@ __copyright__ = "Copyright (C) 2015-2018 " + __author__
 __license__ = "GNU Lesser GPL version 3 or any later version"
 
 import argparse
+from copy import deepcopy
 from collections.abc import MutableMapping
 from collections import defaultdict
 import json
@@ -211,8 +212,10 @@ parser.add_argument('--mask_nyquist', dest='mask_nyquist', action='store_true',
 parser.add_argument('--no-mask_nyquist', dest='mask_nyquist', action='store_false', help='Do not eliminate Nyquist frequency')
 parser.set_defaults(mask_nyquist=True)
 
+# Each mesh type gets its own copy of the common arguments, because the
+# defaults are set per mesh type by update
 # Arguments for 3D isotropic solvers
-triplyperiodic = argparse.ArgumentParser(parents=[parser])
+triplyperiodic = argparse.ArgumentParser(parents=[deepcopy(parser)])
 
 triplyperiodic.add_argument('--convection', default='Vortex',
                             choices=('Standard', 'Divergence', 'Skewed', 'Vortex'),
@@ -242,7 +245,7 @@ parser_Bq.add_argument('--Ri', default=0.1, type=float, help='Richardson number'
 parser_Bq.add_argument('--Pr', default=1.0, type=float, help='Prandtl number')
 
 # Arguments for 2D periodic solvers
-doublyperiodic = argparse.ArgumentParser(parents=[parser])
+doublyperiodic = argparse.ArgumentParser(parents=[deepcopy(parser)])
 doublyperiodic.add_argument('--integrator', default='RK4',
                             choices=('RK4', 'ForwardEuler', 'AB2', 'BS5_fixed', 'BS5_adaptive'),
                             help='Integrator for doubly periodic domain')
@@ -264,7 +267,7 @@ parser_Bq2D.add_argument('--Ri', default=0.1, type=float, help='Richardson numbe
 parser_Bq2D.add_argument('--Pr', default=1.0, type=float, help='Prandtl number')
 
 # Arguments for channel solvers with one inhomogeneous direction
-channel = argparse.ArgumentParser(parents=[parser])
+channel = argparse.ArgumentParser(parents=[deepcopy(parser)])
 channel.add_argument('--convection', default='Vortex',
                      choices=('Standard', 'Divergence', 'Skew', 'Vortex'),
                      help='Choose method for computing the nonlinear convective term')
-- 
2.43.0


From e8f6ecb842bb64ac7529868ce084477e5a35868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:58 +0000
Subject: [PATCH 27/38] fix: get_solver: mesh size N of another mesh type was
 used when none is set for this one

---
 spectralDNS/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spectralDNS/__init__.py b/spectralDNS/__init__.py
index 210ded7..3caf1c6 100644
--- a/spectralDNS/__init__.py
+++ b/spectralDNS/__init__.py
@@ -43,6 +43,10 @@ def get_solver(update=None,
     """
     assert parse_args is None or isinstance(parse_args, list)
     args = getattr(getattr(config, mesh), 'parse_args')(parse_args)
+    if config.params.get('mesh', mesh) != mesh:
+        # The mesh size N of another type of mesh
+        config.params.pop('N', None)
+    config.params.mesh = mesh
     config.params.update(vars(args))
 
     try:
-- 
2.43.0


From d1f4f5f9225cc295bc142c50cdff4cbd3b71c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 28/38] fix: KMM.get_pressure overwrote the convection kept for
 the next Adams-Bashforth step

---
 spectralDNS/solvers/KMM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index 9ec1a9f..69c240d 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -187,8 +187,9 @@ def get_pressure(context, solver):
     U0 = U_hat0.backward(context.U0)
     dt = solver.params.dt
 
+    # Not in context.H_hat, which the next step uses as the previous convection
     Hx = Function(FST)
-    Hx[:] = solver.get_convection(**context)[0]
+    Hx[:] = solver.get_convection(**dict(context, H_hat=Function(context.VFST)))[0]
 
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
-- 
2.43.0


From bfb1869319261fcba7c080e420d942c1d1137ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:00 +0000
Subject: [PATCH 29/38] fix: dx: the highest Chebyshev mode was counted twice
 for Gauss-Lobatto points and odd sizes

---
 spectralDNS/utilities/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spectralDNS/utilities/__init__.py b/spectralDNS/utilities/__init__.py
index 0c9d7d0..84d0804 100644
--- a/spectralDNS/utilities/__init__.py
+++ b/spectralDNS/utilities/__init__.py
@@ -98,6 +98,7 @@ def dx(u, FST, axis=0):
                 dct = dctn(aligned_like(c), axes=(0,), type=1)
                 ak = dct(c, ak)
                 ak /= (M-1)
+                ak[-1] /= 2
                 w = np.arange(0, M, 1, dtype=float)
                 w[2:] = 2./(1-w[2:]**2)
                 w[0] = 1
-- 
2.43.0


From 371a45396a3ab6a0c6405a21a79376270ba2151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 30/38] fix: Isotropic: the vorticity solver started from zero
 velocity and ended with nan

---
 demo/Isotropic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index ec2ecb8..4224330 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -53,6 +53,10 @@ def initialize(solver, context):
     c.mask = c.T.get_mask_nyquist()
     c.T.mask_nyquist(c.U_hat, c.mask)
 
+    if 'VV' in config.params.solver:
+        # Here the velocity is found from the vorticity
+        c.W_hat = solver.cross2(c.W_hat, c.K, c.U_hat)
+
     solver.get_velocity(**c)
     U_hat = solver.set_velocity(**c)
 
-- 
2.43.0


From d711219a3e3881cec134cce72831f302003ac318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 31/38] fix: Isotropic: the file for spectra was opened for
 reading only

---
 demo/Isotropic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index 4224330..db46c35 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -217,7 +217,7 @@ def update(context):
 
     if params.tstep % params.compute_spectrum == 0:
         Ek, _, _, _, _ = spectrum(solver, context)
-        f = h5py.File(context.spectrumname, driver='mpio', comm=solver.comm)
+        f = h5py.File(context.spectrumname, mode='a', driver='mpio', comm=solver.comm)
         f['Turbulence/Ek'].create_dataset(str(params.tstep), data=Ek)
         f.close()
 
-- 
2.43.0


From f9d42543cdc4d6051f70f5595300538b6b37c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 32/38] fix: OrrSommerfeldr: the spatial refinement did not
 refine the wall normal direction

---
 demo/OrrSommerfeldr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demo/OrrSommerfeldr.py b/demo/OrrSommerfeldr.py
index df2685f..2789e83 100644
--- a/demo/OrrSommerfeldr.py
+++ b/demo/OrrSommerfeldr.py
@@ -174,7 +174,7 @@ def eps_refinement_test(context):
 def spatial_refinement_test(context):
     _, e2, _ = compute_error(context)
     if config.solver.rank == 0:
-        print(r" %2d & %2.8e & %2.8e \\\ " %(2**config.params.M[0], sqrt(e2)/config.params.eps, acc[0]))
+        print(r" %2d & %2.8e & %2.8e \\\ " %(2**config.params.M[2], sqrt(e2)/config.params.eps, acc[0]))
 
 if __name__ == "__main__":
     config.update(
@@ -220,7 +220,7 @@ if __name__ == "__main__":
         solver.regression_test = spatial_refinement_test
         config.params.verbose = False
         for M in [4, 5, 6, 7, 8]:
-            config.params.M = [M, 3, 1]
+            config.params.M = [3, 2, M]
             context = solver.get_context()
             initialize(solver, context)
             set_Source(**context)
-- 
2.43.0


From 9623203a42b5117e0c5a860ca38e0a2d5d4bde9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 33/38] fix: RayleighBenard: a restart from file put the time
 in the step number

---
 demo/RayleighBenard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/RayleighBenard.py b/demo/RayleighBenard.py
index d8e8587..d4e7fc6 100644
--- a/demo/RayleighBenard.py
+++ b/demo/RayleighBenard.py
@@ -206,7 +206,7 @@ def init_from_file(filename, solver, context):
     if 'tstep' in f.attrs:
         config.params.tstep = f.attrs['tstep']
     if 't' in f.attrs:
-        config.params.tstep = f.attrs['t']
+        config.params.t = f.attrs['t']
     f.close()
 
 if __name__ == "__main__":
-- 
2.43.0


From 774cc3f1c0a907fbb3e1b520a0c9732d0865932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 34/38] fix: Vortices: ended with an exception on more than one
 process

---
 demo/Vortices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demo/Vortices.py b/demo/Vortices.py
index f05a758..42bb523 100644
--- a/demo/Vortices.py
+++ b/demo/Vortices.py
@@ -66,8 +66,9 @@ def regression_test(context):
     global im
     solver = config.solver
     U = solver.get_velocity(**context)
-    im.set_UVC(U[1, :, :, 0], U[2, :, :, 0])
-    plt.pause(1e-6)
+    if solver.rank == 0:
+        im.set_UVC(U[1, :, :, 0], U[2, :, :, 0])
+        plt.pause(1e-6)
 
 if __name__ == "__main__":
     config.update(
-- 
2.43.0


From d921fe7e3bfb4c701c7a9cb3244d56d3bd9d3719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:12 +0000
Subject: [PATCH 35/38] fix: LaminarChannel: on more than one process the
 profile was compared with the exact one at other points

---
 demo/LaminarChannel.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/demo/LaminarChannel.py b/demo/LaminarChannel.py
index 0ec6e39..9c1c036 100644
--- a/demo/LaminarChannel.py
+++ b/demo/LaminarChannel.py
@@ -71,14 +71,16 @@ def update(context):
 
     if params.tstep % params.compute_energy == 0:
         u0 = U[1, :, 0, 0].copy()
-        uall = None
+        uall, x0 = None, None
         if solver.rank == 0:
             uall = np.zeros((solver.num_processes, params.N[0]//solver.num_processes))
+            x0 = np.zeros_like(uall)
         solver.comm.Gather(u0, uall, root=0)
+        solver.comm.Gather(X[0][:, 0, 0].copy(), x0, root=0)
 
         if solver.rank == 0:
             uall = uall.reshape((params.N[0],))
-            x0 = context.X[0][:, 0, 0]
+            x0 = x0.reshape((params.N[0],))
             #x = x0
             #pc = zeros(len(x))
             #pc = ST.fct(uall, pc)  # Cheb transform of result
@@ -94,14 +96,16 @@ def regression_test(context):
     solver = config.solver
     U = solver.get_velocity(**context)
     u0 = U[1, :, 0, 0].copy()
-    uall = None
+    uall, x0 = None, None
     if solver.rank == 0:
         uall = np.zeros((solver.num_processes, params.N[0]//solver.num_processes))
+        x0 = np.zeros_like(uall)
 
     solver.comm.Gather(u0, uall, root=0)
+    solver.comm.Gather(context.X[0][:, 0, 0].copy(), x0, root=0)
     if solver.rank == 0:
         uall = uall.reshape((params.N[0],))
-        x0 = context.X[0][:, 0, 0]
+        x0 = x0.reshape((params.N[0],))
         #x = x0
         #pc = zeros(len(x))
         #pc = ST.fct(uall, pc)  # Cheb transform of result
-- 
2.43.0


From 35e449a30d8e5793150d5858097d6cc5c56d49f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:48 +0000
Subject: [PATCH 36/38] fix: KMM.get_pressure mixed the bases of the velocity
 and lacked the constants

The wall-normal velocity has the biharmonic basis, but its coefficients were
used with the Dirichlet basis. The wall-normal momentum equation alone leaves
one constant for each wavenumber; take it from the other two equations.
---
 spectralDNS/solvers/KMM.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index 69c240d..e91d1b4 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -175,27 +175,38 @@ def get_convection(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_
     H_hat = conv_(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_dealias)
     return H_hat
 
-def get_pressure(context, solver):
+def get_pressure(context, solver, force=None):
     FCT = context.FCT
-    FST = context.FST
 
     U_hat = context.U_hat
     U_hat0 = context.U_hat0
-    Um = Function(FST)
-    Um[:] = 0.5*(U_hat[0] + U_hat0[0])
     U = U_hat.backward(context.U)
     U0 = U_hat0.backward(context.U0)
     dt = solver.params.dt
 
     # Not in context.H_hat, which the next step uses as the previous convection
-    Hx = Function(FST)
-    Hx[:] = solver.get_convection(**dict(context, H_hat=Function(context.VFST)))[0]
+    H_hat = solver.get_convection(**dict(context, H_hat=Function(context.VFST)))
 
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
-    rhs_hat = inner(context.nu*div(grad(Um)), v)
-    Hx -= 1./dt*(U_hat[0]-U_hat0[0])
-    rhs_hat += inner(Hx, v)
+
+    def momentum(i):
+        # Note that the basis of the velocity and of the convection may differ
+        space = context.VFS[i]
+        Um = Function(space)
+        Um[:] = 0.5*(U_hat[i] + U_hat0[i])
+        dU = Function(space)
+        dU[:] = 1./dt*(U_hat[i] - U_hat0[i])
+        H = Function(context.FST)
+        H[:] = H_hat[i]
+        m = inner(context.nu*div(grad(Um)), v)
+        m += inner(H, v)
+        m -= inner(dU, v)
+        return m
+
+    rhs_hat = momentum(0)
+    if force is not None: # in wall-normal direction
+        rhs_hat += inner(force, v)
 
     CT = inner(Dx(p, 0, 1), v)
 
@@ -208,6 +219,12 @@ def get_pressure(context, solver):
     p_hat = Function(FCT)
     p_hat = CT.solve(rhs_hat, p_hat)
 
+    # The momentum equations along the walls determine the constant for all
+    # but wavenumber 0
+    const = -1j*(context.K_over_K2[0]*momentum(1) + context.K_over_K2[1]*momentum(2))
+    const = inner(p, v).solve(const)
+    p_hat[0] = np.where(context.K2[0] == 0, p_hat[0], const[0])
+
     p = Array(FCT)
     p = FCT.backward(p_hat, p)
 
-- 
2.43.0


From f77f42561b829f6bf423b9590c97955d8aa2f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:48 +0000
Subject: [PATCH 37/38] fix: KMM_RB.get_pressure left buoyancy out of the
 momentum equation

---
 spectralDNS/solvers/KMM_RB.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index eb0bf7e..b54812a 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -11,6 +11,7 @@ from .spectralinit import end_of_tstep
 KMM_context = get_context
 KMM_ComputeRHS = ComputeRHS
 KMM_solve_linear = solve_linear
+KMM_get_pressure = get_pressure
 
 def get_context():
     c = KMM_context()
@@ -71,6 +72,12 @@ def end_of_tstep(context):
     context.N_hat0[:] = context.N_hat
     return False
 
+def get_pressure(context, solver):
+    # Add buoyancy to the momentum equation in wall-normal direction
+    phi = Function(context.FRB)
+    phi[:] = 0.5*(context.phi_hat + context.phi_hat0)
+    return KMM_get_pressure(context, solver, phi)
+
 def ComputeRHS(rhs, u_hat, g_hat, p_hat, solver, context):
     rhs = KMM_ComputeRHS(rhs, u_hat, g_hat, solver, **context)
     c = context
-- 
2.43.0


From 7ec74faa02d2deb14acdd3775b0a5dd5fd237429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:49 +0000
Subject: [PATCH 38/38] fix: KMMr.get_pressure failed and used the wrong
 component

---
 spectralDNS/solvers/KMMr.py | 60 +++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index 357bb8d..7c5a9f3 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -179,45 +179,61 @@ def get_convection(H_hat, U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u
 
 def get_pressure(context, solver):
     FCT = context.FCT
-    FST = context.FST
 
-    U = solver.get_velocity(**context)
-    U0 = context.VFS.backward(context.U_hat0, context.U0)
+    U_hat = context.U_hat
+    U_hat0 = context.U_hat0
+    U = U_hat.backward(context.U)
+    U0 = U_hat0.backward(context.U0)
     dt = solver.params.dt
 
-    H_hat = solver.get_convection(**context)
-    Hx = Array(FST)
-    Hx = FST.backward(H_hat[0], Hx)
+    # Not in context.H_hat, which the next step uses as the previous convection
+    H_hat = solver.get_convection(**dict(context, H_hat=Function(context.VFST)))
 
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
-    U = U.as_function()
-    U0 = U0.as_function()
 
-    rhs_hat = inner((0.5*context.nu)*div(grad(U[0]+U0[0])), v)
-    Hx -= 1./dt*(U[0]-U0[0])
-    rhs_hat += inner(Hx, v)
+    def momentum(i):
+        # Note that the basis of the velocity and of the convection may differ
+        space = context.VFS[i]
+        Um = Function(space)
+        Um[:] = 0.5*(U_hat[i] + U_hat0[i])
+        dU = Function(space)
+        dU[:] = 1./dt*(U_hat[i] - U_hat0[i])
+        H = Function(context.FST)
+        H[:] = H_hat[i]
+        m = inner(context.nu*div(grad(Um)), v)
+        m += inner(H, v)
+        m -= inner(dU, v)
+        return m
 
-    CT = inner(Dx(p, 0), v)
+    rhs_hat = momentum(2)
+
+    CT = inner(Dx(p, 2, 1), v)
 
     # Should implement fast solver. Just a backwards substitution
-    A = CT.diags().toarray()*CT.scale[0]
-    A[-1, 0] = 1
-    a_i = np.linalg.inv(A)
+    # Apply integral constraint
+    A = CT.mats[2]
+    N = A.shape[0]
+    A[-(N-1)] = 1
 
-    p_hat = Function(context.FCT)
+    p_hat = Function(FCT)
+    p_hat = CT.solve(rhs_hat, p_hat)
 
-    for j in range(p_hat.shape[1]):
-        for k in range(p_hat.shape[2]):
-            p_hat[:, j, k] = np.dot(a_i, rhs_hat[:, j, k])
+    # The momentum equations along the walls determine the constant for all
+    # but wavenumber 0
+    const = -1j*(context.K_over_K2[0]*momentum(0) + context.K_over_K2[1]*momentum(1))
+    const = inner(p, v).solve(const)
+    p_hat[:, :, 0] = np.where(context.K2[:, :, 0] == 0, p_hat[:, :, 0], const[:, :, 0])
 
     p = Array(FCT)
     p = FCT.backward(p_hat, p)
 
-    uu = np.sum((0.5*(U+U0))**2, 0)
-    uu *= 0.5
+    uu = 0.
+    if params.convection == 'Vortex':
+        uu = np.sum((0.5*(U+U0))**2, 0)
+        uu *= 0.5
 
-    return p-uu+3./16.
+    return p-uu
 
 def get_divergence(U, U_hat, FST, K, Kx, work, la, mat, **context):
     Uc_hat = work[(U_hat[0], 0, True)]
-- 
2.43.0

