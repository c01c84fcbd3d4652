From 8a1319194dfaf23e52ca5c62be8f24ffcd16462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:16 +0000
Subject: [PATCH 01/42] fix: define D_RUS only once in fluxes.cpp so that the
 flux code builds

---
 code/cpp/src/solvers/fv/fluxes.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index 3811872..abfef71 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -73,14 +73,3 @@ VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
   flux(f, qR, d, MP);
   return f;
 }
-
-VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
-
-  double max1 = max_abs_eigs(qL, d, MP);
-  double max2 = max_abs_eigs(qR, d, MP);
-
-  VecV f = std::max(max1, max2) * (qL - qR);
-  flux(f, qL, d, MP);
-  flux(f, qR, d, MP);
-  return f;
-}
-- 
2.43.0


From 0deb48f6fbe468e74e9d92abcd4ba5ad72b766b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:59 +0000
Subject: [PATCH 02/42] fix: take the direction into account in the
 thermo-acoustic tensor

The entries of Xi1 and Xi2 that couple the density to the velocity stood
in the row and column of the x direction whatever the direction d was, so
that the wave speeds in the y and z directions were wrong.
---
 code/cpp/src/system/eig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index 07288dc..ce3d9a0 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -8,7 +8,7 @@
 Mat Xi1(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ1 = Mat::Zero(4, 5);
-  Ξ1(0, 1) = 1 / ρ;
+  Ξ1(d, 1) = 1 / ρ;
 
   if (VISCOUS) {
     Vec3 dσdρ = dsigmadρ(Q, MP, d);
@@ -32,7 +32,7 @@ Mat Xi2(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ2 = Mat::Zero(5, 4);
   double c0 = c_0(Q, MP);
-  Ξ2(0, 0) = ρ;
+  Ξ2(0, d) = ρ;
   Ξ2(1, d) = ρ * c0 * c0;
 
   if (VISCOUS) {
-- 
2.43.0


From 47e43514db59191f45d0b7ca3c0cf5580fe4ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:53 +0000
Subject: [PATCH 03/42] fix: add the concentration flux instead of overwriting
 with it

flux() adds to ret, and the numerical fluxes rely on it: with MULTI they lost
the left flux and the dissipation of the concentration.
---
 code/cpp/src/system/equations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/equations.cpp b/code/cpp/src/system/equations.cpp
index 68603a6..9819435 100644
--- a/code/cpp/src/system/equations.cpp
+++ b/code/cpp/src/system/equations.cpp
@@ -43,7 +43,7 @@ void flux(VecVr ret, VecVr Q, int d, Par &MP) {
     ret(14 + d) += T;
   }
   if (MULTI) {
-    ret(mV) = Q(mV) * vd;
+    ret(mV) += Q(mV) * vd;
   }
 }
 
-- 
2.43.0


From 6f7ef69658c476bc990dcd6149cb40bfc70cba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:53 +0000
Subject: [PATCH 04/42] fix: include the reference temperature in the density
 derivative of T
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The Jacobians, wave speeds and Riemann constraints of heat-conducting solids
used a derivative that lacked Tref * dφ/dρ.
---
 code/cpp/src/system/energy/mg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/cpp/src/system/energy/mg.cpp b/code/cpp/src/system/energy/mg.cpp
index d045dce..62c3ba0 100644
--- a/code/cpp/src/system/energy/mg.cpp
+++ b/code/cpp/src/system/energy/mg.cpp
@@ -283,14 +283,14 @@ double dTdρ(double ρ, double p, Params &MP) {
 
   // TODO: update for multi (required for THERMAL mixtures)
 
-  // TODO: add Tref * dφ
-
   double cv = MP.cv;
   double Γ = Γ_MG(ρ, MP);
   double dΓ = dΓ_MG(ρ, MP);
   double pr = p_ref(ρ, MP);
   double dpr = dp_ref(ρ, MP);
-  return -(dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
+  double dφ = Γ / ρ * φ(ρ, MP);
+  return dφ * MP.Tref -
+         (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
 }
 
 double dTdp(double ρ, Params &MP) {
-- 
2.43.0


From 2efeaed3a388cd043f4d781cc373a45d7d0b1a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:59 +0000
Subject: [PATCH 05/42] fix: do not relax the distortion of elastic solids in
 the split solver

---
 code/cpp/src/system/relaxation/analytic.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 5268942..5d7daf0 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -19,6 +19,9 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
 
   // TODO: implement mixing of μ
 
+  if (MP.SOLID && !MP.POWER_LAW) // elastic solids do not relax
+    return 0.;
+
   if (MP.POWER_LAW) {
     double n = MP.n;
     double cs2 = c_s2(ρ, MP);
-- 
2.43.0


From c43a041d68224f93f09e3b15435c438dd263a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:59 +0000
Subject: [PATCH 06/42] fix: initialise the oscillation indicator before
 summing into it

---
 code/cpp/src/solvers/weno/weno_matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/weno/weno_matrices.cpp b/code/cpp/src/solvers/weno/weno_matrices.cpp
index 44e0ca7..6bbcccb 100644
--- a/code/cpp/src/solvers/weno/weno_matrices.cpp
+++ b/code/cpp/src/solvers/weno/weno_matrices.cpp
@@ -30,7 +30,7 @@ std::vector<MatN_N> coefficient_matrices(const std::vector<poly> &basis) {
 
 MatN_N oscillation_indicator(const std::vector<poly> &basis) {
   // Generate the oscillation indicator matrix from a set of basis polynomials
-  MatN_N ret;
+  MatN_N ret = MatN_N::Zero();
   for (int i = 0; i < N; i++)
     for (int j = 0; j < N; j++)
       for (int a = 1; a < N; a++) {
-- 
2.43.0


From 03f610ce0ae9d380a5b8d5d28a5dc73bc2282987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:59 +0000
Subject: [PATCH 07/42] fix: keep level sets that have no interface instead of
 zeroing them

---
 code/cpp/src/multi/pfmm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/multi/pfmm.cpp b/code/cpp/src/multi/pfmm.cpp
index 233519c..88dc447 100644
--- a/code/cpp/src/multi/pfmm.cpp
+++ b/code/cpp/src/multi/pfmm.cpp
@@ -20,6 +20,8 @@ Vec distance(Vecr phi, aVecr dX, iVecr nX) {
   marcher = new distanceMarcher(phi.data(), dX.data(), FLAG.data(), dist.data(),
                                 ndim, nX.data(), TEST, ORDER, NARROW, PERIODIC);
   marcher->march();
+  if (marcher->getError() != 0) // there is no interface to measure from
+    dist = phi;
   delete marcher;
 
   return dist;
-- 
2.43.0


From 742e440a4f8685cb882cadcb0ee2e7cd8f52182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:31 +0000
Subject: [PATCH 08/42] fix: start the Newton fallback of the 2D predictor from
 a 2D initial guess

---
 code/cpp/src/solvers/dg/initial_guess.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/dg/initial_guess.cpp b/code/cpp/src/solvers/dg/initial_guess.cpp
index f5e39f8..6b9eb91 100644
--- a/code/cpp/src/solvers/dg/initial_guess.cpp
+++ b/code/cpp/src/solvers/dg/initial_guess.cpp
@@ -15,7 +15,10 @@ void standard_initial_guess2(Matr q, Matr w) {
 void stiff_initial_guess(Matr q, Matr w, int NT, double dt, Par &MP) {
   // Returns the initial guess found in DOI: 10.1007/s10915-010-9426-6
 
-  standard_initial_guess1(q, w);
+  if (NT == N)
+    standard_initial_guess1(q, w);
+  else
+    standard_initial_guess2(q, w);
   /*
 Mat qt = w;
 
-- 
2.43.0


From a7fa80ad98233d0d330fb2fffdb763c423cfaf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:31 +0000
Subject: [PATCH 09/42] fix: fall back to Newton when the predictor's
 fixed-point iteration does not converge

---
 code/cpp/src/solvers/dg/dg1.cpp | 7 +++++--
 code/cpp/src/solvers/dg/dg2.cpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/solvers/dg/dg1.cpp b/code/cpp/src/solvers/dg/dg1.cpp
index 9732355..2c41cac 100644
--- a/code/cpp/src/solvers/dg/dg1.cpp
+++ b/code/cpp/src/solvers/dg/dg1.cpp
@@ -94,10 +94,13 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
 
           absDiff = (q1 - q0).array().abs();
 
-          if ((absDiff > DG_TOL * (1 + q0.array().abs())).any()) {
+          bool notConverged =
+              (absDiff > DG_TOL * (1 + q0.array().abs())).any();
+
+          if (notConverged && count < DG_IT - 1) {
             q0 = q1;
             continue;
-          } else if (q1.array().isNaN().any()) {
+          } else if (notConverged || q1.array().isNaN().any()) {
             stiff_initial_guess(q0, wi, N, dt, MP);
             VecMap q0v(q0.data(), N * N * V);
             qh.segment<N * N * V>(ind * N * N * V) =
diff --git a/code/cpp/src/solvers/dg/dg2.cpp b/code/cpp/src/solvers/dg/dg2.cpp
index 08234ac..64e9964 100644
--- a/code/cpp/src/solvers/dg/dg2.cpp
+++ b/code/cpp/src/solvers/dg/dg2.cpp
@@ -146,12 +146,15 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
 
           absDiff = (q1 - q0).array().abs();
 
-          if ((absDiff > DG_TOL * (1 + q0.array().abs())).any())
+          bool notConverged =
+              (absDiff > DG_TOL * (1 + q0.array().abs())).any();
+
+          if (notConverged && count < DG_IT - 1)
           {
             q0 = q1;
             continue;
           }
-          else if (q1.array().isNaN().any())
+          else if (notConverged || q1.array().isNaN().any())
           {
             stiff_initial_guess(q0, wi, N * N, dt, MP);
             VecMap q0v(q0.data(), N * N * N * V);
-- 
2.43.0


From 94cda2c93156e9e919ddedf2522874bde518fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:37 +0000
Subject: [PATCH 10/42] fix: use one-sided stencils only at the edge of the
 domain, not of each thread's slab

---
 code/cpp/src/solvers/steppers.cpp  | 34 ++++++++++++++++-------
 code/cpp/src/solvers/weno/weno.cpp | 43 +++++++++++++++++++-----------
 code/cpp/src/solvers/weno/weno.h   |  4 +++
 3 files changed, 55 insertions(+), 26 deletions(-)

diff --git a/code/cpp/src/solvers/steppers.cpp b/code/cpp/src/solvers/steppers.cpp
index e095a87..e9df40e 100644
--- a/code/cpp/src/solvers/steppers.cpp
+++ b/code/cpp/src/solvers/steppers.cpp
@@ -7,20 +7,26 @@
 #include "split/ode.h"
 #include "weno/weno.h"
 
-void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
-                  int FLUX, Par &MP, bVecr mask) {
+void ader_stepper_slab(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
+                       bool STIFF, int FLUX, Par &MP, bVecr mask, int before,
+                       int after) {
 
   int ndim = nX.size();
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
   Vec qh(extended_dimensions(nX, 1) * int(pow(N, ndim + 1)) * V);
 
-  weno_launcher(wh, ub, nX, MP);
+  weno_launcher_slab(wh, ub, nX, MP, before, after);
 
   predictor(qh, wh, dt, dX, STIFF, false, MP, mask);
 
   fv_launcher(u, qh, nX, dt, dX, true, true, FLUX, MP, mask);
 }
 
+void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
+                  int FLUX, Par &MP, bVecr mask) {
+  ader_stepper_slab(u, ub, nX, dt, dX, STIFF, FLUX, MP, mask, 0, 0);
+}
+
 void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                        bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -39,23 +45,25 @@ void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     iVec nX0 = nX;
     nX0(0) = finish - start;
 
-    ader_stepper(
+    ader_stepper_slab(
         u.segment(start * uRowSize, (finish - start) * uRowSize),
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize),
         nX0, dt, dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        start, nx - finish);
   }
 }
 
-void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
-                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+void split_stepper_slab(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
+                        bool HALF_STEP, int FLUX, Par &MP, bVecr mask,
+                        int before, int after) {
 
   int ndim = nX.size();
   ode_launcher(u, dt / 2, MP);
   ode_launcher(ub, dt / 2, MP);
 
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
-  weno_launcher(wh, ub, nX, MP);
+  weno_launcher_slab(wh, ub, nX, MP, before, after);
 
   if (HALF_STEP)
     midstepper(wh, dt, dX, MP, mask);
@@ -65,6 +73,11 @@ void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
   ode_launcher(u, dt / 2, MP);
 }
 
+void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
+                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+  split_stepper_slab(u, ub, nX, dt, dX, HALF_STEP, FLUX, MP, mask, 0, 0);
+}
+
 void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                         bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -86,9 +99,10 @@ void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     Vec ub_ =
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize);
 
-    split_stepper(
+    split_stepper_slab(
         u.segment(start * uRowSize, (finish - start) * uRowSize), ub_, nX0, dt,
         dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        start, nx - finish);
   }
 }
diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index b6c2c38..4419523 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -14,7 +14,7 @@ void weight(VecVr ret, MatN_Vr w, double LAM) {
   }
 }
 
-void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
+void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gapL, int gapR, int ind) {
   // Calculate coefficients of basis polynomials and weights
 
   VecV oL, oR, oCL, oCR;
@@ -51,20 +51,20 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
   MatN_V num = MatN_V::Zero();
   VecV den = VecV::Zero();
 
-  if (ind >= gap) {
+  if (ind >= gapL) {
     num.array() += wL.array().rowwise() * oL.transpose().array();
     den += oL;
   }
-  if (ind <= nx - gap - 1) {
+  if (ind <= nx - gapR - 1) {
     num.array() += wR.array().rowwise() * oR.transpose().array();
     den += oR;
   }
   if (N > 2) {
-    if (ind + FN2 >= gap) {
+    if (ind + FN2 >= gapL) {
       num.array() += wCL.array().rowwise() * oCL.transpose().array();
       den += oCL;
     }
-    if ((N % 2 == 0) && (ind - FN2 <= nx - gap - 1)) {
+    if ((N % 2 == 0) && (ind - FN2 <= nx - gapR - 1)) {
       num.array() += wCR.array().rowwise() * oCR.transpose().array();
       den += oCR;
     }
@@ -72,18 +72,23 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
   ret.array() = num.array().rowwise() / den.transpose().array();
 }
 
-void weno1(Matr wh, Matr ub, int nx, int gap) {
+void weno1(Matr wh, Matr ub, int nx, int gapL, int gapR) {
   // Returns the WENO reconstruction of u using polynomials in x
   // Shape of ub: (nx + 2(N-1), V)
   // Shapw of wh: (nx * N, V)
   for (int i = 0; i < nx; i++)
-    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), nx, gap, i);
+    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), nx, gapL,
+           gapR, i);
 }
 
-void weno2(Matr wh, Matr ub, int nx, int ny) {
+void weno2(Matr wh, Matr ub, int nx, int ny, int before, int after) {
   // Returns the WENO reconstruction of u using polynomials in y
   // Size of ub: (nx + 2(N-1)) * (ny + 2(N-1)) * V
   // Size of wh: nx * ny * N * N * V
+  // before, after: number of rows of the domain that precede and follow u
+
+  int gapL = std::max(0, N - before);
+  int gapR = std::max(0, N - after);
 
   Vec ux(nx * (ny + 2 * (N - 1)) * N * V);
 
@@ -97,9 +102,9 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
                  OuterStride((ny + 2 * (N - 1)) * N * V));
 
     if (NO_CORNERS && (j < N || j >= ny + 2 * (N - 1) - N))
-      weno1(tmp0, ubMap, nx, N);
+      weno1(tmp0, ubMap, nx, gapL, gapR);
     else
-      weno1(tmp0, ubMap, nx, 0);
+      weno1(tmp0, ubMap, nx, 0, 0);
     uxMap = tmp0Map;
   }
 
@@ -113,17 +118,19 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
       MatMap whMap(wh.data() + (i * ny * N + ii) * N * V, ny, N * V,
                    OuterStride(N * N * V));
 
-      if (NO_CORNERS && (i == 0 || i == nx - 1))
-        weno1(tmp1, uxMap, ny, 1);
+      if (NO_CORNERS &&
+          ((before == 0 && i == 0) || (after == 0 && i == nx - 1)))
+        weno1(tmp1, uxMap, ny, 1, 1);
       else
-        weno1(tmp1, uxMap, ny, 0);
+        weno1(tmp1, uxMap, ny, 0, 0);
       whMap = tmp1Map;
     }
   // TODO: make this n-dimensional by turning these two sets of for loops into
   // n sets of for loops, contained within a large loop over the dimensions
 }
 
-void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+void weno_launcher_slab(Vecr wh, Vecr ub, iVecr nX, Par &MP, int before,
+                        int after) {
   // NOTE: boundary conditions extend u by two cells in each dimension
 
   int ndim = nX.size();
@@ -143,11 +150,11 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
   switch (ndim) {
 
   case 1:
-    weno1(whMap, ubMap, nX(0) + 2, 0);
+    weno1(whMap, ubMap, nX(0) + 2, 0, 0);
     break;
 
   case 2:
-    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2);
+    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2, before, after);
     break;
   }
 
@@ -155,3 +162,7 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
     for (int i = 0; i < nwh; i++)
       Cvec(wh.segment<V>(i * V), MP);
 }
+
+void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+  weno_launcher_slab(wh, ub, nX, MP, 0, 0);
+}
diff --git a/code/cpp/src/solvers/weno/weno.h b/code/cpp/src/solvers/weno/weno.h
index 56def22..95c8938 100644
--- a/code/cpp/src/solvers/weno/weno.h
+++ b/code/cpp/src/solvers/weno/weno.h
@@ -5,4 +5,8 @@
 
 void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP);
 
+// ub is a slab of a domain, with the given numbers of rows before and after it
+void weno_launcher_slab(Vecr wh, Vecr ub, iVecr nX, Par &MP, int before,
+                        int after);
+
 #endif // WENO_H
-- 
2.43.0


From a5e19aeba8a243a4dd89a905cca18f8fd76d6892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:37 +0000
Subject: [PATCH 11/42] fix: mirror the normal thermal impulse at symmetric
 boundaries

---
 code/cpp/src/etc/grid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/cpp/src/etc/grid.cpp b/code/cpp/src/etc/grid.cpp
index c2a7fc6..09d01da 100644
--- a/code/cpp/src/etc/grid.cpp
+++ b/code/cpp/src/etc/grid.cpp
@@ -57,6 +57,8 @@ void boundaries1(Matr u, Matr ub, int nx, iVecr boundaryTypes, int d) {
     for (int i = 0; i < N; i++) {
       ub.row(i) = u.row(N - 1 - i);
       ub(i, 2 + d) *= -1.;
+      if (THERMAL)
+        ub(i, 14 + d) *= -1.;
       Mat3_3Map A = get_A(ub.row(i));
       A.row(d) *= -1.;
       A.col(d) *= -1.;
@@ -116,6 +118,8 @@ void boundaries1(Matr u, Matr ub, int nx, iVecr boundaryTypes, int d) {
       int ind = i + nx + N;
       ub.row(ind) = u.row(nx - 1 - i);
       ub(ind, 2 + d) *= -1.;
+      if (THERMAL)
+        ub(ind, 14 + d) *= -1.;
       Mat3_3Map A = get_A(ub.row(ind));
       A.row(d) *= -1.;
       A.col(d) *= -1.;
-- 
2.43.0


From f5dfc4aef4371a6b7fc3ffc7c11ea865687a5b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:37 +0000
Subject: [PATCH 12/42] fix: use the right state's relations in the thermal
 slip condition

---
 code/cpp/src/system/multi/conditions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/multi/conditions.cpp b/code/cpp/src/system/multi/conditions.cpp
index 1d3a1b4..6693cc3 100644
--- a/code/cpp/src/system/multi/conditions.cpp
+++ b/code/cpp/src/system/multi/conditions.cpp
@@ -37,7 +37,7 @@ void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
     Mat YL(2, n1);
     Mat YR(2, n1);
     YL << RL.block<1, n1>(11, 0), RL.block<1, n1>(14, 0);
-    YL << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
+    YR << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
 
     Vec yL(2);
     Vec yR(2);
-- 
2.43.0


From d54442fbee51258b0cedca3fbb738b14e6b93563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:37 +0000
Subject: [PATCH 13/42] fix: keep the failed state within the list of snapshots

---
 code/cpp/src/solvers/iterator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index 9bb70f3..69a5746 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -159,6 +159,7 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
     print(dt);
 
     if (u.array().isNaN().any()) {
+      pushCount = std::min(pushCount, 98); // both states must fit in
       ret[pushCount] = uprev;
       ret[pushCount + 1] = u;
       return ret;
-- 
2.43.0


From 4bf99483dff9fed4af307814ab1df06f752a7abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:31 +0000
Subject: [PATCH 14/42] fix: keep the probes of interface cells inside of the
 domain

---
 code/cpp/src/multi/fill.cpp      | 50 ++++++++++++++++++++++----------
 code/cpp/src/multi/functions.cpp | 11 ++++++-
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 540294a..a7d4324 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -93,6 +93,21 @@ int neighbor_index(iVecr intMask, int i, int j, int nx, int ny, int N0) {
   return indn;
 }
 
+iVec containing_cell(aVec x, aVecr dX, iVecr nX) {
+  // The indexes of the cell containing x (or of the closest one, if x lies
+  // outside of the domain)
+  aVec lim = nX.cast<double>().array() - 1.;
+  aVec ret = (x / dX).max(0.).min(lim);
+  return ret.cast<int>();
+}
+
+bool in_material(Vecr grid, iVec inds, iVecr nX, int mat) {
+  // Whether inds is a cell of the (2D) domain, occupied by the given material
+  if ((inds.array() < 0).any() || (inds.array() >= nX.array()).any())
+    return false;
+  return get_material_index(grid.segment<V>(iVec_to_ind(inds, nX(1)))) == mat;
+}
+
 BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   // Calculates indexes of the boundary states at position given by inds
 
@@ -105,9 +120,9 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
 
   BoundaryInds ret;
 
-  iVec xiVec = (xi / dX).cast<int>();
-  iVec xLVec = (xL / dX).cast<int>();
-  iVec xRVec = (xR / dX).cast<int>();
+  iVec xiVec = containing_cell(xi, dX, nX);
+  iVec xLVec = containing_cell(xL, dX, nX);
+  iVec xRVec = containing_cell(xR, dX, nX);
 
   int ndim = nX.size();
   switch (ndim) {
@@ -149,9 +164,12 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
   else if (get_material_index(grid.segment<V>(bInds.L)) == mat)
     QL = grid.segment<V>(bInds.L);
 
-  else { // should only happen if ndim>1
+  else if (nX.size() == 1) {
+    QL = grid.segment<V>(indn * V);
+    n(0) = inds(0) - indn;
+
+  } else {
     iVec Linds = inds;
-    int Lind;
 
     // note: n points from left side to right
     int n0 = sgn(n(0));
@@ -159,35 +177,34 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
 
     if (std::abs(n(0)) > std::abs(n(1))) {
       Linds(0) -= n0;
-      Lind = iVec_to_ind(Linds, nX(1));
-      if (get_material_index(grid.segment<V>(Lind)) == mat) {
+      if (in_material(grid, Linds, nX, mat)) {
         n(0) = n0;
         n(1) = 0.;
       } else {
         Linds(0) += n0;
         Linds(1) -= n1;
-        Lind = iVec_to_ind(Linds, nX(1));
         n(0) = 0.;
         n(1) = n1;
       }
     } else {
       Linds(1) -= n1;
-      Lind = iVec_to_ind(Linds, nX(1));
-      if (get_material_index(grid.segment<V>(Lind)) == mat) {
+      if (in_material(grid, Linds, nX, mat)) {
         n(0) = 0.;
         n(1) = n1;
       } else {
         Linds(0) -= n0;
         Linds(1) += n1;
-        Lind = iVec_to_ind(Linds, nX(1));
         n(0) = n0;
         n(1) = 0.;
       }
     }
-    if (get_material_index(grid.segment<V>(Lind)) == mat)
-      QL = grid.segment<V>(Lind);
-    else
+    if (in_material(grid, Linds, nX, mat))
+      QL = grid.segment<V>(iVec_to_ind(Linds, nX(1)));
+    else {
       QL = grid.segment<V>(indn * V);
+      n(0) = inds(0) - indn / nX(1);
+      n(1) = inds(1) - indn % nX(1);
+    }
   }
 
   VecV QL_ = left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
@@ -211,7 +228,8 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
         n = normal(Δφ.row(ind));
         iVec inds(1);
         inds << ind;
-        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, -1);
+        int indn = (ind > 0 && intMask(ind - 1) == -1) ? ind - 1 : ind + 1;
+        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, indn);
       }
     }
     break;
@@ -244,7 +262,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   aVec n = normal(Δφi);
   aVec x = (inds.cast<double>().array() + 0.5) * dX;
   aVec xn = x - dX * n;
-  iVec newInds = (xn / dX).cast<int>();
+  iVec newInds = containing_cell(xn, dX, nX);
 
   switch (ndim) {
   case 1:
diff --git a/code/cpp/src/multi/functions.cpp b/code/cpp/src/multi/functions.cpp
index ba93b6d..5cbf467 100644
--- a/code/cpp/src/multi/functions.cpp
+++ b/code/cpp/src/multi/functions.cpp
@@ -11,7 +11,16 @@ int sign(double x) {
     return 1;
 }
 
-Vec normal(Vecr Δφ) { return Δφ / Δφ.norm(); }
+Vec normal(Vecr Δφ) {
+  double norm = Δφ.norm();
+  if (norm > 0.)
+    return Δφ / norm;
+
+  // φ has an extremum here (e.g. in the middle of a thin layer)
+  Vec ret = Vec::Zero(Δφ.size());
+  ret(0) = 1.;
+  return ret;
+}
 
 void finite_difference(Matr Δφ, Vecr φ, aVecr dX, iVec nX) {
   // Δφ[i,j,..][d] is the derivative in the dth direction in cell (i,j,...)
-- 
2.43.0


From 3caf799c9d1a430272396a4e28d11f772041d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:27 +0000
Subject: [PATCH 15/42] fix: do not let threads write to shared interface cells

---
 code/cpp/src/multi/fill.cpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index a7d4324..52642d6 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -146,14 +146,13 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   return ret;
 }
 
-void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
-                         int mat, std::vector<Par> &MPs, double dt, Vecr n,
-                         int indn) {
-  // Attempts to fill the boundary cell at location given by inds.
+VecV boundary_state(Vecr grid, BoundaryInds bInds, iVecr inds, iVecr nX,
+                    int mat, std::vector<Par> &MPs, double dt, Vecr n,
+                    int indn) {
+  // Returns the state with which to fill the boundary cell at location given by
+  // inds.
   // TODO: handle case when QL is chosen to be an isolated point
 
-  BoundaryInds bInds = boundary_inds(inds, φi, n, dX, nX);
-
   VecV QL;
   VecV QR = grid.segment<V>(bInds.R);
   int miR = get_material_index(QR);
@@ -207,7 +206,12 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
     }
   }
 
-  VecV QL_ = left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
+  return left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
+}
+
+void fill_boundary_inner(Vecr grid, BoundaryInds bInds, VecV QL_, int mat) {
+  // Fills the boundary cell, and the cell containing the interface
+
   grid.segment<V - LSET>(bInds.ind) = QL_.head<V - LSET>();
 
   if (get_material_index(grid.segment<V>(bInds.interf)) != mat)
@@ -229,12 +233,20 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
         iVec inds(1);
         inds << ind;
         int indn = (ind > 0 && intMask(ind - 1) == -1) ? ind - 1 : ind + 1;
-        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, indn);
+        BoundaryInds bInds = boundary_inds(inds, φ(ind), n, dX, nX);
+        VecV QL_ = boundary_state(grid, bInds, inds, nX, mat, MPs, dt, n, indn);
+        fill_boundary_inner(grid, bInds, QL_, mat);
       }
     }
     break;
   case 2:
     int ny = nX(1);
+
+    // NOTE: the threads only read the grid, which is filled afterwards, as
+    //       several boundary cells may share an interface cell
+    Mat states(nx * ny, V);
+    std::vector<BoundaryInds> bInds(nx * ny);
+
 #pragma omp parallel for collapse(2) private(n)
     for (int i = 0; i < nx; i++)
       for (int j = 0; j < ny; j++) {
@@ -244,10 +256,15 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
           n = normal(Δφ.row(ind));
           iVec inds(2);
           inds << i, j;
-          fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n,
-                              indn);
+          bInds[ind] = boundary_inds(inds, φ(ind), n, dX, nX);
+          states.row(ind) = boundary_state(grid, bInds[ind], inds, nX, mat, MPs,
+                                           dt, n, indn);
         }
       }
+
+    for (int ind = 0; ind < nx * ny; ind++)
+      if (intMask(ind) == 1)
+        fill_boundary_inner(grid, bInds[ind], states.row(ind), mat);
     break;
   }
 }
-- 
2.43.0


From d6ea9e18d1e8175c8ab1dd016db7c87ed046fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:59 +0000
Subject: [PATCH 16/42] fix: do not carry augmentation vectors over between
 unrelated linear solves

---
 code/cpp/bindings/bindings.cpp |  2 +-
 code/cpp/src/scipy/lgmres.cpp  | 13 +++++++++----
 code/cpp/src/scipy/lgmres.h    |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/code/cpp/bindings/bindings.cpp b/code/cpp/bindings/bindings.cpp
index ac06eff..c72a8d5 100644
--- a/code/cpp/bindings/bindings.cpp
+++ b/code/cpp/bindings/bindings.cpp
@@ -189,7 +189,7 @@ PYBIND11_MODULE(GPRpy, m) {
               py::arg("x0") = Vec(0), py::arg("M") = Mat(0, 0),
               py::arg("tol") = 1e-5, py::arg("maxiter") = 1000,
               py::arg("inner_m") = 30, py::arg("outer_k") = 3,
-              py::arg("outer_v") = std::vector<Vec>());
+              py::arg("outer_v") = py::none());
   m_scipy.def("newton_krylov", &nonlin_solve, py::arg("F"), py::arg("x"),
               py::arg("f_tol") = pow(mEPS, 1. / 3), py::arg("f_rtol") = INF,
               py::arg("x_tol") = INF, py::arg("x_rtol") = INF);
diff --git a/code/cpp/src/scipy/lgmres.cpp b/code/cpp/src/scipy/lgmres.cpp
index 2a5d961..bfd2aa3 100644
--- a/code/cpp/src/scipy/lgmres.cpp
+++ b/code/cpp/src/scipy/lgmres.cpp
@@ -105,7 +105,12 @@ Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x,
 
 Vec lgmres_wrapper(Matr A, Vecr b, Vecr x0, Matr M, const double tol,
                    const int maxiter, const int inner_m, const int outer_k,
-                   std::vector<Vec> &outer_v) {
+                   std::vector<Vec> *outer_v) {
+
+  std::vector<Vec> own_outer_v; // used if none are to be carried over
+  if (!outer_v)
+    outer_v = &own_outer_v;
+
   System system;
   system.set_A(A);
 
@@ -119,9 +124,9 @@ Vec lgmres_wrapper(Matr A, Vecr b, Vecr x0, Matr M, const double tol,
   std::function<Vec(Vecr)> psolve = std::bind(&System::prec, system, _1);
 
   if (x0.rows() == 0)
-    return lgmres(matvec, psolve, b, Vec::Zero(b.rows()), outer_v, tol, maxiter,
-                  inner_m, outer_k);
+    return lgmres(matvec, psolve, b, Vec::Zero(b.rows()), *outer_v, tol,
+                  maxiter, inner_m, outer_k);
   else
-    return lgmres(matvec, psolve, b, x0, outer_v, tol, maxiter, inner_m,
+    return lgmres(matvec, psolve, b, x0, *outer_v, tol, maxiter, inner_m,
                   outer_k);
 }
diff --git a/code/cpp/src/scipy/lgmres.h b/code/cpp/src/scipy/lgmres.h
index a45a447..0c41425 100644
--- a/code/cpp/src/scipy/lgmres.h
+++ b/code/cpp/src/scipy/lgmres.h
@@ -21,6 +21,6 @@ Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x,
 
 Vec lgmres_wrapper(Matr A, Vecr b, Vecr x0, Matr M, const double tol,
                    const int maxiter, const int inner_m, const int outer_k,
-                   std::vector<Vec> &outer_v);
+                   std::vector<Vec> *outer_v = nullptr);
 
 #endif // LGMRES_H
-- 
2.43.0


From 4080e2301f0a19087e0ea028e985550b4a0b7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:09 +0000
Subject: [PATCH 17/42] fix: remember the step of the nonlinear solver for its
 termination test

---
 code/cpp/src/scipy/newton_krylov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/scipy/newton_krylov.cpp b/code/cpp/src/scipy/newton_krylov.cpp
index 7c5a5d4..5fff4b5 100644
--- a/code/cpp/src/scipy/newton_krylov.cpp
+++ b/code/cpp/src/scipy/newton_krylov.cpp
@@ -163,7 +163,7 @@ Vec nonlin_solve(VecFunc F, Vecr x, double f_tol, double f_rtol, double x_tol,
       break;
 
     double tol = std::min(eta, eta * Fx_norm);
-    Vec dx = -jacobian.solve(Fx, tol);
+    dx = -jacobian.solve(Fx, tol);
 
     _nonlin_line_search(F, x, Fx, dx);
     double Fx_norm_new = Fx.norm();
-- 
2.43.0


From 3c45ae3b3cebc798c94a35b0a8498cac2121326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:02 +0000
Subject: [PATCH 18/42] fix: report wave speeds that do not exist as
 not-a-number

---
 code/cpp/src/system/eig.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index ce3d9a0..1c16678 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -1,3 +1,5 @@
+#include <cmath>
+
 #include "energy/mg.h"
 #include "functions/matrices.h"
 #include "functions/vectors.h"
@@ -69,6 +71,8 @@ double max_abs_eigs(VecVr Q, int d, Par &MP) {
   Mat Ξ = thermo_acoustic_tensor(Q, d, MP);
   double vd = Q(2 + d) / Q(0);
 
+  if (!Ξ.allFinite()) // not hyperbolic: the eigensolver would leave its result
+    return NAN;       // uninitialised
   double lam = sqrt(Ξ.eigenvalues().array().abs().maxCoeff());
   if (vd > 0)
     return vd + lam;
-- 
2.43.0


From 2bece54b575a4b1fcf37e6dd1b03d8a0e12c8dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:36 +0000
Subject: [PATCH 19/42] fix: relax power-law fluids with a flow index of one
 and above

---
 code/cpp/src/system/relaxation/analytic.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 5d7daf0..b6304f6 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -22,7 +22,8 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
   if (MP.SOLID && !MP.POWER_LAW) // elastic solids do not relax
     return 0.;
 
-  if (MP.POWER_LAW) {
+  // a power-law fluid with n=1 is Newtonian
+  if (MP.POWER_LAW && (MP.SOLID || MP.n != 1.)) {
     double n = MP.n;
     double cs2 = c_s2(ρ, MP);
     double a = 9. * m0 - u0 - 9.;
@@ -65,7 +66,10 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
       double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * MP.b02);
       tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
-      return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
+      double arg = tmp1 * tmp2 * dt + 1.;
+      if (arg <= 0.) // shear-thickening fluids relax fully in a finite time
+        return INF;
+      return 2. / (k * λ) * log(arg);
     }
   } else
     return MP.ρ0 * MP.b02 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
-- 
2.43.0


From c2c5629d3425cb905f85538c691a504efbe4e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:41 +0000
Subject: [PATCH 20/42] fix: use the right branch of the arctangent when
 relaxing the distortion

---
 code/cpp/src/system/relaxation/analytic.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index b6304f6..39509c9 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -107,17 +107,9 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
     double Δ = -2. * m * m * m + m * u + 2.;
     double arg1 = pos(6. * u * u * u - 81. * Δ * Δ);
 
-    double x1;
-    if (std::abs(Δ) < 1e-12) {
-      // θ = pi / 2
-      x1 = sqrt(6. * u) / 3. * cos(M_PI / 6.) + m;
-    } else if (arg1 == 0.) {
-      double tmp = cbrt(54. * Δ);
-      x1 = tmp / 6. + u / tmp + m;
-    } else {
-      double θ = atan(sqrt(arg1) / (9. * Δ));
-      x1 = sqrt(6. * u) / 3. * cos(θ / 3.) + m;
-    }
+    double θ = atan2(sqrt(arg1), 9. * Δ);
+    double x1 = sqrt(6. * u) / 3. * cos(θ / 3.) + m;
+
     double tmp2 = 3. * m - x1;
     double arg2 = pos(x1 * tmp2 * tmp2 - 4.);
     double x2 = 0.5 * (sqrt(arg2 / x1) + tmp2);
-- 
2.43.0


From 7f42444ec461ace06b658c3688d7e86cf0a4edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:41 +0000
Subject: [PATCH 21/42] fix: leave a distortion that does not relax exactly as
 it is

---
 code/cpp/src/system/relaxation/analytic.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 39509c9..c291a11 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -96,6 +96,9 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
   if (u0 >= 1e-12) {
 
     double τ = nondimensionalized_time(ρ, detA1_3, m0, u0, dt, MP);
+    if (τ == 0.) // nothing relaxes: do not disturb the distortion by rounding
+      return;
+
     double e_6τ = exp(-6. * τ);
     double e_9τ = exp(-9. * τ);
 
-- 
2.43.0


From a1d06cf4f37fe74a400285ba0fafb82f6754d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:02 +0000
Subject: [PATCH 22/42] fix: take the yield stress into account when Bingham
 fluids relax in the split scheme

---
 code/cpp/src/system/relaxation/analytic.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index c291a11..8ce0b6a 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -23,7 +23,7 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
     return 0.;
 
   // a power-law fluid with n=1 is Newtonian
-  if (MP.POWER_LAW && (MP.SOLID || MP.n != 1.)) {
+  if ((MP.POWER_LAW && (MP.SOLID || MP.n != 1.)) || MP.BINGHAM) {
     double n = MP.n;
     double cs2 = c_s2(ρ, MP);
     double a = 9. * m0 - u0 - 9.;
@@ -63,6 +63,17 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
                16. / 27. * a * a * a * b - 4. / 5. * a * a * b * b +
                16. / 33. * a * b * b * b - std::pow(b, 4.) / 9.);
 
+      if (MP.BINGHAM) {
+        // the excess of the shear stress over the yield stress decays
+        // exponentially
+        double σ0 = std::pow(detA3, 4.) * sqrt(c) * ρ * cs2 / (6. * sqrt(3.));
+        if (σ0 <= MP.σY)
+          return 0.;
+        double rate = MP.ρ0 * MP.b02 * std::pow(detA3, 7.) / (3. * MP.μ);
+        double σ1 = MP.σY + (σ0 - MP.σY) * exp(-λ / 2. * rate * dt);
+        return 2. / λ * log(σ0 / σ1);
+      }
+
       double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * MP.b02);
       tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
-- 
2.43.0


From 45908db1b63726ea49c1527bbfd8b24fff21dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:28 +0000
Subject: [PATCH 23/42] fix: find the interface states before filling cells in
 one dimension too

---
 code/cpp/src/multi/fill.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 52642d6..fe8b491 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -224,6 +224,12 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
   int nx = nX(0);
   Vec n(ndim);
 
+  // NOTE: the states are found before any cell is filled, as a cell of a thin
+  //       layer is a boundary cell, and also the other side of another one
+  int ncell = grid.size() / V;
+  Mat states(ncell, V);
+  std::vector<BoundaryInds> bInds(ncell);
+
   switch (ndim) {
 
   case 1:
@@ -233,20 +239,15 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
         iVec inds(1);
         inds << ind;
         int indn = (ind > 0 && intMask(ind - 1) == -1) ? ind - 1 : ind + 1;
-        BoundaryInds bInds = boundary_inds(inds, φ(ind), n, dX, nX);
-        VecV QL_ = boundary_state(grid, bInds, inds, nX, mat, MPs, dt, n, indn);
-        fill_boundary_inner(grid, bInds, QL_, mat);
+        bInds[ind] = boundary_inds(inds, φ(ind), n, dX, nX);
+        states.row(ind) = boundary_state(grid, bInds[ind], inds, nX, mat, MPs,
+                                         dt, n, indn);
       }
     }
     break;
   case 2:
     int ny = nX(1);
 
-    // NOTE: the threads only read the grid, which is filled afterwards, as
-    //       several boundary cells may share an interface cell
-    Mat states(nx * ny, V);
-    std::vector<BoundaryInds> bInds(nx * ny);
-
 #pragma omp parallel for collapse(2) private(n)
     for (int i = 0; i < nx; i++)
       for (int j = 0; j < ny; j++) {
@@ -261,12 +262,12 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
                                            dt, n, indn);
         }
       }
-
-    for (int ind = 0; ind < nx * ny; ind++)
-      if (intMask(ind) == 1)
-        fill_boundary_inner(grid, bInds[ind], states.row(ind), mat);
     break;
   }
+
+  for (int ind = 0; ind < ncell; ind++)
+    if (intMask(ind) == 1)
+      fill_boundary_inner(grid, bInds[ind], states.row(ind), mat);
 }
 
 void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
-- 
2.43.0


From 0adffffa5c33fb82a8c8be5c5d915ad3e6b0dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 24/42] fix: leave cells outside of the mask as they are
 instead of applying only some of their fluxes

---
 code/cpp/src/solvers/iterator.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index 69a5746..57792c5 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -41,6 +41,16 @@ void make_u(Vecr u, std::vector<Vec> &grids, std::vector<bVec> &masks,
   }
 }
 
+void restore_inactive(Vecr grid, Vecr before, bVecr mask) {
+  // The cells outside of the mask are not meant to be updated, but fluxes have
+  // been applied to those of their faces that border on cells of the mask
+
+  int ncell = grid.size() / V;
+  for (int i = 0; i < ncell; i++)
+    if (!mask(i))
+      grid.segment<V>(i * V) = before.segment<V>(i * V);
+}
+
 void limit_concentration(Vecr u) {
   if (MULTI) {
     int ncell = u.size() / V;
@@ -123,6 +133,7 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
 
         boundaries(grids[mat], ub, nX, boundaryTypes);
         extend_mask(masks[mat], maskb, nX);
+        Vec before = grids[mat];
 
         if (SPLIT)
           split_stepper_para(grids[mat], ub, nX, dt, dX, HALF_STEP, FLUX,
@@ -130,6 +141,8 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
         else
           ader_stepper_para(grids[mat], ub, nX, dt, dX, STIFF, FLUX, MPs[mat],
                             maskb);
+
+        restore_inactive(grids[mat], before, masks[mat]);
       }
     }
     if (LSET > 0)
-- 
2.43.0


From 5cd3dd3cc2f282a25882806c561c35862c1e7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 25/42] fix: do not let undefined eigenvectors of a state at
 rest turn the upwind fluxes into NaN

---
 code/cpp/src/solvers/fv/fluxes.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index abfef71..f3f86eb 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -19,9 +19,20 @@ VecV Bint(VecVr qL, VecVr qR, int d, Par &MP) {
   return ret;
 }
 
+VecV upwind_dissipation(const VeccV &x, VecVr q, const VecV &Δq, int d,
+                        Par &MP) {
+  // Returns the real part of x=|A|Δq. The eigenvectors with which it has been
+  // found may be undefined for a state at rest, as A is defective. In this case
+  // the largest wave speed is used for all waves.
+  VecV ret = x.real();
+  if (!ret.allFinite())
+    ret = max_abs_eigs(q, d, MP) * Δq;
+  return ret;
+}
+
 VecV D_OSH(VecVr qL, VecVr qR, int d, Par &MP) {
   // Returns the Osher flux component, in the dth direction
-  VeccV ret = VeccV::Zero();
+  VecV f = VecV::Zero();
   VecV Δq = qL - qR;
   VeccV Δqc = VeccV(Δq);
   Eigen::EigenSolver<MatV_V> es;
@@ -35,9 +46,9 @@ VecV D_OSH(VecVr qL, VecVr qR, int d, Par &MP) {
     es.compute(J);
     b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
         es.eigenvalues().array().abs();
-    ret += WGHTS(i) * (es.eigenvectors() * b);
+    f += WGHTS(i) *
+         upwind_dissipation(es.eigenvectors() * b, q, Δq, d, MP);
   }
-  VecV f = ret.real();
   flux(f, qL, d, MP);
   flux(f, qR, d, MP);
   return f;
@@ -57,7 +68,8 @@ VecV D_ROE(VecVr qL, VecVr qR, int d, Par &MP) {
   VeccV b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
             es.eigenvalues().array().abs();
 
-  VecV f = (es.eigenvectors() * b).real();
+  q = (qL + qR) / 2.;
+  VecV f = upwind_dissipation(es.eigenvectors() * b, q, Δq, d, MP);
   flux(f, qL, d, MP);
   flux(f, qR, d, MP);
   return f;
-- 
2.43.0


From 00537f57ff4fede38e71f336714cad35601353ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 26/42] fix: do not fill a neighbor cell at the edge of the
 domain from itself

---
 code/cpp/src/multi/fill.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index fe8b491..00a3369 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -294,8 +294,8 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
     break;
   }
 
-  // must fill from a border cell
-  if (intMask(newInd / V) < 1)
+  // must fill from a border cell, and not from itself (at the domain's edge)
+  if (newInd == ind || intMask(newInd / V) < 1)
     newInd = indn * V;
   grid.segment<V - LSET>(ind) = grid.segment<V - LSET>(newInd);
 }
-- 
2.43.0


From b736225f2488395f39ccab752e73d79f019b91ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 27/42] fix: treat both ends of a row alike where odd-order
 reconstruction avoids corners

---
 code/cpp/src/solvers/weno/weno.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index 4419523..e85206d 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -60,7 +60,9 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gapL, int gapR, int ind) {
     den += oR;
   }
   if (N > 2) {
-    if (ind + FN2 >= gapL) {
+    // A single central stencil (odd N) reaches out on both sides
+    if ((ind + FN2 >= gapL) &&
+        ((N % 2 == 0) || (ind - FN2 <= nx - gapR - 1))) {
       num.array() += wCL.array().rowwise() * oCL.transpose().array();
       den += oCL;
     }
-- 
2.43.0


From 156381da678097e2b5006e57e1cb56c8dc7c331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:16 +0000
Subject: [PATCH 28/42] fix: measure the convergence of thermal star states
 against their own temperature, as T0 is never set

---
 code/cpp/src/system/multi/riemann.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index b3be715..cfef9a6 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -14,11 +14,10 @@
 #include "riemann.h"
 #include "rotations.h"
 
-double q_dims(Par &MP) {
-  // Returns characteristic dimensions of heat flux
+double q_dims(Par &MP, double T0) {
+  // Returns characteristic dimensions of heat flux at temperature T0
   double α2 = MP.cα2;
   double ρ0 = MP.ρ0;
-  double T0 = MP.T0;
   double cv = MP.cv;
   return α2 / ρ0 * T0 * sqrt(T0 / cv);
 }
@@ -58,19 +57,19 @@ bool check_star_convergence(VecVr QL_, VecVr QR_, Par &MPL, Par &MPR) {
     Vec3 qL_ = heat_flux(TL_, JL_, MPL);
 
     if (MPR.EOS > -1) {
-      double q0 = std::min(q_dims(MPL), q_dims(MPR));
-      double T0 = std::min(MPL.T0, MPR.T0);
-
       double TR_ = temperature(QR_, MPR);
+      double T0 = std::max(std::abs(TL_), std::abs(TR_));
+      double q0 = std::min(q_dims(MPL, T0), q_dims(MPR, T0));
+
       Vec3 JR_ = get_ρJ(QR_) / QR_(0);
       Vec3 qR_ = heat_flux(TR_, JR_, MPR);
 
-      cond &= std::abs(qL_(0) - qR_(0)) / q0 < STAR_TOL;
-      cond &= std::abs(TL_ - TR_) / T0 < STAR_TOL;
+      cond &= std::abs(qL_(0) - qR_(0)) <= STAR_TOL * q0;
+      cond &= std::abs(TL_ - TR_) <= STAR_TOL * T0;
     } else {
-      double q0 = q_dims(MPL);
+      double q0 = q_dims(MPL, std::abs(TL_));
 
-      cond &= std::abs(qL_(0)) / q0 < STAR_TOL;
+      cond &= std::abs(qL_(0)) <= STAR_TOL * q0;
     }
   }
   return cond;
-- 
2.43.0


From 6a8a91ce681938d941f9ea2d5849731fbc117ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:10 +0000
Subject: [PATCH 29/42] fix: let a cell whose center lies on an interface
 belong to one material only

---
 code/cpp/src/multi/functions.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/cpp/src/multi/functions.cpp b/code/cpp/src/multi/functions.cpp
index 5cbf467..481080f 100644
--- a/code/cpp/src/multi/functions.cpp
+++ b/code/cpp/src/multi/functions.cpp
@@ -1,6 +1,8 @@
+#include <cfloat>
 #include <cmath>
 
 #include "../etc/types.h"
+#include "../system/functions/vectors.h"
 #include "../system/objects.h"
 #include "pfmm.h"
 
@@ -87,4 +89,9 @@ void material_indicator(Vecr φ, Matr u, int mat, int nmat, aVecr dX, iVecr nX)
 
     φ = distance(φ, dX, nX);
   }
+
+  // a cell whose center lies on an interface belongs to one material only
+  for (int i = 0; i < φ.size(); i++)
+    if (φ(i) == 0. && get_material_index(u.row(i)) != mat)
+      φ(i) = DBL_EPSILON * dX.minCoeff();
 }
-- 
2.43.0


From 0a4b725de0c8e858e62e891b7ba1524d49afb185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:13 +0000
Subject: [PATCH 30/42] fix: relax the heat flux with the temperature of the
 state, also where the equation of state has a cold energy

---
 code/cpp/src/system/relaxation/analytic.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 8ce0b6a..6ba34f5 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -6,6 +6,7 @@
 #include "../energy/eos.h"
 #include "../functions/matrices.h"
 #include "../functions/vectors.h"
+#include "../variables/state.h"
 #include "../waves/shear.h"
 
 double pos(double x) { return std::max(0., x); }
@@ -146,13 +147,10 @@ void analyticSolver_thermal(VecVr Q, double dt, Par &MP) {
   // TODO: implement mixing of κ
 
   double ρ = Q(0);
-  double E = Q(1) / ρ;
-  Vec3 v = get_ρv(Q) / ρ;
-  Mat3_3Map A = get_A(Q);
   Vec3Map ρJ = get_ρJ(Q);
 
-  double c1 = E - E_2A(ρ, A, MP) - E_3(v);
   double c2 = MP.cα2 / 2.;
+  double c1 = MP.cv * temperature(Q, MP) + c2 * ρJ.squaredNorm() / (ρ * ρ);
   double k = 2 * MP.cα2 / (MP.κ * ρ * MP.cv);
   c1 *= k;
   c2 *= k;
-- 
2.43.0


From 808bf1e09a05bb32229e9041934c7f20cacf25ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:42 +0000
Subject: [PATCH 31/42] fix: ignite only beyond the threshold of compression,
 instead of raising a negative number to a power

---
 code/cpp/src/system/variables/sources.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/variables/sources.cpp b/code/cpp/src/system/variables/sources.cpp
index 1a0d8ad..2edbe29 100644
--- a/code/cpp/src/system/variables/sources.cpp
+++ b/code/cpp/src/system/variables/sources.cpp
@@ -118,8 +118,11 @@ double reaction_rate(VecVr Q, Par &MP) {
 
     double ret = 0.;
 
+    // NOTE: ignition takes compression beyond the threshold
+    double compression = std::max(ρ / MP.ρ0 - 1 - MP.a, 0.);
+
     if (φ < MP.φI)
-      ret += MP.I * std::pow(λ, MP.b) * std::pow(ρ / MP.ρ0 - 1 - MP.a, MP.x);
+      ret += MP.I * std::pow(λ, MP.b) * std::pow(compression, MP.x);
 
     if (φ < MP.φG1)
       ret += MP.G1 * std::pow(λ, MP.c) * std::pow(φ, MP.d) * std::pow(p, MP.y);
-- 
2.43.0


From f5ab294d2044f35f465ec5ec7a345860d55b42f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:42 +0000
Subject: [PATCH 32/42] fix: keep the sign of the determinant when rotating the
 distortion

---
 code/cpp/src/solvers/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/solvers/utils.cpp b/code/cpp/src/solvers/utils.cpp
index a681a34..f89e889 100644
--- a/code/cpp/src/solvers/utils.cpp
+++ b/code/cpp/src/solvers/utils.cpp
@@ -34,6 +34,8 @@ void rotate_distortion(Vecr u, std::vector<Par> &MPs) {
 
       Vec3 s = svd.singularValues();
       A = svd.matrixV();
+      if (A.determinant() < 0.) // keep the determinant of the distortion
+        A = -A;
 
       for (int j = 0; j < 3; j++)
         u.segment<3>(i * V + 5 + 3 * j) = s(j) * A.col(j);
-- 
2.43.0


From f16c4a2b2b9ca7cefe5d2f2724bc1f707f247ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:19 +0000
Subject: [PATCH 33/42] fix: derivative of the JWL and Cochran-Chan reference
 energy
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Along the reference curve de = p dρ / ρ². The energy was used in place of
the pressure, so the Python dE/dρ and sound speeds were wrong.
---
 code/python/gpr/vars/mg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index 1f599e7..dab1b9f 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -195,7 +195,7 @@ def de_ref(ρ, MP):
         return c02 / (ρ * α) * (tmp - 1) * tmp
 
     elif EOS in [JWL, COCHRAN_CHAN]:
-        return e_ref(ρ, MP) / ρ**2
+        return p_ref(ρ, MP) / ρ**2
 
 
 def internal_energy(ρ, p, MP):
-- 
2.43.0


From 2221dd41d6767097e8f79a13e0355ec1e6c15ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:19 +0000
Subject: [PATCH 34/42] =?UTF-8?q?fix:=20reference=20temperature=20in=20the?=
 =?UTF-8?q?=20Python=20dT/d=CF=81?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

temperature() contains φ(ρ) Tref, with dφ/dρ = Γ φ / ρ.
---
 code/python/gpr/vars/mg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index dab1b9f..c647420 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -273,11 +273,13 @@ def dTdρ(ρ, p, MP):
         with respect to ρ
     """
     cv = MP.cv
+    Tref = MP.Tref
     Γ = Γ_MG(ρ, MP)
     dΓ = dΓ_MG(ρ, MP)
     pr = p_ref(ρ, MP)
     dpr = dp_ref(ρ, MP)
-    return - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
+    ret = - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
+    return ret + Γ / ρ * φ(ρ, MP) * Tref
 
 
 def dTdp(ρ, MP):
-- 
2.43.0


From 664eab6e43143429e323c68babaff771a0f95aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:19 +0000
Subject: [PATCH 35/42] fix: Python theta1inv for fluids
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The names ρ0 and μ were not defined, and Bingham fluids were treated as
Newtonian.
---
 code/python/gpr/vars/sources.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index cb52065..9af1651 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -30,10 +30,21 @@ def theta1inv(ρ, A, MP):
         else:   # elastic solid
             return 0
 
+    elif MP.BINGHAM:
+
+        σ = sigma(ρ, A, MP)
+        sn = norm(σ) / sqrt(2.)
+        σY = MP.σY
+
+        if sn > σY:
+            return detA5_3 * MP.ρ0 / (2 * MP.μ) * (1 - σY / sn)
+        else:
+            return 0
+
     else:
 
         n = MP.n
-        const = detA5_3 * ρ0 / (2 * μ**(1/n))
+        const = detA5_3 * MP.ρ0 / (2 * MP.μ**(1/n))
 
         if MP.POWER_LAW:  # power law fluid
 
-- 
2.43.0


From 5d27d40a7448e68cbedf4549c59e45851276e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:19 +0000
Subject: [PATCH 36/42] fix: reaction rates of State

MP.REACTION holds a code, so that no rate was ever returned; the ignition and
growth rate used a parameter that does not exist and the density in place of
the compression.
---
 code/python/gpr/misc/structures.py |  7 ++++---
 code/python/gpr/vars/sources.py    | 12 ++++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/code/python/gpr/misc/structures.py b/code/python/gpr/misc/structures.py
index 17244d5..059e294 100644
--- a/code/python/gpr/misc/structures.py
+++ b/code/python/gpr/misc/structures.py
@@ -3,6 +3,7 @@ from numpy import zeros
 import GPRpy
 
 from gpr.misc.functions import gram, sigma_norm
+from gpr.misc.objects import REACTION_CODES
 from gpr.vars.derivatives import dEdρ, dEdp, dEdA, dEdA_s, dEdJ, dTdρ, dTdp
 from gpr.vars.eos import total_energy
 from gpr.vars.sources import theta1inv, theta2inv, K_arr, K_dis, K_ing, f_δp
@@ -85,11 +86,11 @@ class State():
         return theta2inv(self.ρ, self.T(), self.MP)
 
     def K(self):
-        if self.MP.REACTION == 'a':
+        if self.MP.REACTION == REACTION_CODES['a']:
             return K_arr(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'd':
+        elif self.MP.REACTION == REACTION_CODES['d']:
             return K_dis(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'i':
+        elif self.MP.REACTION == REACTION_CODES['i']:
             return K_ing(self.ρ, self.λ, self.p(), self.MP)
 
     def f_body(self):
diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index 9af1651..c360cfe 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -104,21 +104,25 @@ def K_ing(ρ, λ, p, MP):
     x = MP.x
     y = MP.y
     z = MP.z
-    φIG = MP.φIG
+    φI = MP.φI
     φG1 = MP.φG1
     φG2 = MP.φG2
 
+    λ = min(max(λ, 0), 1)
+    p = max(p, 0)
+
     φ = 1 - λ
+    compression = max(ρ / MP.ρ0 - 1 - a, 0)
 
     ret = 0
-    if φIG > φ:
-        ret += I * λ**b * (ρ - 1 - a)**x
+    if φI > φ:
+        ret += I * λ**b * compression**x
     if φG1 > φ:
         ret += G1 * λ**c * φ**d * p**y
     if φ > φG2:
         ret += G2 * λ**e * φ**g * p**z
 
-    return ret
+    return max(ret, 0)
 
 
 def f_δp(MP):
-- 
2.43.0


From f8938603b5fc1280f8214482db3b308e59fcae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:19 +0000
Subject: [PATCH 37/42] fix: second component's parameters

They were chosen by the first component's equation of state.
---
 code/python/gpr/misc/objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/python/gpr/misc/objects.py b/code/python/gpr/misc/objects.py
index cc52910..1e3a604 100644
--- a/code/python/gpr/misc/objects.py
+++ b/code/python/gpr/misc/objects.py
@@ -147,22 +147,22 @@ def params(MP, Rc, EOS,
             MP.MP2.cv = cv_2
             MP.MP2.Tref = Tref_2
 
-        if EOS == 'sg':
+        if EOS_2 == 'sg':
             MP.MP2.γ = γ_2
             MP.MP2.pINF = pINF_2
 
-        elif EOS == 'smg':
+        elif EOS_2 == 'smg':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.c02 = c0_2**2
             MP.MP2.s = s_2
 
-        elif EOS == 'gr':
+        elif EOS_2 == 'gr':
             MP.MP2.c02 = c0_2**2
             MP.MP2.α = α_2
             MP.MP2.β = β_2
             MP.MP2.γ = γ_2
 
-        elif EOS == 'jwl' or EOS == 'cc':
+        elif EOS_2 == 'jwl' or EOS_2 == 'cc':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.A = A_2
             MP.MP2.B = B_2
-- 
2.43.0


From c9d831d2efe46965b505c820833a537be0186a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:19 +0000
Subject: [PATCH 38/42] fix: missing argument and import in c_inf

---
 code/python/gpr/vars/wavespeeds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/python/gpr/vars/wavespeeds.py b/code/python/gpr/vars/wavespeeds.py
index 7de5cb5..3d3a022 100644
--- a/code/python/gpr/vars/wavespeeds.py
+++ b/code/python/gpr/vars/wavespeeds.py
@@ -1,6 +1,7 @@
 from numpy import sqrt
 
 from gpr.vars.derivatives import dEdρ, dEdp
+from gpr.vars.shear import c_s2
 
 
 def c_0(ρ, p, A, MP):
@@ -11,10 +12,10 @@ def c_0(ρ, p, A, MP):
     return sqrt((p / ρ**2 - dE_dρ) / dE_dp)
 
 
-def c_inf(ρ, p, MP):
+def c_inf(ρ, p, A, MP):
     """ Returns the longitudinal characteristic speed
     """
-    c0 = c_0(ρ, p, MP)
+    c0 = c_0(ρ, p, A, MP)
     cs2 = c_s2(ρ, MP)
     return sqrt(c0**2 + 4 / 3 * cs2)
 
-- 
2.43.0


From 8f48a18f94c4f6a221217ff5b176a7c652691006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:19 +0000
Subject: [PATCH 39/42] fix: missing import in entropy_hyp

---
 code/python/gpr/vars/hyp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/hyp.py b/code/python/gpr/vars/hyp.py
index 81edbe4..585f09e 100644
--- a/code/python/gpr/vars/hyp.py
+++ b/code/python/gpr/vars/hyp.py
@@ -1,4 +1,4 @@
-from numpy import dot, exp, eye, zeros
+from numpy import dot, exp, eye, log, zeros
 from numpy.linalg import det, inv
 
 from gpr.misc.functions import I_1, I_2, I_3, gram
-- 
2.43.0


From 8c510fafabf11b67701911e21431a6cfaab599ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:52 +0000
Subject: [PATCH 40/42] fix: treat a non-finite residual as too large in the
 line search

As scipy's _safe_norm does. A trial step out of the domain of the function
(such as a distortion of negative determinant) was accepted, and the solution
was NaN.
---
 code/cpp/src/scipy/newton_krylov.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/scipy/newton_krylov.cpp b/code/cpp/src/scipy/newton_krylov.cpp
index 5fff4b5..a51851e 100644
--- a/code/cpp/src/scipy/newton_krylov.cpp
+++ b/code/cpp/src/scipy/newton_krylov.cpp
@@ -81,7 +81,8 @@ double phi(double s, double *tmp_s, double *tmp_phi, Vecr tmp_Fx, VecFunc func,
     return *tmp_phi;
   Vec xt = x + s * dx;
   Vec v = func(xt);
-  double p = v.squaredNorm();
+  // NOTE: a step that leaves the domain of func is too long
+  double p = v.allFinite() ? v.squaredNorm() : INF;
   *tmp_s = s;
   *tmp_phi = p;
   tmp_Fx = v;
-- 
2.43.0


From 43565eb82046d91d499f89deff500c4221646cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:24 +0000
Subject: [PATCH 41/42] fix: change of component densities with pressure in
 dEdp of mixtures

---
 code/cpp/src/system/energy/derivatives.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/energy/derivatives.cpp b/code/cpp/src/system/energy/derivatives.cpp
index 0a8a284..21e290a 100644
--- a/code/cpp/src/system/energy/derivatives.cpp
+++ b/code/cpp/src/system/energy/derivatives.cpp
@@ -55,10 +55,24 @@ double dEdp(VecVr Q, Par &MP) {
     double λ = Q(mV) / ρ;
 
     Vec3 sol = solve_multi(Q, MP);
+    double p = sol(0);
     double ρ1 = sol(1);
     double ρ2 = sol(2);
 
-    return λ * dedp(ρ1, MP) + (1 - λ) * dedp(ρ2, MP.MP2);
+    // the components' densities change with p, as their temperatures are equal
+    double dT1 = dTdρ(ρ1, p, MP);
+    double dT2 = dTdρ(ρ2, p, MP.MP2);
+    double ΔTp = dTdp(ρ2, MP.MP2) - dTdp(ρ1, MP);
+
+    double a1 = λ / (ρ1 * ρ1);
+    double a2 = (1 - λ) / (ρ2 * ρ2);
+    double c = a1 * dT2 + a2 * dT1;
+
+    double dρ1 = ΔTp * a2 / c;
+    double dρ2 = -ΔTp * a1 / c;
+
+    return λ * (dedp(ρ1, MP) + dedρ(ρ1, p, MP) * dρ1) +
+           (1 - λ) * (dedp(ρ2, MP.MP2) + dedρ(ρ2, p, MP.MP2) * dρ2);
   } else {
     return dedp(ρ, MP);
   }
-- 
2.43.0


From 3fa090e29c69d4a59be9cd3f6501e0345e754f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:24 +0000
Subject: [PATCH 42/42] fix: derivative of a mixture's energy by its
 composition in the Jacobians

---
 code/cpp/src/system/energy/derivatives.cpp | 32 ++++++++++++++++++++++
 code/cpp/src/system/energy/derivatives.h   |  1 +
 code/cpp/src/system/jacobians.cpp          | 11 +++-----
 3 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/code/cpp/src/system/energy/derivatives.cpp b/code/cpp/src/system/energy/derivatives.cpp
index 21e290a..4e7032f 100644
--- a/code/cpp/src/system/energy/derivatives.cpp
+++ b/code/cpp/src/system/energy/derivatives.cpp
@@ -78,6 +78,38 @@ double dEdp(VecVr Q, Par &MP) {
   }
 }
 
+double dEdλ(VecVr Q, Par &MP) {
+  // Returns the partial derivative of E by λ (holding ρ,p,A constant)
+
+  double ret = 0.;
+
+  if (MP.MULTI) {
+
+    double λ = Q(mV) / Q(0);
+
+    Vec3 sol = solve_multi(Q, MP);
+    double p = sol(0);
+    double ρ1 = sol(1);
+    double ρ2 = sol(2);
+
+    double dT1 = dTdρ(ρ1, p, MP);
+    double dT2 = dTdρ(ρ2, p, MP.MP2);
+
+    double c = λ / (ρ1 * ρ1) * dT2 + (1 - λ) / (ρ2 * ρ2) * dT1;
+    double Δv = 1 / ρ1 - 1 / ρ2;
+
+    double dρ1 = Δv * dT2 / c;
+    double dρ2 = Δv * dT1 / c;
+
+    ret += E_1(ρ1, p, MP) - E_1(ρ2, p, MP.MP2);
+    ret += λ * dedρ(ρ1, p, MP) * dρ1 + (1 - λ) * dedρ(ρ2, p, MP.MP2) * dρ2;
+  }
+  if (MP.REACTION > -1)
+    ret += MP.Qc;
+
+  return ret;
+}
+
 Mat3_3 dEdA(VecVr Q, Par &MP) {
   // Returns the partial derivative of E by A (holding ρ,s constant)
   double ρ = Q(0);
diff --git a/code/cpp/src/system/energy/derivatives.h b/code/cpp/src/system/energy/derivatives.h
index 18e4e40..4350044 100644
--- a/code/cpp/src/system/energy/derivatives.h
+++ b/code/cpp/src/system/energy/derivatives.h
@@ -6,6 +6,7 @@
 
 double dEdρ(VecVr Q, Par &MP);
 double dEdp(VecVr Q, Par &MP);
+double dEdλ(VecVr Q, Par &MP);
 Mat3_3 dEdA(VecVr Q, Par &MP);
 Mat3_3 dEdA_s(VecVr Q, Par &MP);
 Vec3 dEdJ(VecVr Q, Par &MP);
diff --git a/code/cpp/src/system/jacobians.cpp b/code/cpp/src/system/jacobians.cpp
index fdd3ef6..bb95ba1 100644
--- a/code/cpp/src/system/jacobians.cpp
+++ b/code/cpp/src/system/jacobians.cpp
@@ -91,8 +91,7 @@ MatV_V dFdP(VecVr Q, int d, Par &MP) {
     ret(mV, 2 + d) = ρ * λ;
     ret(mV, mV) = ρvd;
 
-    if (MP.REACTION > -1)
-      ret(1, mV) = MP.Qc * ρvd;
+    ret(1, mV) = dEdλ(Q, MP) * ρvd;
   }
   return ret;
 }
@@ -142,11 +141,9 @@ MatV_V dPdQ(VecVr Q, Par &MP) {
     ret(mV, 0) = -λ / ρ;
     ret(mV, mV) = 1 / ρ;
 
-    if (MP.REACTION > -1) {
-      double Qc = MP.Qc;
-      ret(1, 0) += Γ_ * Qc * λ;
-      ret(1, mV) = -Γ_ * Qc;
-    }
+    double Eλ = dEdλ(Q, MP);
+    ret(1, 0) += Γ_ * Eλ * λ;
+    ret(1, mV) = -Γ_ * Eλ;
   }
   return ret;
 }
-- 
2.43.0

