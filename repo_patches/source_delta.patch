From 14fba2c93c27f1e8a86b039fa60a5041c0096267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 01/19] fix: segment-segment query returned a wrong point pair
 when dR/ds=0 cuts a domain corner

---
 Collision/DCPQuery.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Collision/DCPQuery.hpp b/Collision/DCPQuery.hpp
index 316ec95..b9e5843 100644
--- a/Collision/DCPQuery.hpp
+++ b/Collision/DCPQuery.hpp
@@ -428,10 +428,16 @@ inline void DCPQuery<N, Real, Vector>::ComputeMinimumParameters(int const edge[2
                                                                 Real parameter[2]) {
     constexpr Real eps = std::numeric_limits<Real>::epsilon();
     Real delta = end[1][1] - end[0][1];
-    Real h0 = delta * ((-mB * end[0][0] - mE) + mC * end[0][1]); // source of rounding error
-    Real h1 = delta * ((-mB * end[1][0] - mE) + mC * end[1][1]);
-
-    if (std::abs(h0) < std::abs(mC) * eps && std::abs(h1) < std::abs(mC) * eps) {
+    Real g0 = (-mB * end[0][0] - mE) + mC * end[0][1]; // source of rounding error
+    Real g1 = (-mB * end[1][0] - mE) + mC * end[1][1];
+    Real h0 = delta * g0;
+    Real h1 = delta * g1;
+
+    // h is also tiny when the segment of intersection is short (cut at a corner of the domain);
+    // only a vanishing dR/dt means that R is constant along it
+    constexpr Real gtol = 1e-8;
+    if (std::abs(h0) < std::abs(mC) * eps && std::abs(h1) < std::abs(mC) * eps && //
+        std::abs(g0) < std::abs(mC) * gtol && std::abs(g1) < std::abs(mC) * gtol) {
         Real z = 0.5;
         Real omz = (Real)1 - z;
         parameter[0] = omz * end[0][0] + z * end[1][0];
-- 
2.43.0


From 452d85cb4a9f39c5b50978c997f55ecd26657318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:15 +0000
Subject: [PATCH 02/19] fix: BBPGD started from, and could return as converged,
 an initial guess outside the bounds

---
 Constraint/BCQPSolver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index c05f0f7..a60c223 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -141,8 +141,9 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
     spdlog::debug("solving APGD");
     spdlog::debug("Constraint operator ARcp is "+ ARcp->description());
 
-    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy));   // deep copy, xk=x0
-    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xkm1=x0
+    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xk=x0
+    boundProjection(xkRcp);                                                 // the initial guess must be feasible
+    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xkRcp, Teuchos::Copy)); // deep copy, xkm1=x0
 
     Teuchos::RCP<TV> gradkRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));   // the grad vector
     Teuchos::RCP<TV> gradkm1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // the grad vector
-- 
2.43.0


From ee9ce8609006c3ead2ac47c86c92ecc9ca3b2c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:15 +0000
Subject: [PATCH 03/19] fix: BBPGD returned the previous iterate when it ran
 out of iterations

---
 Constraint/BCQPSolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index a60c223..0089966 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -233,6 +233,10 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
             break;
         }
 
+        if (iteCount == iteMax) {
+            break; // no more iterations, keep xk as the solution
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
-- 
2.43.0


From 911fb13b1113a0619256cdf8d87fe439e7cbc403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 04/19] fix: APGD returned the vector of ones or looped forever
 for some initial guesses

---
 Constraint/BCQPSolver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 0089966..db2bbe4 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -262,7 +262,8 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
 
     // allocate vectors
     Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy
-    Teuchos::RCP<TV> ykRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, yk=xk
+    boundProjection(xkRcp);                                                 // the initial guess must be feasible
+    Teuchos::RCP<TV> ykRcp = Teuchos::rcp(new TV(*xkRcp, Teuchos::Copy));   // deep copy, yk=xk
 
     Teuchos::RCP<TV> xkp1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));
     Teuchos::RCP<TV> ykp1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));
@@ -286,7 +287,11 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
     double Lk = (tempNorm2 / xkdiffNorm2);
+    if (!(Lk > 10 * std::numeric_limits<double>::epsilon())) {
+        Lk = 1.0; // x0 is the vector of ones or A(x0-1)=0, prevent div 0 error
+    }
     double tk = 1.0 / Lk;
+    xhatkRcp->update(1.0, *xkRcp, 0.0); // best solution so far, line 1 of Mazhar is done with the vector of ones
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
     Teuchos::RCP<TV> Axbkp1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));
-- 
2.43.0


From d3c12cbc02dda9497c74d81df4deefab507239a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 05/19] fix: solution exactly on a bound of large magnitude was
 reported as a projection error

---
 Constraint/BCQPSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index db2bbe4..83e2a8f 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -484,9 +484,9 @@ double BCQPSolver::checkProjectionResidual(const Teuchos::RCP<const TV> &XRcp, c
 // EQ 2.2 of Dai & Fletcher 2005
 #pragma omp parallel for
     for (int i = 0; i < ibound; i++) {
-        if (xPtr(i, c) < lbPtr(i, c) + eps) {
+        if (xPtr(i, c) <= lbPtr(i, c) + eps) {
             qPtr(i, c) = std::min(yPtr(i, c), 0.0);
-        } else if (xPtr(i, c) > ubPtr(i, c) - eps) {
+        } else if (xPtr(i, c) >= ubPtr(i, c) - eps) {
             qPtr(i, c) = std::max(yPtr(i, c), 0.0);
         } else if (xPtr(i, c) > lbPtr(i, c) && xPtr(i, c) < ubPtr(i, c)) {
             qPtr(i, c) = yPtr(i, c);
-- 
2.43.0


From 2371a0e1992115502bd51c26706c04a9eae503e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 06/19] fix: LCP_BBPGD returned infeasible initial guesses, and
 the previous iterate when out of iterations

---
 Collision/CPSolver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index d76ab13..193b1a8 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -302,8 +302,9 @@ int CPSolver::LCP_BBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int i
     // map must match
     TEUCHOS_TEST_FOR_EXCEPTION(!this->mapRcp->isSameAs(*(xsolRcp->getMap())), std::invalid_argument,
                                "xsolrcp and A operator do not have the same Map.");
-    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy));   // deep copy, xk=x0
-    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xkm1=x0
+    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xk=x0
+    clipZero(xkRcp);                                                        // the initial guess must be feasible
+    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xkRcp, Teuchos::Copy)); // deep copy, xkm1=x0
 
     Teuchos::RCP<TV> gradkRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));   // the grad vector
     Teuchos::RCP<TV> gradkm1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // the grad vector
@@ -387,6 +388,10 @@ int CPSolver::LCP_BBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int i
 
         alpha = a / b; // new step size
 
+        if (iteCount == iteMax) {
+            break; // no more iterations, keep xk as the solution
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
-- 
2.43.0


From ea14506ad1a84297b2fc977205d2e955d6ea5be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 07/19] fix: LCP_APGD returned the vector of ones or looped
 forever for some initial guesses

---
 Collision/CPSolver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index 193b1a8..a97ee33 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -417,7 +417,8 @@ int CPSolver::LCP_APGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int it
 
     // allocate vectors
     Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy
-    Teuchos::RCP<TV> ykRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, yk=xk
+    clipZero(xkRcp);                                                        // the initial guess must be feasible
+    Teuchos::RCP<TV> ykRcp = Teuchos::rcp(new TV(*xkRcp, Teuchos::Copy));   // deep copy, yk=xk
 
     Teuchos::RCP<TV> xkp1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));
     Teuchos::RCP<TV> ykp1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));
@@ -443,7 +444,11 @@ int CPSolver::LCP_APGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int it
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
     double Lk = (tempNorm2 / xkdiffNorm2);
+    if (!(Lk > 10 * std::numeric_limits<double>::epsilon())) {
+        Lk = 1.0; // x0 is the vector of ones or A(x0-1)=0, prevent div 0 error
+    }
     double tk = 1.0 / Lk;
+    xhatkRcp->update(1.0, *xkRcp, 0.0); // best solution so far, line 1 of Mazhar is done with the vector of ones
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
     Teuchos::RCP<TV> Axbkp1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));
-- 
2.43.0


From 1d8cf3ec0aa935b8b4d8da44c88f209c0a202e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 08/19] fix: LCP_mmNewton tested convergence on the previous
 iterate, uninitialized at first

---
 Collision/CPSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index a97ee33..4da6d27 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -676,7 +676,7 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
         double resxMax = tempVecRcp->normInf();
         tempVecRcp->update(1.0, *yRcp, -1.0, *ykRcp, 0.0);
         double resAxbMax = tempVecRcp->normInf();
-        double resPhi = checkResiduePhi(xkRcp, ykRcp, tempVecRcp);
+        double resPhi = checkResiduePhi(xRcp, yRcp, tempVecRcp);
         history.push_back(std::array<double, 6>{{1.0 * iteCount, resxMax, resAxbMax, tk, resPhi, 1.0 * mvCount}});
         if (tk > 0 && fabs(resxMax) < tol && fabs(resAxbMax) < tol && fabs(resPhi) < tol) {
             // converge, stop
@@ -684,7 +684,7 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
         }
 #else
         // use simple phi tolerance check
-        double resPhi = checkResiduePhi(xkRcp, ykRcp, tempVecRcp);
+        double resPhi = checkResiduePhi(xRcp, yRcp, tempVecRcp);
         history.push_back(std::array<double, 6>{{1.0 * iteCount, 0, 0, tk, resPhi, 1.0 * mvCount}});
         if (tk > 0 && fabs(resPhi) < tol) {
             break;
-- 
2.43.0


From f5ac2390f53962f3985d15fe37a4ed7450d4a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 09/19] fix: unilateral force and velocity were those of the
 operator's last input, not of the solution

---
 Constraint/ConstraintSolver.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Constraint/ConstraintSolver.cpp b/Constraint/ConstraintSolver.cpp
index d03baff..427babf 100644
--- a/Constraint/ConstraintSolver.cpp
+++ b/Constraint/ConstraintSolver.cpp
@@ -98,10 +98,11 @@ void ConstraintSolver::solveConstraints() {
     DMatRcp->apply(*gammaBiRcp, *forcebRcp);
     mobOpRcp->apply(*forcebRcp, *velbRcp);
     // unilateral second
-    Teuchos::RCP<TV> forceRcp = MOpRcp->getForce();
-    Teuchos::RCP<TV> velRcp = MOpRcp->getVel();
-    forceuRcp->update(1.0, *forceRcp, -1.0, *forcebRcp, 0.0); // force_u = force - force_b
-    veluRcp->update(1.0, *velRcp, -1.0, *velbRcp, 0.0);       // vel_u = vel - vel_b
+    // the last vector MOpRcp was applied to is not necessarily the solution, APGD returns its best iterate
+    Teuchos::RCP<TV> gammaUniRcp = Teuchos::rcp(new TV(gammaRcp->getMap(), true));
+    gammaUniRcp->update(1.0, *gammaRcp, -1.0, *gammaBiRcp, 0.0); // gamma_u = gamma - gamma_b
+    DMatRcp->apply(*gammaUniRcp, *forceuRcp);
+    mobOpRcp->apply(*forceuRcp, *veluRcp);
 }
 
 void ConstraintSolver::writebackGamma() { conCollector.writeBackGamma(gammaRcp.getConst()); }
\ No newline at end of file
-- 
2.43.0


From fb18f0063732708033a01894eaeec6f2ea33c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:36 +0000
Subject: [PATCH 10/19] fix: near-neighbour search radius ignored the collision
 radius

---
 Sylinder/SylinderNear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderNear.hpp b/Sylinder/SylinderNear.hpp
index a8c3959..383cc3d 100644
--- a/Sylinder/SylinderNear.hpp
+++ b/Sylinder/SylinderNear.hpp
@@ -106,7 +106,7 @@ struct SylinderNearEP {
      * @return PS::F64
      */
     PS::F64 getRSearch() const {
-        return std::max(length + 2 * radius, lengthCollision + 2 * lengthCollision) * (1 + colBuf);
+        return std::max(length + 2 * radius, lengthCollision + 2 * radiusCollision) * (1 + colBuf);
     }
 
     /**
-- 
2.43.0


From 10cf0ac3c7f0ec78831a347f9e9e144fa359e99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:51 +0000
Subject: [PATCH 11/19] fix: periodic image of a position just below the box
 was rounded to the excluded upper bound

---
 Util/GeoUtil.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Util/GeoUtil.hpp b/Util/GeoUtil.hpp
index 6247f85..49a1030 100644
--- a/Util/GeoUtil.hpp
+++ b/Util/GeoUtil.hpp
@@ -32,6 +32,10 @@ inline void findPBCImage(const Real &lb, const Real &ub, Real &x) {
     while (x < lb) {
         x += L;
     }
+    // x slightly less than lb may be rounded to ub
+    if (x >= ub) {
+        x = lb;
+    }
 }
 
 /**
-- 
2.43.0


From d8731b7b1d0acd0190eb23c3060e0efdaef3829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:23 +0000
Subject: [PATCH 12/19] fix: in monolayer mode remove the out-of-plane Brownian
 velocity from the particles too

The particles moved with velBrown as generated, although the constraints
were solved for the Brownian velocity with these components set to zero.
---
 Sylinder/SylinderSystem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index a95ae57..84d5e42 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -793,6 +793,11 @@ void SylinderSystem::calcVelocityNonCon() {
                 velBPtr(6 * i + 2, 0) = 0; // vz
                 velBPtr(6 * i + 3, 0) = 0; // omegax
                 velBPtr(6 * i + 4, 0) = 0; // omegay
+                // the particle moves with the same Brownian velocity
+                auto &sy = sylinderContainer[i];
+                sy.velBrown[2] = 0;
+                sy.omegaBrown[0] = 0;
+                sy.omegaBrown[1] = 0;
             }
         }
         velocityNonConRcp->update(1.0, *velocityBrownRcp, 1.0);
-- 
2.43.0


From d70195cba4f8639932d0fe6594f53884a2ac364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:20 +0000
Subject: [PATCH 13/19] fix: test spheres against boundaries with their
 effective radius

A particle shaped as a sphere has radius lengthCollision/2+radiusCollision,
which the gap uses, but the near check used radiusCollision alone, so that a
sphere overlapping the boundary by up to half its length got no constraint.
---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 84d5e42..6353652 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1128,7 +1128,7 @@ void SylinderSystem::collectBoundaryCollision() {
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
                     } else if (deltanorm <
-                               (1 + runConfig.sylinderColBuf * 2) * sy.radiusCollision) { // inside boundary but close
+                               (1 + runConfig.sylinderColBuf * 2) * radius) { // inside boundary but close
                         que.emplace_back(deltanorm - radius, 0, sy.gid, sy.gid, sy.globalIndex, sy.globalIndex,
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
-- 
2.43.0


From 70cbb15fdea5bcaefc4afcf10340bba531b34a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:02 +0000
Subject: [PATCH 14/19] fix: rounding of a half-box link ended the program

When the two nearest images of the linked particle are equally far, the
distance exceeds half of the box by rounding for some positions and the
check called exit(1).
---
 Sylinder/SylinderSystem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 6353652..7af75f1 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1444,8 +1444,9 @@ void SylinderSystem::collectLinkBilateral() {
                     double xk = centerJ[k];
                     findPBCImage(runConfig.simBoxLow[k], runConfig.simBoxHigh[k], xk, trg);
                     centerJ[k] = xk;
-                    // error check
-                    if (fabs(trg - xk) > 0.5 * (runConfig.simBoxHigh[k] - runConfig.simBoxLow[k])) {
+                    // error check, with a tolerance for rounding when two images are equally far
+                    const double tol = 1e-12 * (fabs(runConfig.simBoxHigh[k]) + fabs(runConfig.simBoxLow[k]) + fabs(trg));
+                    if (fabs(trg - xk) > 0.5 * (runConfig.simBoxHigh[k] - runConfig.simBoxLow[k]) + tol) {
                         spdlog::critical("pbc image error in bilateral links");
                         std::exit(1);
                     }
-- 
2.43.0


From 48d13730c86e8144c55cf02f15475f9719d62c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:59 +0000
Subject: [PATCH 15/19] fix: links of an earlier configuration stayed in the
 reverse link table

setLinkMapFromFile cleared the forward table only.
---
 Sylinder/SylinderSystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 7af75f1..4d680c6 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -390,6 +390,7 @@ void SylinderSystem::setLinkMapFromFile(const std::string &filename) {
     std::getline(myfile, line);
 
     linkMap.clear();
+    linkReverseMap.clear();
     while (std::getline(myfile, line)) {
         if (line[0] == 'L') {
             Link link;
-- 
2.43.0


From 23a694213aeb5dc30fdfe341d0c73d47e033e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:58 +0000
Subject: [PATCH 16/19] fix: adding a link again doubled it

addNewLink is documented to remove duplicates, but a link given twice, by
two ranks or in addition to an earlier one was stored and applied twice.
---
 Sylinder/SylinderSystem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 4d680c6..cd8f2db 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -6,6 +6,7 @@
 #include "Util/IOHelper.hpp"
 #include "Util/Logger.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstdio>
 #include <fstream>
@@ -1368,6 +1369,10 @@ void SylinderSystem::addNewLink(const std::vector<Link> &newLink) {
 
     // put newLinks into the map, same op on all mpi ranks
     for (const auto &ll : newLinkRecv) {
+        // skip links already in the map
+        const auto range = linkMap.equal_range(ll.prev);
+        if (std::any_of(range.first, range.second, [&](const std::pair<const int, int> &kv) { return kv.second == ll.next; }))
+            continue;
         linkMap.emplace(ll.prev, ll.next);
         linkReverseMap.emplace(ll.next, ll.prev);
     }
-- 
2.43.0


From 69dfe8c33028a77b64944929e5821c1ba12c03b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:49 +0000
Subject: [PATCH 17/19] fix: snapshot interval in steps was truncated

0.3 / 0.1 became 2 steps, and an interval shorter than a step was a
division by zero.
---
 Sylinder/SylinderSystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index cd8f2db..96cda95 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -887,7 +887,9 @@ void SylinderSystem::updateSylinderMap() {
 }
 
 bool SylinderSystem::getIfWriteResultCurrentStep() {
-    return (stepCount % static_cast<int>(runConfig.timeSnap / runConfig.dt) == 0);
+    // round the quotient, e.g. 0.3 / 0.1 is slightly less than 3
+    const int snapSteps = std::max(1, static_cast<int>(std::lround(runConfig.timeSnap / runConfig.dt)));
+    return stepCount % snapSteps == 0;
 }
 
 void SylinderSystem::prepareStep() {
-- 
2.43.0


From 927a01461752b48dc95cbcbe055a86c3759cc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:04 +0000
Subject: [PATCH 18/19] fix: bounding box of particles at negative coordinates
 reached up to zero

numeric_limits<double>::min() is the smallest positive number.
---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 96cda95..129f094 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1187,7 +1187,7 @@ void SylinderSystem::calcBoundingBox(double localLow[3], double localHigh[3], do
     double lx, ly, lz;
     lx = ly = lz = std::numeric_limits<double>::max();
     double hx, hy, hz;
-    hx = hy = hz = std::numeric_limits<double>::min();
+    hx = hy = hz = std::numeric_limits<double>::lowest();
 
     for (int i = 0; i < nLocal; i++) {
         const auto &sy = sylinderContainer[i];
-- 
2.43.0


From b8eb23b98a1b12886e720e35b51ded5c7970c040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:30 +0000
Subject: [PATCH 19/19] fix: a particle on the upper box face was moved below
 the lower one by rounding

---
 FDPS/particle_system.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FDPS/particle_system.hpp b/FDPS/particle_system.hpp
index 8c54951..8c3032b 100644
--- a/FDPS/particle_system.hpp
+++ b/FDPS/particle_system.hpp
@@ -815,7 +815,7 @@ namespace ParticleSimulator{
                     while(pos_new.x >= pos_root.high_.x){
                         pos_new.x -= len_root.x;
                     }
-                    if(pos_new.x == pos_root.high_.x){
+                    if(pos_new.x < pos_root.low_.x){ // high - (high - low), rounded
                         pos_new.x = pos_root.low_.x;
                     }
                     while(pos_new.y < pos_root.low_.y){
@@ -824,7 +824,7 @@ namespace ParticleSimulator{
                     while(pos_new.y >= pos_root.high_.y){
                         pos_new.y -= len_root.y;
                     }
-                    if(pos_new.y == pos_root.high_.y){
+                    if(pos_new.y < pos_root.low_.y){ // high - (high - low), rounded
                         pos_new.y = pos_root.low_.y;
                     }
 #ifndef PARTICLE_SIMULATOR_TWO_DIMENSION
@@ -834,7 +834,7 @@ namespace ParticleSimulator{
                     while(pos_new.z >= pos_root.high_.z){
                         pos_new.z -= len_root.z;
                     }
-                    if(pos_new.z == pos_root.high_.z){
+                    if(pos_new.z < pos_root.low_.z){ // high - (high - low), rounded
                         pos_new.z = pos_root.low_.z;
                     }
 #endif
-- 
2.43.0

