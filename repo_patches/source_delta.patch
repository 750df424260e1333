From 155a40d1c73834766c21eb7867a9d6c6f1b37f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 01/39] fix: upper bounds of the quadprog adapter were written
 out of a matrix 3 rows too small

---
 src/solver-abstract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver-abstract.cpp b/src/solver-abstract.cpp
index 3d9e513..88061f2 100644
--- a/src/solver-abstract.cpp
+++ b/src/solver-abstract.cpp
@@ -59,7 +59,7 @@ void addConstraintMaxBoundQuadProg(solvers::Cref_vectorX maxBounds,
   if (maxBounds.size() == 0) return;
   MatrixXd& res = data.first;
   VectorXd& resv = data.second;
-  MatrixXd D(res.rows() + res.cols() - 3, res.cols());
+  MatrixXd D(res.rows() + res.cols(), res.cols());
   VectorXd d(resv.rows() + res.cols());
   D.block(0, 0, res.rows(), res.cols()) = res;
   D.block(res.rows(), 0, res.cols(), res.cols()) =
-- 
2.43.0


From b1a7c33082edfad7670c5a6bedba0477f74ef8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 02/39] fix: the glpk adapter overflowed fixed size buffers on
 large problems

---
 src/glpk-wrapper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index f331379..3897574 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -20,6 +20,7 @@
 #include <glpk.h>
 
 #include <iostream>
+#include <vector>
 
 namespace solvers {
 
@@ -44,9 +45,10 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   glp_init_smcp(&opts);
   opts.msg_lev = GLP_MSG_OFF;
   glp_prob* lp;
-  int ia[1 + 20000];       // Row indices of each element
-  int ja[1 + 20000];       // column indices of each element
-  double ar[1 + 20000];    // numerical values of corresponding elements
+  const size_t maxNonZeros = (size_t)(CI.size() + CE.size());
+  std::vector<int> ia(1 + maxNonZeros);     // Row indices of each element
+  std::vector<int> ja(1 + maxNonZeros);     // column indices of each element
+  std::vector<double> ar(1 + maxNonZeros);  // values of each element
   lp = glp_create_prob();  // creates a problem object
   glp_set_prob_name(lp,
                     "sample");  // assigns a symbolic name to the problem object
@@ -96,7 +98,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
     glp_set_col_bnds(lp, idcol, getType(miB, maB, i), miB(i), maB(i));
     glp_set_obj_coef(lp, idcol, g0(i));
   }
-  glp_load_matrix(lp, idConsMat - 1, ia, ja, ar);
+  glp_load_matrix(lp, idConsMat - 1, ia.data(), ja.data(), ar.data());
 
   int res = glp_simplex(lp, &opts);
   res = glp_get_status(lp);
-- 
2.43.0


From f469add008d247496e03542794a2dc465e0573fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 03/39] fix: angular momentum rows of the zero step problem
 used the kinematic constraints

---
 src/common_solve_methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 7d534b9..0750880 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -124,7 +124,7 @@ std::pair<MatrixXX, VectorX> compute6dControlPointInequalities(
     ++i;
   }
   addKinematic(A, b, cData.Kin_, cData.kin_, dimAng);
-  if (useAngMomentum) addAngularMomentum(A, b, cData.Kin_, cData.kin_);
+  if (useAngMomentum) addAngularMomentum(A, b, cData.Ang_, cData.ang_);
   fail = false;
   // normalization removes 0 value rows, but resizing
   // must actually be done with matrices and not the references
-- 
2.43.0


From 78fe9f4e98e3e6f456bf1f87c68977df1473ceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 04/39] fix: the target end velocity cost was rejected for
 every set of constraints

---
 src/costfunction_definition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/costfunction_definition.cpp b/src/costfunction_definition.cpp
index de97f85..fdbfae7 100644
--- a/src/costfunction_definition.cpp
+++ b/src/costfunction_definition.cpp
@@ -24,7 +24,7 @@ void computeCostMidPoint(const ProblemData& pData, const VectorX& /*Ts*/,
 void computeCostEndVelocity(const ProblemData& pData, const VectorX& /*Ts*/,
                             const double T, const T_time& /*timeArray*/,
                             MatrixXX& H, VectorX& g) {
-  if (pData.constraints_.flag_ && END_VEL)
+  if (pData.constraints_.flag_ & END_VEL)
     throw std::runtime_error(
         "Can't use computeCostEndVelocity as cost function when end velocity "
         "is a contraint");
-- 
2.43.0


From 8306104216633771b556794e3debafc92f690f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 05/39] fix: constant waypoints equal to zero were taken for
 the free waypoint

---
 src/waypoints_definition.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index a5b9db1..abba45a 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -299,14 +299,23 @@ bezier_wp_t::t_point_t computeConstantWaypointsSymbolic(
   const int DIM_POINT = 3;  // FIXME : always true ??
   const int DIM_VAR = dimVar(pData);
   std::vector<point_t> pts = computeConstantWaypoints(pData, T);
+  // the free waypoints follow the ones set by the initial constraints
+  const ConstraintFlag flag = pData.constraints_.flag_;
+  const int firstFree = ((flag & INIT_POS) ? 1 : 0) +
+                        ((flag & INIT_VEL) ? 1 : 0) +
+                        ((flag & INIT_ACC) ? 1 : 0) +
+                        ((flag & INIT_JERK) ? 1 : 0);
+  // stopping at a free position repeats the free waypoint
+  const bool repeated = (flag & END_VEL) && !(flag & END_POS);
+  const int numFree = repeated ? 2 : DIM_VAR / DIM_POINT;
   bezier_wp_t::t_point_t wps;
-  for (std::vector<point_t>::const_iterator pit = pts.begin(); pit != pts.end();
-       ++pit) {
+  for (int i = 0; i < (int)pts.size(); ++i) {
     waypoint_t w = initwp(DIM_POINT, DIM_VAR);
-    if (pit->isZero()) {
-      w.first = MatrixXX::Identity(DIM_POINT, DIM_VAR);
+    if (i >= firstFree && i < firstFree + numFree) {
+      const int column = repeated ? 0 : DIM_POINT * (i - firstFree);
+      w.first.block<3, 3>(0, column) = Matrix3::Identity();
     } else {
-      w.second = *pit;
+      w.second = pts[i];
     }
     wps.push_back(w);
   }
-- 
2.43.0


From 4896d21528516daf42eb6c54cec99d919cad25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 06/39] fix: the curve built from the waypoints ignored the
 jerk constraints

---
 include/hpp/bezier-com-traj/utils.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/hpp/bezier-com-traj/utils.hh b/include/hpp/bezier-com-traj/utils.hh
index 20a58d2..a6fa37e 100644
--- a/include/hpp/bezier-com-traj/utils.hh
+++ b/include/hpp/bezier-com-traj/utils.hh
@@ -125,6 +125,10 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
       if (flag & INIT_ACC) {
         wps.push_back(pi[i]);
         i++;
+        if (flag & INIT_JERK) {
+          wps.push_back(pi[i]);
+          i++;
+        }
       }
     }
   }
@@ -134,6 +138,13 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
     wps.push_back(x);
     i++;
   } else {
+    if (flag & END_JERK) {
+      assert(flag & END_ACC &&
+             "You cannot constrain final jerk if final acceleration is not "
+             "constrained.");
+      wps.push_back(pi[i]);
+      i++;
+    }
     if (flag & END_ACC) {
       assert(flag & END_VEL &&
              "You cannot constrain final acceleration if final velocity is not "
-- 
2.43.0


From 8c50925ac25b6520f9d3e598460840e613abfa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 07/39] fix: evaluators of the jerk constrained curve used the
 final point in place of the initial one

---
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 54480f4..fcef65f 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -21,8 +21,8 @@ static const size_t DIM_POINT = 3;
 /**
  * @brief evaluateCurveAtTime compute the expression of the point on the curve
  * at t, defined by the waypoint pi and one free waypoint (x)
- * @param pi constant waypoints of the curve, assume pi[8] pi[1] pi[2] pi[3] x
- * pi[4] pi[5] pi[6] pi[7]
+ * @param pi constant waypoints of the curve, assume pi[0] pi[1] pi[2] pi[3] x
+ * pi[5] pi[6] pi[7] pi[8]
  * @param t param (normalized !)
  * @return the expression of the waypoint such that wp.first . x + wp.second =
  * point on curve
@@ -38,9 +38,9 @@ inline coefs_t evaluateCurveAtTime(const std::vector<point_t>& pi, double t) {
   const double t8 = t7 * t;
   // equation found with sympy
   wp.first = 70.0 * t8 - 280.0 * t7 + 420.0 * t6 - 280.0 * t5 + 70.0 * t4;
-  wp.second = 1.0 * pi[8] * t8 - 8.0 * pi[8] * t7 + 28.0 * pi[8] * t6 -
-              56.0 * pi[8] * t5 + 70.0 * pi[8] * t4 - 56.0 * pi[8] * t3 +
-              28.0 * pi[8] * t2 - 8.0 * pi[8] * t + 1.0 * pi[8] -
+  wp.second = 1.0 * pi[0] * t8 - 8.0 * pi[0] * t7 + 28.0 * pi[0] * t6 -
+              56.0 * pi[0] * t5 + 70.0 * pi[0] * t4 - 56.0 * pi[0] * t3 +
+              28.0 * pi[0] * t2 - 8.0 * pi[0] * t + 1.0 * pi[0] -
               8.0 * pi[1] * t8 + 56.0 * pi[1] * t7 - 168.0 * pi[1] * t6 +
               280.0 * pi[1] * t5 - 280.0 * pi[1] * t4 + 168.0 * pi[1] * t3 -
               56.0 * pi[1] * t2 + 8.0 * pi[1] * t + 28.0 * pi[2] * t8 -
@@ -69,9 +69,9 @@ inline coefs_t evaluateVelocityCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       (560.0 * t7 - 1960.0 * t6 + 2520.0 * t5 - 1400.0 * t4 + 280.0 * t3) *
       alpha;
-  wp.second = (8.0 * pi[8] * t7 - 56.0 * pi[8] * t6 + 168.0 * pi[8] * t5 -
-               280.0 * pi[8] * t4 + 280.0 * pi[8] * t3 - 168.0 * pi[8] * t2 +
-               56.0 * pi[8] * t - 8.0 * pi[8] - 64.0 * pi[1] * t7 +
+  wp.second = (8.0 * pi[0] * t7 - 56.0 * pi[0] * t6 + 168.0 * pi[0] * t5 -
+               280.0 * pi[0] * t4 + 280.0 * pi[0] * t3 - 168.0 * pi[0] * t2 +
+               56.0 * pi[0] * t - 8.0 * pi[0] - 64.0 * pi[1] * t7 +
                392.0 * pi[1] * t6 - 1008.0 * pi[1] * t5 + 1400.0 * pi[1] * t4 -
                1120.0 * pi[1] * t3 + 504.0 * pi[1] * t2 - 112.0 * pi[1] * t +
                8.0 * pi[1] + 224.0 * pi[2] * t7 - 1176.0 * pi[2] * t6 +
@@ -99,9 +99,9 @@ inline coefs_t evaluateAccelerationCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       ((3920.0 * t6 - 11760.0 * t5 + 12600.0 * t4 - 5600.0 * t3 + 840.0 * t2)) *
       alpha;
-  wp.second = (56.0 * pi[8] * t6 - 336.0 * pi[8] * t5 + 840.0 * pi[8] * t4 -
-               1120.0 * pi[8] * t3 + 840.0 * pi[8] * t2 - 336.0 * pi[8] * t +
-               56.0 * pi[8] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
+  wp.second = (56.0 * pi[0] * t6 - 336.0 * pi[0] * t5 + 840.0 * pi[0] * t4 -
+               1120.0 * pi[0] * t3 + 840.0 * pi[0] * t2 - 336.0 * pi[0] * t +
+               56.0 * pi[0] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
                5040.0 * pi[1] * t4 + 5600.0 * pi[1] * t3 - 3360.0 * pi[1] * t2 +
                1008.0 * pi[1] * t - 112.0 * pi[1] + 1568.0 * pi[2] * t6 -
                7056.0 * pi[2] * t5 + 12600.0 * pi[2] * t4 -
-- 
2.43.0


From 2b905b38b3319506ca7dca0096f279e88aa8b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 08/39] fix: wrong control point in the acceleration waypoints
 of the jerk constrained curve

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index fcef65f..efd164c 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -436,7 +436,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
   w.first = -112 * alpha * Matrix3::Identity();
-  w.second = (56 * pi[3] + 56 * pi[8]) * alpha;
+  w.second = (56 * pi[3] + 56 * pi[5]) * alpha;
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w4:
-- 
2.43.0


From 321135f434579e6953254446ba545d731e003614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 09/39] fix: the wrench waypoints of the jerk constrained curve
 were those of a curve of degree 6

---
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 182 ++++--------------
 1 file changed, 34 insertions(+), 148 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index efd164c..88ebc66 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -210,157 +210,43 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   bezier_wp_t::t_point_t wps;
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
+  const int FREE = 4;  // index of the free waypoint
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
-  std::vector<Matrix3> Cpi;
-  for (std::size_t i = 0; i < pi.size(); ++i) {
-    Cpi.push_back(skew(pi[i]));
-  }
+  const int n = (int)pi.size() - 1;
   const Vector3 g = pData.contacts_.front().contactPhase_->m_gravity;
-  const Matrix3 Cg = skew(g);
-  const double T2 = T * T;
-  const double alpha = 1 / (T2);
+  const double alpha = n * (n - 1) / (T * T);
 
-  // equation of waypoints for curve w found with sympy
-  waypoint_t w0 = initwp(DIM_POINT, DIM_VAR);
-  w0.second.head<3>() = (30 * pi[0] - 60 * pi[1] + 30 * pi[2]) * alpha;
-  w0.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[0] - 60.0 * Cpi[0] * pi[1] + 30.0 * Cpi[0] * pi[2]) *
-      alpha;
-  wps.push_back(w0);
-  waypoint_t w1 = initwp(DIM_POINT, DIM_VAR);
-  w1.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w1.first.block<3, 3>(3, 0) = 13.3333333333333 * Cpi[0] * alpha;
-  w1.second.head<3>() =
-      1.0 * (16.6666666666667 * pi[0] - 20.0 * pi[1] - 10.0 * pi[2]) * alpha;
-  w1.second.tail<3>() = 1.0 *
-                        (0.333333333333333 * Cg * T2 * pi[0] +
-                         0.666666666666667 * Cg * T2 * pi[1] -
-                         30.0 * Cpi[0] * pi[2] + 20.0 * Cpi[1] * pi[2]) *
-                        alpha;
-  wps.push_back(w1);
-  waypoint_t w2 = initwp(DIM_POINT, DIM_VAR);
-  w2.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w2.first.block<3, 3>(3, 0) =
-      1.0 * (-13.3333333333333 * Cpi[0] + 20.0 * Cpi[1]) * alpha;
-  w2.second.head<3>() =
-      1.0 * (8.33333333333333 * pi[0] - 20.0 * pi[2] + 5.0 * pi[4]) * alpha;
-  w2.second.tail<3>() =
-      1.0 *
-      (0.0833333333333334 * Cg * T2 * pi[0] + 0.5 * Cg * T2 * pi[1] +
-       0.416666666666667 * Cg * T2 * pi[2] + 5.0 * Cpi[0] * pi[4] -
-       20.0 * Cpi[1] * pi[2]) *
-      alpha;
-  wps.push_back(w2);
-  waypoint_t w3 = initwp(DIM_POINT, DIM_VAR);
-  w3.first.block<3, 3>(0, 0) = -5.71428571428572 * alpha * Matrix3::Identity();
-  w3.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 - 20.0 * Cpi[1] +
-                                14.2857142857143 * Cpi[2]) *
-                               alpha;
-  w3.second.head<3>() = 1.0 *
-                        (3.57142857142857 * pi[0] + 7.14285714285714 * pi[1] -
-                         14.2857142857143 * pi[2] + 7.85714285714286 * pi[4] +
-                         1.42857142857143 * pi[5]) *
-                        alpha;
-  w3.second.tail<3>() =
-      1.0 *
-      (0.0119047619047619 * Cg * T2 * pi[0] +
-       0.214285714285714 * Cg * T2 * pi[1] +
-       0.535714285714286 * Cg * T2 * pi[2] - 5.0 * Cpi[0] * pi[4] +
-       1.42857142857143 * Cpi[0] * pi[5] + 12.8571428571429 * Cpi[1] * pi[4]) *
-      alpha;
-  wps.push_back(w3);
-  waypoint_t w4 = initwp(DIM_POINT, DIM_VAR);
-  w4.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w4.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[2]) * alpha;
-  w4.second.head<3>() = 1.0 *
-                        (1.19047619047619 * pi[0] + 7.14285714285714 * pi[1] -
-                         3.57142857142857 * pi[2] + 5.0 * pi[4] +
-                         4.28571428571429 * pi[5] + 0.238095238095238 * pi[6]) *
-                        alpha;
-  w4.second.tail<3>() =
-      1.0 *
-      (0.0476190476190471 * Cg * T2 * pi[1] +
-       0.357142857142857 * Cg * T2 * pi[2] +
-       0.119047619047619 * Cg * T2 * pi[4] - 1.42857142857143 * Cpi[0] * pi[5] +
-       0.238095238095238 * Cpi[0] * pi[6] - 12.8571428571429 * Cpi[1] * pi[4] +
-       5.71428571428571 * Cpi[1] * pi[5] + 17.8571428571429 * Cpi[2] * pi[4]) *
-      alpha;
-  wps.push_back(w4);
-  waypoint_t w5 = initwp(DIM_POINT, DIM_VAR);
-  w5.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w5.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[4]) * alpha;
-  w5.second.head<3>() = 1.0 *
-                        (0.238095238095238 * pi[0] + 4.28571428571429 * pi[1] +
-                         5.0 * pi[2] - 3.57142857142857 * pi[4] +
-                         7.14285714285714 * pi[5] + 1.19047619047619 * pi[6]) *
-                        alpha;
-  w5.second.tail<3>() =
-      1.0 *
-      (+0.11904761904762 * Cg * T2 * pi[2] +
-       0.357142857142857 * Cg * T2 * pi[4] +
-       0.0476190476190476 * Cg * T2 * pi[5] -
-       0.238095238095238 * Cpi[0] * pi[6] - 5.71428571428572 * Cpi[1] * pi[5] +
-       1.42857142857143 * Cpi[1] * pi[6] - 17.8571428571429 * Cpi[2] * pi[4] +
-       12.8571428571429 * Cpi[2] * pi[5]) *
-      alpha;
-  wps.push_back(w5);
-  waypoint_t w6 = initwp(DIM_POINT, DIM_VAR);
-  w6.first.block<3, 3>(0, 0) = -5.71428571428571 * alpha * Matrix3::Identity();
-  w6.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 +
-                                14.2857142857143 * Cpi[4] - 20.0 * Cpi[5]) *
-                               alpha;
-  w6.second.head<3>() = 1.0 *
-                        (1.42857142857143 * pi[1] + 7.85714285714286 * pi[2] -
-                         14.2857142857143 * pi[4] + 7.14285714285715 * pi[5] +
-                         3.57142857142857 * pi[6]) *
-                        alpha;
-  w6.second.tail<3>() =
-      1.0 *
-      (0.535714285714286 * Cg * T2 * pi[4] +
-       0.214285714285714 * Cg * T2 * pi[5] +
-       0.0119047619047619 * Cg * T2 * pi[6] -
-       1.42857142857143 * Cpi[1] * pi[6] - 12.8571428571429 * Cpi[2] * pi[5] +
-       5.0 * Cpi[2] * pi[6]) *
-      alpha;
-  wps.push_back(w6);
-  waypoint_t w7 = initwp(DIM_POINT, DIM_VAR);
-  w7.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w7.first.block<3, 3>(3, 0) =
-      1.0 * (20.0 * Cpi[5] - 13.3333333333333 * Cpi[6]) * alpha;
-  w7.second.head<3>() =
-      1.0 * (5.0 * pi[2] - 20.0 * pi[4] + 8.33333333333333 * pi[6]) * alpha;
-  w7.second.tail<3>() =
-      1.0 *
-      (0.416666666666667 * Cg * T2 * pi[4] + 0.5 * Cg * T2 * pi[5] +
-       0.0833333333333333 * Cg * T2 * pi[6] - 5.0 * Cpi[2] * pi[6] +
-       20.0 * Cpi[4] * pi[5]) *
-      alpha;
-  wps.push_back(w7);
-  waypoint_t w8 = initwp(DIM_POINT, DIM_VAR);
-  w8.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w8.first.block<3, 3>(3, 0) = 1.0 * (13.3333333333333 * Cpi[6]) * alpha;
-  w8.second.head<3>() =
-      1.0 *
-      (-9.99999999999999 * pi[4] - 20.0 * pi[5] + 16.6666666666667 * pi[6]) *
-      alpha;
-  w8.second.tail<3>() = 1.0 *
-                        (0.666666666666667 * Cg * T2 * pi[5] +
-                         0.333333333333333 * Cg * T2 * pi[6] -
-                         20.0 * Cpi[4] * pi[5] + 30.0 * Cpi[4] * pi[6]) *
-                        alpha;
-  wps.push_back(w8);
-  waypoint_t w9 = initwp(DIM_POINT, DIM_VAR);
-  w9.second.head<3>() = (30 * pi[4] - 60 * pi[5] + 30 * pi[6]) * alpha;
-  w9.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[6] - 30.0 * Cpi[4] * pi[6] + 60.0 * Cpi[5] * pi[6]) *
-      alpha;
-  wps.push_back(w9);
+  // waypoints of ddc : alpha * (p[j] - 2 * p[j+1] + p[j+2])
+  std::vector<double> ddcX;
+  std::vector<Vector3> ddcS;
+  for (int j = 0; j < n - 1; ++j) {
+    double x = 0.;
+    if (j == FREE || j + 2 == FREE) x = alpha;
+    if (j + 1 == FREE) x = -2. * alpha;
+    ddcX.push_back(x);
+    ddcS.push_back(alpha * (pi[j] - 2. * pi[j + 1] + pi[j + 2]));
+  }
+  // waypoints of w = [ddc; c x (ddc - g)], product of curves of degree n and
+  // n - 2
+  for (int k = 0; k < 2 * n - 1; ++k) {
+    waypoint_t w = initwp(DIM_POINT, DIM_VAR);
+    for (int i = std::max(0, k - n + 2); i <= std::min(n, k); ++i) {
+      const int j = k - i;
+      const double coef = double(ndcurves::bin(n, i)) *
+                          double(ndcurves::bin(n - 2, j)) /
+                          double(ndcurves::bin(2 * n - 2, k));
+      const Vector3 acc = ddcS[j] - g;
+      w.first.block<3, 3>(0, 0) += coef * ddcX[j] * Matrix3::Identity();
+      w.second.head<3>() += coef * ddcS[j];
+      if (i == FREE)
+        w.first.block<3, 3>(3, 0) -= coef * skew(acc);
+      else {
+        w.first.block<3, 3>(3, 0) += coef * ddcX[j] * skew(pi[i]);
+        w.second.tail<3>() += coef * pi[i].cross(acc);
+      }
+    }
+    wps.push_back(w);
+  }
   return wps;
 }
 
-- 
2.43.0


From 2ed7682b881d5408fecfdac1663bca08e78c47ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 10/39] fix: terms of the velocity and acceleration of the
 curve with 3 free waypoints were attached to the wrong powers

---
 ...points_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 3310ae9..f5500bf 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -102,21 +102,21 @@ inline waypoint_t evaluateVelocityCurveWaypointAtTime(
        t * (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2])) +
        t2 * (1.0 * (-360.0 * pi[0] + 1080.0 * pi[1] - 1080.0 * pi[2] +
                     360.0 * pi[3])) +
-       t3 * (1.0 *
+       t8 * (1.0 *
              (-90.0 * pi[0] + 810.0 * pi[1] - 3240.0 * pi[2] + 7560.0 * pi[3] +
               3240.0 * pi[7] - 810.0 * pi[8] + 90.0 * pi[9])) +
-       t4 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
+       t3 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
                     3360.0 * pi[3])) +
-       t5 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
+       t9 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
                     450.0 * pi[2] - 1200.0 * pi[3] - 1200.0 * pi[7] +
                     450.0 * pi[8] - 100.0 * pi[9])) +
-       t6 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
+       t4 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
                     12600.0 * pi[3])) +
-       t7 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
+       t5 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
                     25200.0 * pi[3])) +
-       t8 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
+       t6 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
                     29400.0 * pi[3] + 840.0 * pi[7])) +
-       t9 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
+       t7 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
                     20160.0 * pi[3] - 2880.0 * pi[7] + 360.0 * pi[8]))) *
       alpha;
   return wp;
@@ -153,18 +153,18 @@ inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
                    720.0 * pi[3])) +
        t2 * (1.0 * (2520.0 * pi[0] - 10080.0 * pi[1] + 15120.0 * pi[2] -
                     10080.0 * pi[3])) +
-       t3 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
+       t8 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
                     4050.0 * pi[2] - 10800.0 * pi[3] - 10800.0 * pi[7] +
                     4050.0 * pi[8] - 900.0 * pi[9])) +
-       t4 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
+       t3 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
                     50400.0 * pi[3])) +
-       t5 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
+       t4 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
                     126000.0 * pi[3])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
+       t5 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
                     176400.0 * pi[3] + 5040.0 * pi[7])) +
-       t7 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
+       t6 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
                     141120.0 * pi[3] - 20160.0 * pi[7] + 2520.0 * pi[8])) +
-       t8 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
+       t7 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
                     60480.0 * pi[3] + 25920.0 * pi[7] - 6480.0 * pi[8] +
                     720.0 * pi[9]))) *
       alpha;
-- 
2.43.0


From 5fa2dab72e2535d4ef2654dd6087caa8c27688d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 11/39] fix: acceleration waypoints of the curve with 5 free
 waypoints were wrong and one too many

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh  | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index 830be88..dcfe194 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -371,7 +371,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 132 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 132 * (pi[2] - pi[3]);
+  w.second = alpha * 132 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -401,7 +401,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.first.block<3, 3>(0, 9) = 132 * alpha * Matrix3::Identity();    // x3
   w.first.block<3, 3>(0, 12) = -264 * alpha * Matrix3::Identity();  // x4
-  w.second = alpha * 132 * pi[7];
+  w.second = alpha * 132 * pi[9];
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
@@ -412,7 +412,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w9:
   w.second = alpha * 132 * (pi[9] - 2 * pi[10] + pi[11]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w10:
   w.second = alpha * 132 * (pi[12] + pi[10] - 2 * pi[11]);
-- 
2.43.0


From 70e91809a7882bb399a2523ff439d39ccf5a2045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 12/39] fix: derivatives of the curve with 5 free waypoints
 were those of another curve

---
 ...points_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh | 165 +++---------------
 1 file changed, 29 insertions(+), 136 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index dcfe194..f56c83c 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -86,152 +86,45 @@ inline waypoint_t evaluateCurveWaypointAtTime(const std::vector<point_t>& pi,
   return wp;
 }
 
-// TODO
-inline waypoint_t evaluateVelocityCurveWaypointAtTime(
-    const std::vector<point_t>& pi, double T, double t) {
+/**
+ * @brief evaluateDerivativeWaypointAtTime point at t of a derivative of the
+ * curve, from the finite differences of its control points
+ */
+inline waypoint_t evaluateDerivativeWaypointAtTime(
+    const std::vector<point_t>& pi, double T, double t, const int order) {
   waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
-
-  const double alpha = 1. / (T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  const double t8 = t7 * t;
-  const double t9 = t8 * t;
-
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) = Matrix3::Identity() * alpha;   // x0
-  wp.first.block<3, 3>(0, 3) = Matrix3::Identity() * alpha;   // x1
-  wp.first.block<3, 3>(0, 6) = Matrix3::Identity() * alpha;   // x2
-  wp.first.block<3, 3>(0, 9) = Matrix3::Identity() * alpha;   // x3
-  wp.first.block<3, 3>(0, 12) = Matrix3::Identity() * alpha;  // x4
-
-  wp.second =
-      (1.0 * (-10.0 * pi[0] + 10.0 * pi[1]) +
-       t * (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2])) +
-       t2 * (1.0 * (-360.0 * pi[0] + 1080.0 * pi[1] - 1080.0 * pi[2] +
-                    360.0 * pi[3])) +
-       t3 * (1.0 *
-             (-90.0 * pi[0] + 810.0 * pi[1] - 3240.0 * pi[2] + 7560.0 * pi[3] +
-              3240.0 * pi[7] - 810.0 * pi[8] + 90.0 * pi[9])) +
-       t4 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
-                    3360.0 * pi[3])) +
-       t5 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
-                    450.0 * pi[2] - 1200.0 * pi[3] - 1200.0 * pi[7] +
-                    450.0 * pi[8] - 100.0 * pi[9])) +
-       t6 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
-                    12600.0 * pi[3])) +
-       t7 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
-                    25200.0 * pi[3])) +
-       t8 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
-                    29400.0 * pi[3] + 840.0 * pi[7])) +
-       t9 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
-                    20160.0 * pi[3] - 2880.0 * pi[7] + 360.0 * pi[8]))) *
-      alpha;
+  const int n = 12;
+  double scale = 1.;
+  for (int i = 0; i < order; ++i) scale *= double(n - i) / T;
+  for (int k = 0; k <= n - order; ++k) {
+    const double bern = ndcurves::Bern<double>(n - order, k)(t);
+    for (int j = 0; j <= order; ++j) {
+      const double sign = ((order - j) % 2 == 0) ? 1. : -1.;
+      const double coef =
+          sign * scale * bern * double(ndcurves::bin(order, j));
+      const int id = k + j;
+      if (id >= 4 && id <= 8)  // free waypoints
+        wp.first.block<3, 3>(0, 3 * (id - 4)) += coef * Matrix3::Identity();
+      else
+        wp.second += coef * pi[id];
+    }
+  }
   return wp;
 }
 
-// TODO
-inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
+inline waypoint_t evaluateVelocityCurveWaypointAtTime(
     const std::vector<point_t>& pi, double T, double t) {
-  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
+  return evaluateDerivativeWaypointAtTime(pi, T, t, 1);
+}
 
-  const double alpha = 1. / (T * T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  const double t8 = t7 * t;
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (18900.0 * t8 - 90720.0 * t7 + 176400.0 * t6 - 176400.0 * t5 +
-              94500.0 * t4 - 25200.0 * t3 + 2520.0 * t2));  // x0
-  wp.first.block<3, 3>(0, 3) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (-22680.0 * t8 + 90720.0 * t7 - 141120.0 * t6 + 105840.0 * t5 -
-              37800.0 * t4 + 5040.0 * t3));  // x1
-  wp.first.block<3, 3>(0, 6) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (18900.0 * t8 - 60480.0 * t7 + 70560.0 * t6 - 35280.0 * t5 +
-              6300.0 * t4));  // x2
-  wp.second =
-      (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2]) +
-       t * (1.0 * (-720.0 * pi[0] + 2160.0 * pi[1] - 2160.0 * pi[2] +
-                   720.0 * pi[3])) +
-       t2 * (1.0 * (2520.0 * pi[0] - 10080.0 * pi[1] + 15120.0 * pi[2] -
-                    10080.0 * pi[3])) +
-       t3 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
-                    4050.0 * pi[2] - 10800.0 * pi[3] - 10800.0 * pi[7] +
-                    4050.0 * pi[8] - 900.0 * pi[9])) +
-       t4 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
-                    50400.0 * pi[3])) +
-       t5 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
-                    126000.0 * pi[3])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
-                    176400.0 * pi[3] + 5040.0 * pi[7])) +
-       t7 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
-                    141120.0 * pi[3] - 20160.0 * pi[7] + 2520.0 * pi[8])) +
-       t8 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
-                    60480.0 * pi[3] + 25920.0 * pi[7] - 6480.0 * pi[8] +
-                    720.0 * pi[9]))) *
-      alpha;
-  return wp;
+inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
+    const std::vector<point_t>& pi, double T, double t) {
+  return evaluateDerivativeWaypointAtTime(pi, T, t, 2);
 }
 
-// TODO
 inline waypoint_t evaluateJerkCurveWaypointAtTime(
     const std::vector<point_t>& pi, double T, double t) {
-  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
-
-  const double alpha = 1. / (T * T * T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (151200.0 * t7 - 635040.0 * t6 + 1058400.0 * t5 - 882000.0 * t4 +
-              378000.0 * t3 - 75600.0 * t2 + 5040.0 * t));  // x0
-  wp.first.block<3, 3>(0, 3) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (-181440.0 * t7 + 635040.0 * t6 - 846720.0 * t5 + 529200.0 * t4 -
-              151200.0 * t3 + 15120.0 * t2));  // x1
-  wp.first.block<3, 3>(0, 6) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (151200.0 * t7 - 423360.0 * t6 + 423360.0 * t5 - 176400.0 * t4 +
-              25200.0 * t3));  // x2
-  wp.second =
-      (1.0 *
-           (-720.0 * pi[0] + 2160.0 * pi[1] - 2160.0 * pi[2] + 720.0 * pi[3]) +
-       t * (1.0 * (5040.0 * pi[0] - 20160.0 * pi[1] + 30240.0 * pi[2] -
-                   20160.0 * pi[3])) +
-       t2 * (1.0 * (-15120.0 * pi[0] + 75600.0 * pi[1] - 151200.0 * pi[2] +
-                    151200.0 * pi[3])) +
-       t3 * (1.0 * (25200.0 * pi[0] - 151200.0 * pi[1] + 378000.0 * pi[2] -
-                    504000.0 * pi[3])) +
-       t4 * (1.0 * (-25200.0 * pi[0] + 176400.0 * pi[1] - 529200.0 * pi[2] +
-                    882000.0 * pi[3] + 25200.0 * pi[7])) +
-       t5 * (1.0 * (15120.0 * pi[0] - 120960.0 * pi[1] + 423360.0 * pi[2] -
-                    846720.0 * pi[3] - 120960.0 * pi[7] + 15120.0 * pi[8])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 45360.0 * pi[1] - 181440.0 * pi[2] +
-                    423360.0 * pi[3] + 181440.0 * pi[7] - 45360.0 * pi[8] +
-                    5040.0 * pi[9])) +
-       t7 * (1.0 * (720.0 * pi[0] + 720.0 * pi[10] - 7200.0 * pi[1] +
-                    32400.0 * pi[2] - 86400.0 * pi[3] - 86400.0 * pi[7] +
-                    32400.0 * pi[8] - 7200.0 * pi[9]))) *
-      alpha;
-  return wp;
+  return evaluateDerivativeWaypointAtTime(pi, T, t, 3);
 }
 
 inline std::vector<point_t> computeConstantWaypoints(const ProblemData& pData,
-- 
2.43.0


From c5e6198bbd0af6014b862f0d1fffac89c08af32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 13/39] fix: the upper jerk bound of the end effector used the
 velocity bound

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index de59e16..8c95fe4 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -181,7 +181,7 @@ void computeConstraintsMatrix(
        wpcit != wps_jerk.end(); ++wpcit) {
     if (!wpcit->first.isZero(std::numeric_limits<double>::epsilon())) {
       A.block(i * DIM_POINT, 0, DIM_POINT, DIM_VAR) = wpcit->first;
-      b.segment<DIM_POINT>(i * DIM_POINT) = vel_bounds - wpcit->second;
+      b.segment<DIM_POINT>(i * DIM_POINT) = jerk_bounds - wpcit->second;
       ++i;
     }
   }
-- 
2.43.0


From 04c556ff5b4bb8c23361c48817960366795b2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 14/39] fix: copying contact data without a contact phase
 dereferenced a null pointer

---
 include/hpp/bezier-com-traj/data.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index 0f3912b..e188777 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -33,8 +33,10 @@ struct BEZIER_COM_TRAJ_DLLAPI ContactData {
         ang_(VectorX::Zero(0)) {}
 
   ContactData(const ContactData& other)
-      : contactPhase_(
-            new centroidal_dynamics::Equilibrium(*(other.contactPhase_))),
+      : contactPhase_(other.contactPhase_
+                          ? new centroidal_dynamics::Equilibrium(
+                                *(other.contactPhase_))
+                          : 0),
         Kin_(other.Kin_),
         kin_(other.kin_),
         Ang_(other.Ang_),
-- 
2.43.0


From aa5a6ad10bde8015dffc4bf17dfa45d864990b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 15/39] fix: the initial angular momentum of a problem was left
 uninitialised

---
 include/hpp/bezier-com-traj/data.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index e188777..a71bdb7 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -101,6 +101,7 @@ struct BEZIER_COM_TRAJ_DLLAPI ProblemData {
         dc1_(point_t::Zero()),
         ddc1_(point_t::Zero()),
         j1_(point_t::Zero()),
+        l0_(point_t::Zero()),
         useAngularMomentum_(false),
         costFunction_(ACCELERATION),
         representation_(DOUBLE_DESCRIPTION) {}
-- 
2.43.0


From d72cb5f68c61b667a9b5c6abd530c1a0176a1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 16/39] fix: a failed computation of the contact cone silently
 dropped the stability constraints

---
 src/common_solve_methods.cpp | 6 +++++-
 src/computeCOMTraj.cpp       | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 0750880..00d1887 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -98,7 +98,11 @@ std::pair<MatrixXX, VectorX> compute6dControlPointInequalities(
          centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP);
   centroidal_dynamics::MatrixXX Hrow;
   VectorX h;
-  cData.contactPhase_->getPolytopeInequalities(Hrow, h);
+  if (cData.contactPhase_->getPolytopeInequalities(Hrow, h) !=
+      centroidal_dynamics::LP_STATUS_OPTIMAL) {
+    fail = true;
+    return std::make_pair(A, b);
+  }
   MatrixXX H = -Hrow;
   H.rowwise().normalize();
   int dimH = (int)(H.rows());
diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index c89d249..bb2bfa9 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -124,8 +124,9 @@ void updateH(const ProblemData& pData, const ContactData& phase, MatrixXX& mH,
   centroidal_dynamics::MatrixXX Hrow;
   centroidal_dynamics::LP_status status =
       phase.contactPhase_->getPolytopeInequalities(Hrow, hrow);
-  assert(status == centroidal_dynamics::LP_STATUS_OPTIMAL &&
-         "Error in centroidal dynamics lib while computing inequalities");
+  if (status != centroidal_dynamics::LP_STATUS_OPTIMAL)
+    throw std::runtime_error(
+        "Error in centroidal dynamics lib while computing inequalities");
   mH = -Hrow * phase.contactPhase_->m_mass;
   mH.rowwise().normalize();
   h = hrow;
-- 
2.43.0


From 09bbd002ee95de888ff665736aea15acafff3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 17/39] fix: acceleration bounds of the continuous formulation
 ignored the duration and the option that enables them

---
 src/computeCOMTraj.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index bb2bfa9..a7b9c56 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -370,7 +370,8 @@ long int computeNumIneqContinuous(const ProblemData& pData, const VectorX& Ts,
     }
   }
   // acceleration constraints : 6 per points
-  num_ineq += (degree - 1) * 6 * Ts.size();
+  if (pData.constraints_.constraintAcceleration_)
+    num_ineq += (degree - 1) * 6 * Ts.size();
   return num_ineq;
 }
 
@@ -498,13 +499,17 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
             phase.contactPhase_->m_mass, phase.contactPhase_->m_gravity);
     }
     // add acceleration constraints :
-    for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
-         wpit != ddcs.waypoints().end(); ++wpit) {
-      A.block(id_rows, 0, 3, 3) = wpit->first;  // upper
-      b.segment(id_rows, 3) = acc_bounds - wpit->second;
-      A.block(id_rows + 3, 0, 3, 3) = -wpit->first;  // lower
-      b.segment(id_rows + 3, 3) = acc_bounds + wpit->second;
-      id_rows += 6;
+    if (pData.constraints_.constraintAcceleration_) {
+      for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
+           wpit != ddcs.waypoints().end(); ++wpit) {
+        // the waypoints of a derivative do not include its time scaling
+        const waypoint_t acc = (*wpit) * ddcs.mult_T_;
+        A.block(id_rows, 0, 3, 3) = acc.first;  // upper
+        b.segment(id_rows, 3) = acc_bounds - acc.second;
+        A.block(id_rows + 3, 0, 3, 3) = -acc.first;  // lower
+        b.segment(id_rows + 3, 3) = acc_bounds + acc.second;
+        id_rows += 6;
+      }
     }
   }
   if (!useDD) {
-- 
2.43.0


From 1de7cec4227546bedad385ca312a80269bec9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 18/39] fix: rounding of the phase durations made the
 continuous formulation throw

---
 src/computeCOMTraj.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index a7b9c56..0f56aa0 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -461,10 +461,12 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   // for each phases, split the curve and compute the waypoints of the splitted
   // curves
   for (size_t id_phase = 0; id_phase < (size_t)Ts.size(); ++id_phase) {
-    bezier_wp_t cs = c.extract(current_t, Ts[id_phase] + current_t);
-    bezier_wp_t ddcs = ddc.extract(current_t, Ts[id_phase] + current_t);
-    bezier_wp_t ws = w.extract(current_t, Ts[id_phase] + current_t);
-    current_t += Ts[id_phase];
+    // avoid numerical errors that would exceed the duration of the curve
+    const double end_t = std::min(Ts[id_phase] + current_t, T);
+    bezier_wp_t cs = c.extract(current_t, end_t);
+    bezier_wp_t ddcs = ddc.extract(current_t, end_t);
+    bezier_wp_t ws = w.extract(current_t, end_t);
+    current_t = end_t;
 
     phase = pData.contacts_[id_phase];
 
-- 
2.43.0


From f95c7b756ae565b2c243baeb65a452ad05b25eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 19/39] fix: the quadprog solver looped forever, and wrote out
 of bounds, after a degenerate constraint

---
 src/eiquadprog-fast.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 7871fd5..e9a40c8 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -479,6 +479,9 @@ l2: /* Step 2: check for feasibility and determine a new S-pair */
   }
   if (ss >= 0.0) {
     q = iq;
+    /* a violated constraint that could not be added is not satisfied */
+    for (i = 0; i < nIneqCon; i++)
+      if (!iaexcl(i) && s(i) < 0.0) return EIQUADPROG_FAST_UNBOUNDED;
     //        DEBUG_STREAM("Optimal active set:\n"<<A.transpose()<<"\n\n")
     return EIQUADPROG_FAST_OPTIMAL;
   }
@@ -613,10 +616,11 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (A(i) >= 0) iai(A(i)) = -1;  // negative ids are equalities
         u(i) = u_old(i);
       }
       x = x_old;
+      ss = 0.0; /* choose another violated constraint */
       STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);
       goto l2; /* go to step 2 */
     } else
@@ -901,6 +905,9 @@ l2: /* Step 2: check for feasibility and determine a new S-pair */
   }
   if (ss >= 0.0) {
     q = iq;
+    /* a violated constraint that could not be added is not satisfied */
+    for (i = 0; i < nIneqCon; i++)
+      if (!iaexcl(i) && s(i) < 0.0) return EIQUADPROG_FAST_UNBOUNDED;
     //        DEBUG_STREAM("Optimal active set:\n"<<A.transpose()<<"\n\n")
     return EIQUADPROG_FAST_OPTIMAL;
   }
@@ -1035,10 +1042,11 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (A(i) >= 0) iai(A(i)) = -1;  // negative ids are equalities
         u(i) = u_old(i);
       }
       x = x_old;
+      ss = 0.0; /* choose another violated constraint */
       STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);
       goto l2; /* go to step 2 */
     } else
-- 
2.43.0


From 3e7f4178bae9caf62cceed6ed1e133403629fb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:06 +0000
Subject: [PATCH 20/39] fix: one acceleration waypoint of the curve with 3 free
 waypoints was returned twice

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh      | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index f5500bf..103f3f9 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -372,7 +372,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.second = alpha * 90 * (pi[7] - 2 * pi[8] + pi[9]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
   w.second = alpha * 90 * (pi[10] + pi[8] - 2 * pi[9]);
-- 
2.43.0


From 9a7743ef279551331b833d7ea73f36b366a29022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:30 +0000
Subject: [PATCH 21/39] fix: wrong weight in an acceleration waypoint of the
 curve with 3 free waypoints

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 103f3f9..921397a 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -343,7 +343,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 90 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 90 * (pi[2] - pi[3]);
+  w.second = alpha * 90 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
-- 
2.43.0


From 93257c439f5cf8342b0b40414ca60c13988c2a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 22/39] fix: the terminal acceleration of the zero step result
 was left at zero

---
 src/solve_0_step.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solve_0_step.cpp b/src/solve_0_step.cpp
index e9a3b64..a45686d 100644
--- a/src/solve_0_step.cpp
+++ b/src/solve_0_step.cpp
@@ -213,6 +213,8 @@ void computeC_of_T(const ProblemData& pData, const std::vector<double>& Ts,
   wps.push_back(res.x.head(3));
   wps.push_back(res.x.head(3));
   res.c_of_t_ = bezier_t(wps.begin(), wps.end(), 0., Ts[0]);
+  res.dc1_ = res.c_of_t_.derivate(res.c_of_t_.max(), 1);
+  res.ddc1_ = res.c_of_t_.derivate(res.c_of_t_.max(), 2);
 }
 
 void computedL_of_T(const ProblemData& pData, const std::vector<double>& Ts,
-- 
2.43.0


From 9bc616125526a4e431894db6a2053115d368ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 23/39] fix: the cost and the terminal velocity and
 acceleration of the end effector result were left unset

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 8c95fe4..b767573 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -274,6 +274,8 @@ void computeC_of_T(const ProblemData& pData, double T, ResultDataCOMTraj& res) {
     wps[8] = res.x.segment<3>(12);
   }
   res.c_of_t_ = bezier_t(wps.begin(), wps.end(), 0, T);
+  res.dc1_ = res.c_of_t_.derivate(res.c_of_t_.max(), 1);
+  res.ddc1_ = res.c_of_t_.derivate(res.c_of_t_.max(), 2);
   if (verbose)
     std::cout << "bezier curve created, size = " << res.c_of_t_.size_
               << std::endl;
@@ -454,6 +456,7 @@ ResultDataCOMTraj solveEndEffector(const ProblemData& pData, const Path& path,
   if (resQp.success_) {
     res.success_ = true;
     res.x = resQp.x;
+    res.cost_ = resQp.cost_;
     // computeRealCost(pData, res);
     computeC_of_T(pData, T, res);
     // computedL_of_T(pData,Ts,res);
-- 
2.43.0


From 39b703d8ee234c40c9447a333e456c5a22edf0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 24/39] fix: equal bounds of a variable made the glpk adapter
 fail

---
 src/glpk-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 3897574..8f0270e 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -29,7 +29,7 @@ int getType(const VectorXd& mib, const VectorXd& mab, const int i) {
   const double& mabV = mab(i);
   int type = GLP_FR;
   if (mibV > UNBOUNDED_DOWN && mabV < UNBOUNDED_UP)
-    type = GLP_DB;
+    type = mibV == mabV ? GLP_FX : GLP_DB;
   else if (mibV > UNBOUNDED_DOWN)
     type = GLP_LO;
   else if (mabV < UNBOUNDED_UP)
-- 
2.43.0


From b19bd3dc8dfaa583461463b06cfe32e518b29957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 25/39] fix: the glpk adapter aborted the process on a problem
 without constraint

---
 src/glpk-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 8f0270e..2611221 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -60,7 +60,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   const int numEqConstraints = (int)(CE.rows());
   const int numIneqConstraints = (int)(CI.rows());
   const int num_constraints_total(numEqConstraints + numIneqConstraints);
-  glp_add_rows(lp, num_constraints_total);
+  if (num_constraints_total > 0) glp_add_rows(lp, num_constraints_total);
   int idrow = 1;  // adds three rows to the problem object
   int idcol = 1;
   int idConsMat = 1;
-- 
2.43.0


From 85ad8e2e0f2d1d8720f6516adba9c5fc999ab9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 26/39] fix: the continuous formulation mixed sizes when a
 contact phase has no kinematic constraint

---
 src/computeCOMTraj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 0f56aa0..e62317a 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -473,7 +473,7 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     // add kinematics constraints :
     size_kin = (int)phase.kin_.rows();
     for (bezier_wp_t::cit_point_t wpit = cs.waypoints().begin();
-         wpit != cs.waypoints().end(); ++wpit) {
+         size_kin > 0 && wpit != cs.waypoints().end(); ++wpit) {
       A.block(id_rows, 0, size_kin, 3) = (phase.Kin_ * wpit->first);
       b.segment(id_rows, size_kin) = phase.kin_ - (phase.Kin_ * wpit->second);
       id_rows += size_kin;
-- 
2.43.0


From 471b400103a77ad2e8d98310b2afd5c5d0c49187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 27/39] fix: more equalities than variables made the quadprog
 solver write out of bounds

---
 src/eiquadprog-fast.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index e9a40c8..7617116 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -360,7 +360,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
     STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_1);
 
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_2);
-    if (!add_constraint(R, m_J, d, iq, R_norm)) {
+    if (iq >= nVars || !add_constraint(R, m_J, d, iq, R_norm)) {
       // Equality constraints are linearly dependent
       return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
     }
@@ -786,7 +786,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_1);
 
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_2);
-    if (!add_constraint(R, m_J, d, iq, R_norm)) {
+    if (iq >= nVars || !add_constraint(R, m_J, d, iq, R_norm)) {
       // Equality constraints are linearly dependent
       return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
     }
-- 
2.43.0


From 9d20d4ab925d3fe1c90ad11b2be6fe6090d2a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 28/39] fix: dropping a degenerate constraint read past the end
 of the active set

---
 src/eiquadprog-fast.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 7617116..0937dbc 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -174,10 +174,12 @@ void EiquadprogFast::delete_constraint(MatrixXd& R, MatrixXd& J, VectorXi& A,
     R.col(i) = R.col(i + 1);
   }
 
-  A(iq - 1) = A(iq);
-  u(iq - 1) = u(iq);
-  A(iq) = 0;
-  u(iq) = 0.0;
+  if (iq < A.size()) {
+    A(iq - 1) = A(iq);
+    u(iq - 1) = u(iq);
+    A(iq) = 0;
+    u(iq) = 0.0;
+  }
   for (j = 0; j < iq; j++) R(j, iq - 1) = 0.0;
   /* constraint has been fully removed */
   iq--;
-- 
2.43.0


From c471cdef6cf7ab8bc0a994714a4fc5ffd9d6068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 29/39] fix: the unconstrained minimum had the wrong sign when
 the inverse is provided

---
 src/eiquadprog-fast.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 0937dbc..9df52de 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -306,16 +306,15 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
    */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
-    x = m_J * (m_J.transpose() * g0);
+    x = -(m_J * (m_J.transpose() * g0));
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     x = -g0;
     chol_.solveInPlace(x);
   }
 #else
-    x = chol_.solve(g0);
+    x = -chol_.solve(g0);
   }
-  x = -x;
 #endif
   /* and compute the current solution value */
   f_value = 0.5 * g0.dot(x);
@@ -732,16 +731,15 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
    */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
-    x = m_J * (m_J.transpose() * g0);
+    x = -(m_J * (m_J.transpose() * g0));
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     // x = -g0;
     x = cholsp_.solve(-g0);
   }
 #else
-    x = cholsp_.solve(g0);
+    x = -cholsp_.solve(g0);
   }
-  x = -x;
 #endif
   /* and compute the current solution value */
   f_value = 0.5 * g0.dot(x);
-- 
2.43.0


From 7357a0b0a01f1fa21e55cc9f94cac5ff5d95ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 30/39] fix: the sparse quadprog variant did not use the factor
 of the cost matrix

---
 src/eiquadprog-fast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 9df52de..ea478d9 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -711,7 +711,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
     m_J.setIdentity(nVars, nVars);
 #ifdef OPTIMIZE_HESSIAN_INVERSE
-    cholsp_.matrixU().solve(m_J);
+    cholsp_.matrixU().solveInPlace(m_J);
 #else
     m_J = cholsp_.matrixU().solve(m_J);
 #endif
-- 
2.43.0


From 4c1166a6bccfd21efdab4c6b8908d72e3eee14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 31/39] fix: the sparse quadprog variant ignored the ordering
 of the factorisation

---
 src/eiquadprog-fast.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index ea478d9..759228d 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -696,7 +696,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   c1 = trace_sparse(Hess);
 
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
-  Eigen::SimplicialLLT<SpMat, Eigen::Lower> cholsp_(Hess);
+  Eigen::SimplicialLLT<SpMat, Eigen::Lower, Eigen::NaturalOrdering<int> >
+      cholsp_(Hess);
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
 
   /* initialize the matrix R */
-- 
2.43.0


From 0254bb0e666f0550e0483504b14c27d5436947ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 32/39] fix: the initial guess of the end effector problem was
 read without being set

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index b767573..52634f3 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -444,7 +444,7 @@ ResultDataCOMTraj solveEndEffector(const ProblemData& pData, const Path& path,
     std::cout << "Dim b   = " << Ab.first.rows() << std::endl;
   }
 
-  VectorX init = VectorX(dimVar(pData));
+  VectorX init = VectorX::Zero(dimVar(pData));
   // init = (pData.c0_ + pData.c1_)/2.;
   // init =pData.c0_;
   if (verbose)
-- 
2.43.0


From a2294a700672c9fc0e436da83e4e7f8b34ed1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 33/39] fix: headers defining non-inline functions could not be
 included in two source files

---
 .../hpp/bezier-com-traj/solve_end_effector.hh | 25 +++++++++++--------
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh |  6 ++---
 ...points_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh |  6 ++---
 ...points_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh |  6 ++---
 4 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 52634f3..fc9cfa0 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -3,6 +3,9 @@
  * Author: Pierre Fernbach
  */
 
+#ifndef BEZIER_COM_TRAJ_LIB_SOLVE_END_EFFECTOR_H
+#define BEZIER_COM_TRAJ_LIB_SOLVE_END_EFFECTOR_H
+
 #include <hpp/bezier-com-traj/common_solve_methods.hh>
 #include <hpp/bezier-com-traj/solve.hh>
 #include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
@@ -35,7 +38,7 @@ ResultDataCOMTraj solveEndEffector(const ProblemData& pData, const Path& path,
                                    const double T, const double weightDistance,
                                    bool useVelCost = true);
 
-coefs_t initCoefs() {
+inline coefs_t initCoefs() {
   coefs_t c;
   c.first = 0;
   c.second = point3_t::Zero();
@@ -44,7 +47,7 @@ coefs_t initCoefs() {
 
 // up to jerk second derivativ constraints for init, pos vel and acc constraint
 // for goal
-std::vector<bezier_t::point_t> computeConstantWaypointsInitPredef(
+inline std::vector<bezier_t::point_t> computeConstantWaypointsInitPredef(
     const ProblemData& pData, double T) {
   const double n = 4;
   std::vector<bezier_t::point_t> pts;
@@ -71,7 +74,7 @@ std::vector<bezier_t::point_t> computeConstantWaypointsInitPredef(
 
 // up to jerk second derivativ constraints for goal, pos vel and acc constraint
 // for init
-std::vector<bezier_t::point_t> computeConstantWaypointsGoalPredef(
+inline std::vector<bezier_t::point_t> computeConstantWaypointsGoalPredef(
     const ProblemData& pData, double T) {
   const double n = 4;
   std::vector<bezier_t::point_t> pts;
@@ -96,7 +99,7 @@ std::vector<bezier_t::point_t> computeConstantWaypointsGoalPredef(
   return pts;
 }
 
-void computeConstraintsMatrix(
+inline void computeConstraintsMatrix(
     const ProblemData& pData, const std::vector<waypoint_t>& wps_acc,
     const std::vector<waypoint_t>& wps_vel, const VectorX& acc_bounds,
     const VectorX& vel_bounds, MatrixXX& A, VectorX& b,
@@ -221,7 +224,7 @@ void computeConstraintsMatrix(
     b.segment<DIM_POINT>(i*DIM_POINT)   =  Vector3(10,10,10);*/
 }
 
-std::pair<MatrixXX, VectorX> computeDistanceCostFunction(
+inline std::pair<MatrixXX, VectorX> computeDistanceCostFunction(
     size_t numPoints, const ProblemData& pData, double T,
     std::vector<point3_t> pts_path) {
   assert(numPoints == pts_path.size() &&
@@ -258,7 +261,7 @@ std::pair<MatrixXX, VectorX> computeDistanceCostFunction(
 }
 
 // TODO
-void computeC_of_T(const ProblemData& pData, double T, ResultDataCOMTraj& res) {
+inline void computeC_of_T(const ProblemData& pData, double T, ResultDataCOMTraj& res) {
   std::vector<Vector3> wps = computeConstantWaypoints(pData, T);
   if (dimVar(pData) == 3)
     wps[4] = res.x;  // FIXME : compute id from constraints
@@ -281,7 +284,7 @@ void computeC_of_T(const ProblemData& pData, double T, ResultDataCOMTraj& res) {
               << std::endl;
 }
 
-void computeVelCostFunctionDiscretized(int numPoints, const ProblemData& pData,
+inline void computeVelCostFunctionDiscretized(int numPoints, const ProblemData& pData,
                                        double T, MatrixXX& H, VectorX& g) {
   double step = 1. / (numPoints - 1);
   std::vector<waypoint_t> cks;
@@ -311,7 +314,7 @@ void computeVelCostFunctionDiscretized(int numPoints, const ProblemData& pData,
   //  g /= norm;
 }
 
-void computeAccelerationCostFunctionDiscretized(int numPoints,
+inline void computeAccelerationCostFunctionDiscretized(int numPoints,
                                                 const ProblemData& pData,
                                                 double T, MatrixXX& H,
                                                 VectorX& g) {
@@ -338,7 +341,7 @@ void computeAccelerationCostFunctionDiscretized(int numPoints,
   //  g /= norm;
 }
 
-void computeJerkCostFunctionDiscretized(int numPoints, const ProblemData& pData,
+inline void computeJerkCostFunctionDiscretized(int numPoints, const ProblemData& pData,
                                         double T, MatrixXX& H, VectorX& g) {
   double step = 1. / (numPoints - 1);
 
@@ -363,7 +366,7 @@ void computeJerkCostFunctionDiscretized(int numPoints, const ProblemData& pData,
   // g /= norm;
 }
 
-std::pair<MatrixXX, VectorX> computeEndEffectorConstraints(
+inline std::pair<MatrixXX, VectorX> computeEndEffectorConstraints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi) {
   std::vector<waypoint_t> wps_jerk = computeJerkWaypoints(pData, T, pi);
@@ -470,3 +473,5 @@ ResultDataCOMTraj solveEndEffector(const ProblemData& pData, const Path& path,
 }
 
 }  // namespace bezier_com_traj
+
+#endif
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 88ebc66..d49af74 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -250,7 +250,7 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   return wps;
 }
 
-std::vector<waypoint_t> computeVelocityWaypoints(
+inline std::vector<waypoint_t> computeVelocityWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
@@ -296,7 +296,7 @@ std::vector<waypoint_t> computeVelocityWaypoints(
   return wps;
 }
 
-std::vector<waypoint_t> computeAccelerationWaypoints(
+inline std::vector<waypoint_t> computeAccelerationWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
@@ -340,7 +340,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   return wps;
 }
 
-std::vector<waypoint_t> computeJerkWaypoints(
+inline std::vector<waypoint_t> computeJerkWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 921397a..5a619c3 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -265,7 +265,7 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   return wps;
 }
 
-std::vector<waypoint_t> computeVelocityWaypoints(
+inline std::vector<waypoint_t> computeVelocityWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
@@ -322,7 +322,7 @@ std::vector<waypoint_t> computeVelocityWaypoints(
   return wps;
 }
 
-std::vector<waypoint_t> computeAccelerationWaypoints(
+inline std::vector<waypoint_t> computeAccelerationWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
@@ -379,7 +379,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   return wps;
 }
 
-std::vector<waypoint_t> computeJerkWaypoints(
+inline std::vector<waypoint_t> computeJerkWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index f56c83c..fc694d6 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -176,7 +176,7 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   return wps;
 }
 
-std::vector<waypoint_t> computeVelocityWaypoints(
+inline std::vector<waypoint_t> computeVelocityWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
@@ -243,7 +243,7 @@ std::vector<waypoint_t> computeVelocityWaypoints(
   return wps;
 }
 
-std::vector<waypoint_t> computeAccelerationWaypoints(
+inline std::vector<waypoint_t> computeAccelerationWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
@@ -312,7 +312,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   return wps;
 }
 
-std::vector<waypoint_t> computeJerkWaypoints(
+inline std::vector<waypoint_t> computeJerkWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
-- 
2.43.0


From 3b8e617f5c7b539ab691f04b49836ef5ea4b6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 34/39] fix: two declared overloads of solve were not defined

---
 src/common_solve_methods.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 00d1887..9f871f3 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -160,6 +160,22 @@ ResultData solve(Cref_matrixXX A, Cref_vectorX b, Cref_matrixXX H,
   return solvers::solve(A, b, D, d, H, g, initGuess, d, d, solver);
 }
 
+ResultData solve(Cref_matrixXX A, Cref_vectorX b, Cref_matrixXX H,
+                 Cref_vectorX g, Cref_vectorX initGuess, Cref_vectorX minBounds,
+                 Cref_vectorX maxBounds, const solvers::SolverType solver) {
+  MatrixXX D = MatrixXX::Zero(0, A.cols());
+  VectorX d = VectorX::Zero(0);
+  return solvers::solve(A, b, D, d, H, g, initGuess, minBounds, maxBounds,
+                        solver);
+}
+
+ResultData solve(Cref_matrixXX A, Cref_vectorX b, Cref_matrixXX D,
+                 Cref_vectorX d, Cref_matrixXX H, Cref_vectorX g,
+                 Cref_vectorX initGuess, const solvers::SolverType solver) {
+  VectorX bounds = VectorX::Zero(0);
+  return solvers::solve(A, b, D, d, H, g, initGuess, bounds, bounds, solver);
+}
+
 ResultData solve(const std::pair<MatrixXX, VectorX>& Ab,
                  const std::pair<MatrixXX, VectorX>& Hg, const VectorX& init,
                  const solvers::SolverType solver) {
-- 
2.43.0


From 5acb374f758acc90804fcaf9d2dcc4a262b32ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 35/39] fix: the evaluators of velocity and jerk were declared
 but not defined

---
 src/waypoints_definition.cpp | 58 ++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index abba45a..d266426 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -113,6 +113,64 @@ coefs_t evaluateAccelerationCurveAtTime(const ProblemData& pData,
   }
 }
 
+typedef coefs_t (*evalVelCurveAtTime)(const std::vector<point_t>& pi, double T,
+                                      double t);
+typedef std::map<ConstraintFlag, evalVelCurveAtTime> T_evalVelCurveAtTime;
+typedef T_evalVelCurveAtTime::const_iterator CIT_evalVelCurveAtTime;
+static const T_evalVelCurveAtTime evalVelCurveAtTimes =
+    boost::assign::map_list_of(
+        c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::flag,
+        c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::evaluateVelocityCurveAtTime);
+
+/** @brief evaluateVelocityCurveAtTime compute the expression of the point on
+ * the curve dc at t, defined by the waypoint pi and one free waypoint (x)
+ * @param pi constant waypoints of the curve
+ * @param t param (normalized !)
+ * @return the expression of the waypoint such that wp.first . x + wp.second =
+ * point on curve
+ */
+coefs_t evaluateVelocityCurveAtTime(const ProblemData& pData,
+                                    const std::vector<point_t>& pi, double T,
+                                    double t) {
+  CIT_evalVelCurveAtTime cit =
+      evalVelCurveAtTimes.find(pData.constraints_.flag_);
+  if (cit != evalVelCurveAtTimes.end())
+    return cit->second(pi, T, t);
+  else {
+    std::cout << "Current constraints set are not implemented" << std::endl;
+    throw std::runtime_error("Current constraints set are not implemented");
+  }
+}
+
+typedef coefs_t (*evalJerkCurveAtTime)(const std::vector<point_t>& pi, double T,
+                                       double t);
+typedef std::map<ConstraintFlag, evalJerkCurveAtTime> T_evalJerkCurveAtTime;
+typedef T_evalJerkCurveAtTime::const_iterator CIT_evalJerkCurveAtTime;
+static const T_evalJerkCurveAtTime evalJerkCurveAtTimes =
+    boost::assign::map_list_of(
+        c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::flag,
+        c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::evaluateJerkCurveAtTime);
+
+/** @brief evaluateJerkCurveAtTime compute the expression of the point on
+ * the curve dddc at t, defined by the waypoint pi and one free waypoint (x)
+ * @param pi constant waypoints of the curve
+ * @param t param (normalized !)
+ * @return the expression of the waypoint such that wp.first . x + wp.second =
+ * point on curve
+ */
+coefs_t evaluateJerkCurveAtTime(const ProblemData& pData,
+                                const std::vector<point_t>& pi, double T,
+                                double t) {
+  CIT_evalJerkCurveAtTime cit =
+      evalJerkCurveAtTimes.find(pData.constraints_.flag_);
+  if (cit != evalJerkCurveAtTimes.end())
+    return cit->second(pi, T, t);
+  else {
+    std::cout << "Current constraints set are not implemented" << std::endl;
+    throw std::runtime_error("Current constraints set are not implemented");
+  }
+}
+
 typedef waypoint_t (*evalCurveWaypointAtTime)(const std::vector<point_t>& pi,
                                               double t);
 typedef std::map<ConstraintFlag, evalCurveWaypointAtTime>
-- 
2.43.0


From ca20c8e1f8c9b0c7844d6f63f39ba5a8f79a0c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 36/39] fix: the template initwp was declared but not defined

---
 include/hpp/bezier-com-traj/utils.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/utils.hh b/include/hpp/bezier-com-traj/utils.hh
index a6fa37e..788b326 100644
--- a/include/hpp/bezier-com-traj/utils.hh
+++ b/include/hpp/bezier-com-traj/utils.hh
@@ -15,7 +15,12 @@
 namespace bezier_com_traj {
 
 template <typename T>
-T initwp();
+T initwp() {
+  T w;
+  w.first.setZero();
+  w.second.setZero();
+  return w;
+}
 waypoint_t initwp(const size_t rows, const size_t cols);
 waypoint_t operator+(const waypoint_t& w1, const waypoint_t& w2);
 waypoint_t operator-(const waypoint_t& w1, const waypoint_t& w2);
-- 
2.43.0


From 585e21c2522986ade5aa2ab38e8aa97ddf6d6980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 37/39] fix: the headers of the families did not compile after
 waypoints_definition.hh

---
 .../waypoints/waypoints_c0_dc0_c1.hh           |  2 +-
 .../waypoints/waypoints_c0_dc0_dc1_c1.hh       |  4 ++--
 .../waypoints/waypoints_c0_dc0_ddc0.hh         |  4 ++--
 .../waypoints/waypoints_c0_dc0_ddc0_c1.hh      |  2 +-
 .../waypoints/waypoints_c0_dc0_ddc0_dc1_c1.hh  |  6 ++++--
 .../waypoints_c0_dc0_ddc0_ddc1_dc1_c1.hh       |  6 ++++--
 .../waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 18 ++++++++++++------
 ...ypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh | 18 ++++++++++++------
 ...ypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh | 18 ++++++++++++------
 9 files changed, 50 insertions(+), 28 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_c1.hh
index b8a9219..52a5023 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_c1.hh
@@ -66,7 +66,7 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   bezier_wp_t::t_point_t wps;
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi = c0_dc0_c1::computeConstantWaypoints(pData, T);
   std::vector<Matrix3> Cpi;
   for (std::size_t i = 0; i < pi.size(); ++i) {
     Cpi.push_back(skew(pi[i]));
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_dc1_c1.hh
index 29a2f05..21b6d6b 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_dc1_c1.hh
@@ -69,7 +69,7 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   bezier_wp_t::t_point_t wps;
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi = c0_dc0_dc1_c1::computeConstantWaypoints(pData, T);
   std::vector<Matrix3> Cpi;
   for (std::size_t i = 0; i < pi.size(); ++i) {
     Cpi.push_back(skew(pi[i]));
@@ -128,7 +128,7 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
 
 inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   coefs_t v;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi = c0_dc0_dc1_c1::computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
   v.second = (-4.0 * pi[3] + 4.0 * pi[4]) / T;
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0.hh
index e82136f..6f1cc54 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0.hh
@@ -71,7 +71,7 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   bezier_wp_t::t_point_t wps;
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi = c0_dc0_ddc0::computeConstantWaypoints(pData, T);
   std::vector<Matrix3> Cpi;
   for (std::size_t i = 0; i < pi.size(); ++i) {
     Cpi.push_back(skew(pi[i]));
@@ -117,7 +117,7 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
 
 inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   coefs_t v;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi = c0_dc0_ddc0::computeConstantWaypoints(pData, T);
   // equation found with sympy
   // 3.0*(-pi[2] + x)/T
   v.first = 3. / T;
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_c1.hh
index 8d9f5a3..06ca2eb 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_c1.hh
@@ -74,7 +74,7 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   bezier_wp_t::t_point_t wps;
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi = c0_dc0_ddc0_c1::computeConstantWaypoints(pData, T);
   std::vector<Matrix3> Cpi;
   for (std::size_t i = 0; i < pi.size(); ++i) {
     Cpi.push_back(skew(pi[i]));
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_dc1_c1.hh
index ec38e74..e3b59d5 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_dc1_c1.hh
@@ -82,7 +82,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   bezier_wp_t::t_point_t wps;
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi =
+      c0_dc0_ddc0_dc1_c1::computeConstantWaypoints(pData, T);
   std::vector<Matrix3> Cpi;
   for (std::size_t i = 0; i < pi.size(); ++i) {
     Cpi.push_back(skew(pi[i]));
@@ -208,7 +209,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
 
 inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   coefs_t v;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi =
+      c0_dc0_ddc0_dc1_c1::computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
   v.second = (-5.0 * pi[4] + 5.0 * pi[5]) / T;
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_ddc1_dc1_c1.hh
index e06e309..0be1e9c 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_ddc1_dc1_c1.hh
@@ -90,7 +90,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   bezier_wp_t::t_point_t wps;
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi =
+      c0_dc0_ddc0_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
   std::vector<Matrix3> Cpi;
   for (std::size_t i = 0; i < pi.size(); ++i) {
     Cpi.push_back(skew(pi[i]));
@@ -246,7 +247,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
 
 inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   coefs_t v;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi =
+      c0_dc0_ddc0_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
   v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index d49af74..24af54f 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -211,7 +211,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
   const int FREE = 4;  // index of the free waypoint
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi =
+      c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
   const int n = (int)pi.size() - 1;
   const Vector3 g = pData.contacts_.front().contactPhase_->m_gravity;
   const double alpha = n * (n - 1) / (T * T);
@@ -253,7 +254,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
 inline std::vector<waypoint_t> computeVelocityWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   std::vector<waypoint_t> wps;
   assert(pi.size() == 9);
@@ -299,7 +301,8 @@ inline std::vector<waypoint_t> computeVelocityWaypoints(
 inline std::vector<waypoint_t> computeAccelerationWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   std::vector<waypoint_t> wps;
   assert(pi.size() == 9);
@@ -343,7 +346,8 @@ inline std::vector<waypoint_t> computeAccelerationWaypoints(
 inline std::vector<waypoint_t> computeJerkWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   std::vector<waypoint_t> wps;
   assert(pi.size() == 9);
@@ -384,7 +388,8 @@ inline std::vector<waypoint_t> computeJerkWaypoints(
 
 inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   coefs_t v;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi =
+      c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
   v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
@@ -396,7 +401,8 @@ inline std::pair<MatrixXX, VectorX> computeVelocityCost(
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   MatrixXX H = MatrixXX::Zero(3, 3);
   VectorX g = VectorX::Zero(3);
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   g = (-7.8321678321748 * pi[0] - 7.83216783237586 * pi[1] +
        9.13752913728184 * pi[3] + 9.13752913758454 * pi[5] -
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 5a619c3..ac9fcd9 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -252,7 +252,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   bezier_wp_t::t_point_t wps;
   // const int DIM_POINT = 6;
   // const int DIM_VAR = 9;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi =
+      c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
   std::vector<Matrix3> Cpi;
   for (std::size_t i = 0; i < pi.size(); ++i) {
     Cpi.push_back(skew(pi[i]));
@@ -268,7 +269,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
 inline std::vector<waypoint_t> computeVelocityWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   std::vector<waypoint_t> wps;
   assert(pi.size() == 11);
@@ -325,7 +327,8 @@ inline std::vector<waypoint_t> computeVelocityWaypoints(
 inline std::vector<waypoint_t> computeAccelerationWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   std::vector<waypoint_t> wps;
   assert(pi.size() == 11);
@@ -382,7 +385,8 @@ inline std::vector<waypoint_t> computeAccelerationWaypoints(
 inline std::vector<waypoint_t> computeJerkWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   std::vector<waypoint_t> wps;
   assert(pi.size() == 11);
@@ -440,7 +444,8 @@ inline std::vector<waypoint_t> computeJerkWaypoints(
 // TODO
 inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   coefs_t v;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi =
+      c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
   v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
@@ -452,7 +457,8 @@ inline std::pair<MatrixXX, VectorX> computeVelocityCost(
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   MatrixXX H = MatrixXX::Zero(9, 9);
   VectorX g = VectorX::Zero(9);
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   g.segment<3>(0) = (-12.352941184069 * pi[0] - 2.03619909502433 * pi[10] -
                      10.5882353430148 * pi[1] + 1.2217194516605 * pi[2] +
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index fc694d6..ac41b5a 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -163,7 +163,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   bezier_wp_t::t_point_t wps;
   // const int DIM_POINT = 6;
   // const int DIM_VAR = 15;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi =
+      c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
   std::vector<Matrix3> Cpi;
   for (std::size_t i = 0; i < pi.size(); ++i) {
     Cpi.push_back(skew(pi[i]));
@@ -179,7 +180,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
 inline std::vector<waypoint_t> computeVelocityWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   std::vector<waypoint_t> wps;
   assert(pi.size() == 13);
@@ -246,7 +248,8 @@ inline std::vector<waypoint_t> computeVelocityWaypoints(
 inline std::vector<waypoint_t> computeAccelerationWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   std::vector<waypoint_t> wps;
   assert(pi.size() == 13);
@@ -315,7 +318,8 @@ inline std::vector<waypoint_t> computeAccelerationWaypoints(
 inline std::vector<waypoint_t> computeJerkWaypoints(
     const ProblemData& pData, const double T,
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   std::vector<waypoint_t> wps;
   assert(pi.size() == 13);
@@ -387,7 +391,8 @@ inline std::vector<waypoint_t> computeJerkWaypoints(
 // TODO
 inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   coefs_t v;
-  std::vector<point_t> pi = computeConstantWaypoints(pData, T);
+  std::vector<point_t> pi =
+      c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
   v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
@@ -400,7 +405,8 @@ inline std::pair<MatrixXX, VectorX> computeVelocityCost(
     std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
   MatrixXX H = MatrixXX::Zero(DIM_VAR, DIM_VAR);
   VectorX g = VectorX::Zero(DIM_VAR);
-  if (pi.size() == 0) pi = computeConstantWaypoints(pData, T);
+  if (pi.size() == 0)
+    pi = c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
 
   g.segment<3>(0) = ((-17.8646615739593 * pi[0] - 4.24835843773412 * pi[10] -
                       1.80981866649436 * pi[11] - 0.408668730537654 * pi[12] -
-- 
2.43.0


From 9fa0fbb4b3c0b6e520639756c41585916d9153dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 38/39] fix: the sampled velocity cost ignored the products of
 distinct free points

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index fc9cfa0..3a82c48 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -296,14 +296,8 @@ inline void computeVelCostFunctionDiscretized(int numPoints, const ProblemData&
   g = VectorX::Zero(dimVar(pData));
   for (std::vector<waypoint_t>::const_iterator ckcit = cks.begin();
        ckcit != cks.end(); ++ckcit) {
-    // H+=(ckcit->first.transpose() * ckcit->first);
-    // g+=ckcit->second.transpose() * ckcit->first;
-    for (int i = 0; i < (dimVar(pData) / 3); ++i) {
-      H.block<3, 3>(i * 3, i * 3) +=
-          Matrix3::Identity() * ckcit->first(0, i * 3) * ckcit->first(0, i * 3);
-      g.segment<3>(i * 3) +=
-          ckcit->second.segment<3>(0) * ckcit->first(0, i * 3);
-    }
+    H += (ckcit->first.transpose() * ckcit->first);
+    g += ckcit->first.transpose() * ckcit->second;
   }
   // TEST : don't consider z axis for minimum acceleration cost
   // H(2,2) = 1e-6;
-- 
2.43.0


From 39c049ccb2972940f18e49f6abde7ac662d89a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 39/39] fix: the final velocity given by the families with
 imposed jerk was that of another curve

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh        | 2 +-
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh     | 2 +-
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 24af54f..4cc9f2b 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -392,7 +392,7 @@ inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
       c0_dc0_ddc0_j0_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
-  v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
+  v.second = (-8.0 * pi[7] + 8.0 * pi[8]) / T;
   return v;
 }
 
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index ac9fcd9..d0cfd01 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -448,7 +448,7 @@ inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
       c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
-  v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
+  v.second = (-10.0 * pi[9] + 10.0 * pi[10]) / T;
   return v;
 }
 
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index ac41b5a..f79cfb0 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -395,7 +395,7 @@ inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
       c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1::computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
-  v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
+  v.second = (-12.0 * pi[11] + 12.0 * pi[12]) / T;
   return v;
 }
 
-- 
2.43.0

