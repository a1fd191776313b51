From 697b66211f67b1fbf05ad6d0250d2976c1ef859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:02 +0000
Subject: [PATCH 01/27] fix: SO3::ln picks a largest diagonal entry also when
 two are equal

For angles above 90 degrees the axis is read from the row of the largest
diagonal entry. With strict comparisons a tie between the first two (axis
(1,1,0)/sqrt(2)) selected the third row, which is zero, and the logarithm
came out as zero.
---
 src/geometry/SO3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 395ad64..c1e0eba 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -189,14 +189,14 @@ Mat3 SO3::ln(double *ro) const
         Mat31 w;
         double d = std::cos(o);
 
-        if( R_(0,0) > R_(1,1) && R_(0,0) > R_(2,2) )
+        if( R_(0,0) >= R_(1,1) && R_(0,0) >= R_(2,2) )
         {
             // For stability, we average the two elements since it is almost symetric
             w << R_(0,0) - d,
                  0.5 * ( R_(0,1) + R_(1,0)),
                  0.5 * ( R_(0,2) + R_(2,0));
         }
-        else if( R_(1,1) > R_(0,0) && R_(1,1) > R_(2,2) )
+        else if( R_(1,1) >= R_(0,0) && R_(1,1) >= R_(2,2) )
         {
             w << 0.5 * ( R_(1,0) + R_(0,1)),
                  R_(1,1) - d,
-- 
2.43.0


From 8d00bf4806e50ddf687032144c927a0b48c06f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:53 +0000
Subject: [PATCH 02/27] fix: use the transposed cross covariance in the fourth
 order compounding

---
 src/geometry/SE3cov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SE3cov.cpp b/src/geometry/SE3cov.cpp
index 71e35d6..b69a777 100644
--- a/src/geometry/SE3cov.cpp
+++ b/src/geometry/SE3cov.cpp
@@ -71,7 +71,7 @@ SE3Cov SE3Cov::compound_4th_order(const SE3 &pose_increment, const Mat6 &increme
                      brackets(sigma_1_rr, sigma_2_tt);
 
     Mat3 B_rho_phi = brackets(sigma_1_tt, sigma_2_tr) +
-                     brackets(sigma_1_rt, sigma_2_tt);// There is a mistake in Barfoots p.265,
+                     brackets(sigma_1_tr, sigma_2_tt);
 
     Mat3 B_phi_phi = brackets(sigma_1_tt, sigma_2_tt);
 
-- 
2.43.0


From 6ebf316d1db6ccb824ea5cc390db3e8827777825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 03/27] fix: isSO3 requires orthonormality and isSE3 any
 deviation of the last row

---
 src/geometry/SE3.cpp | 2 +-
 src/geometry/SO3.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/geometry/SE3.cpp b/src/geometry/SE3.cpp
index 9073980..9966e41 100644
--- a/src/geometry/SE3.cpp
+++ b/src/geometry/SE3.cpp
@@ -293,7 +293,7 @@ bool mrob::isSE3(Mat4 T)
         return false;
     Mat<1,4> one;
     one << 0,0,0,1;
-    if ( (T.row(3)-one).sum() > 1e-6 )
+    if ( !((T.row(3)-one).norm() <= 1e-6) )
         return false;
     return true;
 }
diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index c1e0eba..29a3271 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -279,10 +279,12 @@ void SO3::print_lie(void) const
 
 bool mrob::isSO3(Mat3 R)
 {
+    // negated comparisons, such that undefined entries (NaN) are rejected as well
     matData_t det = R.determinant();
-    if (det  < 0)
+    if ( !(fabs(det - 1.0) <= 1e-6) )
         return false;
-    if ( fabs(det - 1.0) > 1e-6)
+    // the determinant alone does not ensure orthonormality
+    if ( !((R.transpose()*R - Mat3::Identity()).norm() <= 1e-6) )
         return false;
     return true;
 
-- 
2.43.0


From 777f4ddd1b0000e830b0ebcc8724e5c957d2e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:49 +0000
Subject: [PATCH 04/27] fix: Factor2Poses2d keeps the observation for reversed
 node ids and initialises the target in the origin frame

---
 src/FGraph/factors/factor2Poses2d.cpp      | 28 ++++++++++++++--------
 src/FGraph/mrob/factors/factor2Poses2d.hpp |  1 +
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 6dc0e61..a764a50 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -31,7 +31,7 @@ using namespace mrob;
 Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &nodeOrigin,
                                std::shared_ptr<Node> &nodeTarget, const Mat3 &obsInf, bool updateNodeTarget,
                                Factor::robustFactorType robust_type):
-        Factor(3, 6, robust_type), obs_(observation), W_(obsInf)
+        Factor(3, 6, robust_type), obs_(observation), W_(obsInf), reversedNodeOrder_(false)
 {
     if (nodeOrigin->get_id() < nodeTarget->get_id())
     {
@@ -40,16 +40,21 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
     }
     else
     {
-        // we reverse the order and simply invert the observation function (not always true)
+        // nodes are stored ordered by id, the flag keeps track of which one is the origin
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
-
-        // reverse observations to account for this
-        obs_ = -observation;
+        reversedNodeOrder_ = true;
     }
     if (updateNodeTarget)
     {
-        Mat31 dx = nodeOrigin->get_state() +  obs_ - nodeTarget->get_state();
+        // the observation is expressed in the reference frame of the origin: xj = xi + Ri * obs
+        Mat31 xOrigin = nodeOrigin->get_state();
+        double c1 = std::cos(xOrigin(2)),
+               s1 = std::sin(xOrigin(2));
+        Mat31 dx = xOrigin - nodeTarget->get_state();
+        dx(0) += c1 * obs_(0) - s1 * obs_(1);
+        dx(1) += s1 * obs_(0) + c1 * obs_(1);
+        dx(2) += obs_(2);
         nodeTarget->update(dx);
     }
 }
@@ -57,8 +62,8 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
 
 void Factor2Poses2d::evaluate_residuals() {
     // Evaluation of h(i,j)
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(reversedNodeOrder_ ? 1 : 0).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(reversedNodeOrder_ ? 0 : 1).get()->get_state();
 
     // r = h(i,j) - obs = Ri^T * (xj- xi) - obs .  From "i", i.e, at its reference frame, we observe xj
     Mat31 h = nodeTarget - nodeOrigin;
@@ -74,8 +79,8 @@ void Factor2Poses2d::evaluate_residuals() {
 
 void Factor2Poses2d::evaluate_jacobians()
 {
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(reversedNodeOrder_ ? 1 : 0).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(reversedNodeOrder_ ? 0 : 1).get()->get_state();
 
     // r =  Ri^T * (xj- xi) - obs
     // J1 = [-R1^T,    J2 = [R1^T 0]
@@ -87,6 +92,9 @@ void Factor2Poses2d::evaluate_jacobians()
     J_ <<   -c1, -s1, -s1*dx + c1*dy,     c1, s1, 0,
              s1, -c1, -c1*dx - s1*dy,    -s1, c1, 0,
               0,   0,    -1,              0,  0, 1;
+    // the blocks follow the order of the nodes
+    if (reversedNodeOrder_)
+        J_.leftCols<3>().swap(J_.rightCols<3>());
 }
 
 void Factor2Poses2d::evaluate_chi2()
diff --git a/src/FGraph/mrob/factors/factor2Poses2d.hpp b/src/FGraph/mrob/factors/factor2Poses2d.hpp
index f0b043b..a39ef92 100644
--- a/src/FGraph/mrob/factors/factor2Poses2d.hpp
+++ b/src/FGraph/mrob/factors/factor2Poses2d.hpp
@@ -74,6 +74,7 @@ namespace mrob{
         Mat31 obs_, r_; //and residuals
         Mat3 W_;//inverse of observation covariance (information matrix)
         Mat<3,6> J_;//Joint Jacobian
+        bool reversedNodeOrder_;//flag to keep order when building the adjacency matrix. This should be transparent for the user
 
     public:
         EIGEN_MAKE_ALIGNED_OPERATOR_NEW // as proposed by Eigen
-- 
2.43.0


From 396a0efed28419d3110be39d6f05c0c188ef7507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:04 +0000
Subject: [PATCH 05/27] fix: odometry Jacobian accounts for the first rotation

---
 src/FGraph/factors/factor2Poses2d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index a764a50..69501b2 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -142,7 +142,8 @@ void Factor2Poses2dOdom::evaluate_jacobians()
     // Get the position of node we are traversing from
     Mat31 node1 = get_neighbour_nodes()->at(0).get()->get_state();
 
-    auto s = -obs_(1) * std::sin(node1(2)), c = obs_(1) * std::cos(node1(2));
+    // the translation is applied after the first rotation
+    auto s = -obs_(1) * std::sin(node1(2) + obs_(0)), c = obs_(1) * std::cos(node1(2) + obs_(0));
 
     // Jacobians for odometry model which are: G and -I
     J_ <<   1, 0, s,    -1, 0, 0,
-- 
2.43.0


From b667428e28c35180de35c7bb39faeabd684c02e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 06/27] fix: Factor2Poses3d inverts the observation when the
 node ids are reversed

---
 src/FGraph/factors/factor2Poses3d.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses3d.cpp b/src/FGraph/factors/factor2Poses3d.cpp
index 012e3b3..31a3eae 100644
--- a/src/FGraph/factors/factor2Poses3d.cpp
+++ b/src/FGraph/factors/factor2Poses3d.cpp
@@ -45,14 +45,14 @@ Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &n
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * observation );
     }
 }
 
@@ -72,14 +72,14 @@ Factor2Poses3d::Factor2Poses3d(const SE3 &observation, std::shared_ptr<Node> &no
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * observation.T() );
     }
 }
 
-- 
2.43.0


From f6166cbf0730221f1b8d6fc57cd72859228a363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:01 +0000
Subject: [PATCH 07/27] fix: Factor1Pose1Landmark3d initialises the landmark
 when asked to

---
 src/FGraph/factors/factor1Pose1Landmark3d.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor1Pose1Landmark3d.cpp b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
index 05a1f6f..094e024 100644
--- a/src/FGraph/factors/factor1Pose1Landmark3d.cpp
+++ b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
@@ -50,7 +50,9 @@ Factor1Pose1Landmark3d::Factor1Pose1Landmark3d(const Mat31 &observation, std::sh
 
     if (initializeLandmark)
     {
-        // TODO Initialize landmark value to whatever observation we see from current pose
+        // Initialize landmark value to whatever observation we see from current pose
+        Mat4 Tx = nodePose->get_state();
+        nodeLandmark->set_state( SE3(Tx).transform(obs_) );
     }
 }
 
-- 
2.43.0


From 5ce82d44e54b5d904c790fe57160b666172e3d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:57 +0000
Subject: [PATCH 08/27] fix: wrap_angle terminates for angles of any magnitude

---
 src/FGraph/node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index f318f49..248d289 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -23,6 +23,8 @@
 
 #include "mrob/node.hpp"
 
+#include <cmath>
+
 using namespace mrob;
 
 Node::Node(uint_t dim, nodeMode mode):
@@ -61,6 +63,10 @@ double mrob::wrap_angle(double angle)
 {
     double pi2 = 2 * M_PI;
 
+    // whole turns are removed first: adding a turn to a huge angle has no effect
+    if (angle < -M_PI || angle >= M_PI)
+        angle = std::fmod(angle, pi2);
+
     while (angle < -M_PI) angle += pi2;
     while (angle >= M_PI) angle -= pi2;
 
-- 
2.43.0


From 7e38a377518cdcba7e62796d2ab2a8f39c1d4a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:00 +0000
Subject: [PATCH 09/27] fix: RANSAC factors weight inliers 1 and outliers 0
 instead of always 0

---
 src/FGraph/factor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FGraph/factor.cpp b/src/FGraph/factor.cpp
index 06182c2..72d4507 100644
--- a/src/FGraph/factor.cpp
+++ b/src/FGraph/factor.cpp
@@ -63,6 +63,8 @@ matData_t Factor::evaluate_robust_weight(matData_t u, matData_t params)
             robust_weight_ = 1.0/params/params;
             break;
         case RANSAC:
+            // inliers count in full, outliers are removed
+            robust_weight_ = u < 1.0 ? 1.0 : 0.0;
             break;
         case QUADRATIC:
         default:
-- 
2.43.0


From 3439feda3dcdbdff4c2183f585c196ff902852f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:00 +0000
Subject: [PATCH 10/27] fix: robust weights are evaluated at u = sqrt(r'Wr), as
 documented

---
 src/FGraph/factor_graph_solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index ed667b3..1666ae4 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -319,7 +319,7 @@ void FGraphSolve::build_adjacency()
             {
                 uint_t iRow = indFactorsMatrix[i] + l;
                 uint_t iCol = indFactorsMatrix[i] + k;
-                robust_weight = f->evaluate_robust_weight(std::sqrt(f->get_chi2()));
+                robust_weight = f->evaluate_robust_weight(std::sqrt(2.0 * f->get_chi2()));
                 W_.insert(iRow,iCol) = robust_weight * f->get_information_matrix()(l,k);
             }
         }
-- 
2.43.0


From dcc577a3c6c6297505c84f1be43b32b445b5759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:38 +0000
Subject: [PATCH 11/27] fix: Levenberg-Marquardt starts from the damping given
 to solve

---
 src/FGraph/factor_graph_solve.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index 1666ae4..0cb0892 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -145,7 +145,6 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
     // LM trust region as described in Bertsekas (p.105)
 
     // 0) parameter initialization
-    lambda_ = 1e-5;
     // sigma reference to the fidelity of the model at the proposed solution \in [0,1]
     matData_t sigma1(0.25), sigma2(0.8);// 0 < sigma1 < sigma2 < 1
     matData_t beta1(2.0), beta2(0.25); // lambda updates multiplier values, beta1 > 1 > beta2 >0
-- 
2.43.0


From 21f144649f2bfed65a60ac7d3d97ac4126f03b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:57 +0000
Subject: [PATCH 12/27] fix: dense solver counts the gradient of a factor once,
 not once per connected node

---
 src/FGraph/factor_graph_solve_dense.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index 916e8a7..ad76ad3 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -117,6 +117,10 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 matrix_index += (*nodes_connected)[m]->get_dim();
             }
 
+            // Gradient: Grad(n) = \sum J_n_t*W*r, once per factor
+            gradient_.segment(indNodesMatrix[n], N) +=
+                    J_n_t * f->get_information_matrix() * f->get_residual();
+
             // Calculate the second part corresponding on the second factor
             matrix_index = 0;
             for (uint_t m = 0; m < nodes_connected->size() ; ++m)
@@ -125,9 +129,6 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 M = node2->get_dim();
                 MatX J_m = J.block(0, matrix_index, D,M);
                 matrix_index += M;
-                // Gradient: Grad(n) = \sum J_n_t*W*r
-                gradient_.segment(indNodesMatrix[n], N) +=
-                        J_n_t * f->get_information_matrix() * f->get_residual();
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
-- 
2.43.0


From 26711e7c80f0fc50a4a666d6c07cf8bf8d9b9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:57 +0000
Subject: [PATCH 13/27] fix: dense solver leaves anchor nodes out of the
 problem

---
 src/FGraph/factor_graph_solve_dense.cpp | 29 ++++++++++++++-----------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index ad76ad3..88bac8b 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -76,24 +76,24 @@ void FGraphSolveDense::calculate_gradient_hessian()
 
     // 3) calculate the indexes for the nodes for block allocation
     std::vector<uint_t> indNodesMatrix, indNodeId;
-    indNodesMatrix.reserve(nodes_.size());
-    indNodeId.reserve(nodes_.size());
+    indNodesMatrix.reserve(active_nodes_.size());
+    indNodeId.reserve(active_nodes_.size());
     uint_t N = 0, M = 0;
-    for (size_t i = 0; i < nodes_.size(); ++i)
+    for (size_t i = 0; i < active_nodes_.size(); ++i)
     {
         // calculate the indices to access
-        uint_t dim = nodes_[i]->get_dim();
+        uint_t dim = active_nodes_[i]->get_dim();
         indNodesMatrix.push_back(N);
-        indNodeId.push_back(nodes_[i]->get_id()); //bookkeeps the nodes ids
+        indNodeId.push_back(active_nodes_[i]->get_id()); //bookkeeps the nodes ids
         N += dim;
     }
     assert(N == stateDim_ && "FGraphSolveDense::HessianAndGradient: State Dimensions are not coincident\n");
 
     // 4) create Hessian and gradient, by traversing all nodes, looking for its factors
     //    and completing the rows in the Hessian and gradient.
-    for (uint_t n = 0; n < nodes_.size(); ++n)
+    for (uint_t n = 0; n < active_nodes_.size(); ++n)
     {
-        auto node = nodes_[n];
+        auto node = active_nodes_[n];
         uint_t node_id =  node->get_id();
         N = node->get_dim();
         auto factors = node->get_neighbour_factors();
@@ -129,6 +129,9 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 M = node2->get_dim();
                 MatX J_m = J.block(0, matrix_index, D,M);
                 matrix_index += M;
+                // anchor nodes are not part of the state
+                if (node2->get_node_mode() == Node::nodeMode::ANCHOR)
+                    continue;
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
@@ -146,25 +149,25 @@ void FGraphSolveDense::calculate_gradient_hessian()
 void FGraphSolveDense::update_state()
 {
     int acc_start = 0;
-    for (uint_t i = 0; i < nodes_.size(); i++)
+    for (uint_t i = 0; i < active_nodes_.size(); i++)
     {
         // node update is the negative of dx just calculated.
         // x = x - alpha * H^(-1) * Grad = x - dx
         // Depending on the optimization, it is already taking care of the step alpha, so we assume alpha = 1
-        const auto &node_update = dx_.block(acc_start, 0, nodes_[i]->get_dim(), 1);
-        nodes_[i]->update(node_update);
+        const auto &node_update = dx_.block(acc_start, 0, active_nodes_[i]->get_dim(), 1);
+        active_nodes_[i]->update(node_update);
 
-        acc_start += nodes_[i]->get_dim();
+        acc_start += active_nodes_[i]->get_dim();
     }
 }
 void FGraphSolveDense::bookkeep_state()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_auxiliary_state(n->get_state());
 }
 void FGraphSolveDense::update_state_from_bookkeep()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_state(n->get_auxiliary_state());
 }
 
-- 
2.43.0


From 97ee70e3d2fd9c25b923a62bde455474658577ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:57 +0000
Subject: [PATCH 14/27] fix: dense solver applies the robust weights

---
 src/FGraph/factor_graph_solve_dense.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index 88bac8b..20c8d91 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -24,6 +24,7 @@
 
 #include "mrob/factor_graph_solve_dense.hpp"
 #include <algorithm>
+#include <cmath>
 #include <iterator>
 #include <iostream>
 
@@ -117,9 +118,11 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 matrix_index += (*nodes_connected)[m]->get_dim();
             }
 
+            // information matrix with the robust weight applied
+            MatX W = f->evaluate_robust_weight(std::sqrt(2.0 * f->get_chi2())) * f->get_information_matrix();
+
             // Gradient: Grad(n) = \sum J_n_t*W*r, once per factor
-            gradient_.segment(indNodesMatrix[n], N) +=
-                    J_n_t * f->get_information_matrix() * f->get_residual();
+            gradient_.segment(indNodesMatrix[n], N) += J_n_t * W * f->get_residual();
 
             // Calculate the second part corresponding on the second factor
             matrix_index = 0;
@@ -138,7 +141,7 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 auto index = std::distance(indNodeId.begin(), it);
                 // Only the current block row is filled in (corresponding to the n-node). We could use a triang view...
                 hessian_.block(indNodesMatrix[n], indNodesMatrix[index],N,M) +=
-                        J_n_t * f->get_information_matrix() * J_m;
+                        J_n_t * W * J_m;
             }
         }
     }
-- 
2.43.0


From f927663dbc100ced63d2e833e9bfbec91e698a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:14 +0000
Subject: [PATCH 15/27] fix: removing a factor that is not connected to a node
 leaves the node as it was

---
 src/FGraph/node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index 248d289..5c34186 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -54,6 +54,8 @@ bool Node::rm_factor(std::shared_ptr<Factor> &factor)
         if (*f == factor)
             break;
     }
+    if (f == neighbourFactors_.end())
+        return false;
     neighbourFactors_.erase(f);
     return true;
 }
-- 
2.43.0


From 61171bc869480c3f40d2a404b0f3c16209e3631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 16/27] fix: Arun alignment rejects only point sets without a
 unique rotation

---
 src/PCRegistration/arun.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/PCRegistration/arun.cpp b/src/PCRegistration/arun.cpp
index 89af244..536db20 100644
--- a/src/PCRegistration/arun.cpp
+++ b/src/PCRegistration/arun.cpp
@@ -42,7 +42,7 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
      *  2) calculate dispersion from centroids qx = x_i - cx
      *  3) calculate matrix H = sum qx_i * qy_i^T
      *  4) svd decomposition: H = U*D*V'
-     *      4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
+     *      4.5) look for co-linear solutions, that is, no unique rotation
      *  5) Calculate the rotation solution R = V*U'
      *      5.5) check for correct solution (det = +1) or reflection (det = -1)
      *      step 5.5 is actually unnecessary IF applying Umeyama technique
@@ -75,22 +75,17 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
                  ",\n V = " << SVD.matrixV() << std::endl;*/
 
 
-    // 4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
-    double l_prev = SVD.singularValues()(0), l;
-    for(int i =1; i < 3; ++i)
-    {
-        l = SVD.singularValues()(i);
-        if (fabs(l - l_prev) < 1e-6)
-
-            return 0; //they are co-linear, there exist infinite transformations
-        else
-            l_prev = l;//this works because we assume that they singular values are ordered.
-    }
-
-
     // 5) Calculate the rotation solution R = V*U'
     Mat3 R = SVD.matrixV() * SVD.matrixU().transpose();
 
+    // 4.5) look for co-linear solutions. The rotation is unique only if D2 + D3 > 0, where D3 changes sign on
+    // reflections. Repeated singular values are valid otherwise (squares, tetrahedra, etc.)
+    double D2 = SVD.singularValues()(1), D3 = SVD.singularValues()(2);
+    if (R.determinant() < 0.0)
+        D3 = -D3;
+    if (D2 + D3 < 1e-6)
+        return 0; //they are co-linear, there exist infinite transformations
+
     // 5.5) check for correct solution (det = +1) or reflection (det = -1)
     // that is, solve the problem for co-planar set of points and centroid, when is l1 > l2 > l3 = 0
     // Since H = D1*u1*v1' + D2*u2*v2' + D3*u3*v3',    and D3 = 0, we can swap signs in V
-- 
2.43.0


From 0bfb4e84b8451af1c3df96f38140d72667caedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 17/27] fix: plane Hessian is the second derivative of the
 plane error

---
 src/PCRegistration/plane.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index b61d2fc..16a87f5 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -285,7 +285,7 @@ Mat6 Plane::calculate_hessian(uint_t t)
     Mat4 ddQ, &Q = matrixQ_[t];
 
     // H = pi' * dd Q * pi, where dd Q = Bij + Bij' and
-    // Bij = (Gi*Gj + Gj*Gi)Q*0.5 + Gi * dQ (previous gradient)
+    // Bij = (Gi*Gj + Gj*Gi)Q*0.5 + Gi * Q * Gj' (the expansion of exp(xi) Q exp(xi)' at second order)
     // Upper triangular matrix
     for (uint_t i =0 ; i< 6 ; ++i)
     {
@@ -295,7 +295,7 @@ Mat6 Plane::calculate_hessian(uint_t t)
             ddQ = lieGenerativeMatrices_[i]*lieGenerativeMatrices_[j] + lieGenerativeMatrices_[j]*lieGenerativeMatrices_[i];
             //compound operator *= as in a*=b (this multiplies on the right: a*=b is equivalent to a = a*b)
             ddQ *= 0.5 * Q;
-            ddQ += lieGenerativeMatrices_[i] * gradQ_[j];
+            ddQ += lieGenerativeMatrices_[i] * Q * lieGenerativeMatrices_[j].transpose();
             ddQ += ddQ.transpose().eval();
             hessian(i,j) = planeEstimation_.dot(ddQ*planeEstimation_);
         }
-- 
2.43.0


From ed953ed099aa0ec3b962783a4db74ec7ba59d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 18/27] fix: points added to a plane after an estimation enter
 its moment matrices

---
 src/PCRegistration/plane.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 16a87f5..dcd2b43 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -104,6 +104,13 @@ void Plane::push_back_point(Mat31 &point, uint_t t)
         //allPlanePoints_[t].push_back(homogeneousPoint);
         allPlanePoints_[t].push_back(point);
         ++numberPoints_;
+        // moments already calculated are kept up to date
+        if (!matrixS_.empty())
+        {
+            Mat41 pHomog;
+            pHomog << point, 1.0;
+            matrixS_[t] += pHomog * pHomog.transpose();
+        }
     }
 }
 
-- 
2.43.0


From b4efc50873b96eca83614ee7a6f7320e3a642651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 19/27] fix: clearing the points of a plane keeps one container
 per pose and forgets their moments

---
 src/PCRegistration/plane.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index dcd2b43..01f4d14 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -123,7 +123,10 @@ std::vector<Mat31>& Plane::get_points(uint_t t)
 
 void Plane::clear_points()
 {
-    allPlanePoints_.clear();
+    for (auto &points : allPlanePoints_)
+        points.clear();
+    numberPoints_ = 0;
+    matrixS_.clear();
 }
 
 
-- 
2.43.0


From ab5ba2e3aa481219ee5d2fed8093b34fdb3c964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 20/27] fix: incremental plane estimation stores the updated
 moment matrix and error

---
 src/PCRegistration/plane.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 01f4d14..8cf06dc 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -158,11 +158,13 @@ double Plane::estimate_plane()
 double Plane::estimate_plane_incrementally(uint_t t)
 {
     accumulatedQ_ -= matrixQ_[t];
-    accumulatedQ_ +=  trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    matrixQ_[t] = trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    accumulatedQ_ += matrixQ_[t];
     //std::cout << "new acc Q " << accumulatedQ_ << std::endl;
     Eigen::SelfAdjointEigenSolver<Mat4> eigs(accumulatedQ_);
     planeEstimation_ = eigs.eigenvectors().col(0);
-    return eigs.eigenvalues()(0);
+    lambda_ = eigs.eigenvalues()(0);
+    return lambda_;
 }
 
 double Plane::get_error_incremental(uint_t t) const
-- 
2.43.0


From e0f88cb5448bb55a86ef7df6a061dab87f9e13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 21/27] fix: plane initialization pairs only the planes
 observed from both poses

---
 src/PCRegistration/plane_registration.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 552285a..76f4cb9 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -258,8 +258,11 @@ uint_t PlaneRegistration::solve_initialize()
     for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
     {
         it->second->calculate_all_matrices_S();
+        // one entry per plane, planes not observed from the first pose are not used below
         if (it->second->get_number_points(0) > 0 )
             Y_points_all.push_back(it->second->get_mean_point(0));
+        else
+            Y_points_all.push_back(Mat31::Zero());
     }
 
     uint_t t = 0;
@@ -277,7 +280,7 @@ uint_t PlaneRegistration::solve_initialize()
         uint_t cont =0;
         for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
         {
-            if (it->second->get_number_points(t) > 0 )
+            if (it->second->get_number_points(t) > 0 && it->second->get_number_points(0) > 0)
             {
                 X_points.push_back(it->second->get_mean_point(t));
                 Y_points.push_back(Y_points_all[cont]);
@@ -285,6 +288,8 @@ uint_t PlaneRegistration::solve_initialize()
             }
             cont++;
         }
+        if (number_points < 3)
+            return 0;
         // Create the matrices X,Y
         MatX X(number_points,3), Y(number_points,3);
         for (uint_t i = 0; i < number_points; ++i)
-- 
2.43.0


From 8df64750a74e9671d78b7f598c2b97270452667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 22/27] fix: gradient registration skips poses without points
 instead of dividing by zero

---
 src/PCRegistration/plane_registration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 76f4cb9..d911c45 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -160,6 +160,9 @@ uint_t PlaneRegistration::solve_interpolate_gradient(bool singleIteration)
                 jacobian += it->second->calculate_gradient(t);
                 numberPoints += it->second->get_number_points(t);
             }
+            // a pose without observations has no gradient
+            if (numberPoints == 0.0)
+                continue;
             // XXX this could be changed to time stamps later
             accumulatedJacobian +=  (tau *  t  / numberPoints / numberPoses_) * jacobian;
 
-- 
2.43.0


From f8f276a44f1840c828d6174bb0b4d87a1b4932f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 23/27] fix: pose rmse accepts a ground truth longer than the
 trajectory

---
 src/PCRegistration/plane_registration.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index d911c45..b7aea5d 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -363,13 +363,11 @@ double PlaneRegistration::calculate_poses_rmse(std::vector<SE3> & groundTruth) c
 {
     assert(groundTruth.size() >= numberPoses_ && "PlaneRegistration::calculate_poses_rmse: number of poses from GT is incorrect\n");
     double rmse= 0.0;
-    uint_t t = 0;
-    for (auto &pose: groundTruth)
+    for (uint_t t = 0; t < numberPoses_; ++t)
     {
-        Mat61 dxi = (trajectory_->at(t) * pose.inv()).ln_vee();
+        Mat61 dxi = (trajectory_->at(t) * groundTruth.at(t).inv()).ln_vee();
         //std::cout << pose.ln_vee().transpose() << " and solution inv first pose \n" << (invFirstPose * trajectory_->at(t) * pose.inv()).ln_vee().transpose() <<std::endl;
         rmse += dxi.dot(dxi)/(double)numberPoses_;
-        ++t;
     }
     return std::sqrt(rmse);
 }
-- 
2.43.0


From 2668c91abed0057d73846533ffaf8e24c0345315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 24/27] fix: evaluation report has one row per plane present

---
 src/PCRegistration/plane_registration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index b7aea5d..073a933 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -422,8 +422,8 @@ std::vector<double> PlaneRegistration::print_evaluate()
     result[5] = initial_error_/k;
     result[6] = get_current_error()/k; //TODO this does not work for GN (but yes to GN ini...)
 
-    MatX allPlanes(numberPlanes_,4);
-    MatX allNormals(numberPlanes_,3);
+    MatX allPlanes(planes_.size(),4);
+    MatX allNormals(planes_.size(),3);
     uint_t i = 0;
 
 
-- 
2.43.0


From 61fd3ab1cb1ebb29d6ec85211e7e37911c1efe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 25/27] fix: plane labels of large synthetic clouds stay below
 the number of planes

---
 src/PCRegistration/create_points.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PCRegistration/create_points.cpp b/src/PCRegistration/create_points.cpp
index f27a0dc..ee19d0e 100644
--- a/src/PCRegistration/create_points.cpp
+++ b/src/PCRegistration/create_points.cpp
@@ -179,7 +179,7 @@ CreatePoints::CreatePoints(uint_t numberPoints, uint_t numberPlanes, uint_t numb
         for (uint_t i = 0; i < numberPoints_ ; ++i)
         {
             // parameter is the length of the observed plane
-            uint_t planeId = std::floor((float)i * (float)numberPlanes_/ (float)numberPoints_);
+            uint_t planeId = (unsigned long long)i * numberPlanes_ / numberPoints_;
             Mat31 point = planePoses_[planeId].transform( samplePoints_.samplePoint() );
             point = transInvPose.transform(point);
             X_[t].push_back( point );//XXX this should go away, only PC on planes
-- 
2.43.0


From 7d8a7746d948ae007c5e9b2c50c16cf279c8f80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:58 +0000
Subject: [PATCH 26/27] fix: gradient over all poses averages each pose over
 its own points

---
 src/PCRegistration/plane_registration.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 073a933..87de39a 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -226,14 +226,16 @@ uint_t PlaneRegistration::solve_gradient_all_poses(bool singleIteration)
                 jacobian.segment<6>(t*6) += it->second->calculate_gradient(t);
                 numberPoints += it->second->get_number_points(t);
             }
-
+            // each pose is averaged over its own observations, a pose without them has no gradient
+            if (numberPoints > 0.0)
+                jacobian.segment<6>(t*6) /= numberPoints;
         }
         // 3) update results Tf = exp(-dxi) * Tf (our convention, we expanded from the left)
         // 3-1)
         Mat61 dxi;
         for (uint_t t = 1 ; t < numberPoses_; ++t)
         {
-            Mat61 dxi = -(alpha_ / numberPoints / numberPoses_ )*jacobian.segment<6>(t*6);
+            Mat61 dxi = -(alpha_ / numberPoses_ )*jacobian.segment<6>(t*6);
             trajectory_->at(t).update_lhs(dxi);
         }
         ++solveIters_;
-- 
2.43.0


From 9cedd1e590c159913987083440de10fd06968921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:58 +0000
Subject: [PATCH 27/27] fix: solve(GRADIENT_ALL_POSES) honours singleIteration

---
 src/PCRegistration/plane_registration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 87de39a..6e8895c 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -92,7 +92,7 @@ uint_t PlaneRegistration::solve(SolveMode mode, bool singleIteration)
             return solve_initialize();
         case SolveMode::GRADIENT_ALL_POSES:
             time_profiles_.start();
-            solve_gradient_all_poses();
+            solve_gradient_all_poses(singleIteration);
             time_profiles_.stop();
             break;
         case SolveMode::GRADIENT_BENGIOS_NAG:
-- 
2.43.0

