From 93eeb3f12cf40ed33e1b4f23224f276c6fd93e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 01/16] fix: record the step length tried by the line search of
 SolverCSQP

The loop variable shadowed the member, so that the regularization was
always decreased and get_steplength() never changed.
---
 src/csqp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 0e1eb79..76b7207 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -313,7 +313,8 @@ bool SolverCSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
     bool found = false;
     // less than filter_size_, less or equal iter_
     const std::size_t max_count = std::min(filter_size_, iter_ + 1);
-    for (const double steplength_ : alphas_) {
+    for (const double alpha : alphas_) {
+      steplength_ = alpha;
       try {
         merit_try_ = tryStep(steplength_);
       } catch (std::exception& e) {
-- 
2.43.0


From 4429f7c7e628f774a41f52bc4660cece7741036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 02/16] fix: re-evaluate the models of SolverSQP at the current
 iterate

When every step of a line search is rejected, the models hold the data
of the last trial; cost and gaps of the next iteration were taken from it.
---
 src/sqp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sqp.cpp b/src/sqp.cpp
index 5333fcb..8f12f76 100644
--- a/src/sqp.cpp
+++ b/src/sqp.cpp
@@ -224,6 +224,11 @@ bool SolverSQP::solve(const std::vector<Eigen::VectorXd>& init_xs,
 void SolverSQP::computeDirection(const bool recalcDiff) {
   START_PROFILER("SolverSQP::computeDirection");
   if (recalcDiff) {
+    // calcDiff() only evaluates the models in the first iteration; later on,
+    // they hold the data of the last trial step, which can have been rejected
+    if (iter_ > 0) {
+      problem_->calc(xs_, us_);
+    }
     cost_ = calcDiff();
   }
   gap_norm_ = 0;
-- 
2.43.0


From 1b4ece91173af55e4fc523884cb06674b7f206ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 03/16] fix: shrink the filter memory with the filter size

circular_buffer::resize() keeps the capacity, so that after reducing the
filter size steps were compared with outdated entries.
---
 include/mim_solvers/csqp.hpp        | 4 ++++
 include/mim_solvers/csqp_proxqp.hpp | 4 ++++
 include/mim_solvers/fddp.hpp        | 3 +++
 include/mim_solvers/sqp.hpp         | 3 +++
 4 files changed, 14 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 6674528..5f5b10c 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -230,6 +230,10 @@ class SolverCSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    // resizing alone would keep the capacity of a longer memory
+    gap_list_.set_capacity(filter_size_);
+    constraint_list_.set_capacity(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
     constraint_list_.resize(filter_size_);
     cost_list_.resize(filter_size_);
diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 03f92cc..00d661f 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -167,6 +167,10 @@ class SolverPROXQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    // resizing alone would keep the capacity of a longer memory
+    gap_list_.set_capacity(filter_size_);
+    constraint_list_.set_capacity(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
     constraint_list_.resize(filter_size_);
     cost_list_.resize(filter_size_);
diff --git a/include/mim_solvers/fddp.hpp b/include/mim_solvers/fddp.hpp
index 356efb0..54f4f3f 100644
--- a/include/mim_solvers/fddp.hpp
+++ b/include/mim_solvers/fddp.hpp
@@ -136,6 +136,9 @@ class SolverFDDP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    // resizing alone would keep the capacity of a longer memory
+    gap_list_.set_capacity(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
     cost_list_.resize(filter_size_);
   };
diff --git a/include/mim_solvers/sqp.hpp b/include/mim_solvers/sqp.hpp
index 3b11419..76e7421 100644
--- a/include/mim_solvers/sqp.hpp
+++ b/include/mim_solvers/sqp.hpp
@@ -142,6 +142,9 @@ class SolverSQP : public SolverDDP {
   };
   void set_filter_size(const std::size_t inFilterSize) {
     filter_size_ = inFilterSize;
+    // resizing alone would keep the capacity of a longer memory
+    gap_list_.set_capacity(filter_size_);
+    cost_list_.set_capacity(filter_size_);
     gap_list_.resize(filter_size_);
     cost_list_.resize(filter_size_);
   };
-- 
2.43.0


From 9a374f31126600f350b357a5429e217a1d238f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 04/16] fix: let the regularization grow from zero

With a zero regularization, a failing backward pass was retried forever.
---
 src/ddp.cpp | 6 +++++-
 src/kkt.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index f5d9ada..6aeecaa 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -429,7 +429,11 @@ void SolverDDP::computeGains(const std::size_t t) {
 }
 
 void SolverDDP::increaseRegularization() {
-  preg_ *= reg_incfactor_;
+  if (preg_ > 0.) {
+    preg_ *= reg_incfactor_;
+  } else {
+    preg_ = 1e-9;  // a zero regularization would never grow
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
diff --git a/src/kkt.cpp b/src/kkt.cpp
index 7775019..d8ef40b 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -293,7 +293,11 @@ void SolverKKT::computePrimalDual() {
 }
 
 void SolverKKT::increaseRegularization() {
-  preg_ *= reg_incfactor_;
+  if (preg_ > 0.) {
+    preg_ *= reg_incfactor_;
+  } else {
+    preg_ = 1e-9;  // a zero regularization would never grow
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
-- 
2.43.0


From 37277f1f76c601c426b77a37c98405d2796d99cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 05/16] fix: report the number of executed QP iterations when
 the budget is used up

---
 src/csqp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index 76b7207..c264b49 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -512,6 +512,8 @@ void SolverCSQP::computeDirection(const bool /*recalcDiff*/) {
       }
     }
   }
+  // Without convergence, the loop ends with one iteration too many
+  qp_iters_ = std::min(qp_iters_, max_qp_iters_);
 
   STOP_PROFILER("SolverCSQP::computeDirection");
   // MIM_SOLVERS_EIGEN_MALLOC_ALLOWED();
-- 
2.43.0


From a7247b316e704310528e38597172d408af73729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 06/16] fix: columns of the control constraints in SolverPROXQP
 with varying nu

---
 src/csqp_proxqp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 55b11cc..609be37 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -308,7 +308,7 @@ void SolverPROXQP::calc(const bool recalc) {
       }
     }
     if (nc != 0) {
-      C_.middleCols(T * nx + (t)*nu, nu).middleRows(nin_count, nc) = d->Gu;
+      C_.middleCols(index_u, nu).middleRows(nin_count, nc) = d->Gu;
       l_.segment(nin_count, nc) = lb - d->g;
       u_.segment(nin_count, nc) = ub - d->g;
     }
-- 
2.43.0


From de62f1b015b56cf03376163189d499a6d898319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 07/16] fix: do not shadow the cost of SolverAbstract in
 SolverPROXQP

The cost of the base class, which the bindings expose, was never updated.
---
 include/mim_solvers/csqp_proxqp.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index 00d661f..b610918 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -223,7 +223,6 @@ class SolverPROXQP : public SolverDDP {
   double constraint_norm_ = 0;  //!< 1 norm of constraint violation
   double constraint_norm_try_ = 0;  //!< 1 norm of constraint violation try
   double gap_norm_try_ = 0;         //!< 1 norm of the gaps
-  double cost_ = 0.0;               //!< cost function
   double mu_dynamic_ = 1e1;         //!< penalty no constraint violation
   double mu_constraint_ = 1e1;      //!< penalty no constraint violation
   double termination_tol_ = 1e-8;   //!< Termination tolerance
-- 
2.43.0


From f0620b04991e934592342315885f6d4f0b11e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 08/16] fix: use the tangent dimension of the state in
 SolverPROXQP

The QP of SolverPROXQP is posed in the tangent space, but its sizes and
block positions were taken from nx, which differs from ndx for manifold
states: derivatives were read out of bounds and the direction was wrong.
---
 src/csqp_proxqp.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index 609be37..c81b2e4 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -49,13 +49,13 @@ SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
   n_eq = 0;
   for (std::size_t t = 0; t < T; ++t) {
     if (t < T - 1) {
-      n_vars += models[t + 1]->get_state()->get_nx();
-      n_eq += models[t + 1]->get_state()->get_nx();
+      n_vars += models[t + 1]->get_state()->get_ndx();
+      n_eq += models[t + 1]->get_state()->get_ndx();
     }
     n_vars += models[t]->get_nu();
   }
-  n_vars += problem_->get_terminalModel()->get_state()->get_nx();
-  n_eq += problem_->get_terminalModel()->get_state()->get_nx();
+  n_vars += problem_->get_terminalModel()->get_state()->get_ndx();
+  n_eq += problem_->get_terminalModel()->get_state()->get_ndx();
   P_.resize(n_vars, n_vars);
   P_.setZero();
   q_.resize(n_vars), q_.setZero();
@@ -278,7 +278,7 @@ void SolverPROXQP::calc(const bool recalc) {
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
     const std::shared_ptr<ActionDataAbstract>& d = datas[t];
-    const int nx = m->get_state()->get_nx();
+    const int nx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
 
     m->get_state()->diff(xs_[t + 1], d->xnext, fs_[t + 1]);
@@ -332,7 +332,7 @@ void SolverPROXQP::calc(const bool recalc) {
   int nc = m_T->get_ng();
   auto lb = m_T->get_g_lb();
   auto ub = m_T->get_g_ub();
-  const int nx = m_T->get_state()->get_nx();
+  const int nx = m_T->get_state()->get_ndx();
 
   P_.middleCols((T - 1) * nx, nx).middleRows((T - 1) * nx, nx) = d_T->Lxx;
   q_.segment((T - 1) * nx, nx) = d_T->Lx;
@@ -389,7 +389,7 @@ void SolverPROXQP::computeDirection(const bool recalcDiff) {
   double index_u = n_eq;
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<ActionModelAbstract>& m = models[t];
-    const int nx = m->get_state()->get_nx();
+    const int nx = m->get_state()->get_ndx();
     const int nu = m->get_nu();
     int nc = m->get_ng();
 
-- 
2.43.0


From aff2ed101dcf2fbb890dd1de7b763a33317cadf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 09/16] fix: keep the fraction of adaptive_rho_tolerance in
 SolverCSQP

---
 include/mim_solvers/csqp.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 5f5b10c..2e8f306 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -173,9 +173,7 @@ class SolverCSQP : public SolverDDP {
   std::size_t get_filter_size() const { return filter_size_; };
 
   std::size_t get_rho_update_interval() const { return rho_update_interval_; };
-  std::size_t get_adaptive_rho_tolerance() const {
-    return adaptive_rho_tolerance_;
-  };
+  double get_adaptive_rho_tolerance() const { return adaptive_rho_tolerance_; };
   double get_alpha() const { return alpha_; };
   double get_sigma() const { return sigma_; };
   double get_rho_sparse() const { return rho_sparse_; };
@@ -203,7 +201,7 @@ class SolverCSQP : public SolverDDP {
   void set_rho_update_interval(const std::size_t interval) {
     rho_update_interval_ = interval;
   };
-  void set_adaptive_rho_tolerance(const std::size_t tolerance) {
+  void set_adaptive_rho_tolerance(const double tolerance) {
     adaptive_rho_tolerance_ = tolerance;
   };
 
-- 
2.43.0


From a189e3d16314cadd49ef7092cb895e16ba944f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 10/16] fix: reject a zero rho_update_interval in SolverCSQP

---
 include/mim_solvers/csqp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 2e8f306..0661336 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -11,6 +11,7 @@
 
 #include <Eigen/Cholesky>
 #include <boost/circular_buffer.hpp>
+#include <crocoddyl/core/utils/exception.hpp>
 #include <limits>
 #include <vector>
 
@@ -199,6 +200,9 @@ class SolverCSQP : public SolverDDP {
   void setQPCallbacks(const bool inCallbacks);
 
   void set_rho_update_interval(const std::size_t interval) {
+    if (interval == 0) {
+      throw_pretty("Invalid argument: rho_update_interval has to be positive.");
+    }
     rho_update_interval_ = interval;
   };
   void set_adaptive_rho_tolerance(const double tolerance) {
-- 
2.43.0


From 16ba9ac5fb71cf739740b16b3e4f961c8487e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 11/16] fix: reject empty and non-positive step lengths in
 set_alphas

---
 src/ddp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ddp.cpp b/src/ddp.cpp
index 6aeecaa..6badc91 100644
--- a/src/ddp.cpp
+++ b/src/ddp.cpp
@@ -601,7 +601,13 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty()) {
+    throw_pretty("Invalid argument: " << "alphas is empty.");
+  }
   double prev_alpha = alphas[0];
+  if (0. >= prev_alpha) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
   }
-- 
2.43.0


From 6bd99476e223a27b7cbee7e9c1e02c25a69153a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 12/16] fix: do not hide KKT_, merit_ and termination_tol_ of
 the base classes

---
 include/mim_solvers/csqp.hpp        | 4 ----
 include/mim_solvers/csqp_proxqp.hpp | 4 ----
 include/mim_solvers/fddp.hpp        | 3 ---
 include/mim_solvers/sqp.hpp         | 4 ----
 src/csqp_proxqp.cpp                 | 1 +
 5 files changed, 1 insertion(+), 15 deletions(-)

diff --git a/include/mim_solvers/csqp.hpp b/include/mim_solvers/csqp.hpp
index 0661336..04de7d3 100644
--- a/include/mim_solvers/csqp.hpp
+++ b/include/mim_solvers/csqp.hpp
@@ -301,7 +301,6 @@ class SolverCSQP : public SolverDDP {
   bool remove_reg_ = false;  //!< Removes Crocoddyl's regularization (preg,dreg)
 
  protected:
-  double merit_ = 0;            //!< merit function at nominal traj
   double merit_try_ = 0;        //!< merit function for the step length tried
   double x_grad_norm_ = 0;      //!< 1 norm of the delta x
   double u_grad_norm_ = 0;      //!< 1 norm of the delta u
@@ -313,7 +312,6 @@ class SolverCSQP : public SolverDDP {
       1e1;  //!< penalty weight for dymanic violation in the merit function
   double mu_constraint_ =
       1e1;  //!< penalty weight for constraint violation in the merit function
-  double termination_tol_ = 1e-6;  //!< Termination tolerance
   // bool with_callbacks_ = false;                                //!< With
   // callbacks
   bool with_qp_callbacks_ = false;  //!< With QP callbacks
@@ -337,8 +335,6 @@ class SolverCSQP : public SolverDDP {
       true;  //!< warm-start the QP with unconstrained solution
   std::size_t filter_size_ =
       1;  //!< Filter size for line-search (do not change the default value !)
-  double KKT_ =
-      std::numeric_limits<double>::infinity();  //!< KKT conditions residual
 
  private:
   double th_acceptnegstep_;  //!< Threshold used for accepting step along ascent
diff --git a/include/mim_solvers/csqp_proxqp.hpp b/include/mim_solvers/csqp_proxqp.hpp
index b610918..ab0a2dc 100644
--- a/include/mim_solvers/csqp_proxqp.hpp
+++ b/include/mim_solvers/csqp_proxqp.hpp
@@ -210,12 +210,9 @@ class SolverPROXQP : public SolverDDP {
   std::vector<Eigen::VectorXd> y_;  //!< lagrangian dual variable
 
   Eigen::VectorXd fs_flat_;  //!< Gaps/defects between shooting nodes (1D array)
-  double KKT_ =
-      std::numeric_limits<double>::infinity();  //!< KKT conditions residual
   bool use_filter_line_search_ = true;          //!< Use filter line search
 
  protected:
-  double merit_ = 0;            //!< merit function at nominal traj
   double merit_try_ = 0;        //!< merit function for the step length tried
   double x_grad_norm_ = 0;      //!< 1 norm of the delta x
   double u_grad_norm_ = 0;      //!< 1 norm of the delta u
@@ -225,7 +222,6 @@ class SolverPROXQP : public SolverDDP {
   double gap_norm_try_ = 0;         //!< 1 norm of the gaps
   double mu_dynamic_ = 1e1;         //!< penalty no constraint violation
   double mu_constraint_ = 1e1;      //!< penalty no constraint violation
-  double termination_tol_ = 1e-8;   //!< Termination tolerance
   bool with_callbacks_ = false;     //!< With callbacks
   int max_qp_iters_ = 1000;         //!< maximum number of QP iterations
   int qp_iters_ = 0;                //!< current number of QP iterations
diff --git a/include/mim_solvers/fddp.hpp b/include/mim_solvers/fddp.hpp
index 54f4f3f..dfd34fa 100644
--- a/include/mim_solvers/fddp.hpp
+++ b/include/mim_solvers/fddp.hpp
@@ -158,7 +158,6 @@ class SolverFDDP : public SolverDDP {
   std::vector<Eigen::VectorXd>
       lag_mul_;  //!< the Lagrange multiplier of the dynamics constraint
   Eigen::VectorXd fs_flat_;  //!< Gaps/defects between shooting nodes (1D array)
-  double termination_tol_ = 1e-6;  //!< Termination tolerance
 
   std::vector<Eigen::VectorXd>
       fs_try_;  //!< Gaps/defects between shooting nodes
@@ -170,8 +169,6 @@ class SolverFDDP : public SolverDDP {
   double dg_;  //!< Internal data for computing the expected improvement
   double dq_;  //!< Internal data for computing the expected improvement
   double dv_;  //!< Internal data for computing the expected improvement
-  double KKT_ =
-      std::numeric_limits<double>::infinity();  //!< KKT conditions residual
 
  private:
   double th_acceptnegstep_;  //!< Threshold used for accepting step along ascent
diff --git a/include/mim_solvers/sqp.hpp b/include/mim_solvers/sqp.hpp
index 76e7421..cd5d10c 100644
--- a/include/mim_solvers/sqp.hpp
+++ b/include/mim_solvers/sqp.hpp
@@ -167,7 +167,6 @@ class SolverSQP : public SolverDDP {
   bool use_filter_line_search_ = true;  //!< Use filter line search
 
  protected:
-  double merit_ = 0;         //!< merit function at nominal traj
   double merit_try_ = 0;     //!< merit function for the step length tried
   double x_grad_norm_ = 0;   //!< 1 norm of the delta x
   double u_grad_norm_ = 0;   //!< 1 norm of the delta u
@@ -175,15 +174,12 @@ class SolverSQP : public SolverDDP {
   double gap_norm_try_ = 0;  //!< 1 norm of the gaps
   double mu_dynamic_ =
       1e0;  //!< penalty weight for dymanic violation in the merit function
-  double termination_tol_ = 1e-6;  //!< Termination tolerance
   // bool with_callbacks_ = false;                                //!< With
   // callbacks
   bool extra_iteration_for_last_kkt_ =
       false;  //!< Additional iteration if SQP max. iter reached
   std::size_t filter_size_ =
       1;  //!< Filter size for line-search (do not change the default value !)
-  double KKT_ =
-      std::numeric_limits<double>::infinity();  //!< KKT conditions residual
 
  private:
   double th_acceptnegstep_;  //!< Threshold used for accepting step along ascent
diff --git a/src/csqp_proxqp.cpp b/src/csqp_proxqp.cpp
index c81b2e4..92a3639 100644
--- a/src/csqp_proxqp.cpp
+++ b/src/csqp_proxqp.cpp
@@ -23,6 +23,7 @@ namespace mim_solvers {
 SolverPROXQP::SolverPROXQP(std::shared_ptr<crocoddyl::ShootingProblem> problem)
     : SolverDDP(problem) {
   // std::cout << tmp << std::endl;
+  termination_tol_ = 1e-8;
   const std::size_t T = this->problem_->get_T();
   const std::size_t ndx = problem_->get_ndx();
   constraint_list_.resize(filter_size_);
-- 
2.43.0


From 901c5dd00a18b466f2569ed0c48537236b7c4eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 13/16] fix: do not throw out of the parallel loop of
 SolverCSQP::tryStep

With CROCODDYL_WITH_MULTITHREADING an exception leaving the parallel region
terminates the program instead of reporting the failed trial. The check of the
total cost after the loop rejects the same trials.
---
 src/csqp.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/csqp.cpp b/src/csqp.cpp
index c264b49..dca1f09 100644
--- a/src/csqp.cpp
+++ b/src/csqp.cpp
@@ -1398,14 +1398,10 @@ double SolverCSQP::tryStep(const double steplength) {
         (m->get_g_lb() - d->g).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
     constraint_norm_try_ +=
         (d->g - m->get_g_ub()).cwiseMax(Eigen::VectorXd::Zero(nc)).lpNorm<1>();
-
-    if (raiseIfNaN(cost_try_)) {
-      profiler_tryStep.stop();
-      throw_pretty("step_error");
-    }
   }
 
-  // Terminal state update
+  // Terminal state update (the total cost is checked below: an exception must
+  // not leave the parallel loop above)
   m_ter->calc(d_ter, xs_try_.back());
   cost_try_ += d_ter->cost;
 
-- 
2.43.0


From b717dde6658a43a1cfc34aab4c100d94d7d7f92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 14/16] fix: CallbackVerbose treated SolverDDP and SolverFDDP
 as SolverSQP

Both report themselves with the type SQP, so get_gap_norm() read memory behind
the object. Use what all these solvers have and sum their defects.
---
 src/utils/callbacks.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utils/callbacks.cpp b/src/utils/callbacks.cpp
index 07af0b2..6b55b30 100644
--- a/src/utils/callbacks.cpp
+++ b/src/utils/callbacks.cpp
@@ -132,14 +132,19 @@ void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver,
                 << solver_cast.get_qp_iters() << separator_;  // QP iters
     }
   } else if (solver_type == "SQP") {
-    SolverSQP& solver_cast = static_cast<SolverSQP&>(solver);
+    // This type is also used by SolverDDP and SolverFDDP, which are no SolverSQP
+    SolverDDP& solver_cast = static_cast<SolverDDP&>(solver);
+    double gap_norm = 0.;
+    for (const Eigen::VectorXd& gap : solver.get_fs()) {
+      gap_norm += gap.lpNorm<1>();
+    }
     if (solver_cast.get_KKT() < solver_cast.get_termination_tolerance()) {
       std::cout << std::scientific << std::setprecision(precision_)
                 << solver_cast.get_merit() << separator_;  // merit
       std::cout << std::scientific << std::setprecision(precision_)
                 << solver_cast.get_cost() << separator_;  // cost
       std::cout << std::scientific << std::setprecision(precision_)
-                << solver_cast.get_gap_norm() << separator_
+                << gap_norm << separator_
                 << separator_;  // ||gap||
       std::cout << std::scientific << std::setprecision(precision_)
                 << "     ---- " << separator_ << separator_;  // No step
@@ -152,7 +157,7 @@ void CallbackVerbose::operator()(crocoddyl::SolverAbstract& solver,
       std::cout << std::scientific << std::setprecision(precision_)
                 << solver_cast.get_cost() << separator_;  // cost
       std::cout << std::scientific << std::setprecision(precision_)
-                << solver_cast.get_gap_norm() << separator_
+                << gap_norm << separator_
                 << separator_;  // ||gap||
       std::cout << std::scientific << std::setprecision(precision_)
                 << solver_cast.get_steplength() << separator_;  // step
-- 
2.43.0


From 5704941a467ea747ebc060805f5606b50f01b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 15/16] fix: SolverKKT judged optimality with multipliers of
 the wrong sign and without the defects

---
 src/kkt.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kkt.cpp b/src/kkt.cpp
index d8ef40b..214f5e9 100644
--- a/src/kkt.cpp
+++ b/src/kkt.cpp
@@ -153,25 +153,25 @@ double SolverKKT::tryStep(const double steplength) {
 }
 
 void SolverKKT::checkKKTConditions() {
+  // The multipliers are those of the KKT system (see calcDiff), whose dynamics
+  // rows are x_{t+1} - F_x x_t - F_u u_t and whose right-hand side has the gaps
   KKT_ = 0.;
   const std::size_t T = problem_->get_T();
-  const std::size_t ndx = problem_->get_ndx();
   const std::vector<std::shared_ptr<crocoddyl::ActionDataAbstract> >& datas =
       problem_->get_runningDatas();
   for (std::size_t t = 0; t < T; ++t) {
     const std::shared_ptr<crocoddyl::ActionDataAbstract>& d = datas[t];
     KKT_ = std::max(KKT_,
-                    (d->Lx + d->Fx.transpose() * lambdas_[t + 1] - lambdas_[t])
+                    (d->Lx - d->Fx.transpose() * lambdas_[t + 1] + lambdas_[t])
                         .lpNorm<Eigen::Infinity>());
-    KKT_ = std::max(KKT_, (d->Lu + d->Fu.transpose() * lambdas_[t + 1])
+    KKT_ = std::max(KKT_, (d->Lu - d->Fu.transpose() * lambdas_[t + 1])
                               .lpNorm<Eigen::Infinity>());
-    fs_flat_.segment(t * ndx, ndx) = fs_[t];
   }
-  fs_flat_.tail(ndx) = fs_.back();
+  fs_flat_ = kktref_.segment(ndx_ + nu_, ndx_);
   const std::shared_ptr<crocoddyl::ActionDataAbstract>& d_ter =
       problem_->get_terminalData();
   KKT_ =
-      std::max(KKT_, (d_ter->Lx - lambdas_.back()).lpNorm<Eigen::Infinity>());
+      std::max(KKT_, (d_ter->Lx + lambdas_.back()).lpNorm<Eigen::Infinity>());
   KKT_ = std::max(KKT_, fs_flat_.lpNorm<Eigen::Infinity>());
 }
 
-- 
2.43.0


From a00303d8aee2a466af987296ba6772f61917c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:35 +0000
Subject: [PATCH 16/16] fix: three documented defaults were not the defaults

---
 bindings/csqp.cpp | 2 +-
 bindings/ddp.cpp  | 2 +-
 bindings/fddp.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/csqp.cpp b/bindings/csqp.cpp
index 8fed167..7082746 100644
--- a/bindings/csqp.cpp
+++ b/bindings/csqp.cpp
@@ -192,7 +192,7 @@ void exposeSolverCSQP() {
                     bp::make_function(&SolverCSQP::get_rho_sparse),
                     bp::make_function(&SolverCSQP::set_rho_sparse),
                     "Penalty term for dynamic violation in the merit function "
-                    "(default: 1.)")
+                    "(default: 0.1)")
       .add_property(
           "equality_qp_initial_guess",
           bp::make_function(&SolverCSQP::get_equality_qp_initial_guess),
diff --git a/bindings/ddp.cpp b/bindings/ddp.cpp
index 57de420..af99525 100644
--- a/bindings/ddp.cpp
+++ b/bindings/ddp.cpp
@@ -234,7 +234,7 @@ void exposeSolverDDP() {
           "termination_tolerance",
           bp::make_function(&SolverDDP::get_termination_tolerance),
           bp::make_function(&SolverDDP::set_termination_tolerance),
-          "Termination criteria to exit the iteration (default: 1e-8)");
+          "Termination criteria to exit the iteration (default: 1e-6)");
 }
 
 }  // namespace mim_solvers
diff --git a/bindings/fddp.cpp b/bindings/fddp.cpp
index aba253a..8b76615 100644
--- a/bindings/fddp.cpp
+++ b/bindings/fddp.cpp
@@ -93,7 +93,7 @@ void exposeSolverFDDP() {
       .add_property("use_filter_line_search",
                     bp::make_function(&SolverFDDP::get_use_filter_line_search),
                     bp::make_function(&SolverFDDP::set_use_filter_line_search),
-                    "Use the filter line search criteria (default: False)")
+                    "Use the filter line search criteria (default: True)")
       .add_property("filter_size",
                     bp::make_function(&SolverFDDP::get_filter_size),
                     bp::make_function(&SolverFDDP::set_filter_size),
-- 
2.43.0

