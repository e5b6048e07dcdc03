From 0abbeb5aa7df979564226fe1d86d856d472c2a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 01/50] fix: discard the expected cost decrease of a failed
 backward pass attempt

When the backward pass restarted with a larger regularization, the expected
decrease accumulated by the abandoned attempt stayed in deltaV_, so the line
search compared the actual decrease with a wrong prediction.
---
 altro/ilqr/ilqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 1425ea3..7302dcd 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -414,6 +414,10 @@ class iLQR {
           Sxx_prev = &(knotpoints_[N_]->GetCostToGoHessian());
           Sx_prev = &(knotpoints_[N_]->GetCostToGoGradient());
 
+          // Discard the expected decrease accumulated by the failed attempt
+          deltaV_[0] = 0.0;
+          deltaV_[1] = 0.0;
+
           // Check if we're at max regularization
           if (rho_ >= GetOptions().bp_reg_max) {
             max_reg_count++;
-- 
2.43.0


From 9eb89b007fe596bb3812d3adc402536c6029295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 02/50] fix: stop the solve when the backward pass
 regularization fails

The forward pass overwrote the failure status and used gains of an incomplete
backward pass, so a failed solve could even be reported as solved.
---
 altro/ilqr/ilqr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 7302dcd..8c45838 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -300,6 +300,9 @@ class iLQR {
     for (int iter = 0; iter < GetOptions().max_iterations_inner; ++iter) {
       UpdateExpansions();
       BackwardPass();
+      if (status_ == SolverStatus::kBackwardPassRegularizationFailed) {
+        break;  // there is no valid policy to simulate forward
+      }
       ForwardPass();
       UpdateConvergenceStatistics();
 
-- 
2.43.0


From 2f23eefc505322fcac20ef67be2a59460e709ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:47 +0000
Subject: [PATCH 03/50] fix: link the trajectory made by iLQR::MakeTrajectory
 to the solver

Only the trajectory itself was stored, not the candidate used by the forward
pass, so solving with it dereferenced a null pointer, and the method did not
compile for run-time sizes.
---
 altro/ilqr/ilqr.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 8c45838..83d5324 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -214,8 +214,11 @@ class iLQR {
    * @return std::shared_ptr<Trajectory<n, m>> A new zero-initialized trajectory.
    */
   std::shared_ptr<Trajectory<n, m>> MakeTrajectory(float dt) {
-    Z_ = std::make_shared<Trajectory<n, m>>(NumSegments());
-    Z_->SetUniformStep(dt);
+    const int state_dim = knotpoints_.empty() ? n : knotpoints_[0]->StateDimension();
+    const int control_dim = knotpoints_.empty() ? m : knotpoints_[0]->ControlDimension();
+    auto traj = std::make_shared<Trajectory<n, m>>(state_dim, control_dim, NumSegments());
+    traj->SetUniformStep(dt);
+    SetTrajectory(std::move(traj));
     return Z_;
   }
 
-- 
2.43.0


From a4e1d8ff9faedaa13b65c589c08ab7b64ea3bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:37 +0000
Subject: [PATCH 04/50] fix: restore costs and constraint values after a failed
 line search

Rejected candidates left their constraint values and costs behind, so the
violation and multipliers were computed from a trajectory that was not taken,
and the unchanged cost was never recorded (giving a wrong cost decrease).
---
 altro/ilqr/ilqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 83d5324..81fc9cb 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -558,7 +558,11 @@ class iLQR {
       (*Z_) = (*Zbar_);
     } else {
       IncreaseRegularization();
+      // Re-evaluate the unchanged trajectory, since evaluating the rejected candidates overwrote
+      // the individual costs and the constraint values stored in the cost functions.
       J = J0;
+      Cost();
+      stats_.Log("cost", J);
     }
 
     if (J > J0) {
-- 
2.43.0


From 0e30a627fd5ea493e17652404c7a8d91348ba1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 05/50] fix: keep the step stored at the terminal knot point
 during a solve

---
 altro/ilqr/ilqr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 81fc9cb..baacde9 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -653,6 +653,7 @@ class iLQR {
         Zbar_->SetTime(k, Z_->GetTime(k));
       }
       Zbar_->SetTime(N_, Z_->GetTime(N_));
+      Zbar_->SetStep(N_, Z_->GetStep(N_));
     }
 
     ResetInternalVariables();
-- 
2.43.0


From b0cd9daba32f8180f5fec142cd0fbe9d6ef5464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 06/50] fix: record the penalty actually used by each iteration

---
 altro/augmented_lagrangian/al_solver.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 7e90171..43b84b1 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -330,6 +330,7 @@ void AugmentedLagrangianiLQR<n, m>::Solve() {
       GetStats().GetLogger().PrintHeader();
     }
     UpdatePenalties();
+    GetStats().Log("pen", GetMaxPenalty());  // penalty used by the next inner solve
   }
 }
 
-- 
2.43.0


From c869681352964a3614deaab08e63194e393a11a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:21 +0000
Subject: [PATCH 07/50] fix: start every standalone iLQR solve with fresh
 statistics

---
 altro/augmented_lagrangian/al_solver.hpp | 2 +-
 altro/common/solver_stats.cpp            | 6 +++++-
 altro/common/solver_stats.hpp            | 7 +++++++
 altro/ilqr/ilqr.hpp                      | 7 ++++++-
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 43b84b1..69bbd37 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -311,7 +311,7 @@ void AugmentedLagrangianiLQR<n, m>::Solve() {
   Init();
 
   for (int iteration = 0; iteration < GetOptions().max_iterations_outer; ++iteration) {
-    ilqr_solver_.Solve();
+    ilqr_solver_.Solve(false);  // all inner solves share the same statistics
     UpdateDuals();
     UpdateConvergenceStatistics();
 
diff --git a/altro/common/solver_stats.cpp b/altro/common/solver_stats.cpp
index 0094f8b..d60c311 100644
--- a/altro/common/solver_stats.cpp
+++ b/altro/common/solver_stats.cpp
@@ -28,7 +28,7 @@ void SolverStats::SetCapacity(int n) {
   }
 }
 
-void SolverStats::Reset() {
+void SolverStats::ResetIterations() {
   initial_cost = 0.0;
   iterations_inner = 0;
   iterations_total = 0;
@@ -38,6 +38,10 @@ void SolverStats::Reset() {
     kv.second->clear();
   }
   logger_.Clear();
+}
+
+void SolverStats::Reset() {
+  ResetIterations();
   
   // Pull info from options
   SetCapacity(opts_.max_iterations_total);
diff --git a/altro/common/solver_stats.hpp b/altro/common/solver_stats.hpp
index 68d1dd8..eccca31 100644
--- a/altro/common/solver_stats.hpp
+++ b/altro/common/solver_stats.hpp
@@ -85,6 +85,13 @@ class SolverStats {
    */
   void Reset();
 
+  /**
+   * @brief Clear the counters, the recorded histories, and the logged data, leaving all of the
+   * output settings as they are.
+   * 
+   */
+  void ResetIterations();
+
   /**
    * @brief Set the verbosity level for the console logger
    * 
diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index baacde9..2e63801 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -283,8 +283,10 @@ class iLQR {
    * obtained via GetStatus() and GetStats() are updated.
    * The solve is successful if `GetStatus == SolverStatus::kSuccess`.
    *
+   * @param reset_stats Discard the statistics of previous solves. Set to false if this solve
+   * continues a sequence of solves that share their statistics (e.g. augmented Lagrangian).
    */
-  void Solve() {
+  void Solve(const bool reset_stats = true) {
     ALTRO_ASSERT(is_initial_state_set, "Initial state must be set before solving.");
     ALTRO_ASSERT(Z_ != nullptr, "Invalid trajectory pointer. May be uninitialized.");
 
@@ -296,6 +298,9 @@ class iLQR {
     GetOptions().profiler_enable ? stats_.GetTimer()->Activate() : stats_.GetTimer()->Deactivate();
     Stopwatch sw = stats_.GetTimer()->Start("ilqr");
 
+    if (reset_stats) {
+      stats_.ResetIterations();
+    }
     SolveSetup();  // reset any internal variables
     Rollout();     // simulate the system forward using initial controls
     stats_.initial_cost = Cost();
-- 
2.43.0


From 82edeceb8b11d64b265e185221916813d7f082c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 08/50] fix: define every entry of the negative orthant
 projection Jacobian

---
 altro/constraints/constraint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/constraints/constraint.hpp b/altro/constraints/constraint.hpp
index 5eeabf1..57887c8 100644
--- a/altro/constraints/constraint.hpp
+++ b/altro/constraints/constraint.hpp
@@ -108,6 +108,7 @@ class NegativeOrthant {
   }
   static void Jacobian(const VectorXdRef& x, Eigen::Ref<MatrixXd> jac) {
     ALTRO_ASSERT(jac.rows() == jac.cols(), "Jacobian must be square.");
+    jac.setZero();
     for (int i = 0; i < x.size(); ++i) {
       jac(i, i) = x(i) > 0 ? 0 : 1;
     }
-- 
2.43.0


From bdfd2ea762417a7953375da8391d701e66f8d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 09/50] fix: evaluate the RK4 Jacobian at the stage times of
 the integrator

---
 altro/problem/integration.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/problem/integration.hpp b/altro/problem/integration.hpp
index 5827f91..c423eb1 100644
--- a/altro/problem/integration.hpp
+++ b/altro/problem/integration.hpp
@@ -141,13 +141,13 @@ class RungeKutta4 final : public ExplicitIntegrator<NStates, NControls> {
     dynamics->Jacobian(x, u, t, jac);
     A_[0] = jac.topLeftCorner(n, n);
     B_[0] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k1_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k1_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[1] = jac.topLeftCorner(n, n);
     B_[1] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k2_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k2_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[2] = jac.topLeftCorner(n, n);
     B_[2] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + k3_ * h, u, t, jac);
+    dynamics->Jacobian(x + k3_ * h, u, t + h, jac);
     A_[3] = jac.topLeftCorner(n, n);
     B_[3] = jac.topRightCorner(n, m);
 
-- 
2.43.0


From 0d3731005b5d36a4730cf5d612b7cc76881d239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 10/50] fix: fill the lower-left block of a stacked cost
 Hessian

---
 altro/problem/costfunction.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/problem/costfunction.hpp b/altro/problem/costfunction.hpp
index b4a7c38..dd14f59 100644
--- a/altro/problem/costfunction.hpp
+++ b/altro/problem/costfunction.hpp
@@ -69,6 +69,7 @@ class CostFunction : public altro::ScalarFunction {
     constexpr int Nu = NControls;
     Hessian(x, u, hess.topLeftCorner<Nx, Nx>(n, n), hess.topRightCorner<Nx, Nu>(n, m),
             hess.bottomRightCorner<Nu, Nu>(m, m));
+    hess.bottomLeftCorner<Nu, Nx>(m, n) = hess.topRightCorner<Nx, Nu>(n, m).transpose();
   }
 };
 }  // namespace problem
-- 
2.43.0


From 7bd75d35f1ff32f009fb3cac49acdf01638f682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 11/50] fix: respect the memory layout of the Jacobian of a
 scalar function

---
 altro/common/functionbase.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/altro/common/functionbase.hpp b/altro/common/functionbase.hpp
index 18a7386..d3c03af 100644
--- a/altro/common/functionbase.hpp
+++ b/altro/common/functionbase.hpp
@@ -146,9 +146,10 @@ class ScalarFunction : public FunctionBase {
 
   void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
     ALTRO_ASSERT(jac.rows() == 1, "Jacobian of a scalar function must have a single row.");
-    // Reinterpret the 1xN Jacobian as an Nx1 column vector
-    Eigen::Map<VectorNd<jac.ColsAtCompileTime>> grad(jac.data(), jac.cols());
+    // The gradient is the transpose of the 1xN Jacobian, whose elements may not be contiguous
+    VectorXd grad = jac.transpose();
     Gradient(x, u, grad);
+    jac = grad.transpose();
   }
 
   void Hessian(const VectorXdRef& x, const VectorXdRef& u, const VectorXdRef& b,
-- 
2.43.0


From f90417c5db2501129f964b847fffe08083b4ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 12/50] fix: size the stacked state and control of
 run-time-size knot points

---
 altro/common/knotpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/knotpoint.hpp b/altro/common/knotpoint.hpp
index f6e0c2a..e1d7762 100644
--- a/altro/common/knotpoint.hpp
+++ b/altro/common/knotpoint.hpp
@@ -116,7 +116,7 @@ class KnotPoint : public StateControlSized<n, m> {
   const StateVector& State() const { return x_; }
   const ControlVector& Control() const { return u_; }
   VectorN<AddSizes(n,m), T> GetStateControl() const {
-    VectorN<AddSizes(n,m), T> z;
+    VectorN<AddSizes(n,m), T> z(this->n_ + this->m_);
     z << x_, u_;
     return z;
   }
-- 
2.43.0


From 784f20533241000c28596733c1772de1789f9e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:41 +0000
Subject: [PATCH 13/50] fix: answer the completeness query when the first
 dynamics are missing

---
 altro/problem/problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 7b32f0d..76a72ac 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -20,7 +20,8 @@ bool Problem::IsFullyDefined(const bool verbose) const {
     bool good_state_dim = true;
     if (k == 0) {
       has_initial_state = initial_state_->size() > 0;
-      good_state_dim = has_initial_state && (models_[k]->StateDimension() == initial_state_->size());
+      good_state_dim = has_initial_state && models_[k] != nullptr &&
+                       (models_[k]->StateDimension() == initial_state_->size());
       valid_k = valid_k && has_initial_state && good_state_dim;
     }
     valid = valid && valid_k;
-- 
2.43.0


From c1be0a1a5446521430af5bdfd7c9a483e74f6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:37 +0000
Subject: [PATCH 14/50] fix: copy and move the horizon and initial state of a
 problem

---
 altro/problem/problem.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index 670ff4e..a6e899a 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -77,6 +77,7 @@ class Problem {
       : N_(N), initial_state_(initial_state), costfuns_(N + 1, nullptr), models_(N + 1, nullptr), eq_(N + 1), ineq_(N + 1) {}
 
   Problem& operator=(const Problem& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = other.costfuns_;
     models_ = other.models_;
@@ -86,12 +87,18 @@ class Problem {
   }
 
   Problem(const Problem& other)
-      : costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
-    *initial_state_ = *(other.initial_state_);
-  }
-
+      : N_(other.N_),
+        initial_state_(std::make_shared<VectorXd>(*(other.initial_state_))),
+        costfuns_(other.costfuns_),
+        models_(other.models_),
+        eq_(other.eq_),
+        ineq_(other.ineq_) {}
+
+  // Moving leaves the other problem with an initial state of its own, since solvers built from it
+  // and the new problem keep sharing the original one.
   Problem& operator=(Problem&& other) {
-    *initial_state_ = *(other.initial_state_);
+    N_ = other.N_;
+    initial_state_.swap(other.initial_state_);
     costfuns_ = std::move(other.costfuns_);
     models_ = std::move(other.models_);
     eq_ = std::move(other.eq_);
@@ -100,11 +107,14 @@ class Problem {
   }
 
   Problem(Problem&& other)
-      : initial_state_(other.initial_state_),
+      : N_(other.N_),
+        initial_state_(std::make_shared<VectorXd>(0)),
         costfuns_(std::move(other.costfuns_)),
         models_(std::move(other.models_)),
         eq_(std::move(other.eq_)),
-        ineq_(std::move(other.ineq_)) {}
+        ineq_(std::move(other.ineq_)) {
+    initial_state_.swap(other.initial_state_);
+  }
   /**
    * @brief Set the initial state for the problem
    *
@@ -298,7 +308,7 @@ class Problem {
 
  private:
   int N_;  // number of segments (# of knotpoints - 1)
-  const std::shared_ptr<VectorXd> initial_state_ = std::make_shared<VectorXd>(0);  // initial state
+  std::shared_ptr<VectorXd> initial_state_ = std::make_shared<VectorXd>(0);  // initial state
   std::vector<std::shared_ptr<CostFunction>> costfuns_;
   std::vector<std::shared_ptr<DiscreteDynamics>> models_;
 
-- 
2.43.0


From 90e7e7d81466e6a92434ca9f658acc60a7cadb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 15/50] fix: waiting on the pool reports failed tasks and keeps
 waiting for unfinished ones

---
 altro/common/threadpool.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 3dd6fc8..1f11b48 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -29,13 +29,25 @@ ThreadPool& ThreadPool::operator=(ThreadPool&& other) noexcept {
 }
 
 void ThreadPool::Wait() {
-  for (const std::future<void>& future : futures_) {
+  std::vector<std::future<void>> unfinished;
+  std::exception_ptr error;
+  for (std::future<void>& future : futures_) {
     std::future_status status = future.wait_for(timeout_);
     if (status == std::future_status::timeout) {
       fmt::print("Task timed out after {}\n", timeout_);
+      unfinished.emplace_back(std::move(future));
+      continue;
     }
+    try {
+      future.get();
+    } catch (...) {
+      error = error ? error : std::current_exception();
+    }
+  }
+  futures_ = std::move(unfinished);
+  if (error) {
+    std::rethrow_exception(error);
   }
-  futures_.clear();
 }
 
 void ThreadPool::LaunchThreads(int nthreads) {
-- 
2.43.0


From b33866a90e2a01eddfb896e528b828fb8f40d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 16/50] fix: clearing a queue does not deadlock and updates its
 size

---
 altro/common/threadsafe_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 68b3be1..6ee79ac 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -130,7 +130,8 @@ bool ThreadSafeQueue<T>::IsEmpty() {
 template <class T>
 void ThreadSafeQueue<T>::Clear() {
   std::lock_guard<std::mutex> head_lock(*head_mutex_);
-  while (!IsEmpty()) {
+  while (head_.get() != GetTail()) {
+    --(*size_);
     PopHead();
   }
 }
-- 
2.43.0


From 82818e8ec6c1d4e8ef4f3db7227943144118ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 17/50] fix: allow assigning to a moved-from queue

---
 altro/common/threadsafe_queue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 6ee79ac..3f3ce85 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -88,7 +88,9 @@ ThreadSafeQueue<T>::ThreadSafeQueue(ThreadSafeQueue&& other) noexcept
 
 template <class T>
 ThreadSafeQueue<T>& ThreadSafeQueue<T>::operator=(ThreadSafeQueue<T>&& other) noexcept {
-  Clear(); // delete all data currently in queue safely
+  if (head_) {
+    Clear(); // delete all data currently in queue safely
+  }
   size_ = std::move(other.size_);
   head_mutex_ = std::move(other.head_mutex_);
   head_ = std::move(other.head_);
-- 
2.43.0


From 8d96883a948ec32b682f3d312644159f5b96f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 18/50] fix: destroy long queues without recursion

---
 altro/common/threadsafe_queue.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 3f3ce85..f476075 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -31,6 +31,13 @@ class ThreadSafeQueue {
         tail_(head_.get()),
         data_cond_(std::make_unique<std::condition_variable>()) {}
 
+  ~ThreadSafeQueue() {
+    // Delete the nodes one at a time, since each one owns the next
+    while (head_) {
+      head_ = std::move(head_->next);
+    }
+  }
+
   // Disallow copying
   ThreadSafeQueue(const ThreadSafeQueue& other) = delete;
   ThreadSafeQueue& operator=(const ThreadSafeQueue& other) = delete;
-- 
2.43.0


From af8bb832a989b1d78fd209e147f89938ccb27c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 19/50] fix: print the value in LogEntry's log-and-print
 shortcut

---
 altro/common/log_entry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/log_entry.hpp b/altro/common/log_entry.hpp
index 62a3e35..2b5a885 100644
--- a/altro/common/log_entry.hpp
+++ b/altro/common/log_entry.hpp
@@ -179,7 +179,7 @@ class LogEntry {
   template <class T>
   void Print(T value) {
     Log(value);
-    Print();
+    Print(level_);
   }
 
   /**
-- 
2.43.0


From 0b1930a3b78b3a4da0451ba2b36950bd12404687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 20/50] fix: compute profile percentages without integer
 overflow

---
 altro/common/profile_entry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/altro/common/profile_entry.cpp b/altro/common/profile_entry.cpp
index ce9d56f..d499c91 100644
--- a/altro/common/profile_entry.cpp
+++ b/altro/common/profile_entry.cpp
@@ -36,8 +36,8 @@ ProfileEntry::Ptr ProfileEntry::GetRoot() {
 void ProfileEntry::CalcStats() {
   time_t total_time = GetRoot()->time;
   time_t parent_time = parent ? parent->time : time;
-  int time_us = time.count();
-  int total_us = total_time.count();
+  const auto time_us = time.count();
+  const auto total_us = total_time.count();
   const int percent_scaling = 100;
   if (total_us == 0) {
     percent_total = -1;
-- 
2.43.0


From 217e2f11dc9f8430812aff967bdea106899b7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:39 +0000
Subject: [PATCH 21/50] fix: nest profile entries under their true callers

---
 altro/common/timer.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 32367f8..8d45075 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -1,5 +1,7 @@
 // Copyright [2021] Optimus Ride Inc.
 
+#include <algorithm>
+
 #include "altro/common/timer.hpp"
 #include "altro/common/profile_entry.hpp"
 #include "altro/utils/assert.hpp"
@@ -44,7 +46,15 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
   for (; times_iter != times.end(); ++times_iter) {
     // Create a new entry from the data in the Timer
     entries.emplace_back(std::make_shared<ProfileEntry>(times_iter->first, times_iter->second));
-    EntryPtr entry = entries.back();
+  }
+
+  // Sort by call stack, so that every entry is directly followed by the entries called from it.
+  // The order of the full names doesn't do this, e.g. "al" < "al-2" < "al/ilqr".
+  std::sort(entries.begin() + 1, entries.end(),
+            [](const EntryPtr& a, const EntryPtr& b) { return a->name < b->name; });
+
+  for (size_t i = 1; i < entries.size(); ++i) {
+    EntryPtr entry = entries[i];
 
     // Get how "deep" the profile stack is.
     // e.g. level of "al/ilqr/cost" is 3.
@@ -62,8 +72,16 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
     parents[curlevel] = entry;
 
     // Assign the parent to be the last entry in the previous level
-    // This is ensured by the fact that the entries are sorted alphabetically
-    entry->parent = parents[curlevel - 1];
+    // This is ensured by the fact that the entries are sorted by call stack
+    // If the parent hasn't been recorded (yet), use the closest caller that has.
+    size_t parent_level = curlevel - 1;
+    while (parent_level > 0 &&
+           !(parents[parent_level] &&
+             std::equal(parents[parent_level]->name.begin(), parents[parent_level]->name.end(),
+                        entry->name.begin()))) {
+      --parent_level;
+    }
+    entry->parent = parents[parent_level];
 
     // Add up all the base level entries to get the total time
     if (curlevel == 1) {
-- 
2.43.0


From a41beea9b088b8a796b70a03c65a46169c407e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 22/50] fix: close the files opened by the timer, and only
 those

---
 altro/common/timer.cpp | 20 ++++++++++++++++----
 altro/common/timer.hpp |  4 +++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 8d45075..17d3217 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -13,10 +13,7 @@ Timer::~Timer() {
   if (!printed_summary_ && active_) {
     PrintSummary(); 
   }
-  // Close the file if the Timer has ownship
-  if (using_file_) {
-    fclose(io_);
-  }
+  CloseFile();
 }
 
 void Timer::PrintSummary() {
@@ -123,7 +120,22 @@ Stopwatch Timer::Start(const std::string& name) {
   return Stopwatch();
 }
 
+void Timer::CloseFile() {
+  // Close the file if the Timer has ownership
+  if (using_file_) {
+    fclose(io_);
+    io_ = stdout;
+    using_file_ = false;
+  }
+}
+
+void Timer::SetOutput(FILE* io) {
+  CloseFile();
+  io_ = io;
+}
+
 void Timer::SetOutput(const std::string& filename) {
+  CloseFile();
   FILE* io = fopen(filename.c_str(), "w");
   if (io == nullptr) {
     std::string errmsg = fmt::format("Error opening profiler file \"{}\". Got errno {}.", filename, errno);
diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index 636b6db..1cb3e11 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -54,11 +54,13 @@ class Timer : public std::enable_shared_from_this<Timer> {
   void Activate() { active_ = true; }
   void Deactivate() { active_ = false; }
   bool IsActive() const { return active_; }
-  void SetOutput(FILE* io) { io_ = io; }  // ownership of resource remains with user
+  void SetOutput(FILE* io);  // ownership of resource remains with user
   void SetOutput(const std::string& filename);  // takes ownership of the file resource
   friend Stopwatch;  // so that it can populate times_
 
  private:
+  void CloseFile();  // closes the current output if it's a file opened by the Timer
+
   Timer() = default;  // Make constructor private so it can only be created as a shared ptr
   std::vector<std::string> stack_;  // current profiler call stack e.g. "al/ilqr/cost"
   std::map<std::string, std::chrono::microseconds> times_;
-- 
2.43.0


From 6c655385447f9d4cde0c4cf8dcdf9f7483dba4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 23/50] fix: measure profiled durations with a monotonic clock

---
 altro/common/timer.cpp | 4 ++--
 altro/common/timer.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 17d3217..a2a2c5d 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -149,14 +149,14 @@ void Timer::SetOutput(const std::string& filename) {
 
 Stopwatch::Stopwatch(std::string name, std::shared_ptr<Timer> timer) 
     : name_(std::move(name)), 
-      start_(std::chrono::high_resolution_clock::now()), 
+      start_(std::chrono::steady_clock::now()), 
       parent_(std::move(timer)) {}
 
 Stopwatch::~Stopwatch() {
   // NOTE: Parent will be nullptr if the timer is deactivated and Stopwatch is default-constructed.
   if (parent_) {  
     // Record duration and log the time with the parent timer.
-    auto duration = std::chrono::high_resolution_clock::now() - start_;
+    auto duration = std::chrono::steady_clock::now() - start_;
     microseconds us = std::chrono::duration_cast<microseconds>(duration);
     parent_->stack_.pop_back();  // pop the name off the top of the stack (FILO stack)
     parent_->times_[name_] += us;
diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index 1cb3e11..7d09799 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -92,7 +92,7 @@ class Stopwatch {
 
  private:
   std::string name_;
-  std::chrono::time_point<std::chrono::high_resolution_clock> start_;
+  std::chrono::time_point<std::chrono::steady_clock> start_;
   std::shared_ptr<Timer> parent_;
 };
 
-- 
2.43.0


From 2812f80aee837af087604ecec924af5dd05ceef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 24/50] fix: apply the output options in standalone iLQR solves

---
 altro/common/solver_stats.cpp | 6 +-----
 altro/common/solver_stats.hpp | 7 -------
 altro/ilqr/ilqr.hpp           | 2 +-
 3 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/altro/common/solver_stats.cpp b/altro/common/solver_stats.cpp
index d60c311..0094f8b 100644
--- a/altro/common/solver_stats.cpp
+++ b/altro/common/solver_stats.cpp
@@ -28,7 +28,7 @@ void SolverStats::SetCapacity(int n) {
   }
 }
 
-void SolverStats::ResetIterations() {
+void SolverStats::Reset() {
   initial_cost = 0.0;
   iterations_inner = 0;
   iterations_total = 0;
@@ -38,10 +38,6 @@ void SolverStats::ResetIterations() {
     kv.second->clear();
   }
   logger_.Clear();
-}
-
-void SolverStats::Reset() {
-  ResetIterations();
   
   // Pull info from options
   SetCapacity(opts_.max_iterations_total);
diff --git a/altro/common/solver_stats.hpp b/altro/common/solver_stats.hpp
index eccca31..68d1dd8 100644
--- a/altro/common/solver_stats.hpp
+++ b/altro/common/solver_stats.hpp
@@ -85,13 +85,6 @@ class SolverStats {
    */
   void Reset();
 
-  /**
-   * @brief Clear the counters, the recorded histories, and the logged data, leaving all of the
-   * output settings as they are.
-   * 
-   */
-  void ResetIterations();
-
   /**
    * @brief Set the verbosity level for the console logger
    * 
diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 2e63801..fcede9e 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -299,7 +299,7 @@ class iLQR {
     Stopwatch sw = stats_.GetTimer()->Start("ilqr");
 
     if (reset_stats) {
-      stats_.ResetIterations();
+      stats_.Reset();  // also applies the output options
     }
     SolveSetup();  // reset any internal variables
     Rollout();     // simulate the system forward using initial controls
-- 
2.43.0


From cba29410ce4665afcd89e0f9fb499cd9ece10746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:26 +0000
Subject: [PATCH 25/50] fix: place the obstacle Jacobian at the configured
 position indices

---
 examples/obstacle_constraints.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/obstacle_constraints.hpp b/examples/obstacle_constraints.hpp
index 79ce563..259beba 100644
--- a/examples/obstacle_constraints.hpp
+++ b/examples/obstacle_constraints.hpp
@@ -110,13 +110,14 @@ class CircleConstraint : public constraints::Constraint<constraints::NegativeOrt
                 Eigen::Ref<MatrixXd> jac) override {
     const double px = x(x_index_);
     const double py = x(y_index_);
+    jac.setZero();
     for (size_t i = 0; i < obstacles_.size(); ++i) {
       // TODO(bjackson): Store Jacobians in row-major format so that the 
       // raw columns can be passed to each obstacle to compute the gradient
       const double cx = obstacles_[i].x;
       const double cy = obstacles_[i].y;
-      jac(i, 0) = 2 * (cx - px);
-      jac(i, 1) = 2 * (cy - py);
+      jac(i, x_index_) = 2 * (cx - px);
+      jac(i, y_index_) = 2 * (cy - py);
     }
   }
 
-- 
2.43.0


From e30b4df55316dce44041b278efef341f0c77422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 26/50] fix: accept rank-deficient positive semi-definite state
 weights

---
 examples/quadratic_cost.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/examples/quadratic_cost.cpp b/examples/quadratic_cost.cpp
index 606e8ca..b3b334d 100644
--- a/examples/quadratic_cost.cpp
+++ b/examples/quadratic_cost.cpp
@@ -2,6 +2,8 @@
 
 #include "examples/quadratic_cost.hpp"
 
+#include <limits>
+
 namespace altro {
 namespace examples {
 
@@ -45,20 +47,13 @@ void QuadraticCost::Validate() {
     ALTRO_ASSERT(Rfact_.info() == Eigen::Success, "R must be positive definite");
   }
 
-  // Check if Q is positive semidefinite
+  // Check if Q is positive semidefinite, allowing for rounding errors when it is rank-deficient
   Qfact_.compute(Q_);
-  ALTRO_ASSERT(Qfact_.info() == Eigen::Success,
-               "The LDLT decomposition could of Q could not be computed. "
-               "Must be positive semi-definite");
-  Eigen::Diagonal<const MatrixXd> D = Qfact_.vectorD();
-  bool ispossemidef = true;
+  VectorXd eigenvalues = Q_.selfadjointView<Eigen::Lower>().eigenvalues();
+  const double tolerance =
+      10 * n_ * std::numeric_limits<double>::epsilon() * eigenvalues.cwiseAbs().maxCoeff();
+  const bool ispossemidef = eigenvalues.minCoeff() >= -tolerance;
   (void) ispossemidef; // surpress erroneous unused variable error
-  for (int i = 0; i < n_; ++i) {
-    if (D(i) < 0) {
-      ispossemidef = false;
-      break;
-    }
-  }
   ALTRO_ASSERT(ispossemidef, "Q must be positive semi-definite");
 }
 
-- 
2.43.0


From 8ed3f7faa7beef656cac58b7281694a8314dbe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 27/50] fix: initialise the reference control of the triple
 integrator problem

---
 examples/problems/triple_integrator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/problems/triple_integrator.hpp b/examples/problems/triple_integrator.hpp
index 45381d6..a645d53 100644
--- a/examples/problems/triple_integrator.hpp
+++ b/examples/problems/triple_integrator.hpp
@@ -48,7 +48,7 @@ class TripleIntegratorProblem {
 
     // Cost Function
     Eigen::VectorXd xref = xf;
-    Eigen::VectorXd uref(m);
+    Eigen::VectorXd uref = Eigen::VectorXd::Zero(m);
     const bool is_term = true;
     std::shared_ptr<CostFunType> qterm =
         std::make_shared<CostFunType>(CostFunType::LQRCost(Qf, R * 0, xref, uref, is_term));
-- 
2.43.0


From c73957081563954e93dd9296f157283aff0c412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:42 +0000
Subject: [PATCH 28/50] fix: leave no uninitialised factorisation in terminal
 quadratic costs

---
 examples/quadratic_cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/quadratic_cost.cpp b/examples/quadratic_cost.cpp
index b3b334d..70452dc 100644
--- a/examples/quadratic_cost.cpp
+++ b/examples/quadratic_cost.cpp
@@ -42,8 +42,8 @@ void QuadraticCost::Validate() {
   ALTRO_ASSERT(R_.isApprox(R_.transpose()), "R is not symmetric");
 
   // Check that R is positive definite
+  Rfact_.compute(R_);
   if (!terminal_) {
-    Rfact_.compute(R_);
     ALTRO_ASSERT(Rfact_.info() == Eigen::Success, "R must be positive definite");
   }
 
-- 
2.43.0


From 497fc9da815d8c4a3f2b1e1b99aea9e693500eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 29/50] fix: give every default task a non-empty, strictly
 increasing block of knot points

---
 altro/ilqr/ilqr.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index fcede9e..497e126 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -718,8 +718,7 @@ class iLQR {
    */
   bool ShouldRedoTaskAssignment() const {
     bool is_custom = custom_work_assignment_;
-    int tasks_per_thread = GetOptions().tasks_per_thread;
-    bool has_expected_number_of_tasks = NumTasks() == GetOptions().NumThreads() * tasks_per_thread;
+    bool has_expected_number_of_tasks = NumTasks() == DefaultNumTasks();
     bool keep_assignment = is_custom || has_expected_number_of_tasks;
     return !keep_assignment;
   }
@@ -757,13 +756,18 @@ class iLQR {
     }
   }
 
+  // Number of tasks used if not set by the user. Every task gets at least one knot point.
+  int DefaultNumTasks() const {
+    int ntasks = GetOptions().NumThreads() * GetOptions().tasks_per_thread;
+    return std::min(ntasks, NumSegments());
+  }
+
   void DefaultTaskAssignment() {
-    int nthreads = GetOptions().NumThreads();
-    int ntasks = nthreads * GetOptions().tasks_per_thread;
+    int ntasks = DefaultNumTasks();
     double step = NumSegments() / static_cast<double>(ntasks);
     work_inds_.clear();
-    for (double val = 0.0; val <= NumSegments(); val += step) {
-      work_inds_.emplace_back(static_cast<int>(round(val)));
+    for (int i = 0; i <= ntasks; ++i) {
+      work_inds_.emplace_back(static_cast<int>(round(i * step)));
     }
     ALTRO_ASSERT(work_inds_.back() == NumSegments(),
                  "Work inds should include the terminal index.");
-- 
2.43.0


From 4f081fd7ae6c5147d4274c0c0db6f6f8b73463b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:52 +0000
Subject: [PATCH 30/50] fix: clear the RK4 Jacobian between stages so entries a
 model does not write are zero

---
 altro/problem/integration.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/altro/problem/integration.hpp b/altro/problem/integration.hpp
index c423eb1..19efff1 100644
--- a/altro/problem/integration.hpp
+++ b/altro/problem/integration.hpp
@@ -141,12 +141,15 @@ class RungeKutta4 final : public ExplicitIntegrator<NStates, NControls> {
     dynamics->Jacobian(x, u, t, jac);
     A_[0] = jac.topLeftCorner(n, n);
     B_[0] = jac.topRightCorner(n, m);
+    jac.setZero();  // the model may write only its non-zero entries
     dynamics->Jacobian(x + 0.5 * k1_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[1] = jac.topLeftCorner(n, n);
     B_[1] = jac.topRightCorner(n, m);
+    jac.setZero();
     dynamics->Jacobian(x + 0.5 * k2_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[2] = jac.topLeftCorner(n, n);
     B_[2] = jac.topRightCorner(n, m);
+    jac.setZero();
     dynamics->Jacobian(x + k3_ * h, u, t + h, jac);
     A_[3] = jac.topLeftCorner(n, n);
     B_[3] = jac.topRightCorner(n, m);
-- 
2.43.0


From 8d8eac0b54cd9451afc19629d94ad11d2c62bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:36 +0000
Subject: [PATCH 31/50] fix: clear the stored constraint Jacobian before
 evaluating it

---
 altro/constraints/constraint_values.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/altro/constraints/constraint_values.hpp b/altro/constraints/constraint_values.hpp
index bc37072..6a815c1 100644
--- a/altro/constraints/constraint_values.hpp
+++ b/altro/constraints/constraint_values.hpp
@@ -134,6 +134,7 @@ class ConstraintValues : public Constraint<ConType> {
 
     // TODO(bjackson): Avoid these redundant calls.
     con_->Evaluate(x, u, c_);
+    jac_.setZero();
     con_->Jacobian(x, u, jac_);
     ConType::DualCone::Projection(lambda_ - rho * c_, lambda_proj_);
     ConType::DualCone::Jacobian(lambda_ - rho * c_, proj_jac_);
@@ -159,6 +160,7 @@ class ConstraintValues : public Constraint<ConType> {
 
     // TODO(bjackson): Avoid these redundant calls.
     con_->Evaluate(x, u, c_);
+    jac_.setZero();
     con_->Jacobian(x, u, jac_);
     ConType::DualCone::Projection(lambda_ - rho * c_, lambda_proj_);
     ConType::DualCone::Jacobian(lambda_ - rho * c_, proj_jac_);
@@ -248,6 +250,7 @@ class ConstraintValues : public Constraint<ConType> {
    */
   void CalcExpansion(const VectorXdRef& x, const VectorXdRef& u) {
     con_->Evaluate(x, u, c_);
+    jac_.setZero();
     con_->Jacobian(x, u, jac_);
   }
 
-- 
2.43.0


From 21f3b00b6fe25e1c3cb30a437dac09217a46ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 32/50] Revert "fix: leave no uninitialised factorisation in
 terminal quadratic costs"

This reverts commit c73957081563954e93dd9296f157283aff0c412f.
---
 examples/quadratic_cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/quadratic_cost.cpp b/examples/quadratic_cost.cpp
index 70452dc..b3b334d 100644
--- a/examples/quadratic_cost.cpp
+++ b/examples/quadratic_cost.cpp
@@ -42,8 +42,8 @@ void QuadraticCost::Validate() {
   ALTRO_ASSERT(R_.isApprox(R_.transpose()), "R is not symmetric");
 
   // Check that R is positive definite
-  Rfact_.compute(R_);
   if (!terminal_) {
+    Rfact_.compute(R_);
     ALTRO_ASSERT(Rfact_.info() == Eigen::Success, "R must be positive definite");
   }
 
-- 
2.43.0


From 72a681291c421c9df5f1a4ed730aca6f50a1ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 33/50] Revert "fix: initialise the reference control of the
 triple integrator problem"

This reverts commit 8ed3f7faa7beef656cac58b7281694a8314dbe80.
---
 examples/problems/triple_integrator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/problems/triple_integrator.hpp b/examples/problems/triple_integrator.hpp
index a645d53..45381d6 100644
--- a/examples/problems/triple_integrator.hpp
+++ b/examples/problems/triple_integrator.hpp
@@ -48,7 +48,7 @@ class TripleIntegratorProblem {
 
     // Cost Function
     Eigen::VectorXd xref = xf;
-    Eigen::VectorXd uref = Eigen::VectorXd::Zero(m);
+    Eigen::VectorXd uref(m);
     const bool is_term = true;
     std::shared_ptr<CostFunType> qterm =
         std::make_shared<CostFunType>(CostFunType::LQRCost(Qf, R * 0, xref, uref, is_term));
-- 
2.43.0


From b8bbdb7386831ce66c00dcf42e731c3ad9dffb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 34/50] Revert "fix: accept rank-deficient positive
 semi-definite state weights"

This reverts commit e30b4df55316dce44041b278efef341f0c77422f.
---
 examples/quadratic_cost.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/examples/quadratic_cost.cpp b/examples/quadratic_cost.cpp
index b3b334d..606e8ca 100644
--- a/examples/quadratic_cost.cpp
+++ b/examples/quadratic_cost.cpp
@@ -2,8 +2,6 @@
 
 #include "examples/quadratic_cost.hpp"
 
-#include <limits>
-
 namespace altro {
 namespace examples {
 
@@ -47,13 +45,20 @@ void QuadraticCost::Validate() {
     ALTRO_ASSERT(Rfact_.info() == Eigen::Success, "R must be positive definite");
   }
 
-  // Check if Q is positive semidefinite, allowing for rounding errors when it is rank-deficient
+  // Check if Q is positive semidefinite
   Qfact_.compute(Q_);
-  VectorXd eigenvalues = Q_.selfadjointView<Eigen::Lower>().eigenvalues();
-  const double tolerance =
-      10 * n_ * std::numeric_limits<double>::epsilon() * eigenvalues.cwiseAbs().maxCoeff();
-  const bool ispossemidef = eigenvalues.minCoeff() >= -tolerance;
+  ALTRO_ASSERT(Qfact_.info() == Eigen::Success,
+               "The LDLT decomposition could of Q could not be computed. "
+               "Must be positive semi-definite");
+  Eigen::Diagonal<const MatrixXd> D = Qfact_.vectorD();
+  bool ispossemidef = true;
   (void) ispossemidef; // surpress erroneous unused variable error
+  for (int i = 0; i < n_; ++i) {
+    if (D(i) < 0) {
+      ispossemidef = false;
+      break;
+    }
+  }
   ALTRO_ASSERT(ispossemidef, "Q must be positive semi-definite");
 }
 
-- 
2.43.0


From 692f7f734eda7ca5eac0151a417201cdb2d80c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 35/50] Revert "fix: place the obstacle Jacobian at the
 configured position indices"

This reverts commit cba29410ce4665afcd89e0f9fb499cd9ece10746.
---
 examples/obstacle_constraints.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/examples/obstacle_constraints.hpp b/examples/obstacle_constraints.hpp
index 259beba..79ce563 100644
--- a/examples/obstacle_constraints.hpp
+++ b/examples/obstacle_constraints.hpp
@@ -110,14 +110,13 @@ class CircleConstraint : public constraints::Constraint<constraints::NegativeOrt
                 Eigen::Ref<MatrixXd> jac) override {
     const double px = x(x_index_);
     const double py = x(y_index_);
-    jac.setZero();
     for (size_t i = 0; i < obstacles_.size(); ++i) {
       // TODO(bjackson): Store Jacobians in row-major format so that the 
       // raw columns can be passed to each obstacle to compute the gradient
       const double cx = obstacles_[i].x;
       const double cy = obstacles_[i].y;
-      jac(i, x_index_) = 2 * (cx - px);
-      jac(i, y_index_) = 2 * (cy - py);
+      jac(i, 0) = 2 * (cx - px);
+      jac(i, 1) = 2 * (cy - py);
     }
   }
 
-- 
2.43.0


From 799dfa7c89d43d9eb599421289071c7b2636f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 36/50] fix: validate the task assignment passed by the user

---
 altro/ilqr/ilqr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 497e126..754600b 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -259,10 +259,10 @@ class iLQR {
    * interval [`inds[i]`, `inds[i+1]`).
    */
   void SetTaskAssignment(std::vector<int> inds) {
-    ALTRO_ASSERT(work_inds_.back() == NumSegments() + 1,
+    ALTRO_ASSERT(inds.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds.back() == NumSegments() + 1,
                  "Work inds should include the terminal index.");
-    ALTRO_ASSERT(work_inds_[0] == 0, "Work inds should start with a 0.");
-    ALTRO_ASSERT(work_inds_.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds[0] == 0, "Work inds should start with a 0.");
     bool is_sorted = true;
     for (int i = 1; i < inds.size(); ++i) {
       if (inds[i] <= inds[i - 1]) {
-- 
2.43.0


From 2462a173586d9a9b46bfffa1f57b52db22a98d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 37/50] fix: create the tasks anew when the task assignment
 changes

---
 altro/ilqr/ilqr.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 754600b..285b478 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -272,6 +272,7 @@ class iLQR {
     ALTRO_ASSERT(is_sorted, "Work inds must be a set of strictly increasing integers.");
     work_inds_ = std::move(inds);
     custom_work_assignment_ = true;
+    tasks_outdated_ = true;
   }
 
   /***************************** Algorithm **************************************/
@@ -733,7 +734,7 @@ class iLQR {
       return;
     }
     bool num_threads_changed = nthreads != NumThreads();
-    if (N_ > 0 && (num_threads_changed || ShouldRedoTaskAssignment())) {
+    if (N_ > 0 && (num_threads_changed || ShouldRedoTaskAssignment() || tasks_outdated_)) {
       if (pool_.IsRunning()) {
         pool_.StopThreads();
       }
@@ -748,6 +749,7 @@ class iLQR {
         auto expansion_block = [this, start, stop]() { UpdateExpansionsBlock(start, stop); };
         tasks_.emplace_back(std::move(expansion_block));
       }
+      tasks_outdated_ = false;
 
       // Start the pool
       if (nthreads > 1) {
@@ -772,6 +774,7 @@ class iLQR {
     ALTRO_ASSERT(work_inds_.back() == NumSegments(),
                  "Work inds should include the terminal index.");
     work_inds_.back() += 1;  // Increment the last index to include the terminal index.
+    tasks_outdated_ = true;
   }
 
   /**
@@ -829,6 +832,7 @@ class iLQR {
 
   bool is_initial_state_set = false;
   bool custom_work_assignment_ = false;  // Has user assigned a custom task assignment
+  bool tasks_outdated_ = false;          // Has the assignment changed since the tasks were created
 
   std::function<double()> max_violation_callback_ = []() { return 0.0; };
   std::vector<std::function<void()>> tasks_;
-- 
2.43.0


From a989fa81a8c063c03558cf956b028950a3df1fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 38/50] fix: keep the statistics handles valid when the
 statistics are moved

---
 altro/common/solver_stats.cpp | 31 ++++++++++++++++---------------
 altro/common/solver_stats.hpp |  7 ++++---
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/altro/common/solver_stats.cpp b/altro/common/solver_stats.cpp
index 0094f8b..32c32a6 100644
--- a/altro/common/solver_stats.cpp
+++ b/altro/common/solver_stats.cpp
@@ -9,8 +9,8 @@
 namespace altro {
 
 template <>
-void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double>& data) {
-  floats_[entry.GetTitle()] = &data;
+void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double> SolverStats::*data) {
+  floats_[entry.GetTitle()] = data;
 }
 
 void SolverStats::SetTolerances(const double& cost, const double& viol, const double& grad) {
@@ -24,7 +24,7 @@ void SolverStats::SetTolerances(const double& cost, const double& viol, const do
 
 void SolverStats::SetCapacity(int n) {
   for (auto kv : floats_) {
-    kv.second->reserve(n);
+    (this->*kv.second).reserve(n);
   }
 }
 
@@ -35,7 +35,7 @@ void SolverStats::Reset() {
   iterations_outer = 0;
   len_ = 0;
   for (auto kv : floats_) {
-    kv.second->clear();
+    (this->*kv.second).clear();
   }
   logger_.Clear();
   
@@ -54,13 +54,14 @@ void SolverStats::Reset() {
 void SolverStats::NewIteration() {
   len_++;
   for (auto& kv : floats_) {
-    kv.second->resize(len_);
+    std::vector<double>& data = this->*kv.second;
+    data.resize(len_);
 
     // Copy data from previous iteration
     if (len_ > 1) {
-      kv.second->back() = kv.second->rbegin()[1];
+      data.back() = data.rbegin()[1];
     } else {
-      kv.second->back() = 0.0;
+      data.back() = 0.0;
     }
   }
 }
@@ -86,30 +87,30 @@ void SolverStats::DefaultLogger() {
       .SetName("iterations_outer")
       .SetLevel(LogLevel::kOuter)
       .SetWidth(8);  // NOLINT(readability-magic-numbers)
-  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), cost);
-  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), violations);
-  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), cost_decrease);
-  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), gradient);
+  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), &SolverStats::cost);
+  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), &SolverStats::violations);
+  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), &SolverStats::cost_decrease);
+  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), &SolverStats::gradient);
   SetPtr(logger_.AddEntry(-1, "alpha", "{:>.2f}")
              .SetName("line_search_step_length")
              .SetLevel(LogLevel::kInner)
              .SetWidth(6),  // NOLINT(readability-magic-numbers)
-         alpha);
+         &SolverStats::alpha);
   SetPtr(logger_.AddEntry(-1, "reg", "{:>.1e}")
              .SetName("regularization")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         regularization);
+         &SolverStats::regularization);
   SetPtr(logger_.AddEntry(-1, "z", "{:>.3f}")
              .SetName("cost_improvement_ratio")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(5),  // NOLINT(readability-magic-numbers)
-         improvement_ratio);
+         &SolverStats::improvement_ratio);
   SetPtr(logger_.AddEntry(-1, "pen", "{:>.1e}")
              .SetName("max_penalty")
              .SetLevel(LogLevel::kDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         max_penalty);
+         &SolverStats::max_penalty);
   logger_.SetHeaderColor(fmt::color::yellow);
 }
 
diff --git a/altro/common/solver_stats.hpp b/altro/common/solver_stats.hpp
index 68d1dd8..f8439ab 100644
--- a/altro/common/solver_stats.hpp
+++ b/altro/common/solver_stats.hpp
@@ -170,7 +170,7 @@ class SolverStats {
    * @param data One of the publically-accessible vectors stored in this class.
    */
   template <class T>
-  void SetPtr(const LogEntry& entry, std::vector<T>& data) {
+  void SetPtr(const LogEntry& entry, std::vector<T> SolverStats::*data) {
     ALTRO_UNUSED(entry);
     ALTRO_UNUSED(data);
   }
@@ -181,7 +181,8 @@ class SolverStats {
    */
   void DefaultLogger();
 
-  std::unordered_map<std::string, std::vector<double>*> floats_;
+  // Maps titles to members, so that the map remains valid when the object is moved or copied
+  std::unordered_map<std::string, std::vector<double> SolverStats::*> floats_;
 
   int len_ = 0;
   SolverLogger logger_;
@@ -198,7 +199,7 @@ void SolverStats::SetData(const std::string& title, T value) {
   // Search for the title
   auto search_float = floats_.find(title);
   if (search_float != floats_.end()) {
-    search_float->second->back() = value;
+    (this->*(search_float->second)).back() = value;
   }
 }
 
-- 
2.43.0


From cde8d07cd12f14e8194e33e6cbcb87cdefe96e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 39/50] fix: keep the task assignment when an iLQR solver is
 moved

---
 altro/ilqr/ilqr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 285b478..053c8aa 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -68,7 +68,10 @@ class iLQR {
                                 drho_(other.drho_),
                                 deltaV_(std::move(other.deltaV_)),
                                 is_initial_state_set(other.is_initial_state_set),
-                                max_violation_callback_(std::move(other.max_violation_callback_)) {}
+                                custom_work_assignment_(other.custom_work_assignment_),
+                                tasks_outdated_(true),  // tasks refer to the solver that made them
+                                max_violation_callback_(std::move(other.max_violation_callback_)),
+                                work_inds_(std::move(other.work_inds_)) {}
 
   /**
    * @brief Copy the data from a Problem class into the iLQR solver
-- 
2.43.0


From bd23e10cbc61b3cf1246f874a45ad911a90ec65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 40/50] fix: let the violation callback survive a move of the
 solver

---
 altro/augmented_lagrangian/al_solver.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 69bbd37..17588e7 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -244,7 +244,14 @@ void AugmentedLagrangianiLQR<n, m>::InitializeFromProblem(const problem::Problem
                            prob.NumSegments(), costs_.size()));
   // ilqr_solver_.InitializeFromProblem(prob_al);
   ilqr_solver_.CopyFromProblem(prob_al, 0, prob.NumSegments() + 1);
-  auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
+  // Capture the costs instead of the solver, which may be moved
+  auto max_violation_callback = [costs = costs_]() -> double {
+    double max_violation = 0.0;
+    for (const std::shared_ptr<ALCost<n, m>>& cost : costs) {
+      max_violation = std::max(max_violation, cost->template MaxViolation<Eigen::Infinity>());
+    }
+    return max_violation;
+  };
   ilqr_solver_.SetConstraintCallback(max_violation_callback);
 }
 
-- 
2.43.0


From 0eb8cddbf4e4d661b41fc05299b171e61f9a9f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 41/50] fix: check the knot point index of a new constraint

---
 altro/problem/problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 76a72ac..0d5cb69 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -46,6 +46,7 @@ void Problem::SetConstraint<constraints::Equality>(
     std::shared_ptr<constraints::Constraint<constraints::Equality>> con, int k) {
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   eq_[k].emplace_back(std::move(con));
 }
 
@@ -54,6 +55,7 @@ void Problem::SetConstraint<constraints::Inequality>(
     std::shared_ptr<constraints::Constraint<constraints::Inequality>> con, int k) {
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   ineq_[k].emplace_back(std::move(con));
 }
 
-- 
2.43.0


From 739ad7308506c1049abb9284857d147f864ea482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 42/50] fix: reject a header frequency of zero

---
 altro/common/solver_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index cac8e1c..8bacf9f 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -104,7 +104,7 @@ class SolverLogger {
    * @param freq 
    */
   void SetFrequency(const int freq) {
-    ALTRO_ASSERT(freq >= 0, "Header print frequency must be positive.");
+    ALTRO_ASSERT(freq > 0, "Header print frequency must be positive.");
     frequency_ = freq;
   }
 
-- 
2.43.0


From 30efe502c042ae34e809304441cf702d035d95de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 43/50] fix: do not add hidden logger entries for unknown
 titles

---
 altro/common/solver_logger.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index 8bacf9f..e0bb1bc 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -60,7 +60,11 @@ class SolverLogger {
   explicit SolverLogger(const LogLevel level = LogLevel::kSilent) : cur_level_(level) {}
 
   LogLevel GetLevel() const { return cur_level_; }
-  LogEntry& GetEntry(const std::string& title) { return entries_[title]; }
+  LogEntry& GetEntry(const std::string& title) {
+    auto it = entries_.find(title);
+    ALTRO_ASSERT(it != entries_.end(), fmt::format("There is no entry titled '{}'.", title));
+    return it->second;
+  }
   int NumEntries() { return entries_.size(); }
 
   /*************************** Iteration **************************************/
@@ -209,8 +213,11 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
 template <class T>
 void SolverLogger::Log(const std::string& title, T value) {
   // Short-circuit to skip the hash lookup if logging is disabled
-  if (cur_level_ > LogLevel::kSilent && entries_[title].IsActive(cur_level_)) {
-    entries_[title].Log(value);
+  if (cur_level_ > LogLevel::kSilent) {
+    auto it = entries_.find(title);
+    if (it != entries_.end() && it->second.IsActive(cur_level_)) {
+      it->second.Log(value);
+    }
   }
 }
 
-- 
2.43.0


From 0342ee3a42eef01501ddbf6495c661920aa509ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 44/50] fix: reject a trajectory without control vectors

---
 altro/common/trajectory.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/common/trajectory.hpp b/altro/common/trajectory.hpp
index e77516b..2376c0c 100644
--- a/altro/common/trajectory.hpp
+++ b/altro/common/trajectory.hpp
@@ -47,6 +47,7 @@ class Trajectory {
    */
   Trajectory(std::vector<VectorN<n, T>> X, std::vector<VectorN<m, T>> U,
              std::vector<float> times) {
+    ALTRO_ASSERT(!U.empty(), "The trajectory must have at least one control vector.");
     ALTRO_ASSERT(X.size() == U.size() + 1,
                  "Length of control vector must be one less than the length of "
                  "the state trajectory.");
-- 
2.43.0


From 1d0596febfd4421c9d65f996b77141fedc568bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 45/50] fix: check that the iLQR knot points and the trajectory
 match before using them

---
 altro/ilqr/ilqr.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 053c8aa..de01db1 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -156,6 +156,8 @@ class iLQR {
    */
   KnotPointFunctions<n, m>& GetKnotPointFunction(int k) {
     ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
+    ALTRO_ASSERT(k < static_cast<int>(knotpoints_.size()),
+                 "Knot point has not been initialized from a problem.");
     return *(knotpoints_[k]);
   }
 
@@ -292,6 +294,7 @@ class iLQR {
    */
   void Solve(const bool reset_stats = true) {
     ALTRO_ASSERT(is_initial_state_set, "Initial state must be set before solving.");
+    AssertAllKnotPointsSet();
     ALTRO_ASSERT(Z_ != nullptr, "Invalid trajectory pointer. May be uninitialized.");
 
     // TODO(bjackson): Allow the solver to optimize a portion of a longer trajectory?
@@ -343,6 +346,8 @@ class iLQR {
     return Cost(*Z_);
   }
   double Cost(const Trajectory<n, m>& Z) {
+    AssertAllKnotPointsSet();
+    ALTRO_ASSERT(Z.NumSegments() == N_, fmt::format("Trajectory must have length {}", N_));
     Stopwatch sw = stats_.GetTimer()->Start("cost");
     CalcIndividualCosts(Z);
     return costs_.sum();
@@ -365,6 +370,8 @@ class iLQR {
   void UpdateExpansions() {
     Stopwatch sw = stats_.GetTimer()->Start("expansions");
     ALTRO_ASSERT(Z_ != nullptr, "Trajectory pointer must be set before updating the expansions.");
+    AssertAllKnotPointsSet();
+    ALTRO_ASSERT(Z_->NumSegments() == N_, fmt::format("Trajectory must have length {}", N_));
 
     int nthreads = NumThreads();
     if (nthreads <= 1) {
@@ -780,6 +787,16 @@ class iLQR {
     tasks_outdated_ = true;
   }
 
+  /**
+   * @brief Check that the data of every knot point has been copied from a problem, exactly once.
+   *
+   */
+  void AssertAllKnotPointsSet() const {
+    ALTRO_ASSERT(static_cast<int>(knotpoints_.size()) == N_ + 1,
+                 fmt::format("Expected the solver to be initialized with {} knot points, got {}",
+                             N_ + 1, knotpoints_.size()));
+  }
+
   /**
    * @brief Calculate the cost of each individual knot point
    *
-- 
2.43.0


From 4d6160d727327d5b90ac8ba3233b930b2e79a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 46/50] fix: reject a null trajectory

---
 altro/ilqr/ilqr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index de01db1..adc29d6 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -237,6 +237,7 @@ class iLQR {
    * @param traj Pointer to the trajectory
    */
   void SetTrajectory(std::shared_ptr<Trajectory<n, m>> traj) {
+    ALTRO_ASSERT(traj != nullptr, "Cannot set the trajectory to a null pointer.");
     Z_ = std::move(traj);
     Zbar_ = std::make_unique<Trajectory<n, m>>(*Z_);
     Zbar_->SetZero();
-- 
2.43.0


From 421680a2c9ef17c68d8a8333acbef6ec8b0f9be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 47/50] fix: check the number of segments of a problem copied
 into the solver

---
 altro/ilqr/ilqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index adc29d6..35a5b99 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -103,6 +103,10 @@ class iLQR {
                  fmt::format("Start index must be in the interval [0,{}]", N_));
     ALTRO_ASSERT(0 <= k_stop && k_stop <= N_ + 1,
                  fmt::format("Start index must be in the interval [0,{}]", N_ + 1));
+    ALTRO_ASSERT(prob.NumSegments() == N_,
+                 fmt::format("Number of segments in problem {}, should be equal to the number of "
+                             "segments in the solver, {}",
+                             prob.NumSegments(), N_));
     ALTRO_ASSERT(prob.IsFullyDefined(), "Expected problem to be fully defined.");
     for (int k = k_start; k < k_stop; ++k) {
       if (n != Eigen::Dynamic) {
-- 
2.43.0


From fcd5502d924389f608879f6b8c1ac20e95343e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 48/50] fix: check that the AL solver has been initialized
 before using its costs

---
 altro/augmented_lagrangian/al_solver.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 17588e7..13d5739 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -84,6 +84,7 @@ class AugmentedLagrangianiLQR {
    * @return std::vector<constraints::ConstraintInfo>
    */
   std::vector<constraints::ConstraintInfo> GetConstraintInfo(bool should_sort = false) const {
+    AssertInitialized();
     std::vector<constraints::ConstraintInfo> coninfo;
     int i_last = 0;
     for (int k = 0; k <= NumSegments(); ++k) {
@@ -217,6 +218,11 @@ class AugmentedLagrangianiLQR {
  private:
   Stopwatch CreateTimer(const std::string& name) { return GetStats().GetTimer()->Start(name); }
 
+  void AssertInitialized() const {
+    ALTRO_ASSERT(static_cast<int>(costs_.size()) == NumSegments() + 1,
+                 "The solver must be initialized with a problem before it can be used.");
+  }
+
   ilqr::iLQR<n, m> ilqr_solver_;
   std::vector<std::shared_ptr<ALCost<n, m>>> costs_;
   SolverStatus status_ = SolverStatus::kUnsolved;
@@ -277,6 +283,7 @@ int AugmentedLagrangianiLQR<n, m>::NumConstraints() const {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::SetPenalty(const double& rho) {
+  AssertInitialized();
   for (int k = 0; k <= NumSegments(); ++k) {
     costs_[k]->template SetPenalty<constraints::Equality>(rho);
     costs_[k]->template SetPenalty<constraints::Inequality>(rho);
@@ -285,6 +292,7 @@ void AugmentedLagrangianiLQR<n, m>::SetPenalty(const double& rho) {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::SetPenaltyScaling(const double& phi) {
+  AssertInitialized();
   for (int k = 0; k <= NumSegments(); ++k) {
     costs_[k]->template SetPenaltyScaling<constraints::Equality>(phi);
     costs_[k]->template SetPenaltyScaling<constraints::Inequality>(phi);
@@ -293,6 +301,7 @@ void AugmentedLagrangianiLQR<n, m>::SetPenaltyScaling(const double& phi) {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::Init() {
+  AssertInitialized();
   Stopwatch sw = CreateTimer("init");
 
   SolverStats& stats = GetStats();
@@ -343,6 +352,7 @@ void AugmentedLagrangianiLQR<n, m>::Solve() {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::UpdateDuals() {
+  AssertInitialized();
   Stopwatch sw = CreateTimer("dual_update");
 
   int N = this->NumSegments();
@@ -354,6 +364,7 @@ void AugmentedLagrangianiLQR<n, m>::UpdateDuals() {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::UpdatePenalties() {
+  AssertInitialized();
   Stopwatch sw = CreateTimer("penalty_update");
 
   int N = this->NumSegments();
@@ -425,6 +436,7 @@ double AugmentedLagrangianiLQR<n, m>::MaxViolation(const Trajectory<n, m>& Z) {
 template <int n, int m>
 template <int p>
 double AugmentedLagrangianiLQR<n, m>::GetMaxViolation() {
+  AssertInitialized();
   for (int k = 0; k <= NumSegments(); ++k) {
     max_violation_(k) = costs_[k]->template MaxViolation<p>();
   }
@@ -433,6 +445,7 @@ double AugmentedLagrangianiLQR<n, m>::GetMaxViolation() {
 
 template <int n, int m>
 double AugmentedLagrangianiLQR<n, m>::GetMaxPenalty() const {
+  AssertInitialized();
   double max_penalty = 0.0;
 
   for (int k = 0; k <= NumSegments(); ++k) {
-- 
2.43.0


From 2257724c80ab539079b32d9f1a5d3626e373c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 49/50] fix: check that a pool is stopped before moving its
 queue

---
 altro/common/threadpool.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 1f11b48..11d1709 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -9,14 +9,20 @@ namespace altro {
 
 constexpr int ThreadPool::kTaskTimeout;
 
+namespace {
+// Must be checked before anything is moved, since the worker threads are using the queue
+bool AssertNotRunning(const bool is_running) {
+  ALTRO_ASSERT(!is_running, "Cannot move a pool while it's running");
+  return is_running;
+}
+}  // namespace
+
 ThreadPool::ThreadPool(ThreadPool&& other) noexcept
-    : is_running_(static_cast<bool>(other.is_running_)),
+    : is_running_(AssertNotRunning(other.is_running_)),
       threads_(std::move(other.threads_)),
       futures_(std::move(other.futures_)),
       queue_(std::move(other.queue_)),
-      timeout_(other.timeout_) {
-  ALTRO_ASSERT(!is_running_, "Cannot move a pool while it's running");
-}
+      timeout_(other.timeout_) {}
 
 ThreadPool& ThreadPool::operator=(ThreadPool&& other) noexcept {
   ALTRO_ASSERT(!other.IsRunning(), "Cannot move a pool while it's running");
-- 
2.43.0


From 005c59019017fc57f11acb0e9266a3f8bce6ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 50/50] fix: keep the cost-to-go Hessian symmetric so rounding
 does not grow with unstable dynamics

---
 altro/ilqr/knot_point_function_type.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/ilqr/knot_point_function_type.hpp b/altro/ilqr/knot_point_function_type.hpp
index 2c5f56d..c5f6c73 100644
--- a/altro/ilqr/knot_point_function_type.hpp
+++ b/altro/ilqr/knot_point_function_type.hpp
@@ -225,6 +225,8 @@ public:
                     K.transpose() * Q.du() + Q.dxdu() * d;
     ctg_hessian_ = Q.dxdx() + K.transpose() * Q.dudu() * K +
                    K.transpose() * Q.dxdu().transpose() + Q.dxdu() * K;
+    // Rounding errors that are not symmetric grow with the open-loop dynamics
+    ctg_hessian_ = (0.5 * (ctg_hessian_ + ctg_hessian_.transpose())).eval();
     ctg_delta_[0] = d.dot(Q.du());
     ctg_delta_[1] = 0.5 * d.dot(Q.dudu() * d); // NOLINT(readability-magic-numbers)
   }
-- 
2.43.0

