#pragma once
#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "sol.hpp"

namespace sol {
using altro::constraints::Equality;
using altro::constraints::Inequality;

template <int n, int m>
AlKnot ReadAl(altro::augmented_lagrangian::ALCost<n, m>& al) {
  AlKnot r;
  auto put = [&](auto& cv, bool eq) {
    ConVal v;
    v.eq = eq;
    v.lambda = cv->GetDuals();
    v.penalty = cv->GetPenalty();
    v.c = cv->GetConstraintValue();
    v.viol = cv->GetViolation();
    v.scaling = cv->GetPenaltyScaling();
    r.con.push_back(v);
  };
  for (auto& cv : al.GetEqualityConstraints()) put(cv, true);
  for (auto& cv : al.GetInequalityConstraints()) put(cv, false);
  r.max_viol_inf = al.template MaxViolation<Eigen::Infinity>();
  r.max_viol_2 = al.template MaxViolation<2>();
  r.max_viol_1 = al.template MaxViolation<1>();
  r.max_pen = al.MaxPenalty();
  r.num_con = al.NumConstraints();
  return r;
}

template <int n, int m>
class AlCostImpl : public AlCost {
 public:
  AlCostImpl(const altro::problem::Problem& p, int k) : c_(p, k) {}
  altro::problem::CostFunction& Fn() override { return c_; }
  AlKnot Get() override { return ReadAl(c_); }
  void SetPenalty(bool eq, int i, double r) override {
    if (eq) c_.template SetPenalty<Equality>(r, i); else c_.template SetPenalty<Inequality>(r, i);
  }
  void SetPenaltyAll(bool eq, double r) override {
    if (eq) c_.template SetPenalty<Equality>(r); else c_.template SetPenalty<Inequality>(r);
  }
  void SetScaling(bool eq, int i, double r) override {
    if (eq) c_.template SetPenaltyScaling<Equality>(r, i); else c_.template SetPenaltyScaling<Inequality>(r, i);
  }
  void SetScalingAll(bool eq, double r) override {
    if (eq) c_.template SetPenaltyScaling<Equality>(r); else c_.template SetPenaltyScaling<Inequality>(r);
  }
  void SetDuals(bool eq, int i, const VectorXd& v) override {
    if (eq) c_.GetEqualityConstraints().at(i)->GetDuals() = v; else c_.GetInequalityConstraints().at(i)->GetDuals() = v;
  }
  void SetPenaltyVec(bool eq, int i, const VectorXd& v) override {
    if (eq) c_.GetEqualityConstraints().at(i)->GetPenalty() = v; else c_.GetInequalityConstraints().at(i)->GetPenalty() = v;
  }
  void UpdateDuals() override { c_.UpdateDuals(); }
  void UpdatePenalties() override { c_.UpdatePenalties(); }
  void ResetDuals() override { c_.ResetDualVariables(); }
  void CalcExpansion(bool eq, int i, const VectorXd& x, const VectorXd& u) override {
    if (eq) c_.GetEqualityConstraints().at(i)->CalcExpansion(x, u); else c_.GetInequalityConstraints().at(i)->CalcExpansion(x, u);
  }
  double ConAugLag(bool eq, int i, const VectorXd& x, const VectorXd& u) override {
    return eq ? c_.GetEqualityConstraints().at(i)->AugLag(x, u) : c_.GetInequalityConstraints().at(i)->AugLag(x, u);
  }
  std::vector<altro::constraints::ConstraintInfo> Info() override {
    std::vector<altro::constraints::ConstraintInfo> v;
    c_.GetConstraintInfo(&v);
    return v;
  }
  int NumFns(bool eq) override {
    return eq ? c_.template NumConstraintFunctions<Equality>() : c_.template NumConstraintFunctions<Inequality>();
  }
  void ReplaceEq(const std::vector<gen::ConSpec>& s) override {
    std::vector<altro::constraints::ConstraintPtr<Equality>> v;
    for (auto& e : s) v.push_back(std::make_shared<gen::UEq>(e, nullptr));
    c_.SetEqualityConstraints(v.begin(), v.end());
  }
  void ReplaceIneq(const std::vector<gen::ConSpec>& s) override {
    std::vector<altro::constraints::ConstraintPtr<Inequality>> v;
    for (auto& e : s) v.push_back(std::make_shared<gen::UIneq>(e, nullptr));
    c_.SetInequalityConstraints(v.begin(), v.end());
  }

 private:
  altro::augmented_lagrangian::ALCost<n, m> c_;
};

template <int n, int m>
class Base : public Solver {
 public:
  using L = altro::ilqr::iLQR<n, m>;
  using T = altro::Trajectory<n, m>;
  virtual L& In() = 0;
  SolverStatus InnerStatus() override { return In().GetStatus(); }
  virtual void Set(std::shared_ptr<T> t) = 0;
  static void Write(const Spec& s, T* Z) {
    for (int k = 0; k <= s.N; ++k) {
      Z->State(k) = s.X0[k];
      if (k < s.N) Z->Control(k) = s.U0[k];
      Z->SetTime(k, s.t[k]);
      Z->SetStep(k, s.h[k]);
    }
  }
  static T FromTraj(const Traj& z) {
    T Z(z.X[0].size(), z.uN.size(), static_cast<int>(z.U.size()));
    for (size_t k = 0; k < z.X.size(); ++k) {
      Z.State(k) = z.X[k];
      Z.Control(k) = k < z.U.size() ? z.U[k] : z.uN;
      Z.SetTime(k, z.t[k]);
      Z.SetStep(k, z.h[k]);
    }
    return Z;
  }
  void NewTraj(const Spec& s) override {
    auto Z = std::make_shared<T>(s.n, s.m, s.N);
    Write(s, Z.get());
    Set(Z);
  }
  void ResetTraj(const Spec& s) override { Write(s, In().GetTrajectory().get()); }
  void SetTrajPtr(std::shared_ptr<void> p) override { Set(std::static_pointer_cast<T>(p)); }
  std::shared_ptr<void> TrajPtr() override { return In().GetTrajectory(); }
  void SetU(int k, const VectorXd& u) override { In().GetTrajectory()->Control(k) = u; }
  void SetX(int k, const VectorXd& x) override { In().GetTrajectory()->State(k) = x; }
  void SetTime(int k, float t, float h) override {
    In().GetTrajectory()->SetTime(k, t);
    In().GetTrajectory()->SetStep(k, h);
  }
  Traj GetTraj() override {
    Traj r;
    auto Z = In().GetTrajectory();
    for (int k = 0; k <= Z->NumSegments(); ++k) {
      r.X.push_back(Z->State(k));
      if (k < Z->NumSegments()) r.U.push_back(Z->Control(k)); else r.uN = Z->Control(k);
      r.t.push_back(Z->GetTime(k));
      r.h.push_back(Z->GetStep(k));
    }
    return r;
  }
  void MakeTrajectory(float dt) override { In().MakeTrajectory(dt); }
  void SolveSetup() override { In().SolveSetup(); }
  void Rollout() override { In().Rollout(); }
  void UpdateExpansions() override { In().UpdateExpansions(); }
  void BackwardPass() override { In().BackwardPass(); }
  void ForwardPass() override { In().ForwardPass(); }
  bool RolloutClosedLoop(double a) override { return In().RolloutClosedLoop(a); }
  void UpdateConvStats() override { In().UpdateConvergenceStatistics(); }
  bool IsDone() override { return In().IsDone(); }
  double Cost() override { return In().Cost(); }
  double CostAt(const Traj& z) override { return In().Cost(FromTraj(z)); }
  VectorXd Costs() override { return In().GetCosts(); }
  double Reg() override { return In().GetRegularization(); }
  double NormalizedGain() override { return In().NormalizedFeedforwardGain(); }
  KpData Kp(int k) override {
    auto& p = In().GetKnotPointFunction(k);
    KpData r;
    r.K = p.GetFeedbackGain();
    r.d = p.GetFeedforwardGain();
    r.S = p.GetCostToGoHessian();
    r.s = p.GetCostToGoGradient();
    auto& e = p.GetCostExpansion();
    r.xx = e.dxdx(); r.xu = e.dxdu(); r.uu = e.dudu(); r.gx = e.dx(); r.gu = e.du();
    auto& q = p.GetActionValueExpansion();
    r.Qxx = q.dxdx(); r.Qxu = q.dxdu(); r.Quu = q.dudu(); r.Qx = q.dx(); r.Qu = q.du();
    r.Quu_reg = p.GetActionValueExpansionRegularized().dudu();
    r.A = p.GetDynamicsExpansion().GetA();
    r.B = p.GetDynamicsExpansion().GetB();
    r.delta_half = p.GetCostToGoDelta(0.5);
    r.delta_one = p.GetCostToGoDelta();
    return r;
  }
  double Delta(int k, double a) override { return In().GetKnotPointFunction(k).GetCostToGoDelta(a); }
  void SetTasks(const std::vector<int>& v) override { In().SetTaskAssignment(v); }
  std::vector<int> Tasks() override { return In().GetTaskAssignment(); }
  int NumThreads() override { return In().NumThreads(); }
  int NumTasks() override { return In().NumTasks(); }
  void ExpansionBlock(int a, int b) override { In().UpdateExpansionsBlock(a, b); }
  std::shared_ptr<VectorXd> InitialState() override { return In().GetInitialState(); }
  void SetCallback(std::function<double()> f) override { In().SetConstraintCallback(f); }
  void CopyFromProblem(const altro::problem::Problem& p, int a, int b) override { In().CopyFromProblem(p, a, b); }
};

template <int n, int m>
class IlqrImpl : public Base<n, m> {
 public:
  using L = altro::ilqr::iLQR<n, m>;
  explicit IlqrImpl(const altro::problem::Problem& p) : s_(new L(p)) {}
  explicit IlqrImpl(int N) : s_(new L(N)) {}
  explicit IlqrImpl(L&& o) : s_(new L(std::move(o))) {}
  L& In() override { return *s_; }
  bool IsAL() const override { return false; }
  SolverStats& Stats() override { return s_->GetStats(); }
  SolverOptions& Opts() override { return s_->GetOptions(); }
  SolverStatus Status() const override { return s_->GetStatus(); }
  int NumSegments() const override { return s_->NumSegments(); }
  void Set(std::shared_ptr<altro::Trajectory<n, m>> t) override { s_->SetTrajectory(t); }
  void Solve() override { s_->Solve(); }
  SolverPtr MoveOut() override { return std::make_unique<IlqrImpl>(std::move(*s_)); }
  void InitializeFromProblem(const altro::problem::Problem& p) override { s_->InitializeFromProblem(p); }

 private:
  std::unique_ptr<L> s_;
};

template <int n, int m>
class AlImpl : public Base<n, m> {
 public:
  using A = altro::augmented_lagrangian::AugmentedLagrangianiLQR<n, m>;
  explicit AlImpl(const altro::problem::Problem& p) : s_(new A(p)) {}
  explicit AlImpl(int N) : s_(new A(N)) {}
  explicit AlImpl(A&& o) : s_(new A(std::move(o))) {}
  altro::ilqr::iLQR<n, m>& In() override { return s_->GetiLQRSolver(); }
  bool IsAL() const override { return true; }
  SolverStats& Stats() override { return s_->GetStats(); }
  SolverOptions& Opts() override { return s_->GetOptions(); }
  SolverStatus Status() const override { return s_->GetStatus(); }
  int NumSegments() const override { return s_->NumSegments(); }
  void Set(std::shared_ptr<altro::Trajectory<n, m>> t) override { s_->SetTrajectory(t); }
  void Solve() override { s_->Solve(); }
  SolverPtr MoveOut() override { return std::make_unique<AlImpl>(std::move(*s_)); }
  void InitializeFromProblem(const altro::problem::Problem& p) override { s_->InitializeFromProblem(p); }
  void AlInit() override { s_->Init(); }
  void UpdateDuals() override { s_->UpdateDuals(); }
  void UpdatePenalties() override { s_->UpdatePenalties(); }
  void AlUpdateConvStats() override { s_->UpdateConvergenceStatistics(); }
  bool AlIsDone() override { return s_->IsDone(); }
  void ResetDuals() override { s_->ResetDualVariables(); }
  double MaxViolation(int p) override {
    return p == 0 ? s_->template MaxViolation<>() : p == 1 ? s_->template MaxViolation<1>() : s_->template MaxViolation<2>();
  }
  double MaxViolationAt(const Traj& z, int p) override {
    auto Z = Base<n, m>::FromTraj(z);
    return p == 0 ? s_->template MaxViolation<>(Z) : p == 1 ? s_->template MaxViolation<1>(Z) : s_->template MaxViolation<2>(Z);
  }
  double GetMaxViolation(int p) override {
    return p == 0 ? s_->template GetMaxViolation<>() : p == 1 ? s_->template GetMaxViolation<1>() : s_->template GetMaxViolation<2>();
  }
  double GetMaxPenalty() override { return s_->GetMaxPenalty(); }
  void SetPenalty(double r) override { s_->SetPenalty(r); }
  void SetPenaltyScaling(double r) override { s_->SetPenaltyScaling(r); }
  int NumCon(int k) override { return s_->NumConstraints(k); }
  int NumCon() override { return s_->NumConstraints(); }
  std::vector<altro::constraints::ConstraintInfo> Info(bool sort) override { return s_->GetConstraintInfo(sort); }
  void PrintViolations(bool sort, int prec) override { s_->PrintViolations(sort, prec); }
  AlKnot Al(int k) override { return ReadAl(*s_->GetALCost(k)); }
  void SetConPenalty(int k, bool eq, int i, double r) override {
    if (eq) s_->GetALCost(k)->template SetPenalty<Equality>(r, i); else s_->GetALCost(k)->template SetPenalty<Inequality>(r, i);
  }
  void SetConScaling(int k, bool eq, int i, double r) override {
    if (eq) s_->GetALCost(k)->template SetPenaltyScaling<Equality>(r, i); else s_->GetALCost(k)->template SetPenaltyScaling<Inequality>(r, i);
  }
  void SetKnotPenalty(int k, bool eq, double r) override {
    if (eq) s_->GetALCost(k)->template SetPenalty<Equality>(r); else s_->GetALCost(k)->template SetPenalty<Inequality>(r);
  }
  void SetKnotScaling(int k, bool eq, double r) override {
    if (eq) s_->GetALCost(k)->template SetPenaltyScaling<Equality>(r); else s_->GetALCost(k)->template SetPenaltyScaling<Inequality>(r);
  }
  void SetDuals(int k, bool eq, int i, const VectorXd& v) override {
    if (eq) s_->GetALCost(k)->GetEqualityConstraints().at(i)->GetDuals() = v;
    else s_->GetALCost(k)->GetInequalityConstraints().at(i)->GetDuals() = v;
  }
  void KnotUpdateDuals(int k) override { s_->GetALCost(k)->UpdateDuals(); }
  void KnotUpdatePenalties(int k) override { s_->GetALCost(k)->UpdatePenalties(); }
  void KnotResetDuals(int k) override { s_->GetALCost(k)->ResetDualVariables(); }
  double AlCostEval(int k, const VectorXd& x, const VectorXd& u) override { return s_->GetALCost(k)->Evaluate(x, u); }
  std::shared_ptr<altro::problem::CostFunction> AlCostFn(int k) override { return s_->GetALCost(k); }

 private:
  std::unique_ptr<A> s_;
};

template <int n, int m>
bool Instantiate() {
  Factory f;
  f.z = {n, m};
  f.ilqr = [](const altro::problem::Problem& p) -> SolverPtr { return std::make_unique<IlqrImpl<n, m>>(p); };
  f.ilqr_empty = [](int N) -> SolverPtr { return std::make_unique<IlqrImpl<n, m>>(N); };
  f.al = [](const altro::problem::Problem& p) -> SolverPtr { return std::make_unique<AlImpl<n, m>>(p); };
  f.al_empty = [](int N) -> SolverPtr { return std::make_unique<AlImpl<n, m>>(N); };
  f.alcost = [](const altro::problem::Problem& p, int k) -> std::unique_ptr<AlCost> { return std::make_unique<AlCostImpl<n, m>>(p, k); };
  f.build = [](const altro::problem::Problem& p) { return std::make_shared<altro::problem::Problem>(altro::augmented_lagrangian::BuildAugLagProblem<n, m>(p)); };
  return Register(f);
}
}  // namespace sol
