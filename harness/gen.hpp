// Generated problems: plain data ("specs"), reference evaluation of that data, and adapters that
// present it to the library through its public user interfaces.
#pragma once
#include <eigen3/Eigen/Dense>

#include <atomic>
#include <memory>
#include <string>
#include <vector>

#include "altro/common/trajectory.hpp"
#include "altro/constraints/constraint.hpp"
#include "altro/problem/costfunction.hpp"
#include "altro/problem/dynamics.hpp"
#include "altro/problem/problem.hpp"
#include "pbt.hpp"

namespace gen {
using altro::MatrixXd;
using altro::VectorXd;
using altro::VectorXdRef;
using pbt::Ctx;

// ------------------------------------------------------------------------------------ random data
VectorXd Vec(Ctx& c, int n, double lo = -1, double hi = 1);
MatrixXd Mat(Ctx& c, int r, int k, double s = 1);
MatrixXd Sym(Ctx& c, int n, double s = 1);
MatrixXd Psd(Ctx& c, int n, double s, double floor);
template <class V>
std::string Str(const V& v) {
  std::string s = "[";
  for (int i = 0; i < (int)v.size(); ++i) s += fmt::format("{}{:.5g}", i ? " " : "", (double)v(i));
  return s + "]";
}

// ------------------------------------------------------------------------------------ dynamics
// f(x,u,t,h) = E x + s (A x + B u + b + w sin(om t) + eps sin(P x + phi t) + beta u_0 G x),
// with s = h (E = I: one explicit step of an ODE) or s = 1 (E = 0: plain discrete map).
struct DynSpec {
  int n = 1, m = 1;
  bool ode = true;
  MatrixXd A, B, P, G;
  VectorXd b, w;
  double om = 0, eps = 0, phi = 0, beta = 0;

  bool IsAffine() const { return eps == 0 && beta == 0; }
  bool IsAutonomous() const { return (w.size() == 0 || w.isZero(0) || om == 0) && (eps == 0 || phi == 0); }
  VectorXd F(const VectorXd& x, const VectorXd& u, double t) const;
  void DF(const VectorXd& x, const VectorXd& u, double t, MatrixXd* fx, MatrixXd* fu) const;
  VectorXd Step(const VectorXd& x, const VectorXd& u, float t, float h) const;
  void DStep(const VectorXd& x, const VectorXd& u, float t, float h, MatrixXd* fx, MatrixXd* fu) const;
};

// ------------------------------------------------------------------------------------ cost
// 0.5 x'Qx + x'Hu + 0.5 u'Ru + q'x + r'u + c0 + g sum cos(x_i) + kap/4 sum u_i^4 + qua/4 sum x_i^4
struct CostSpec {
  int n = 1, m = 1;
  MatrixXd Q, R, H;
  VectorXd q, r;
  double c0 = 0, g = 0, kap = 0, qua = 0;

  bool IsQuadratic() const { return g == 0 && kap == 0 && qua == 0; }
  double J(const VectorXd& x, const VectorXd& u) const;
  void Grad(const VectorXd& x, const VectorXd& u, VectorXd* dx, VectorXd* du) const;
  void Hess(const VectorXd& x, const VectorXd& u, MatrixXd* xx, MatrixXd* xu, MatrixXd* uu) const;
};

// ------------------------------------------------------------------------------------ constraints
// g(x,u) = C x + D u - e + nl (0.5 v |x|^2 + sin(x_0) w)
struct ConSpec {
  bool eq = true;
  int p = 1;
  MatrixXd C, D;
  VectorXd e, v, w;
  double nl = 0;
  std::string label;

  VectorXd G(const VectorXd& x, const VectorXd& u) const;
  void DG(const VectorXd& x, const VectorXd& u, MatrixXd* gx, MatrixXd* gu) const;
  VectorXd Viol(const VectorXd& x, const VectorXd& u) const;
};

// ------------------------------------------------------------------------------------ adapters
struct Counters {
  std::atomic<long> dyn{0}, dynjac{0}, cost{0}, grad{0}, hess{0}, con{0}, conjac{0};
  void Reset() { dyn = dynjac = cost = grad = hess = con = conjac = 0; }
};

class UDyn : public altro::problem::DiscreteDynamics {
 public:
  using altro::problem::DiscreteDynamics::Evaluate;
  UDyn(DynSpec s, Counters* cnt) : s_(std::move(s)), cnt_(cnt) {}
  int StateDimension() const override { return s_.n; }
  int ControlDimension() const override { return s_.m; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h,
                Eigen::Ref<VectorXd> xnext) override;
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h,
                Eigen::Ref<MatrixXd> jac) override;
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const float, const VectorXdRef&,
               Eigen::Ref<MatrixXd> hess) override {
    hess.setZero();
  }
  bool HasHessian() const override { return false; }

 private:
  DynSpec s_;
  Counters* cnt_;
};

class UCost : public altro::problem::CostFunction {
 public:
  using altro::ScalarFunction::Gradient;
  using altro::ScalarFunction::Hessian;
  UCost(CostSpec s, Counters* cnt) : s_(std::move(s)), cnt_(cnt) {}
  int StateDimension() const override { return s_.n; }
  int ControlDimension() const override { return s_.m; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override;
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx,
                Eigen::Ref<VectorXd> du) override;
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> dxdx,
               Eigen::Ref<MatrixXd> dxdu, Eigen::Ref<MatrixXd> dudu) override;

 private:
  CostSpec s_;
  Counters* cnt_;
};

template <class ConType>
class UCon : public altro::constraints::Constraint<ConType> {
 public:
  UCon(ConSpec s, Counters* cnt) : s_(std::move(s)), cnt_(cnt) {}
  int StateDimension() const override { return s_.C.cols(); }
  int ControlDimension() const override { return s_.D.cols(); }
  int OutputDimension() const override { return s_.p; }
  std::string GetLabel() const override { return s_.label; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> out) override {
    if (cnt_) cnt_->con++;
    out = s_.G(x, u);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
    if (cnt_) cnt_->conjac++;
    MatrixXd gx, gu;
    s_.DG(x, u, &gx, &gu);
    jac.leftCols(s_.C.cols()) = gx;
    jac.rightCols(s_.D.cols()) = gu;
  }

 private:
  ConSpec s_;
  Counters* cnt_;
};
extern template class UCon<altro::constraints::Equality>;
extern template class UCon<altro::constraints::Inequality>;
using UEq = UCon<altro::constraints::Equality>;
using UIneq = UCon<altro::constraints::Inequality>;

// ------------------------------------------------------------------------------------ whole problems
struct Spec {
  int n = 1, m = 1, N = 1;
  VectorXd x0;
  std::vector<DynSpec> dyn;                  // N
  std::vector<CostSpec> cost;                // N+1
  std::vector<std::vector<ConSpec>> con;     // N+1, in the order added
  std::vector<float> t, h;                   // N+1 (h[N] = 0)
  std::vector<VectorXd> U0;                  // N initial controls
  std::vector<VectorXd> X0;                  // N+1 initial (ignored) states

  int NumCon() const {
    int p = 0;
    for (auto& v : con) for (auto& s : v) p += s.p;
    return p;
  }
  std::vector<VectorXd> Rollout(const std::vector<VectorXd>& U) const;
  double Cost(const std::vector<VectorXd>& X, const std::vector<VectorXd>& U) const;
  double MaxViol(const std::vector<VectorXd>& X, const std::vector<VectorXd>& U) const;
  std::string Brief() const;
};

struct Options {
  int nmin = 1, nmax = 4, mmin = 1, mmax = 3, Nmin = 1, Nmax = 12;
  int n = 0, m = 0;                   // fixed sizes if > 0
  bool nonlinear = true;              // allow nonlinear dynamics
  bool nonquadratic = true;           // allow non-quadratic (still mostly convex) costs
  bool nonconvex = false;             // allow indefinite state cost (cos terms, negative curvature)
  bool time_varying = true;
  bool per_knot = true;               // distinct functions at each knot point
  bool nonuniform = true;             // non-uniform time steps
  double t0max = 2;                   // start time
  int max_con = 0;                    // max number of constraints per knot (0 = unconstrained)
  bool nonlinear_con = false;
  bool feasible = true;               // constraints satisfied by a hidden reference rollout
  double rmin = 0.1;                  // control Hessian floor
  bool cross = true;                  // cross terms
  double guess = 1.0;                 // scale of initial controls
  double gain = 0.5;                  // scale of dynamics matrices
  bool big = true;                    // now and then sizes well beyond the usual ranges
};

DynSpec MakeDyn(Ctx& c, int n, int m, const Options& o);
CostSpec MakeCost(Ctx& c, int n, int m, bool terminal, const Options& o);
// A constraint; if xs/us are given, it is satisfied there (inequalities: with slack >= 0).
ConSpec MakeCon(Ctx& c, int n, int m, bool terminal, const Options& o, const VectorXd* xs, const VectorXd* us, bool eq, int p);

Spec MakeSpec(Ctx& c, const Options& o);

// Fill a library problem (by reference: no copies or moves of the problem are involved).
void Fill(const Spec& s, altro::problem::Problem* prob, Counters* cnt = nullptr);
template <int n, int m>
std::shared_ptr<altro::Trajectory<n, m>> MakeTraj(const Spec& s) {
  auto Z = std::make_shared<altro::Trajectory<n, m>>(s.n, s.m, s.N);
  for (int k = 0; k <= s.N; ++k) {
    Z->State(k) = s.X0[k];
    if (k < s.N) Z->Control(k) = s.U0[k];
    Z->SetTime(k, s.t[k]);
    Z->SetStep(k, s.h[k]);
  }
  return Z;
}
template <int n, int m>
void Extract(const altro::Trajectory<n, m>& Z, std::vector<VectorXd>* X, std::vector<VectorXd>* U) {
  X->clear();
  U->clear();
  for (int k = 0; k <= Z.NumSegments(); ++k) {
    X->push_back(Z.State(k));
    if (k < Z.NumSegments()) U->push_back(Z.Control(k));
  }
}

// ------------------------------------------------------------------------------------ comparisons
double MaxDiff(const MatrixXd& a, const MatrixXd& b);
double RelDiff(double a, double b);
bool Finite(const std::vector<VectorXd>& X);
double MaxAbs(const std::vector<VectorXd>& X);
}  // namespace gen

