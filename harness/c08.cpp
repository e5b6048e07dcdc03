// C08: integrators and discretised models.
#include <altro/problem/discretized_model.hpp>

#include "gen.hpp"
using namespace gen;
using altro::problem::ContinuousDynamics;
using altro::problem::DiscretizedModel;
using altro::problem::DiscreteDynamics;
using altro::problem::ExplicitEuler;
using altro::problem::RungeKutta4;

const pbt::PropertyInfo pbt::kProperty = {
    "C08",
    "A case draws a continuous model (affine part, state-dependent sine part, bilinear control part, explicit time "
    "dependence in the drift and in the state and control matrices), a state, control, time and step (also negative and "
    "zero), a size (run-time or fixed <1,1>,<2,1>,<3,2>,<4,2>) and an integrator. The step and Jacobian are compared with "
    "the textbook formulas evaluated in this harness from the same data. Non-trivial: the model is nonlinear or "
    "time-varying and the step is not zero.",
    {"stage times are passed to models as floats, so they are compared to float precision"}};

namespace {
struct CData {
  int n = 1, m = 1;
  MatrixXd A, B, At, Bt, P, G;  // A + At sin(oa t), B + Bt cos(oa t)
  VectorXd b, w;
  double oa = 0, om = 0, eps = 0, phi = 0, beta = 0;
  bool sparse = false;
  VectorXd F(const VectorXd& x, const VectorXd& u, double t) const {
    VectorXd r = (A + std::sin(oa * t) * At) * x + (B + std::cos(oa * t) * Bt) * u + b + w * std::sin(om * t);
    VectorXd a = P * x;
    for (int i = 0; i < n; ++i) r(i) += eps * std::sin(a(i) + phi * t);
    r += beta * u(0) * (G * x);
    return r;
  }
  void DF(const VectorXd& x, const VectorXd& u, double t, MatrixXd* fx, MatrixXd* fu) const {
    *fx = A + std::sin(oa * t) * At + beta * u(0) * G;
    VectorXd a = P * x;
    for (int i = 0; i < n; ++i) fx->row(i) += eps * std::cos(a(i) + phi * t) * P.row(i);
    *fu = B + std::cos(oa * t) * Bt;
    fu->col(0) += beta * (G * x);
  }
  // bound on the change of the derivative per unit of time, used for the float stage-time allowance
  double TimeRate(double xs, double us) const {
    return std::fabs(oa) * n * (At.norm() * xs + Bt.norm() * us) + std::fabs(om) * w.norm() + std::fabs(eps * phi) * (n + P.norm());
  }
  bool TimeVarying() const { return (oa != 0 && (!At.isZero(0) || !Bt.isZero(0))) || om != 0 || (eps != 0 && phi != 0); }
  bool Nonlinear() const { return eps != 0 || beta != 0; }
};
CData MakeData(Ctx& c, int n, int m) {
  CData d;
  d.n = n;
  d.m = m;
  d.A = Mat(c, n, n, 0.6);
  d.B = Mat(c, n, m, 1);
  d.b = c.chance(1, 2) ? Vec(c, n) : VectorXd::Zero(n);
  d.P = Mat(c, n, n, 1);
  d.G = MatrixXd::Zero(n, n);
  d.At = MatrixXd::Zero(n, n);
  d.Bt = MatrixXd::Zero(n, m);
  d.w = VectorXd::Zero(n);
  if (c.chance(1, 2)) d.eps = c.real(0.1, 1);
  if (c.chance(1, 3)) {
    d.beta = c.real(0.1, 0.7);
    d.G = Mat(c, n, n, 1);
  }
  if (c.chance(1, 2)) {
    d.oa = c.real(0.3, 2);
    d.At = Mat(c, n, n, 0.6);
    d.Bt = Mat(c, n, m, 0.6);
  }
  if (c.chance(1, 2)) {
    d.om = c.real(0.3, 2);
    d.w = Vec(c, n);
  }
  if (c.chance(1, 3)) d.phi = c.real(0.3, 2);
  if (c.chance(1, 4)) {  // structurally sparse: zero some entries; the model then does not write them
    d.sparse = true;
    d.eps = 0;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (c.chance(1, 2)) d.A(i, j) = d.At(i, j) = d.G(i, j) = 0;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < m; ++j)
        if (c.chance(1, 2)) d.B(i, j) = d.Bt(i, j) = 0;
  }
  return d;
}
template <int N, int M>
class Model : public ContinuousDynamics {
 public:
  using ContinuousDynamics::Evaluate;
  using ContinuousDynamics::Hessian;
  using ContinuousDynamics::Jacobian;
  static constexpr int NStates = N;
  static constexpr int NControls = M;
  explicit Model(CData d) : d_(std::move(d)) {}
  int StateDimension() const override { return d_.n; }
  int ControlDimension() const override { return d_.m; }
  void Evaluate(const altro::VectorXdRef& x, const altro::VectorXdRef& u, float t, Eigen::Ref<VectorXd> out) override { out = d_.F(x, u, t); }
  void Jacobian(const altro::VectorXdRef& x, const altro::VectorXdRef& u, float t, Eigen::Ref<MatrixXd> jac) override {
    MatrixXd fx, fu;
    d_.DF(x, u, t, &fx, &fu);
    if (!d_.sparse) {
      jac << fx, fu;
      return;
    }
    bool b0 = d_.beta != 0;
    for (int i = 0; i < d_.n; ++i) {
      for (int j = 0; j < d_.n; ++j)
        if (d_.A(i, j) != 0 || d_.At(i, j) != 0 || d_.G(i, j) != 0) jac(i, j) = fx(i, j);
      for (int j = 0; j < d_.m; ++j)
        if (d_.B(i, j) != 0 || d_.Bt(i, j) != 0 || (j == 0 && b0)) jac(i, d_.n + j) = fu(i, j);
    }
  }
  void Hessian(const altro::VectorXdRef&, const altro::VectorXdRef&, float, const altro::VectorXdRef&, Eigen::Ref<MatrixXd> h) override { h.setZero(); }
  bool HasHessian() const override { return true; }

 private:
  CData d_;
};
template <int N, int M>
constexpr int Model<N, M>::NStates;
template <int N, int M>
constexpr int Model<N, M>::NControls;

// ------------------------------------------------------------------ reference
void RefEuler(const CData& d, const VectorXd& x, const VectorXd& u, double t, double h, VectorXd* xn, MatrixXd* J) {
  *xn = x + h * d.F(x, u, t);
  MatrixXd fx, fu;
  d.DF(x, u, t, &fx, &fu);
  J->resize(d.n, d.n + d.m);
  *J << MatrixXd::Identity(d.n, d.n) + h * fx, h * fu;
}
void RefRk4(const CData& d, const VectorXd& x, const VectorXd& u, double t, double h, VectorXd* xn, MatrixXd* J) {
  // Butcher tableau, with sensitivities carried as dK_i/dz, z = (x, u)
  const double a[4] = {0, 0.5, 0.5, 1}, bw[4] = {1. / 6, 1. / 3, 1. / 3, 1. / 6};
  int n = d.n, nz = d.n + d.m;
  MatrixXd X0 = MatrixXd::Zero(n, nz);
  X0.leftCols(n).setIdentity();
  MatrixXd U0 = MatrixXd::Zero(d.m, nz);
  U0.rightCols(d.m).setIdentity();
  VectorXd k = VectorXd::Zero(n), sum = VectorXd::Zero(n);
  MatrixXd dk = MatrixXd::Zero(n, nz), dsum = MatrixXd::Zero(n, nz);
  for (int s = 0; s < 4; ++s) {
    VectorXd xs = x + a[s] * h * k;
    MatrixXd dxs = X0 + a[s] * h * dk;
    MatrixXd fx, fu;
    d.DF(xs, u, t + a[s] * h, &fx, &fu);
    k = d.F(xs, u, t + a[s] * h);
    dk = fx * dxs + fu * U0;
    sum += bw[s] * k;
    dsum += bw[s] * dk;
  }
  *xn = x + h * sum;
  *J = X0 + h * dsum;
}
void Ref(const CData& d, bool rk, const VectorXd& x, const VectorXd& u, double t, double h, VectorXd* xn, MatrixXd* J) {
  rk ? RefRk4(d, x, u, t, h, xn, J) : RefEuler(d, x, u, t, h, xn, J);
}

template <int N, int M>
std::shared_ptr<DiscreteDynamics> Disc(const CData& d, bool rk) {
  Model<N, M> m(d);
  if (rk) return std::make_shared<DiscretizedModel<Model<N, M>>>(m);
  return std::make_shared<DiscretizedModel<Model<N, M>, ExplicitEuler>>(m);
}
struct Setup {
  CData d;
  bool rk;
  int size;
  std::shared_ptr<DiscreteDynamics> Make() const {
    switch (size) {
      case 0: return Disc<Eigen::Dynamic, Eigen::Dynamic>(d, rk);
      case 1: return Disc<1, 1>(d, rk);
      case 2: return Disc<2, 1>(d, rk);
      case 3: return Disc<3, 2>(d, rk);
      default: return Disc<4, 2>(d, rk);
    }
  }
};
Setup MakeSetup(Ctx& c) {
  Setup s;
  s.size = c.range(0, 4);
  static const int ns[] = {0, 1, 2, 3, 4}, ms[] = {0, 1, 1, 2, 2};
  int n = s.size ? ns[s.size] : c.range(1, 6), m = s.size ? ms[s.size] : c.range(1, 4);
  s.rk = c.chance(3, 4);
  s.d = MakeData(c, n, m);
  c.label(s.rk ? "RK4" : "Euler");
  c.label(s.size ? "fixed size" : "run-time size");
  if (s.d.TimeVarying()) c.label("time-varying");
  if (s.d.Nonlinear()) c.label("nonlinear");
  if (s.d.sparse) c.label("sparse Jacobian writes");
  return s;
}
struct Pt {
  VectorXd x, u;
  float t, h;
};
Pt MakePt(Ctx& c, const CData& d) {
  Pt p;
  double s = c.one_of({1.0, 3.0, 0.0});
  p.x = Vec(c, d.n, -s, s);
  p.u = Vec(c, d.m, -s, s);
  p.t = c.chance(1, 5) ? 0.0f : (float)c.real(-5, 10);
  p.h = c.chance(1, 12) ? 0.0f : (float)(c.chance(1, 6) ? -1 : 1) * (float)c.logreal(1e-3, 1.0);
  return p;
}
std::string PtStr(const Pt& p) { return fmt::format("x={} u={} t={} h={}", Str(p.x), Str(p.u), p.t, p.h); }
void Compare(const Setup& s, DiscreteDynamics& f, const Pt& p, bool via_base) {
  const CData& d = s.d;
  VectorXd xr;
  MatrixXd Jr;
  Ref(d, s.rk, p.x, p.u, p.t, p.h, &xr, &Jr);
  VectorXd xn = VectorXd::Constant(d.n, NAN);
  MatrixXd J = MatrixXd::Zero(d.n, d.n + d.m);
  if (via_base) {
    f.SetTime(p.t);
    f.SetStep(p.h);
    EXPECT(f.GetTime() == p.t && f.GetStep() == p.h, "time or step not stored");
    static_cast<altro::FunctionBase&>(f).Evaluate(p.x, p.u, Eigen::Ref<VectorXd>(xn));
    static_cast<altro::FunctionBase&>(f).Jacobian(p.x, p.u, Eigen::Ref<MatrixXd>(J));
  } else {
    f.Evaluate(p.x, p.u, p.t, p.h, xn);
    f.Jacobian(p.x, p.u, p.t, p.h, J);
  }
  double xs = 10 * (1 + p.x.norm() + xr.norm()), us = 1 + p.u.norm();
  double tolx = 1e-11 * xs + std::fabs(p.h) * d.TimeRate(xs, us) * 1.2e-7 * (std::fabs(p.t) + std::fabs(p.h) + 1);
  EXPECT((xn - xr).norm() <= tolx, "step {} differs from the textbook step {} by {:.3g} (allowed {:.3g}) at {}", Str(xn), Str(xr), (xn - xr).norm(), tolx, PtStr(p));
  double sc = 10 * (1 + Jr.norm()) * (1 + d.A.norm() + d.At.norm() + d.B.norm() + d.eps * d.P.norm() + d.beta * (us + xs) * d.G.norm());
  double tolj = 1e-11 * sc + std::fabs(p.h) * (d.TimeRate(xs, us) + d.TimeRate(1, 1)) * sc * 1.2e-7 * (std::fabs(p.t) + std::fabs(p.h) + 1);
  EXPECT(J.allFinite() && (J - Jr).norm() <= tolj, "Jacobian differs from the derivative of the textbook step by {:.3g} (allowed {:.3g}) at {}", (J - Jr).norm(), tolj, PtStr(p));
}
}  // namespace

PBT_CHECK(step_and_jacobian, 30000, 1200000) {
  Setup s = MakeSetup(c);
  auto f = s.Make();
  Pt p = MakePt(c, s.d);
  c.note("{} n={} m={} tv={} nl={} {}", s.rk ? "RK4" : "Euler", s.d.n, s.d.m, s.d.TimeVarying(), s.d.Nonlinear(), PtStr(p));
  EXPECT(f->StateDimension() == s.d.n && f->ControlDimension() == s.d.m && f->OutputDimension() == s.d.n, "wrong dimensions");
  EXPECT(f->HasHessian(), "HasHessian not forwarded");
  if ((s.d.TimeVarying() || s.d.Nonlinear()) && p.h != 0) c.nontrivial();
  Compare(s, *f, p, c.chance(1, 3));
}

// History independence: a long-lived model against fresh ones, bit for bit, in any order of calls.
PBT_CHECK(no_memory, 6000, 200000) {
  Setup s = MakeSetup(c);
  auto f = s.Make();
  int nops = c.range(2, 12);
  std::vector<Pt> pts;
  for (int i = 0; i < 3; ++i) pts.push_back(MakePt(c, s.d));
  if (s.d.TimeVarying() || s.d.Nonlinear()) c.nontrivial();
  for (int i = 0; i < nops; ++i) {
    const Pt& p = pts[c.below(3)];
    auto g = s.Make();
    int op = c.range(0, 3);
    c.note("op{} {}", op, PtStr(p));
    if (op == 0) {
      VectorXd a(s.d.n), b(s.d.n);
      f->Evaluate(p.x, p.u, p.t, p.h, a);
      g->Evaluate(p.x, p.u, p.t, p.h, b);
      EXPECT(a == b, "step depends on earlier evaluations: {} vs {}", Str(a), Str(b));
    } else if (op == 1) {
      MatrixXd a = MatrixXd::Zero(s.d.n, s.d.n + s.d.m), b = a;
      f->Jacobian(p.x, p.u, p.t, p.h, a);
      g->Jacobian(p.x, p.u, p.t, p.h, b);
      EXPECT(a == b, "Jacobian depends on earlier evaluations (difference {})", (a - b).norm());
    } else if (op == 2) {
      VectorXd a = f->Evaluate(p.x, p.u, p.t, p.h), b = (*g)(p.x, p.u, p.t, p.h);
      EXPECT(a == b, "returned step depends on earlier evaluations or on the way it is called");
    } else {
      Compare(s, *f, p, true);
      EXPECT(f->GetTime() == p.t && f->GetStep() == p.h, "stored time changed");
    }
  }
}

// Order of accuracy over a fixed horizon (power-of-two steps, so stage times are exact floats).
PBT_CHECK(order, 600, 20000) {
  Setup s = MakeSetup(c);
  CData& d = s.d;
  auto f = s.Make();
  VectorXd x0 = Vec(c, d.n), u = Vec(c, d.m);
  float t0 = (float)c.range(0, 3);
  c.note("{} n={} m={} tv={} nl={} x0={} u={} t0={}", s.rk ? "RK4" : "Euler", d.n, d.m, d.TimeVarying(), d.Nonlinear(), Str(x0), Str(u), t0);
  if (d.TimeVarying() || d.Nonlinear()) c.nontrivial();
  VectorXd xf = x0, tmp;
  MatrixXd J;
  double peak = 1 + x0.norm();
  for (int i = 0; i < 2000; ++i) {
    RefRk4(d, xf, u, t0 + i / 2000.0, 1 / 2000.0, &tmp, &J);
    xf = tmp;
    peak = std::max(peak, xf.norm());
  }
  double err[2];
  int Ns[2] = {8, 64};
  for (int r = 0; r < 2; ++r) {
    VectorXd x = x0, xn(d.n);
    float h = 1.0f / Ns[r];
    for (int i = 0; i < Ns[r]; ++i) {
      f->Evaluate(x, u, t0 + i * h, h, xn);
      x = xn;
    }
    err[r] = (x - xf).norm();
  }
  double p = s.rk ? 4 : 1;
  double bound = std::pow(8.0, -(p - 0.7)) * err[0] + 0.05 * peak * std::pow(1.0 / 64, p) + 1e-11 * peak;
  EXPECT(err[1] <= bound, "error {:.3g} with 64 steps, {:.3g} with 8: order below {}", err[1], err[0], p);
}

// The continuous-model interface: the generic API evaluates at the stored time.
PBT_CHECK(continuous_api, 6000, 200000) {
  int n = c.range(1, 5), m = c.range(1, 3);
  CData d = MakeData(c, n, m);
  d.sparse = false;
  Model<-1, -1> f(d);
  Pt p = MakePt(c, d);
  c.note("{}", PtStr(p));
  if (d.TimeVarying()) c.nontrivial();
  VectorXd a(n), ref = d.F(p.x, p.u, p.t);
  f.SetTime(p.t);
  EXPECT(f.GetTime() == p.t, "time not stored");
  static_cast<altro::FunctionBase&>(f).Evaluate(p.x, p.u, Eigen::Ref<VectorXd>(a));
  EXPECT(a == ref, "generic evaluation does not use the stored time");
  f.SetTime(p.t + 1);
  VectorXd b = static_cast<ContinuousDynamics&>(f).Evaluate(p.x, p.u, p.t), e = f(p.x, p.u, p.t);
  EXPECT(b == ref && e == ref, "evaluation at an explicit time uses another time");
  EXPECT(f.GetTime() == p.t + 1, "evaluation at an explicit time changed the stored time");
  MatrixXd J = MatrixXd::Zero(n, n + m), fx, fu;
  f.SetTime(p.t);
  static_cast<altro::FunctionBase&>(f).Jacobian(p.x, p.u, Eigen::Ref<MatrixXd>(J));
  d.DF(p.x, p.u, p.t, &fx, &fu);
  EXPECT(J.leftCols(n) == fx && J.rightCols(m) == fu, "generic Jacobian does not use the stored time");
  EXPECT(static_cast<ContinuousDynamics&>(f).OutputDimension() == n, "output dimension");
}
