#include "gen.hpp"

namespace gen {
VectorXd Vec(Ctx& c, int n, double lo, double hi) {
  VectorXd v(n);
  for (int i = 0; i < n; ++i) v(i) = c.real(lo, hi);
  return v;
}

MatrixXd Mat(Ctx& c, int r, int k, double s) {
  MatrixXd v(r, k);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < k; ++j) v(i, j) = c.real(-s, s);
  return v;
}

MatrixXd Sym(Ctx& c, int n, double s) {
  MatrixXd a = Mat(c, n, n, s);
  return 0.5 * (a + a.transpose());
}

MatrixXd Psd(Ctx& c, int n, double s, double floor) {
  MatrixXd l = Mat(c, n, n, 1);
  MatrixXd p = s * l * l.transpose() / n + floor * MatrixXd::Identity(n, n);
  return 0.5 * (p + p.transpose());
}

DynSpec MakeDyn(Ctx& c, int n, int m, const Options& o) {
  DynSpec d;
  d.n = n;
  d.m = m;
  d.ode = c.chance(2, 3);
  d.A = Mat(c, n, n, d.ode ? o.gain : 1.0 / std::sqrt(n));
  d.B = Mat(c, n, m, 1);
  d.b = c.chance(1, 2) ? Vec(c, n, -0.3, 0.3) : VectorXd(VectorXd::Zero(n));
  d.w = VectorXd::Zero(n);
  d.P = MatrixXd::Identity(n, n);
  d.G = MatrixXd::Identity(n, n);
  if (o.time_varying && c.chance(1, 2)) {
    d.om = c.real(0.2, 2);
    d.w = Vec(c, n, -0.5, 0.5);
  }
  if (o.nonlinear && c.chance(1, 2)) {
    d.eps = c.real(0.1, 0.8);
    d.P = Mat(c, n, n, 1);
    d.phi = o.time_varying && c.chance(1, 2) ? c.real(0.1, 1.5) : 0.0;
  }
  if (o.nonlinear && c.chance(1, 4)) {
    d.beta = c.real(0.05, 0.3);
    d.G = Mat(c, n, n, 1);
  }
  return d;
}

CostSpec MakeCost(Ctx& c, int n, int m, bool terminal, const Options& o) {
  CostSpec s;
  s.n = n;
  s.m = m;
  s.q = Vec(c, n);
  s.c0 = c.chance(1, 2) ? c.real(-3, 3) : 0.0;
  if (terminal) {
    s.Q = Psd(c, n, c.logreal(0.1, 20), 0);
    s.R = MatrixXd::Zero(m, m);
    s.H = MatrixXd::Zero(n, m);
    s.r = VectorXd::Zero(m);
  } else if (o.cross && c.chance(1, 2)) {
    MatrixXd w = Psd(c, n + m, c.logreal(0.1, 5), 0);
    s.Q = w.topLeftCorner(n, n);
    s.H = w.topRightCorner(n, m);
    s.R = w.bottomRightCorner(m, m) + o.rmin * MatrixXd::Identity(m, m);
    s.r = Vec(c, m);
  } else {
    s.Q = Psd(c, n, c.logreal(0.1, 5), 0);
    s.H = MatrixXd::Zero(n, m);
    s.R = Psd(c, m, c.logreal(0.1, 2), o.rmin);
    s.r = Vec(c, m);
  }
  if (o.nonquadratic && c.chance(1, 3)) {
    s.qua = c.real(0, 0.3);
    if (!terminal) s.kap = c.real(0, 0.3);
  }
  if (o.nonconvex && c.chance(1, 2)) s.g = c.real(-3, 3);
  if (o.nonconvex && c.chance(1, 3)) s.Q -= c.real(0, 2) * MatrixXd::Identity(n, n);
  return s;
}

ConSpec MakeCon(Ctx& c, int n, int m, bool terminal, const Options& o, const VectorXd* xs, const VectorXd* us, bool eq, int p) {
  ConSpec s;
  s.eq = eq;
  s.p = p;
  s.C = Mat(c, p, n, 1);
  s.D = terminal ? MatrixXd(MatrixXd::Zero(p, m)) : Mat(c, p, m, 1);
  if (!terminal && c.chance(1, 2)) s.C.setZero();       // pure control constraint
  s.e = VectorXd::Zero(p);
  s.v = VectorXd::Zero(p);
  s.w = VectorXd::Zero(p);
  if (o.nonlinear_con && c.chance(1, 2)) {
    s.nl = c.real(0.05, 0.3);
    s.v = Vec(c, p);
    s.w = Vec(c, p);
  }
  if (xs) {
    VectorXd g = s.G(*xs, *us);
    s.e = g;
    if (!eq)
      for (int i = 0; i < p; ++i) s.e(i) += c.chance(1, 3) ? 0.0 : c.real(0, 1);
  } else {
    s.e = Vec(c, p);
  }
  s.label = fmt::format("{}{}", eq ? "eq" : "ineq", c.below(1000));
  return s;
}

Spec MakeSpec(Ctx& c, const Options& o) {
  Spec s;
  s.n = o.n > 0 ? o.n : c.range(o.nmin, o.nmax);
  s.m = o.m > 0 ? o.m : c.range(o.mmin, o.mmax);
  s.N = c.range(o.Nmin, o.Nmax);
  if (o.big && o.Nmax > o.Nmin && c.chance(1, 60)) s.N = c.range(o.Nmax, std::min(5 * o.Nmax, 40));
  s.x0 = Vec(c, s.n, -2, 2);
  float t0 = (o.t0max > 0 && c.chance(1, 2)) ? static_cast<float>(c.real(0, o.t0max)) : 0.f;
  float h0 = static_cast<float>(c.real(0.02, 0.2));
  bool nonuni = o.nonuniform && c.chance(1, 2);
  float tt = t0;
  for (int k = 0; k <= s.N; ++k) {
    float h = k == s.N ? 0.f : (nonuni ? static_cast<float>(c.real(0.02, 0.25)) : h0);
    s.t.push_back(tt);
    s.h.push_back(h);
    tt += h;
  }
  bool perk = o.per_knot && c.chance(1, 2);
  DynSpec d0 = MakeDyn(c, s.n, s.m, o);
  CostSpec c0 = MakeCost(c, s.n, s.m, false, o);
  for (int k = 0; k < s.N; ++k) {
    s.dyn.push_back(perk && k > 0 ? MakeDyn(c, s.n, s.m, o) : d0);
    s.cost.push_back(perk && k > 0 ? MakeCost(c, s.n, s.m, false, o) : c0);
  }
  s.cost.push_back(MakeCost(c, s.n, s.m, true, o));
  for (int k = 0; k < s.N; ++k) s.U0.push_back(Vec(c, s.m, -o.guess, o.guess));
  bool junk = c.chance(1, 2);
  for (int k = 0; k <= s.N; ++k) s.X0.push_back(junk ? Vec(c, s.n, -5, 5) : VectorXd(VectorXd::Zero(s.n)));
  s.con.resize(s.N + 1);
  if (o.max_con > 0) {
    std::vector<VectorXd> Us;
    for (int k = 0; k < s.N; ++k) Us.push_back(Vec(c, s.m, -1, 1));
    auto Xs = s.Rollout(Us);
    for (int k = 0; k <= s.N; ++k) {
      int nc = c.chance(1, 2) ? c.range(0, o.max_con) : 0;
      if (o.big && nc > 0 && c.chance(1, 60)) nc += c.range(1, 5);
      int eqrows = 0;
      for (int i = 0; i < nc; ++i) {
        bool term = k == s.N;
        bool eq = c.chance(1, 3);
        int p = c.range(1, 3);
        if (o.big && c.chance(1, 60)) p = c.range(4, 10);
        if (eq) {   // keep equalities compatible with the available freedom
          int cap = std::max(0, s.m - eqrows);
          if (term) cap = std::min(s.n, std::max(0, s.m * s.N - eqrows));
          if (cap == 0) continue;
          p = std::min(p, std::max(1, cap - (term ? 0 : (s.m > 1 ? 1 : 0))));
          eqrows += p;
        }
        VectorXd us = term ? VectorXd(VectorXd::Zero(s.m)) : Us[k];
        s.con[k].push_back(MakeCon(c, s.n, s.m, term, o, o.feasible ? &Xs[k] : nullptr, o.feasible ? &us : nullptr, eq, p));
      }
    }
  }
  return s;
}

void Fill(const Spec& s, altro::problem::Problem* prob, Counters* cnt) {
  prob->SetInitialState(s.x0);
  for (int k = 0; k < s.N; ++k) prob->SetDynamics(std::make_shared<UDyn>(s.dyn[k], cnt), k);
  for (int k = 0; k <= s.N; ++k) {
    prob->SetCostFunction(std::make_shared<UCost>(s.cost[k], cnt), k);
    for (auto& con : s.con[k]) {
      if (con.eq) prob->SetConstraint(std::make_shared<UEq>(con, cnt), k);
      else prob->SetConstraint(std::make_shared<UIneq>(con, cnt), k);
    }
  }
}

double MaxDiff(const MatrixXd& a, const MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return std::numeric_limits<double>::infinity();
  double d = 0;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) {
      double x = a(i, j), y = b(i, j);
      if (x == y || (std::isnan(x) && std::isnan(y))) continue;
      double e = std::abs(x - y) / (1 + std::max(std::abs(x), std::abs(y)));
      if (std::isnan(e)) return std::numeric_limits<double>::infinity();
      d = std::max(d, e);
    }
  return d;
}

double RelDiff(double a, double b) {
  if (a == b || (std::isnan(a) && std::isnan(b))) return 0;
  double e = std::abs(a - b) / (1 + std::max(std::abs(a), std::abs(b)));
  return std::isnan(e) ? std::numeric_limits<double>::infinity() : e;
}

bool Finite(const std::vector<VectorXd>& X) {
  for (auto& x : X) if (!x.allFinite()) return false;
  return true;
}

double MaxAbs(const std::vector<VectorXd>& X) {
  double v = 0;
  for (auto& x : X) if (x.size()) v = std::max(v, x.cwiseAbs().maxCoeff());
  return v;
}

VectorXd DynSpec::F(const VectorXd& x, const VectorXd& u, double t) const {
    VectorXd f = A * x + B * u + b;
    if (om != 0) f += w * std::sin(om * t);
    if (eps != 0) f += eps * ((P * x).array() + phi * t).sin().matrix();
    if (beta != 0) f += beta * u(0) * (G * x);
    return f;
  }

void DynSpec::DF(const VectorXd& x, const VectorXd& u, double t, MatrixXd* fx, MatrixXd* fu) const {
    *fx = A;
    *fu = B;
    if (eps != 0) *fx += eps * ((P * x).array() + phi * t).cos().matrix().asDiagonal() * P;
    if (beta != 0) {
      *fx += beta * u(0) * G;
      fu->col(0) += beta * (G * x);
    }
  }

VectorXd DynSpec::Step(const VectorXd& x, const VectorXd& u, float t, float h) const {
    VectorXd f = F(x, u, t);
    if (ode) return x + static_cast<double>(h) * f;
    return f;
  }

void DynSpec::DStep(const VectorXd& x, const VectorXd& u, float t, float h, MatrixXd* fx, MatrixXd* fu) const {
    DF(x, u, t, fx, fu);
    if (ode) {
      *fx = MatrixXd::Identity(n, n) + static_cast<double>(h) * *fx;
      *fu = static_cast<double>(h) * *fu;
    }
  }

double CostSpec::J(const VectorXd& x, const VectorXd& u) const {
    double v = 0.5 * x.dot(Q * x) + x.dot(H * u) + 0.5 * u.dot(R * u) + q.dot(x) + r.dot(u) + c0;
    if (g != 0) v += g * x.array().cos().sum();
    if (kap != 0) v += kap / 4 * u.array().pow(4).sum();
    if (qua != 0) v += qua / 4 * x.array().pow(4).sum();
    return v;
  }

void CostSpec::Grad(const VectorXd& x, const VectorXd& u, VectorXd* dx, VectorXd* du) const {
    *dx = Q * x + H * u + q;
    *du = R * u + H.transpose() * x + r;
    if (g != 0) *dx -= g * x.array().sin().matrix();
    if (kap != 0) *du += kap * u.array().pow(3).matrix();
    if (qua != 0) *dx += qua * x.array().pow(3).matrix();
  }

void CostSpec::Hess(const VectorXd& x, const VectorXd& u, MatrixXd* xx, MatrixXd* xu, MatrixXd* uu) const {
    *xx = Q;
    *xu = H;
    *uu = R;
    for (int i = 0; i < n; ++i) {
      if (g != 0) (*xx)(i, i) -= g * std::cos(x(i));
      if (qua != 0) (*xx)(i, i) += 3 * qua * x(i) * x(i);
    }
    for (int i = 0; i < m; ++i)
      if (kap != 0) (*uu)(i, i) += 3 * kap * u(i) * u(i);
  }

VectorXd ConSpec::G(const VectorXd& x, const VectorXd& u) const {
    VectorXd g = C * x + D * u - e;
    if (nl != 0) g += nl * (0.5 * x.squaredNorm() * v + std::sin(x(0)) * w);
    return g;
  }

void ConSpec::DG(const VectorXd& x, const VectorXd& u, MatrixXd* gx, MatrixXd* gu) const {
    (void)u;
    *gx = C;
    *gu = D;
    if (nl != 0) {
      *gx += nl * v * x.transpose();
      gx->col(0) += nl * std::cos(x(0)) * w;
    }
  }

VectorXd ConSpec::Viol(const VectorXd& x, const VectorXd& u) const {
    VectorXd g = G(x, u);
    if (!eq) g = g.cwiseMax(0.0);
    return g;
  }

std::vector<VectorXd> Spec::Rollout(const std::vector<VectorXd>& U) const {
    std::vector<VectorXd> X{x0};
    for (int k = 0; k < N; ++k) X.push_back(dyn[k].Step(X[k], U[k], t[k], h[k]));
    return X;
  }

double Spec::Cost(const std::vector<VectorXd>& X, const std::vector<VectorXd>& U) const {
    double J = 0;
    for (int k = 0; k < N; ++k) J += cost[k].J(X[k], U[k]);
    return J + cost[N].J(X[N], VectorXd::Zero(m));
  }

double Spec::MaxViol(const std::vector<VectorXd>& X, const std::vector<VectorXd>& U) const {
    double v = 0;
    for (int k = 0; k <= N; ++k)
      for (auto& s : con[k]) {
        VectorXd g = s.Viol(X[k], k < N ? U[k] : VectorXd(VectorXd::Zero(m)));
        for (int i = 0; i < g.size(); ++i) v = std::max(v, std::abs(g(i)));
      }
    return v;
  }

std::string Spec::Brief() const {
    int ne = 0, ni = 0;
    for (auto& v : con) for (auto& s : v) (s.eq ? ne : ni) += s.p;
    return fmt::format("n={} m={} N={} eq={} ineq={} x0={} h0={} affine={} quad={}", n, m, N, ne, ni, Str(x0), h.empty() ? 0.f : h[0],
                       dyn.empty() ? true : dyn[0].IsAffine(), cost.empty() ? true : cost[0].IsQuadratic());
  }

void UDyn::Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h,
                Eigen::Ref<VectorXd> xnext) {
    if (cnt_) cnt_->dyn++;
    xnext = s_.Step(x, u, t, h);
  }

void UDyn::Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h,
                Eigen::Ref<MatrixXd> jac) {
    if (cnt_) cnt_->dynjac++;
    MatrixXd fx, fu;
    s_.DStep(x, u, t, h, &fx, &fu);
    jac.leftCols(s_.n) = fx;
    jac.rightCols(s_.m) = fu;
  }

double UCost::Evaluate(const VectorXdRef& x, const VectorXdRef& u) {
    if (cnt_) cnt_->cost++;
    return s_.J(x, u);
  }

void UCost::Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx,
                Eigen::Ref<VectorXd> du) {
    if (cnt_) cnt_->grad++;
    VectorXd gx, gu;
    s_.Grad(x, u, &gx, &gu);
    dx = gx;
    du = gu;
  }

void UCost::Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> dxdx,
               Eigen::Ref<MatrixXd> dxdu, Eigen::Ref<MatrixXd> dudu) {
    if (cnt_) cnt_->hess++;
    MatrixXd xx, xu, uu;
    s_.Hess(x, u, &xx, &xu, &uu);
    dxdx = xx;
    dxdu = xu;
    dudu = uu;
  }

template class UCon<altro::constraints::Equality>;
template class UCon<altro::constraints::Inequality>;
}  // namespace gen
