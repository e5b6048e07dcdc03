// C27: the supplied models, costs and constraints are self-consistent.
#include "altro/problem/discretized_model.hpp"
#include "examples/basic_constraints.hpp"
#include "examples/obstacle_constraints.hpp"
#include "examples/problems/triple_integrator.hpp"
#include "examples/problems/unicycle.hpp"
#include "examples/quadratic_cost.hpp"
#include "examples/triple_integrator.hpp"
#include "examples/unicycle.hpp"
#include <cstring>

#include "gen.hpp"
using namespace gen;
using altro::examples::Circle;
using altro::examples::CircleConstraint;
using altro::examples::ControlBound;
using altro::examples::GoalConstraint;
using altro::examples::QuadraticCost;

const pbt::PropertyInfo pbt::kProperty = {
    "C27",
    "A case draws the parameters of one supplied building block (dimensions, weights including rank-deficient ones, references, bounds with infinite entries changed by setters, obstacles and state indices, degrees of freedom) and points including exact boundary points, and compares values, derivatives, sizes, labels and cone membership with the documented formulas; derivatives are also compared with finite differences of the block's own value. Example problems are assembled repeatedly in dirtied memory and evaluated against the formulas. Non-trivial: a parameterisation other than the default was evaluated at a nonzero point.",
    {"The Jacobian buffers of the vehicle model are handed over zero-initialised, as the library does for every model."}};

namespace {
VectorXd FdGrad(const std::function<double(const VectorXd&)>& f, VectorXd z) {
  VectorXd g(z.size());
  for (int i = 0; i < z.size(); ++i) {
    double h = 1e-5, z0 = z(i);
    z(i) = z0 + h;
    double a = f(z);
    z(i) = z0 - h;
    double b = f(z);
    z(i) = z0;
    g(i) = (a - b) / (2 * h);
  }
  return g;
}
MatrixXd FdJac(const std::function<VectorXd(const VectorXd&)>& f, VectorXd z, int p) {
  MatrixXd J(p, z.size());
  for (int i = 0; i < z.size(); ++i) {
    double h = 1e-5, z0 = z(i);
    z(i) = z0 + h;
    VectorXd a = f(z);
    z(i) = z0 - h;
    VectorXd b = f(z);
    z(i) = z0;
    J.col(i) = (a - b) / (2 * h);
  }
  return J;
}
VectorXd Cat(const VectorXd& a, const VectorXd& b) {
  VectorXd z(a.size() + b.size());
  z << a, b;
  return z;
}
// Known finding C27 psd-rejected: the semi-definiteness test of the constructor rejects rank-deficient
// positive semi-definite weights whose computed factorisation fails or has a (rounding-level) negative pivot.
bool RejectedPsd(const MatrixXd& Q) {
  Eigen::LDLT<MatrixXd> f(Q);
  return f.info() != Eigen::Success || f.vectorD().minCoeff() < 0;
}
MatrixXd RandPsd(Ctx& c, int n) {   // including rank-deficient and zero
  switch (c.range(0, 4)) {
    case 0: return Psd(c, n, 1, 0.1);
    case 1: { int r = c.range(0, n); MatrixXd M = Mat(c, n, std::max(1, r), 1); if (r == 0) M.setZero(); return M * M.transpose(); }
    case 2: { VectorXd d(n); for (int i = 0; i < n; ++i) d(i) = c.one_of<double>({0, 1, 0.01, 1e5}); return d.asDiagonal(); }
    case 3: return MatrixXd::Zero(n, n);
    default: { MatrixXd M = Mat(c, n, n, 3); return M * M.transpose(); }
  }
}
void CheckCost(Ctx& c, QuadraticCost& qc, const MatrixXd& Q, const MatrixXd& R, const MatrixXd& H, const VectorXd& q, const VectorXd& r, double c0) {
  int n = q.size(), m = r.size();
  EXPECT(qc.StateDimension() == n && qc.ControlDimension() == m, "dimensions {} {}", qc.StateDimension(), qc.ControlDimension());
  EXPECT(MaxDiff(qc.GetQ(), Q) == 0 && MaxDiff(qc.GetR(), R) == 0 && MaxDiff(qc.GetH(), H) == 0, "stored weights");
  VectorXd x = Vec(c, n, -3, 3), u = Vec(c, m, -3, 3);
  double J = c0, sc = std::abs(c0) + 1;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) { J += 0.5 * x(i) * Q(i, j) * x(j); sc += std::abs(0.5 * x(i) * Q(i, j) * x(j)); }
    for (int j = 0; j < m; ++j) { J += x(i) * H(i, j) * u(j); sc += std::abs(x(i) * H(i, j) * u(j)); }
    J += q(i) * x(i); sc += std::abs(q(i) * x(i));
  }
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < m; ++j) { J += 0.5 * u(i) * R(i, j) * u(j); sc += std::abs(0.5 * u(i) * R(i, j) * u(j)); }
    J += r(i) * u(i); sc += std::abs(r(i) * u(i));
  }
  double v = qc.Evaluate(x, u);
  EXPECT(std::abs(v - J) < 1e-12 * sc, "value {} instead of {}", v, J);
  VectorXd dx = VectorXd::Constant(n, NAN), du = VectorXd::Constant(m, NAN);
  qc.Gradient(x, u, dx, du);
  VectorXd gx = Q * x + H * u + q, gu = R * u + H.transpose() * x + r;
  EXPECT(MaxDiff(dx, gx) < 1e-11 * sc && MaxDiff(du, gu) < 1e-11 * sc, "gradient {} {} instead of {} {}", Str(dx), Str(du), Str(gx), Str(gu));
  VectorXd fd = FdGrad([&](const VectorXd& z) { return qc.Evaluate(z.head(n), z.tail(m)); }, Cat(x, u));
  EXPECT(MaxDiff(fd, Cat(dx, du)) < 1e-8 * sc, "gradient {} {} but finite differences give {}", Str(dx), Str(du), Str(fd));
  MatrixXd xx = MatrixXd::Constant(n, n, NAN), xu = MatrixXd::Constant(n, m, NAN), uu = MatrixXd::Constant(m, m, NAN);
  qc.Hessian(x, u, xx, xu, uu);
  EXPECT(MaxDiff(xx, Q) == 0 && MaxDiff(uu, R) == 0 && MaxDiff(xu, H) == 0, "Hessian");
  c.nontrivial();
}
}  // namespace

PBT_CHECK(quadratic, 40000, 800000) {
  int n = c.range(1, 6), m = c.range(1, 4);
  bool term = c.chance(1, 3);
  MatrixXd Q = RandPsd(c, n), R = term ? RandPsd(c, m) : Psd(c, m, 1, 0.05);
  MatrixXd H = c.chance(1, 2) ? MatrixXd(MatrixXd::Zero(n, m)) : Mat(c, n, m, 1);
  c.note("n={} m={} terminal={} Q={}", n, m, term, Str(VectorXd(Eigen::Map<VectorXd>(Q.data(), Q.size()))));
  VectorXd q = Vec(c, n, -2, 2), r = Vec(c, m, -2, 2);
  double c0 = c.real(-5, 5);
  if (RejectedPsd(Q)) c.excluded("psd-rejected");
  QuadraticCost qc(Q, R, H, q, r, c0, term);
  EXPECT(MaxDiff(qc.Getq(), q) == 0 && MaxDiff(qc.Getr(), r) == 0 && qc.GetConstant() == c0, "stored vectors");
  EXPECT(qc.IsBlockDiagonal() == (H.norm() < 1e-8), "block diagonal");
  CheckCost(c, qc, Q, R, H, q, r, c0);
  QuadraticCost copy = qc;
  CheckCost(c, copy, Q, R, H, q, r, c0);
}
PBT_CHECK(lqr, 20000, 400000) {
  int n = c.range(1, 6), m = c.range(1, 4);
  bool term = c.chance(1, 3);
  MatrixXd Q = RandPsd(c, n), R = term ? (c.chance(1, 2) ? MatrixXd(MatrixXd::Zero(m, m)) : RandPsd(c, m)) : Psd(c, m, 1, 0.05);
  VectorXd xr = Vec(c, n, -2, 2), ur = Vec(c, m, -2, 2);
  c.note("n={} m={} terminal={} xref={} uref={}", n, m, term, Str(xr), Str(ur));
  if (RejectedPsd(Q)) c.excluded("psd-rejected");
  QuadraticCost qc = QuadraticCost::LQRCost(Q, R, xr, ur, term);
  VectorXd x = Vec(c, n, -3, 3), u = Vec(c, m, -3, 3);
  double J = 0.5 * (x - xr).dot(Q * (x - xr)) + 0.5 * (u - ur).dot(R * (u - ur));
  double sc = 1 + Q.norm() * (x.squaredNorm() + xr.squaredNorm()) + R.norm() * (u.squaredNorm() + ur.squaredNorm());
  EXPECT(std::abs(qc.Evaluate(x, u) - J) < 1e-12 * sc, "tracking cost {} instead of {}", qc.Evaluate(x, u), J);
  EXPECT(std::abs(qc.Evaluate(xr, ur)) < 1e-12 * sc, "tracking cost {} at the reference", qc.Evaluate(xr, ur));
  VectorXd dx(n), du(m);
  qc.Gradient(xr, ur, dx, du);
  EXPECT(MaxAbs({dx, du}) < 1e-12 * sc, "gradient at the reference");
  CheckCost(c, qc, Q, R, MatrixXd::Zero(n, m), -Q * xr, -R * ur, 0.5 * xr.dot(Q * xr) + 0.5 * ur.dot(R * ur));
}

PBT_CHECK(goal, 4000, 80000) {
  int n = c.range(1, 6), m = c.range(1, 4);
  VectorXd xf = Vec(c, n, -3, 3), x = c.chance(1, 4) ? xf : Vec(c, n, -3, 3), u = Vec(c, m);
  auto g = c.chance(1, 2) ? GoalConstraint::Create(xf) : std::make_shared<GoalConstraint>(xf);
  EXPECT(g->OutputDimension() == n && g->StateDimension() == n, "sizes");
  EXPECT(g->GetLabel() == "Goal Constraint" && g->GetConstraintType() == "Equality Constraint", "label {} type {}", g->GetLabel(), g->GetConstraintType());
  VectorXd v = VectorXd::Constant(n, NAN);
  g->Evaluate(x, u, v);
  EXPECT(MaxDiff(v, x - xf) == 0, "value {} at {} with goal {}", Str(v), Str(x), Str(xf));
  MatrixXd J = MatrixXd::Constant(n, n + m, NAN), want = MatrixXd::Zero(n, n + m);
  want.leftCols(n).setIdentity();
  g->Jacobian(x, u, J);
  EXPECT(MaxDiff(J, want) == 0, "Jacobian");
  c.nontrivial();
}

PBT_CHECK(bounds, 40000, 800000) {
  int n = c.range(1, 4), m = c.range(1, 5);
  const double inf = HUGE_VAL;
  std::vector<double> lb(m, -inf), ub(m, inf);
  auto drawL = [&] { std::vector<double> v(m); for (int i = 0; i < m; ++i) v[i] = c.chance(1, 3) ? -inf : std::min(ub[i], c.chance(1, 6) ? ub[i] : c.real(-3, 3)); return v; };
  auto drawU = [&] { std::vector<double> v(m); for (int i = 0; i < m; ++i) v[i] = c.chance(1, 3) ? inf : std::max(lb[i], c.chance(1, 6) ? lb[i] : c.real(-3, 3)); return v; };
  std::unique_ptr<ControlBound> b;
  auto fin = [&](std::vector<double>& v, double d) { for (auto& e : v) if (std::isinf(e) && (d > 0) != (e > 0)) e = d; };
  if (c.chance(1, 2)) {
    lb = drawL();
    ub = drawU();
    fin(lb, -inf);
    fin(ub, inf);
    b = std::make_unique<ControlBound>(lb, ub);
  } else {
    b = std::make_unique<ControlBound>(m);
  }
  int sets = c.range(0, 3);
  for (int i = 0; i < sets; ++i) {
    if (c.chance(1, 2)) {
      ub = drawU(); fin(ub, inf);
      if (c.chance(1, 2)) b->SetUpperBound(ub); else b->SetUpperBound(std::vector<double>(ub));
    } else {
      lb = drawL(); fin(lb, -inf);
      if (c.chance(1, 2)) b->SetLowerBound(lb); else b->SetLowerBound(std::vector<double>(lb));
    }
  }
  c.note("lb={} ub={}", Str(Eigen::Map<VectorXd>(lb.data(), m)), Str(Eigen::Map<VectorXd>(ub.data(), m)));
  if (c.chance(1, 4)) b = std::make_unique<ControlBound>(*b);
  std::vector<std::pair<int, bool>> rows;   // control index, upper
  for (int i = 0; i < m; ++i) if (std::isfinite(lb[i])) rows.push_back({i, false});
  for (int i = 0; i < m; ++i) if (std::isfinite(ub[i])) rows.push_back({i, true});
  int p = rows.size();
  EXPECT(b->OutputDimension() == p, "{} rows for {} finite bounds", b->OutputDimension(), p);
  EXPECT(b->ControlDimension() == m && b->GetLabel() == "Control Bound" && b->GetConstraintType() == "Inequality Constraint", "type {}", b->GetConstraintType());
  VectorXd x = Vec(c, n), u = Vec(c, m, -4, 4);
  for (int i = 0; i < m; ++i) {
    if (c.chance(1, 4) && std::isfinite(lb[i])) u(i) = lb[i];
    else if (c.chance(1, 4) && std::isfinite(ub[i])) u(i) = ub[i];
    else if (c.chance(1, 2) && std::isfinite(ub[i]) && std::isfinite(lb[i])) u(i) = lb[i] + (ub[i] - lb[i]) * c.real(0, 1);
  }
  VectorXd v = VectorXd::Constant(p, NAN);
  b->Evaluate(x, u, v);
  bool sat = true;
  for (int i = 0; i < m; ++i) sat = sat && lb[i] <= u(i) && u(i) <= ub[i];
  bool in = p == 0 || v.maxCoeff() <= 0;
  EXPECT(sat == in, "u={} is {} but the value is {}", Str(u), sat ? "within bounds" : "out of bounds", Str(v));
  if (p > 0) {
    VectorXd pr = VectorXd::Zero(p);
    altro::constraints::NegativeOrthant::Projection(v, pr);
    EXPECT((MaxDiff(pr, v) == 0) == sat, "projection leaves {} {}", Str(v), sat ? "changed" : "unchanged");
  }
  for (int k = 0; k < p; ++k) {
    int i = rows[k].first;
    double w = rows[k].second ? u(i) - ub[i] : lb[i] - u(i);
    EXPECT(v(k) == w, "row {} is {} instead of {}", k, v(k), w);
  }
  MatrixXd J = MatrixXd::Constant(p, n + m, NAN), want = MatrixXd::Zero(p, n + m);
  for (int k = 0; k < p; ++k) want(k, n + rows[k].first) = rows[k].second ? 1 : -1;
  b->Jacobian(x, u, J);
  EXPECT(p == 0 || MaxDiff(J, want) == 0, "Jacobian");
  if (p > 1) c.nontrivial();
  c.label(sat ? "within bounds" : "out of bounds");
}

PBT_CHECK(circles, 40000, 800000) {
  int n = c.range(2, 6), m = c.range(1, 3);
  CircleConstraint con;
  int ix = 0, iy = 1;
  if (c.chance(2, 3)) {
    ix = c.range(0, n - 1);
    iy = (ix + c.range(1, n - 1)) % n;
    con.SetXYIndices(ix, iy);
  }
  int p = c.range(1, 4);
  VectorXd x = Vec(c, n, -3, 3), u = Vec(c, m);
  std::vector<Circle> cs;
  for (int i = 0; i < p; ++i) {
    Circle k(c.real(-2, 2), c.real(-2, 2), c.logreal(0.1, 2));
    if (c.chance(1, 6)) { k = Circle(x(ix) + 3, x(iy) - 4, 5); }   // on (or within rounding of) the boundary
    cs.push_back(k);
    if (c.chance(1, 2)) con.AddObstacle(k); else con.AddObstacle(k.x, k.y, k.r);
  }
  c.note("n={} ix={} iy={} p={} x={}", n, ix, iy, p, Str(x));
  EXPECT(con.OutputDimension() == p, "{} rows for {} obstacles", con.OutputDimension(), p);
  VectorXd v = VectorXd::Constant(p, NAN);
  con.Evaluate(x, u, v);
  MatrixXd J = MatrixXd::Zero(p, n + m);
  con.Jacobian(x, u, J);
  bool listed = false;
  for (int i = 0; i < p; ++i) {
    double dx = x(ix) - cs[i].x, dy = x(iy) - cs[i].y, d2 = dx * dx + dy * dy, r2 = cs[i].r * cs[i].r;
    EXPECT(std::abs(v(i) - (r2 - d2)) < 1e-12 * (r2 + d2), "row {} is {} instead of {}", i, v(i), r2 - d2);
    if (std::abs(d2 - r2) > 1e-9 * (d2 + r2)) EXPECT((v(i) <= 0) == (d2 >= r2), "membership");
    EXPECT(std::abs(cs[i].Distance2(x(ix), x(iy)) - (d2 - r2)) < 1e-12 * (r2 + d2), "squared distance");
    EXPECT(std::abs(cs[i].Distance(x(ix), x(iy)) - (std::sqrt(d2) - cs[i].r)) < 1e-12 * (1 + r2 + d2), "distance");
    double g[2];
    cs[i].Distance2Gradient(x(ix), x(iy), g);
    EXPECT(std::abs(g[0] - 2 * dx) < 1e-12 * (1 + std::abs(dx)) && std::abs(g[1] - 2 * dy) < 1e-12 * (1 + std::abs(dy)), "distance gradient");
    VectorXd want = VectorXd::Zero(n + m), known = VectorXd::Zero(n + m);
    want(ix) = -2 * dx;
    want(iy) = -2 * dy;
    known(0) = -2 * dx;   // known finding: the Jacobian ignores the configured indices
    known(1) = -2 * dy;
    if ((ix != 0 || iy != 1) && MaxDiff(VectorXd(J.row(i)), known) < 1e-12 * (1 + want.norm())) { c.label("known finding circle-indices"); listed = true; continue; }
    EXPECT(MaxDiff(VectorXd(J.row(i)), want) < 1e-12 * (1 + want.norm()), "Jacobian row {} is {} instead of {}", i, Str(VectorXd(J.row(i))), Str(want));
  }
  MatrixXd fd = FdJac([&](const VectorXd& z) { VectorXd w(p); con.Evaluate(z.head(n), z.tail(m), w); return w; }, Cat(x, u), p);
  EXPECT(listed || MaxDiff(fd, J) < 1e-7, "Jacobian does not match finite differences");
  c.nontrivial();
}

namespace {
template <class M>
void CheckModel(M& mod, const VectorXd& x, const VectorXd& u, float t, const VectorXd& want, const VectorXd& b) {
  int n = x.size(), m = u.size();
  EXPECT(mod.StateDimension() == n && mod.ControlDimension() == m && mod.HasHessian(), "sizes");
  VectorXd xd = VectorXd::Constant(n, NAN);
  mod.Evaluate(x, u, t, xd);
  EXPECT(MaxDiff(xd, want) < 1e-13 * (1 + want.norm()), "model gives {} instead of {}", Str(xd), Str(want));
  MatrixXd J = MatrixXd::Zero(n, n + m);
  mod.Jacobian(x, u, t, J);
  MatrixXd fd = FdJac([&](const VectorXd& z) { VectorXd w(n); mod.Evaluate(z.head(n), z.tail(m), t, w); return w; }, Cat(x, u), n);
  EXPECT(MaxDiff(J, fd) < 1e-7 * (1 + u.norm()), "Jacobian does not match finite differences (by {})", MaxDiff(J, fd));
  MatrixXd H = MatrixXd::Zero(n + m, n + m);
  mod.Hessian(x, u, t, b, H);
  MatrixXd fh = FdJac([&](const VectorXd& z) { MatrixXd W = MatrixXd::Zero(n, n + m); mod.Jacobian(z.head(n), z.tail(m), t, W); return VectorXd(W.transpose() * b); }, Cat(x, u), n + m);
  EXPECT(MaxDiff(H, fh) < 1e-7 * (1 + u.norm()) * (1 + b.norm()), "Hessian does not match finite differences (by {})", MaxDiff(H, fh));
}
VectorXd UniF(const VectorXd& x, const VectorXd& u) {
  VectorXd f(3);
  f << u(0) * std::cos(x(2)), u(0) * std::sin(x(2)), u(1);
  return f;
}
VectorXd TriF(const VectorXd& x, const VectorXd& u) {
  int d = u.size();
  VectorXd f(3 * d);
  f << x.tail(2 * d), u;
  return f;
}
template <class F>
VectorXd Rk4(F f, const VectorXd& x, const VectorXd& u, double h) {
  VectorXd k1 = f(x, u), k2 = f(x + h / 2 * k1, u), k3 = f(x + h / 2 * k2, u), k4 = f(x + h * k3, u);
  return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
}
}  // namespace

PBT_CHECK(models, 30000, 500000) {
  float t = c.real(0, 5);
  if (c.chance(1, 2)) {
    int d = c.range(1, 4);
    altro::examples::TripleIntegrator mod(d);
    VectorXd x = Vec(c, 3 * d, -3, 3), u = Vec(c, d, -3, 3);
    CheckModel(mod, x, u, t, TriF(x, u), Vec(c, 3 * d, -2, 2));
  } else {
    altro::examples::Unicycle mod;
    VectorXd x = Vec(c, 3, -4, 4), u = Vec(c, 2, -3, 3);
    CheckModel(mod, x, u, t, UniF(x, u), Vec(c, 3, -2, 2));
  }
  c.nontrivial();
}

namespace {
// Fills recently freed blocks with garbage.
void DirtyMemory(Ctx& c) {
  double g = c.one_of<double>({1e3, -7, 123.25});
  std::vector<std::unique_ptr<VectorXd>> v;
  for (int n = 1; n <= 16; ++n)
    for (int i = 0; i < 3; ++i) v.push_back(std::make_unique<VectorXd>(VectorXd::Constant(n, g)));
}
template <int dof>
void Triple(Ctx& c) {
  altro::problems::TripleIntegratorProblem<dof> def;
  def.N = c.range(1, 12);
  if (c.chance(1, 2)) {
    def.h = c.real(0.01, 0.3);
    def.Q = Psd(c, 3 * dof, 1, 0);
    def.R = Psd(c, dof, 1, 0.05);
    def.xf = Vec(c, 3 * dof, -3, 3);
    def.x0 = Vec(c, 3 * dof, -3, 3);
    for (auto& b : def.ubnd) b = c.real(0, 10);
  }
  bool con = c.chance(1, 2);
  DirtyMemory(c);
  altro::problem::Problem p = def.MakeProblem(con);
  EXPECT(p.IsFullyDefined() && p.NumSegments() == def.N, "not fully defined");
  EXPECT(MaxDiff(p.GetInitialState(), def.x0) == 0, "initial state");
  EXPECT(p.NumConstraints() == (con ? def.N * 2 * dof + 3 * dof : 0), "{} constraints", p.NumConstraints());
  auto Z = def.InitialTrajectory();
  EXPECT(Z.NumSegments() == def.N, "trajectory length");
  for (int k = 0; k <= def.N; ++k) {
    EXPECT(std::abs(Z.GetTime(k) - k * def.h) < 1e-5 && (k == def.N || Z.GetStep(k) == def.h), "time {} step {} at {}", Z.GetTime(k), Z.GetStep(k), k);
    EXPECT(Z.State(k).isZero(0) && Z.Control(k).isZero(0), "initial trajectory is not zero");
  }
  VectorXd x = Vec(c, 3 * dof, -3, 3), u = Vec(c, dof, -3, 3);
  for (int k = 0; k <= def.N; ++k) {
    MatrixXd Q = k < def.N ? def.Q : def.Qf, R = k < def.N ? def.R : MatrixXd(def.R * 0);
    double J = 0.5 * (x - def.xf).dot(Q * (x - def.xf)) + 0.5 * u.dot(R * u);
    double v = p.GetCostFunction(k)->Evaluate(x, u);
    auto qk = std::dynamic_pointer_cast<QuadraticCost>(p.GetCostFunction(k));
    if (qk && !qk->Getr().isZero(0)) {   // known finding: the control reference is uninitialised memory; the rest of the cost is as documented
      c.label("known finding triple-uref");
      EXPECT(MaxDiff(qk->GetQ(), Q) == 0 && MaxDiff(qk->GetR(), R) == 0 && MaxDiff(qk->Getq(), -Q * def.xf) < 1e-12 * (1 + Q.norm() * def.xf.norm()) && qk->GetH().isZero(0), "weights at {}", k);
    } else
    EXPECT(std::abs(v - J) < 1e-12 * (1 + Q.norm() * (x.squaredNorm() + def.xf.squaredNorm()) + R.norm() * u.squaredNorm()), "cost at {} is {} instead of {}", k, v, J);
    if (k == def.N) break;
    float h = c.real(0.01, 0.3);
    VectorXd xn(3 * dof), want = Rk4([](const VectorXd& a, const VectorXd& b) { return TriF(a, b); }, x, u, h);
    p.GetDynamics(k)->Evaluate(x, u, 0.f, h, xn);
    EXPECT(MaxDiff(xn, want) < 1e-12 * (1 + want.norm()), "dynamics at {}", k);
  }
  if (con) {
    auto& eq = p.GetEqualityConstraints();
    auto& iq = p.GetInequalityConstraints();
    for (int k = 0; k <= def.N; ++k) {
      EXPECT(eq[k].size() == (k == def.N) && iq[k].size() == (k < def.N), "constraints at {}", k);
      if (k == def.N) {
        VectorXd v(3 * dof);
        eq[k][0]->Evaluate(x, u, v);
        EXPECT(MaxDiff(v, x - def.xf) == 0, "goal");
      } else {
        VectorXd v(2 * dof), w(2 * dof);
        iq[k][0]->Evaluate(x, u, v);
        for (int i = 0; i < dof; ++i) { w(i) = -def.ubnd[i] - u(i); w(dof + i) = u(i) - def.ubnd[i]; }
        EXPECT(MaxDiff(v, w) == 0, "bounds at {}", k);
      }
    }
  }
  c.nontrivial();
}
}  // namespace
PBT_CHECK(triple_problem, 6000, 60000) {
  switch (c.range(1, 3)) {
    case 1: Triple<1>(c); break;
    case 2: Triple<2>(c); break;
    default: Triple<3>(c);
  }
}
PBT_CHECK(unicycle_problem, 4000, 40000) {
  altro::problems::UnicycleProblem def;
  def.N = c.range(1, 30);
  bool obst = c.chance(1, 2), con = obst || c.chance(1, 2);
  if (obst) def.SetScenario(altro::problems::UnicycleProblem::kThreeObstacles);
  else if (c.chance(1, 2)) { def.xf = Vec(c, 3, -2, 2); def.x0 = Vec(c, 3, -2, 2); def.uref = Vec(c, 2); def.v_bnd = c.real(0, 3); def.w_bnd = c.real(0, 3); }
  DirtyMemory(c);
  altro::problem::Problem p = def.MakeProblem(con);
  EXPECT(p.IsFullyDefined() && p.NumSegments() == def.N, "not fully defined");
  EXPECT(MaxDiff(p.GetInitialState(), def.x0) == 0, "initial state");
  EXPECT(p.NumConstraints() == (con ? 4 * def.N + 3 : 0) + (obst ? 3 * (def.N - 1) : 0), "{} constraints", p.NumConstraints());
  auto Z = def.InitialTrajectory();
  float h = def.GetTimeStep();
  EXPECT(std::abs(h * def.N - (obst ? 5 : 3)) < 1e-4, "horizon {}", h * def.N);
  for (int k = 0; k < def.N; ++k) EXPECT(MaxDiff(Z.Control(k), def.u0) == 0 && Z.GetStep(k) == h, "initial trajectory at {}", k);
  VectorXd x = Vec(c, 3, -3, 3), u = Vec(c, 2, -3, 3);
  for (int k = 0; k <= def.N; ++k) {
    MatrixXd Q = k < def.N ? def.Q : def.Qf, R = k < def.N ? MatrixXd(def.R) : MatrixXd(def.R * 0);
    VectorXd ex = x - def.xf, eu = u - def.uref;
    double J = 0.5 * ex.dot(Q * ex) + 0.5 * eu.dot(R * eu);
    double v = p.GetCostFunction(k)->Evaluate(x, u);
    EXPECT(std::abs(v - J) < 1e-12 * (1 + 100 * Q.norm() + 100 * R.norm()), "cost at {} is {} instead of {}", k, v, J);
    if (k == def.N) break;
    VectorXd xn(3), want = Rk4([](const VectorXd& a, const VectorXd& b) { return UniF(a, b); }, x, u, h);
    p.GetDynamics(k)->Evaluate(x, u, 0.f, h, xn);
    EXPECT(MaxDiff(xn, want) < 1e-12 * (1 + want.norm()), "dynamics at {}", k);
    MatrixXd J1 = MatrixXd::Zero(3, 5), fd(3, 5);
    p.GetDynamics(k)->Jacobian(x, u, 0.f, h, J1);
    fd = FdJac([&](const VectorXd& z) { return Rk4([](const VectorXd& a, const VectorXd& b) { return UniF(a, b); }, z.head(3), z.tail(2), h); }, Cat(x, u), 3);
    EXPECT(MaxDiff(J1, fd) < 1e-7, "dynamics Jacobian at {}", k);
    auto& iq = p.GetInequalityConstraints()[k];
    for (auto& q : iq) {
      VectorXd vv(q->OutputDimension());
      q->Evaluate(x, u, vv);
      if (q->GetLabel() == "Control Bound") {
        VectorXd w(4);
        w << def.lb[0] - u(0), def.lb[1] - u(1), u(0) - def.ub[0], u(1) - def.ub[1];
        EXPECT(MaxDiff(vv, w) == 0, "bounds at {}", k);
      } else {
        for (int i = 0; i < 3; ++i) {
          double d2 = std::pow(x(0) - def.cx(i), 2) + std::pow(x(1) - def.cy(i), 2);
          EXPECT(std::abs(vv(i) - (0.425 * 0.425 - d2)) < 1e-12 * (1 + d2), "obstacle {} at {}", i, k);
        }
      }
    }
    EXPECT((int)iq.size() == (con ? 1 : 0) + (obst && k > 0 ? 1 : 0), "{} inequality functions at {}", iq.size(), k);
  }
  c.nontrivial();
}

// ---------------------------------------------------------------- known findings (examples/ may not be changed)
PBT_KNOWN(known_circle_indices, "circle-indices") {
  CircleConstraint con;
  con.SetXYIndices(0, 2);
  con.AddObstacle(1.0, 2.0, 0.5);
  VectorXd x(3), u(1);
  x << 3, 0, 5;
  u << 0;
  MatrixXd J = MatrixXd::Zero(1, 4), want = MatrixXd::Zero(1, 4);
  con.Jacobian(x, u, J);
  want << -4, 0, -6, 0;
  EXPECT(MaxDiff(J, want) < 1e-12, "Jacobian {} instead of {}", Str(VectorXd(J.row(0))), Str(VectorXd(want.row(0))));
}
PBT_KNOWN(known_psd_rejected, "psd-rejected") {
  MatrixXd Q(5, 5);
  Q.setZero();
  Q(1, 1) = 3.2742e-11; Q(1, 4) = Q(4, 1) = 4.0272e-09; Q(4, 4) = 4.9535e-07;    // positive semi-definite up to rounding
  VectorXd v(5);
  v << 0, 1e-3, 0, 0, 0.123;
  MatrixXd R = MatrixXd::Identity(1, 1);
  bool aborted = false;
  for (int i = 0; i < 200 && !aborted; ++i) {
    MatrixXd W = v * v.transpose() * (1 + 0.01 * i);     // rank one
    auto r = pbt::RunChild([&] { QuadraticCost::LQRCost(W, R, VectorXd::Zero(5), VectorXd::Zero(1), false); });
    aborted = r.signaled || r.exit_code != 0;
  }
  EXPECT(!aborted, "a rank-one positive semi-definite weight is rejected");
}
PBT_KNOWN(known_triple_uref, "triple-uref") {
  DirtyMemory(c);
  altro::problems::TripleIntegratorProblem<2> def;
  altro::problem::Problem p = def.MakeProblem(false);
  auto qc = std::dynamic_pointer_cast<QuadraticCost>(p.GetCostFunction(0));
  EXPECT(qc->Getr().isZero(0), "control reference {} instead of 0", Str(qc->Getr()));
}
PBT_KNOWN(known_terminal_factor, "terminal-factor") {
  alignas(64) static unsigned char buf[2][sizeof(QuadraticCost)];
  MatrixXd Q = MatrixXd::Identity(3, 3), R = MatrixXd::Identity(2, 2), H = MatrixXd::Zero(3, 2);
  int words[2] = {0, 0};
  for (int t = 0; t < 2; ++t) {
    std::memset(buf[t], 0xff, sizeof(QuadraticCost));
    auto* qc = new (buf[t]) QuadraticCost(Q, R, H, VectorXd::Zero(3), VectorXd::Zero(2), 0.0, t == 1);
    for (size_t i = 0; i + 8 <= sizeof(QuadraticCost); i += 8) {
      uint64_t w;
      std::memcpy(&w, buf[t] + i, 8);
      words[t] += w == ~0ull;
    }
    qc->~QuadraticCost();
  }
  EXPECT(words[1] == words[0], "{} words of a terminal cost are left uninitialised (and later copied)", words[1] - words[0]);
}
