// C26: after the expansion step each knot point holds the value, gradient, Hessian and dynamics
// Jacobian of its own functions at its own current point, and nothing else.
#include "altro/problem/discretized_model.hpp"
#include "altro/problem/integration.hpp"
#include "rec.hpp"

const pbt::PropertyInfo pbt::kProperty = {
    "C26",
    "Generated problems with distinct functions per knot point (iLQR and AL, run-time and fixed size, 1..4 threads); histories of writing parts of the "
    "trajectory, replacing it, evaluating costs elsewhere, partial and full expansion updates, passes; after each update every knot point is recomputed "
    "from the plain data. A second family uses functions that write only the entries that are active at the given point. Non-trivial: an update "
    "whose point differs from that of an earlier update on the same solver.",
    {"function objects used at different knot points are distinct or safe for concurrent use",
     "derivative outputs are handed to user functions zero-initialised, so an unwritten entry means zero"}};

namespace {
using pbt::Ctx;
using namespace sol;
using altro::VectorXdRef;

struct Point { VectorXd x, u; float t, h; };
struct Exp {           // expected expansion of one knot point
  double J = 0, scale = 1;
  VectorXd gx, gu;
  MatrixXd xx, xu, uu, A, B;
  bool kink = false;
};

// ------------------------------------------------------------------ functions writing active entries only
struct SpCost { VectorXd a, thx, b, thu; double k = 0, c0 = 0; };
struct SpCon { bool eq; int p; MatrixXd W, V; VectorXd thx, thu, e; };
struct SpDyn { MatrixXd A, B; VectorXd thx, thu; int kind = 0; };   // 0 discrete, 1 Euler, 2 RK4
double Act(double v) { return v > 0 ? v : 0.0; }

struct SparseCost : altro::problem::CostFunction {
  using altro::ScalarFunction::Gradient;
  using altro::ScalarFunction::Hessian;
  SpCost s;
  explicit SparseCost(SpCost q) : s(std::move(q)) {}
  int StateDimension() const override { return s.a.size(); }
  int ControlDimension() const override { return s.b.size(); }
  static bool Cross(const VectorXdRef& x, const VectorXdRef& u) { return x(0) > 0 && u(0) > 0; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    double J = s.c0;
    for (int i = 0; i < x.size(); ++i) J += 0.5 * s.a(i) * std::pow(Act(x(i) - s.thx(i)), 2);
    for (int i = 0; i < u.size(); ++i) J += 0.5 * s.b(i) * std::pow(Act(u(i) - s.thu(i)), 2);
    if (Cross(x, u)) J += s.k * x(0) * x(0) * u(0) * u(0);
    return J;
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    for (int i = 0; i < x.size(); ++i) if (x(i) > s.thx(i)) dx(i) = s.a(i) * (x(i) - s.thx(i));
    for (int i = 0; i < u.size(); ++i) if (u(i) > s.thu(i)) du(i) = s.b(i) * (u(i) - s.thu(i));
    if (Cross(x, u)) {
      double gx = (x(0) > s.thx(0) ? s.a(0) * (x(0) - s.thx(0)) : 0.0) + 2 * s.k * x(0) * u(0) * u(0);
      double gu = (u(0) > s.thu(0) ? s.b(0) * (u(0) - s.thu(0)) : 0.0) + 2 * s.k * x(0) * x(0) * u(0);
      dx(0) = gx;
      du(0) = gu;
    }
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    for (int i = 0; i < x.size(); ++i) if (x(i) > s.thx(i)) xx(i, i) = s.a(i);
    for (int i = 0; i < u.size(); ++i) if (u(i) > s.thu(i)) uu(i, i) = s.b(i);
    if (Cross(x, u)) {
      xx(0, 0) = (x(0) > s.thx(0) ? s.a(0) : 0.0) + 2 * s.k * u(0) * u(0);
      uu(0, 0) = (u(0) > s.thu(0) ? s.b(0) : 0.0) + 2 * s.k * x(0) * x(0);
      xu(0, 0) = 4 * s.k * x(0) * u(0);
    }
  }
};
template <class T>
struct SparseCon : altro::constraints::Constraint<T> {
  SpCon s;
  explicit SparseCon(SpCon q) : s(std::move(q)) {}
  int StateDimension() const override { return s.W.cols(); }
  int ControlDimension() const override { return s.V.cols(); }
  int OutputDimension() const override { return s.p; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override {
    for (int r = 0; r < s.p; ++r) {
      c(r) = -s.e(r);
      for (int i = 0; i < x.size(); ++i) c(r) += s.W(r, i) * std::pow(Act(x(i) - s.thx(i)), 2);
      for (int i = 0; i < u.size(); ++i) c(r) += s.V(r, i) * std::pow(Act(u(i) - s.thu(i)), 2);
    }
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
    int n = x.size();
    for (int r = 0; r < s.p; ++r) {
      for (int i = 0; i < n; ++i) if (x(i) > s.thx(i)) jac(r, i) = 2 * s.W(r, i) * (x(i) - s.thx(i));
      for (int i = 0; i < u.size(); ++i) if (u(i) > s.thu(i)) jac(r, n + i) = 2 * s.V(r, i) * (u(i) - s.thu(i));
    }
  }
};
VectorXd SpF(const SpDyn& s, const VectorXd& x, const VectorXd& u) {
  return s.A * (x - s.thx).cwiseMax(0).cwiseAbs2() + s.B * (u - s.thu).cwiseMax(0).cwiseAbs2();
}
void SpDF(const SpDyn& s, const VectorXd& x, const VectorXd& u, MatrixXd* fx, MatrixXd* fu) {
  *fx = s.A * (2 * (x - s.thx).cwiseMax(0)).asDiagonal();
  *fu = s.B * (2 * (u - s.thu).cwiseMax(0)).asDiagonal();
}
void SpWrite(const SpDyn& s, const VectorXdRef& x, const VectorXdRef& u, double h, bool id, Eigen::Ref<MatrixXd> jac) {
  int n = x.size();
  for (int i = 0; i < n; ++i) {
    if (id) jac(i, i) = 1;
    for (int j = 0; j < n; ++j) if (x(j) > s.thx(j)) jac(i, j) = (id && i == j ? 1.0 : 0.0) + h * 2 * s.A(i, j) * (x(j) - s.thx(j));
    for (int j = 0; j < u.size(); ++j) if (u(j) > s.thu(j)) jac(i, n + j) = h * 2 * s.B(i, j) * (u(j) - s.thu(j));
  }
}
struct SparseDisc : altro::problem::DiscreteDynamics {
  using altro::problem::DiscreteDynamics::Evaluate;
  SpDyn s;
  explicit SparseDisc(SpDyn q) : s(std::move(q)) {}
  int StateDimension() const override { return s.A.rows(); }
  int ControlDimension() const override { return s.B.cols(); }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float, const float h, Eigen::Ref<VectorXd> o) override { o = x + h * SpF(s, x, u); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float, const float h, Eigen::Ref<MatrixXd> jac) override { SpWrite(s, x, u, h, true, jac); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
};
struct SparseCont : altro::problem::ContinuousDynamics {
  using altro::problem::ContinuousDynamics::Evaluate;
  static constexpr int NStates = Eigen::Dynamic, NControls = Eigen::Dynamic;
  SpDyn s;
  explicit SparseCont(SpDyn q) : s(std::move(q)) {}
  int StateDimension() const override { return s.A.rows(); }
  int ControlDimension() const override { return s.B.cols(); }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float, Eigen::Ref<VectorXd> o) override { o = SpF(s, x, u); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float, Eigen::Ref<MatrixXd> jac) override { SpWrite(s, x, u, 1, false, jac); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
};
constexpr int SparseCont::NStates, SparseCont::NControls;
void SpStepJac(const SpDyn& s, const VectorXd& x, const VectorXd& u, float hf, MatrixXd* A, MatrixXd* B) {
  int n = x.size(), m = u.size();
  double h = hf;
  MatrixXd fx, fu, I = MatrixXd::Identity(n, n);
  if (s.kind < 2) {
    SpDF(s, x, u, &fx, &fu);
    *A = I + h * fx;
    *B = h * fu;
    return;
  }
  // RK4: propagate the sensitivities of the stages
  double w[4] = {1, 2, 2, 1}, cc[4] = {0, 0.5, 0.5, 1};
  VectorXd k = VectorXd::Zero(n);
  MatrixXd kx = MatrixXd::Zero(n, n), ku = MatrixXd::Zero(n, m);
  *A = I;
  *B = MatrixXd::Zero(n, m);
  for (int i = 0; i < 4; ++i) {
    VectorXd xi = x + cc[i] * h * k;
    SpDF(s, xi, u, &fx, &fu);
    MatrixXd nkx = fx * (I + cc[i] * h * kx), nku = fu + fx * (cc[i] * h * ku);
    k = SpF(s, xi, u);
    kx = nkx;
    ku = nku;
    *A += h * w[i] / 6 * kx;
    *B += h * w[i] / 6 * ku;
  }
}

// ------------------------------------------------------------------ one world: dense or sparse functions
struct World {
  int n, m, N;
  bool sparse = false, al = false;
  gen::Spec sp;                       // dense: everything; sparse: sizes, times, guesses
  std::vector<SpDyn> dyn;
  std::vector<SpCost> cost;
  std::vector<std::vector<SpCon>> con;     // in "equalities first" order
  altro::problem::Problem prob{1};

  VectorXd ConVal(int k, int i, const VectorXd& x, const VectorXd& u, MatrixXd* gx, MatrixXd* gu, bool* eq) const {
    if (!sparse) {
      auto* q = rec::Ordered(sp, k)[i];
      q->DG(x, u, gx, gu);
      *eq = q->eq;
      return q->G(x, u);
    }
    const SpCon& s = con[k][i];
    *gx = s.W * (2 * (x - s.thx).cwiseMax(0)).asDiagonal();
    *gu = s.V * (2 * (u - s.thu).cwiseMax(0)).asDiagonal();
    *eq = s.eq;
    return s.W * (x - s.thx).cwiseMax(0).cwiseAbs2() + s.V * (u - s.thu).cwiseMax(0).cwiseAbs2() - s.e;
  }
  Exp Expect(int k, const Point& p, const AlKnot* a) const {
    Exp e;
    e.A = MatrixXd::Zero(n, n);
    e.B = MatrixXd::Zero(n, m);
    if (!sparse) {
      e.J = sp.cost[k].J(p.x, p.u);
      sp.cost[k].Grad(p.x, p.u, &e.gx, &e.gu);
      sp.cost[k].Hess(p.x, p.u, &e.xx, &e.xu, &e.uu);
      if (k < N) sp.dyn[k].DStep(p.x, p.u, p.t, p.h, &e.A, &e.B);
    } else {
      const SpCost& s = cost[k];
      VectorXd ax = (p.x - s.thx).cwiseMax(0), au = (p.u - s.thu).cwiseMax(0);
      e.J = s.c0 + 0.5 * s.a.dot(ax.cwiseAbs2()) + 0.5 * s.b.dot(au.cwiseAbs2());
      e.gx = s.a.cwiseProduct(ax);
      e.gu = s.b.cwiseProduct(au);
      e.xx = MatrixXd::Zero(n, n); e.xu = MatrixXd::Zero(n, m); e.uu = MatrixXd::Zero(m, m);
      for (int i = 0; i < n; ++i) if (p.x(i) > s.thx(i)) e.xx(i, i) = s.a(i);
      for (int i = 0; i < m; ++i) if (p.u(i) > s.thu(i)) e.uu(i, i) = s.b(i);
      double x = p.x(0), u = p.u(0);
      if (x > 0 && u > 0) {
        e.J += s.k * x * x * u * u;
        e.gx(0) += 2 * s.k * x * u * u;
        e.gu(0) += 2 * s.k * x * x * u;
        e.xx(0, 0) += 2 * s.k * u * u;
        e.uu(0, 0) += 2 * s.k * x * x;
        e.xu(0, 0) += 4 * s.k * x * u;
      }
      if (k < N) SpStepJac(dyn[k], p.x, p.u, p.h, &e.A, &e.B);
    }
    e.scale += std::abs(e.J) + e.gx.cwiseAbs().sum() + e.gu.cwiseAbs().sum() + e.xx.cwiseAbs().sum() + e.xu.cwiseAbs().sum() + e.uu.cwiseAbs().sum() + e.A.cwiseAbs().sum() + e.B.cwiseAbs().sum();
    if (a) {
      for (size_t i = 0; i < a->con.size(); ++i) {
        MatrixXd gx, gu;
        bool eq;
        VectorXd g = ConVal(k, i, p.x, p.u, &gx, &gu, &eq);
        double rho = a->con[i].penalty(0);
        const VectorXd& l = a->con[i].lambda;
        for (int j = 0; j < g.size(); ++j) {
          double w = l(j) - rho * g(j);
          if (!eq && std::abs(w) < 1e-9 * (1 + std::abs(l(j)) + rho * std::abs(g(j)))) e.kink = true;
          double pw = eq ? w : std::min(w, 0.0);
          e.J += (pw * pw - l(j) * l(j)) / (2 * rho);
          e.scale += (w * w + l(j) * l(j)) / rho + std::abs(w) * (1 + gx.row(j).norm() + gu.row(j).norm()) + rho * (gx.row(j).squaredNorm() + gu.row(j).squaredNorm());
          if (!eq && w > 0) continue;
          e.gx -= w * gx.row(j).transpose();
          e.gu -= w * gu.row(j).transpose();
          e.xx += rho * gx.row(j).transpose() * gx.row(j);
          e.xu += rho * gx.row(j).transpose() * gu.row(j);
          e.uu += rho * gu.row(j).transpose() * gu.row(j);
        }
      }
    }
    return e;
  }
};

std::unique_ptr<World> MakeWorld(Ctx& c, bool sparse, Size* z) {
  auto w = std::make_unique<World>();
  gen::Options o;
  *z = PickSize(c, &o);
  o.Nmax = 7;
  o.nonconvex = true;
  w->al = c.chance(1, 2);
  w->sparse = sparse;
  if (w->al) { o.max_con = 3; o.nonlinear_con = true; o.feasible = false; }
  w->sp = gen::MakeSpec(c, o);
  auto& s = w->sp;
  w->n = s.n; w->m = s.m; w->N = s.N;
  if (!sparse && c.chance(1, 2))    // distinct functions at each knot point, always
    for (int k = 0; k <= s.N; ++k) {
      if (k < s.N) s.dyn[k] = gen::MakeDyn(c, s.n, s.m, o);
      s.cost[k] = gen::MakeCost(c, s.n, s.m, k == s.N, o);
    }
  w->prob = altro::problem::Problem(s.N);
  if (!sparse) {
    gen::Fill(s, &w->prob);
    return w;
  }
  w->con.resize(s.N + 1);
  w->prob.SetInitialState(s.x0);
  for (int k = 0; k <= s.N; ++k) {
    SpCost q;
    q.a = gen::Vec(c, s.n, 0.2, 2); q.thx = gen::Vec(c, s.n); q.b = gen::Vec(c, s.m, 0.2, 2); q.thu = gen::Vec(c, s.m);
    q.k = c.chance(1, 2) ? c.real(0.1, 1) : 0.0; q.c0 = c.real(-1, 1);
    w->cost.push_back(q);
    w->prob.SetCostFunction(std::make_shared<SparseCost>(q), k);
    if (k < s.N) {
      SpDyn d;
      d.A = gen::Mat(c, s.n, s.n); d.B = gen::Mat(c, s.n, s.m); d.thx = gen::Vec(c, s.n); d.thu = gen::Vec(c, s.m);
      d.kind = c.range(0, 2);
      w->dyn.push_back(d);
      using EU = altro::problem::DiscretizedModel<SparseCont, altro::problem::ExplicitEuler>;
      using RK = altro::problem::DiscretizedModel<SparseCont, altro::problem::RungeKutta4<Eigen::Dynamic, Eigen::Dynamic>>;
      if (d.kind == 0) w->prob.SetDynamics(std::make_shared<SparseDisc>(d), k);
      else if (d.kind == 1) w->prob.SetDynamics(std::make_shared<EU>(SparseCont(d)), k);
      else w->prob.SetDynamics(std::make_shared<RK>(SparseCont(d)), k);
    }
    if (w->al)
      for (int e = 1; e >= 0; --e)
        for (int i = 0, M = c.range(0, 2); i < M; ++i) {
          SpCon v;
          v.eq = e; v.p = c.range(1, 2);
          v.W = gen::Mat(c, v.p, s.n); v.V = gen::Mat(c, v.p, s.m);
          v.thx = gen::Vec(c, s.n); v.thu = gen::Vec(c, s.m); v.e = gen::Vec(c, v.p);
          w->con[k].push_back(v);
          if (e) w->prob.SetConstraint<altro::constraints::Equality>(std::make_shared<SparseCon<altro::constraints::Equality>>(v), k);
          else w->prob.SetConstraint<altro::constraints::Inequality>(std::make_shared<SparseCon<altro::constraints::Inequality>>(v), k);
        }
  }
  return w;
}

void Compare(const World& w, Solver& s, int k, const Point& p, bool cost_too) {
  AlKnot a;
  if (w.al) a = s.Al(k);
  Exp e = w.Expect(k, p, w.al ? &a : nullptr);
  KpData d = s.Kp(k);
  double tol = 1e-9 * e.scale;
  if (cost_too) EXPECT(std::abs(s.Costs()(k) - e.J) <= tol, "knot {}: cost {} expected {}", k, s.Costs()(k), e.J);
  EXPECT(gen::MaxDiff(d.gx, e.gx) <= tol, "knot {}: state gradient {} expected {}", k, gen::Str(d.gx), gen::Str(e.gx));
  EXPECT(gen::MaxDiff(d.gu, e.gu) <= tol, "knot {}: control gradient {} expected {}", k, gen::Str(d.gu), gen::Str(e.gu));
  if (!e.kink) {
    EXPECT(gen::MaxDiff(d.xx, e.xx) <= tol, "knot {}: dxdx off by {}", k, gen::MaxDiff(d.xx, e.xx));
    EXPECT(gen::MaxDiff(d.xu, e.xu) <= tol, "knot {}: dxdu off by {}", k, gen::MaxDiff(d.xu, e.xu));
    EXPECT(gen::MaxDiff(d.uu, e.uu) <= tol, "knot {}: dudu off by {}", k, gen::MaxDiff(d.uu, e.uu));
  }
  if (k < w.N) {
    EXPECT(gen::MaxDiff(d.A, e.A) <= tol, "knot {}: dynamics Jacobian (state) off by {}", k, gen::MaxDiff(d.A, e.A));
    EXPECT(gen::MaxDiff(d.B, e.B) <= tol, "knot {}: dynamics Jacobian (control) off by {}", k, gen::MaxDiff(d.B, e.B));
  }
}

void History(Ctx& c, bool sparse) {
  Size z;
  auto w = MakeWorld(c, sparse, &z);
  const int N = w->N;
  auto s = w->al ? MakeAL(z, w->prob) : MakeiLQR(z, w->prob);
  s->NewTraj(w->sp);
  if (c.chance(1, 4)) {
    s->Opts().nthreads = c.range(2, 4);
    s->Opts().tasks_per_thread = c.range(1, 2);
    if (N < s->Opts().nthreads * s->Opts().tasks_per_thread) { s->Opts().nthreads = 1; s->Opts().tasks_per_thread = 1; }
  }
  s->Opts().line_search_max_iterations = 6;
  c.note("{} {} al={} sparse={} threads={}", sol::Str(z), w->sp.Brief(), w->al, sparse, s->Opts().nthreads);
  s->SolveSetup();
  auto Now = [&](int k) {
    Traj t = s->GetTraj();
    return Point{t.X[k], k < N ? t.U[k] : t.uN, t.t[k], t.h[k]};
  };
  std::vector<std::shared_ptr<void>> trajs = {s->TrajPtr()};
  int ops = c.range(2, 14), updates = 0;
  bool moved = false, expanded = false;
  for (int q = 0; q < ops; ++q) {
    int op = c.range(0, 9);
    c.note("op{}", op);
    switch (op) {
      case 0: case 1: case 2: {     // new point at some knots, then a full update
        bool all = c.chance(1, 2);
        for (int k = 0; k <= N; ++k)
          if (all || c.chance(1, 2)) {
            s->SetX(k, gen::Vec(c, w->n, -2, 2));
            if (k < N || c.chance(1, 4)) s->SetU(k, gen::Vec(c, w->m, -2, 2));
          }
        if (c.chance(1, 3)) {
          float t = (float)c.real(0, 3);
          for (int k = 0; k <= N; ++k) { float h = (float)c.real(0.02, 0.3); s->SetTime(k, t, k < N ? h : 0.f); t += h; }
        }
        moved = true;
      }  // fall through
      case 3: {
        s->UpdateExpansions();
        expanded = true;
        updates++;
        double sum = 0, sc = 1;
        for (int k = 0; k <= N; ++k) { Compare(*w, *s, k, Now(k), true); sum += s->Costs()(k); sc += std::abs(s->Costs()(k)); }
        EXPECT(std::abs(s->Costs().sum() - sum) <= 1e-12 * sc, "sum of costs");
        break;
      }
      case 4: {                     // total cost here or elsewhere
        AlKnot a;
        if (c.chance(1, 2)) {
          double J = s->Cost(), R = 0, sc = 1;
          for (int k = 0; k <= N; ++k) { if (w->al) a = s->Al(k); Exp e = w->Expect(k, Now(k), w->al ? &a : nullptr); R += e.J; sc += e.scale; }
          EXPECT(std::abs(J - R) <= 1e-10 * sc, "total cost {} expected {}", J, R);
        } else {
          Traj t = s->GetTraj();
          for (auto& x : t.X) x = gen::Vec(c, w->n, -2, 2);
          for (auto& u : t.U) u = gen::Vec(c, w->m, -2, 2);
          double J = s->CostAt(t), R = 0, sc = 1;
          for (int k = 0; k <= N; ++k) { if (w->al) a = s->Al(k); Exp e = w->Expect(k, Point{t.X[k], k < N ? t.U[k] : t.uN, t.t[k], t.h[k]}, w->al ? &a : nullptr); R += e.J; sc += e.scale; }
          EXPECT(std::abs(J - R) <= 1e-10 * sc, "cost of another trajectory {} expected {}", J, R);
        }
        if (expanded) for (int k = 0; k <= N; ++k) (void)s->Kp(k);
        break;
      }
      case 5: {                     // partial update: exactly these knots change
        int a = c.range(0, N), b = c.range(a, N + 1);
        std::vector<KpData> before;
        for (int k = 0; k <= N; ++k) before.push_back(s->Kp(k));
        for (int k = 0; k <= N; ++k) { s->SetX(k, gen::Vec(c, w->n, -2, 2)); if (k < N) s->SetU(k, gen::Vec(c, w->m, -2, 2)); }
        s->ExpansionBlock(a, b);
        for (int k = 0; k <= N; ++k) {
          if (a <= k && k < b) { Compare(*w, *s, k, Now(k), true); continue; }
          KpData d = s->Kp(k);
          EXPECT(d.gx == before[k].gx && d.gu == before[k].gu && d.xx == before[k].xx && d.xu == before[k].xu && d.uu == before[k].uu && d.A == before[k].A && d.B == before[k].B,
                 "block [{},{}) changed knot {}", a, b, k);
        }
        moved = true;
        break;
      }
      case 6: {                     // another trajectory object
        if (c.chance(1, 2) && trajs.size() > 1) s->SetTrajPtr(c.pick(trajs));
        else { s->NewTraj(w->sp); trajs.push_back(s->TrajPtr()); }
        moved = true;
        break;
      }
      case 7: {                     // the passes read the expansions, they do not change them
        if (!expanded || sparse) break;
        std::vector<KpData> before;
        s->UpdateExpansions();
        for (int k = 0; k <= N; ++k) before.push_back(s->Kp(k));
        s->BackwardPass();
        for (int k = 0; k <= N; ++k) {
          KpData d = s->Kp(k);
          EXPECT(d.gx == before[k].gx && d.gu == before[k].gu && d.xx == before[k].xx && d.xu == before[k].xu && d.uu == before[k].uu && d.A == before[k].A && d.B == before[k].B,
                 "backward pass changed the expansion of knot {}", k);
        }
        if (s->InnerStatus() != SolverStatus::kUnsolved) { s->SolveSetup(); break; }
        s->ForwardPass();
        for (int k = 0; k <= N; ++k) {
          KpData d = s->Kp(k);
          EXPECT(d.gx == before[k].gx && d.A == before[k].A && d.xx == before[k].xx, "forward pass changed the expansion of knot {}", k);
        }
        if (!gen::Finite(s->GetTraj().X) || gen::MaxAbs(s->GetTraj().X) > 50) s->ResetTraj(w->sp);
        moved = true;
        break;
      }
      case 8:
        if (w->al) {
          for (int k = 0; k <= N; ++k) {
            AlKnot a = s->Al(k);
            int i[2] = {0, 0};
            for (auto& v : a.con) {
              int j = i[v.eq]++;
              if (c.chance(1, 2)) s->SetConPenalty(k, v.eq, j, c.logreal(0.1, 100));
              if (c.chance(1, 2)) s->SetDuals(k, v.eq, j, gen::Vec(c, v.lambda.size(), -2, v.eq ? 2 : 0));
            }
          }
        }
        break;
      case 9: {
        Traj t = s->GetTraj();
        s->Rollout();
        if (!gen::Finite(s->GetTraj().X) || gen::MaxAbs(s->GetTraj().X) > 50) s->ResetTraj(w->sp);
        break;
      }
    }
  }
  c.label(fmt::format("updates {}", std::min(updates, 6)));
  if (w->al) c.label("constrained");
  if (updates >= 2 && moved) c.nontrivial();
}
}  // namespace

PBT_CHECK(dense, 25000, 400000) { History(c, false); }
PBT_CHECK(sparse, 25000, 400000) { History(c, true); }
