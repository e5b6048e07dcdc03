// C23: equivalent formulations of a problem give equivalent solutions.
#include <random>

#include "rec.hpp"

const pbt::PropertyInfo pbt::kProperty = {
    "C23",
    "Generated problems (both solvers, run-time and fixed sizes, well and badly scaled, failing solves too) solved as they are and re-expressed by a random composition of: constraints split, merged and "
    "reordered row by row, equality signs flipped, constants added to costs, states and controls permuted and sign-flipped, states translated, times shifted, function objects shared or duplicated, "
    "another compile-time size. Trajectories, multipliers, costs, penalties, statuses and per-iteration histories are mapped back and compared. The rounding tolerance and the stability of every decision are "
    "measured by solving the base problem with data perturbed by 1e-10 in opposite directions; unstable cases are discarded. Non-trivial: at least two iterations and a transformation that is not the identity.",
    {"uniform penalties and scalings over constraints", "tolerances above rounding level", "times are shifted only if the dynamics do not depend on time"}};

namespace {
using pbt::Ctx;
using namespace sol;
using altro::VectorXdRef;
using gen::ConSpec;
using gen::CostSpec;
using gen::DynSpec;
using gen::Spec;

// x' = P x + s, u' = L u (signed permutations)
struct Coord {
  MatrixXd P, L;
  VectorXd s;
  VectorXd X(const VectorXd& xp) const { return P.transpose() * (xp - s); }
  VectorXd U(const VectorXd& up) const { return L.transpose() * up; }
  VectorXd Xp(const VectorXd& x) const { return P * x + s; }
  VectorXd Up(const VectorXd& u) const { return L * u; }
};
using CoordPtr = std::shared_ptr<Coord>;

class TDyn : public altro::problem::DiscreteDynamics {
 public:
  using altro::problem::DiscreteDynamics::Evaluate;
  TDyn(DynSpec s, CoordPtr t) : s_(std::move(s)), t_(t) {}
  int StateDimension() const override { return s_.n; }
  int ControlDimension() const override { return s_.m; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<VectorXd> xn) override {
    xn = t_->Xp(s_.Step(t_->X(x), t_->U(u), t, h));
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<MatrixXd> jac) override {
    MatrixXd fx, fu;
    s_.DStep(t_->X(x), t_->U(u), t, h, &fx, &fu);
    jac.leftCols(s_.n) = t_->P * fx * t_->P.transpose();
    jac.rightCols(s_.m) = t_->P * fu * t_->L.transpose();
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const float, const VectorXdRef&, Eigen::Ref<MatrixXd> h) override { h.setZero(); }
  bool HasHessian() const override { return false; }
 private:
  DynSpec s_;
  CoordPtr t_;
};
class TCost : public altro::problem::CostFunction {
 public:
  using altro::ScalarFunction::Gradient;
  using altro::ScalarFunction::Hessian;
  TCost(CostSpec s, CoordPtr t, double add) : s_(std::move(s)), t_(t), add_(add) {}
  int StateDimension() const override { return s_.n; }
  int ControlDimension() const override { return s_.m; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { return s_.J(t_->X(x), t_->U(u)) + add_; }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    VectorXd gx, gu;
    s_.Grad(t_->X(x), t_->U(u), &gx, &gu);
    dx = t_->P * gx;
    du = t_->L * gu;
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> dxdx, Eigen::Ref<MatrixXd> dxdu, Eigen::Ref<MatrixXd> dudu) override {
    MatrixXd xx, xu, uu;
    s_.Hess(t_->X(x), t_->U(u), &xx, &xu, &uu);
    dxdx = t_->P * xx * t_->P.transpose();
    dxdu = t_->P * xu * t_->L.transpose();
    dudu = t_->L * uu * t_->L.transpose();
  }
 private:
  CostSpec s_;
  CoordPtr t_;
  double add_;
};
struct Row {           // a row of a constraint of the base problem, possibly negated
  int con, row;
  double sign;
};
template <class Type>
class TCon : public altro::constraints::Constraint<Type> {
 public:
  TCon(std::vector<ConSpec> cons, std::vector<Row> rows, CoordPtr t) : cons_(std::move(cons)), rows_(std::move(rows)), t_(t) {}
  int StateDimension() const override { return t_->P.rows(); }
  int ControlDimension() const override { return t_->L.rows(); }
  int OutputDimension() const override { return rows_.size(); }
  std::string GetLabel() const override { return "rows"; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> out) override {
    for (size_t i = 0; i < rows_.size(); ++i) out(i) = rows_[i].sign * cons_[rows_[i].con].G(t_->X(x), t_->U(u))(rows_[i].row);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
    for (size_t i = 0; i < rows_.size(); ++i) {
      MatrixXd gx, gu;
      cons_[rows_[i].con].DG(t_->X(x), t_->U(u), &gx, &gu);
      jac.row(i).head(t_->P.rows()) = rows_[i].sign * gx.row(rows_[i].row) * t_->P.transpose();
      jac.row(i).tail(t_->L.rows()) = rows_[i].sign * gu.row(rows_[i].row) * t_->L.transpose();
    }
  }
 private:
  std::vector<ConSpec> cons_;
  std::vector<Row> rows_;
  CoordPtr t_;
};

struct Form {
  CoordPtr coord = std::make_shared<Coord>();
  std::vector<double> add;                                  // per knot
  float shift = 0;
  std::vector<std::vector<std::vector<Row>>> eq, ineq;      // [k][group] -> rows, in the order added within their kind
  std::vector<std::vector<bool>> order;                     // [k] -> sequence of kinds in which constraints are added (true: equality)
  bool share = false, identity = true;
  std::vector<int> same;                                    // same[k] = first knot with the same functions (share)
  Size z;
  std::string what;
};
MatrixXd SignedPerm(Ctx& c, int n) {
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(p[i], p[c.below(i + 1)]);
  MatrixXd M = MatrixXd::Zero(n, n);
  bool signs = c.chance(1, 2);
  for (int i = 0; i < n; ++i) M(i, p[i]) = signs && c.chance(1, 2) ? -1 : 1;
  return M;
}
Form Identity(const Spec& s, Size z) {
  Form f;
  f.coord->P = MatrixXd::Identity(s.n, s.n);
  f.coord->L = MatrixXd::Identity(s.m, s.m);
  f.coord->s = VectorXd::Zero(s.n);
  f.add.assign(s.N + 1, 0.0);
  f.eq.resize(s.N + 1);
  f.ineq.resize(s.N + 1);
  f.order.resize(s.N + 1);
  for (int k = 0; k <= s.N; ++k) {
    for (size_t i = 0; i < s.con[k].size(); ++i) {
      std::vector<Row> g;
      for (int r = 0; r < s.con[k][i].p; ++r) g.push_back({(int)i, r, 1.0});
      (s.con[k][i].eq ? f.eq : f.ineq)[k].push_back(g);
      f.order[k].push_back(s.con[k][i].eq);
    }
    f.same.push_back(k);
  }
  f.z = z;
  return f;
}
Form MakeForm(Ctx& c, const Spec& s, Size z, bool autonomous, bool shareable, bool bounds) {
  Form f = Identity(s, z);
  auto note = [&](const char* w) { f.what += std::string(w) + " "; f.identity = false; };
  if (s.n > 1 && c.chance(1, 3)) { f.coord->P = SignedPerm(c, s.n); note("state-permutation"); }
  if (s.m > 1 && c.chance(1, 3)) { f.coord->L = SignedPerm(c, s.m); note("control-permutation"); }
  if (!bounds && c.chance(1, 5)) { f.coord->s = gen::Vec(c, s.n, -2, 2); note("state-translation"); }
  if (c.chance(1, 3)) { for (auto& a : f.add) a = c.real(-10, 10); note("cost-constants"); }
  if (autonomous && c.chance(1, 2)) { f.shift = (float)c.real(-50, 50); note("time-shift"); }
  if (shareable && c.chance(1, 2)) { f.share = true; note("shared-objects"); }
  if (z.n > 0 && c.chance(1, 4)) { f.z = {-1, -1}; note("run-time-size"); }
  if (s.NumCon() > 0 && c.chance(2, 3)) {
    // the same regrouping at equal knots keeps sharing possible
    for (int k = 0; k <= s.N; ++k) {
      for (int kind = 0; kind < 2; ++kind) {
        auto& groups = (kind == 0 ? f.eq : f.ineq)[k];
        std::vector<Row> rows;
        for (auto& g : groups) rows.insert(rows.end(), g.begin(), g.end());
        if (rows.empty()) continue;
        int how = c.range(0, 4);
        if (how >= 2) for (size_t i = rows.size() - 1; i > 0; --i) std::swap(rows[i], rows[c.below(i + 1)]);
        if (kind == 0 && c.chance(1, 2)) for (auto& r : rows) if (c.chance(1, 2)) r.sign = -1;
        if (how == 0) {            // only the order of the constraints
          for (size_t i = groups.size() - 1; i > 0; --i) std::swap(groups[i], groups[c.below(i + 1)]);
        } else {
          groups.clear();
          groups.push_back({});
          for (auto& r : rows) {
            if (!groups.back().empty() && (how == 1 || c.chance(1, 2))) groups.push_back({});   // 1: every row on its own
            groups.back().push_back(r);
          }
        }
      }
      std::vector<bool> o;
      o.insert(o.end(), f.eq[k].size(), true);
      o.insert(o.end(), f.ineq[k].size(), false);
      for (int i = (int)o.size() - 1; i > 0; --i) { int j = (int)c.below(i + 1); bool t = o[i]; o[i] = o[j]; o[j] = t; }
      f.order[k] = o;
    }
    note("constraint-regrouping");
  }
  return f;
}
void Build(const Spec& s, const Form& f, altro::problem::Problem* p) {
  p->SetInitialState(f.coord->Xp(s.x0));
  std::vector<std::shared_ptr<altro::problem::CostFunction>> cost(s.N + 1);
  std::vector<std::shared_ptr<altro::problem::DiscreteDynamics>> dyn(s.N);
  std::vector<std::vector<altro::constraints::ConstraintPtr<altro::constraints::Equality>>> eq(s.N + 1);
  std::vector<std::vector<altro::constraints::ConstraintPtr<altro::constraints::Inequality>>> ineq(s.N + 1);
  for (int k = 0; k <= s.N; ++k) {
    int j = f.share ? f.same[k] : k;
    if (k < s.N) dyn[k] = j < k ? dyn[j] : std::make_shared<TDyn>(s.dyn[k], f.coord);
    cost[k] = j < k && f.add[j] == f.add[k] ? cost[j] : std::make_shared<TCost>(s.cost[k], f.coord, f.add[k]);
    if (j < k) {
      eq[k] = eq[j];
      ineq[k] = ineq[j];
    } else {
      for (auto& g : f.eq[k]) eq[k].push_back(std::make_shared<TCon<altro::constraints::Equality>>(s.con[k], g, f.coord));
      for (auto& g : f.ineq[k]) ineq[k].push_back(std::make_shared<TCon<altro::constraints::Inequality>>(s.con[k], g, f.coord));
    }
    if (k < s.N) p->SetDynamics(dyn[k], k);
    p->SetCostFunction(cost[k], k);
    size_t a = 0, b = 0;
    for (bool e : f.order[j]) {
      if (e) p->SetConstraint(eq[k].at(a++), k); else p->SetConstraint(ineq[k].at(b++), k);
    }
  }
}
Spec Guess(const Spec& s, const Form& f) {
  Spec g = s;
  for (auto& u : g.U0) u = f.coord->Up(u);
  for (auto& x : g.X0) x = f.coord->Xp(x);
  for (auto& t : g.t) t += f.shift;
  return g;
}

// ---- results mapped back to the base formulation
struct Res {
  std::vector<VectorXd> X, U;
  std::vector<std::vector<VectorXd>> lambda;   // [k][constraint of the base]
  std::vector<double> pen;
  rec::Stats st;
  SolverStatus status, inner;
  double viol = 0, cost = 0;
  int ncon = 0;
};
Res Solve(const Spec& s, const Form& f, bool al, const SolverOptions& o) {
  altro::problem::Problem p(s.N);
  Build(s, f, &p);
  auto S = al ? MakeAL(f.z, p) : MakeiLQR(f.z, p);
  S->Opts() = o;
  S->NewTraj(Guess(s, f));
  S->Solve();
  Res r;
  Traj t = S->GetTraj();
  for (auto& x : t.X) r.X.push_back(f.coord->X(x));
  for (auto& u : t.U) r.U.push_back(f.coord->U(u));
  for (int k = 0; k <= s.N; ++k) EXPECT(t.t[k] == s.t[k] + f.shift && t.h[k] == s.h[k], "time {} changed by the solve", k);
  r.st = rec::CopyStats(S->Stats());
  r.status = S->Status();
  r.inner = S->InnerStatus();
  double add = 0;
  for (double a : f.add) add += a;
  for (auto& v : r.st.cost) v -= add;
  r.st.initial_cost -= add;
  if (!r.st.cost.empty() && r.st.it_total == 0) r.st.cost.clear();
  r.cost = S->Cost() - add;
  if (al) {
    r.viol = S->GetMaxViolation(0);
    r.ncon = S->NumCon();
    r.lambda.resize(s.N + 1);
    for (int k = 0; k <= s.N; ++k) {
      int j = f.share ? f.same[k] : k;
      for (auto& q : s.con[k]) r.lambda[k].push_back(VectorXd::Zero(q.p));
      AlKnot a = S->Al(k);
      size_t i = 0;
      for (int kind = 0; kind < 2; ++kind)
        for (auto& g : (kind == 0 ? f.eq : f.ineq)[j]) {
          EXPECT(a.con.at(i).eq == (kind == 0) && a.con[i].lambda.size() == (int)g.size(), "constraint {} at knot {} is not the one added", i, k);
          for (size_t q = 0; q < g.size(); ++q) {
            r.lambda[k][g[q].con](g[q].row) = g[q].sign * a.con[i].lambda(q);
            r.pen.push_back(a.con[i].penalty(q));
          }
          ++i;
        }
      EXPECT(i == a.con.size(), "{} constraints at knot {}, {} were added", a.con.size(), k, i);
    }
    std::sort(r.pen.begin(), r.pen.end());
  }
  return r;
}
struct Diff {
  double d = 0;
  std::string what;
  void Add(double v, const std::string& w) { if (!(v <= d)) { d = v; what = w; } }
};
double Rel(double a, double b) { return gen::RelDiff(a, b); }
// Histories that are decided by rounding at the optimum are left out: ratio, step length and
// regularisation of iterations whose cost change is at rounding level.
Diff Compare(const Res& a, const Res& b) {
  Diff r;
  if (a.status != b.status || a.inner != b.inner) { r.Add(INFINITY, fmt::format("status {}/{} instead of {}/{}", StatusName(b.status), StatusName(b.inner), StatusName(a.status), StatusName(a.inner))); return r; }
  if (a.st.it_total != b.st.it_total || a.st.it_outer != b.st.it_outer || a.st.it_inner != b.st.it_inner) {
    r.Add(INFINITY, fmt::format("iterations {}/{}/{} instead of {}/{}/{}", b.st.it_inner, b.st.it_outer, b.st.it_total, a.st.it_inner, a.st.it_outer, a.st.it_total));
    return r;
  }
  for (size_t k = 0; k < a.X.size(); ++k) r.Add(gen::MaxDiff(a.X[k], b.X[k]), fmt::format("state {}: {} instead of {}", k, gen::Str(b.X[k]), gen::Str(a.X[k])));
  for (size_t k = 0; k < a.U.size(); ++k) r.Add(gen::MaxDiff(a.U[k], b.U[k]), fmt::format("control {}: {} instead of {}", k, gen::Str(b.U[k]), gen::Str(a.U[k])));
  // rounding of the gains grows with the penalty, and multipliers multiply it by the penalty again
  const double pen = a.pen.empty() ? 0 : a.pen.back();
  for (size_t k = 0; k < a.lambda.size(); ++k)
    for (size_t i = 0; i < a.lambda[k].size(); ++i)
      r.Add(gen::MaxDiff(a.lambda[k][i], b.lambda[k][i]) / (1 + 1e-8 * pen * pen), fmt::format("multiplier of constraint {} at {}: {} instead of {}", i, k, gen::Str(b.lambda[k][i]), gen::Str(a.lambda[k][i])));
  r.Add(Rel(a.cost, b.cost), fmt::format("cost {} instead of {}", b.cost, a.cost));
  r.Add(Rel(a.viol, b.viol), fmt::format("violation {} instead of {}", b.viol, a.viol));
  r.Add(Rel(a.st.initial_cost, b.st.initial_cost), fmt::format("initial cost {} instead of {}", b.st.initial_cost, a.st.initial_cost));
  r.Add(a.ncon == b.ncon ? 0 : INFINITY, fmt::format("{} constraints instead of {}", b.ncon, a.ncon));
  r.Add(a.pen.size() == b.pen.size() ? 0 : INFINITY, "number of penalties");
  for (size_t i = 0; i < std::min(a.pen.size(), b.pen.size()); ++i) r.Add(Rel(a.pen[i], b.pen[i]), fmt::format("penalty {} instead of {}", b.pen[i], a.pen[i]));
  auto hist = [&](const std::vector<double>& x, const std::vector<double>& y, const char* w, bool decided) {
    if (x.size() != y.size()) { r.Add(INFINITY, fmt::format("history {}: {} entries instead of {}", w, y.size(), x.size())); return; }
    for (size_t i = 0; i < x.size(); ++i) {
      if (decided && (i >= a.st.dJ.size() || a.st.dJ[i] < 1e-6 * (1 + std::abs(a.st.cost[i])))) continue;
      r.Add(Rel(x[i], y[i]), fmt::format("history {}[{}]: {} instead of {}", w, i, y[i], x[i]));
    }
  };
  hist(a.st.cost, b.st.cost, "cost", false);
  hist(a.st.dJ, b.st.dJ, "improvement", false);
  hist(a.st.grad, b.st.grad, "gradient", false);
  hist(a.st.viol, b.st.viol, "violation", false);
  hist(a.st.pen, b.st.pen, "penalty", false);
  hist(a.st.alpha, b.st.alpha, "alpha", true);
  hist(a.st.reg, b.st.reg, "regularisation", false);
  return r;
}
bool Finite(const Res& r) {
  if (!gen::Finite(r.X) || !gen::Finite(r.U) || !std::isfinite(r.cost)) return false;
  return gen::MaxAbs(r.X) < 1e6 && gen::MaxAbs(r.U) < 1e6 && std::abs(r.cost) < 1e8;
}
Spec Perturb(const Spec& s, double e, uint64_t seed) {
  std::mt19937_64 g(seed);
  std::uniform_real_distribution<double> d(-1, 1);
  Spec p = s;
  auto v = [&](VectorXd& x) { for (int i = 0; i < x.size(); ++i) x(i) += e * d(g) * (1 + std::abs(x(i))); };
  auto r = [&](MatrixXd& x) { for (int i = 0; i < x.size(); ++i) x.data()[i] += e * d(g) * (1 + std::abs(x.data()[i])); };
  auto sym = [&](MatrixXd& x) { for (int i = 0; i < x.rows(); ++i) for (int j = 0; j <= i; ++j) { x(i, j) += e * d(g) * (1 + std::abs(x(i, j))); x(j, i) = x(i, j); } };
  // equal functions stay equal only up to the perturbation, which is irrelevant for the base form
  v(p.x0);
  for (auto& u : p.U0) v(u);
  for (auto& q : p.dyn) { r(q.A); r(q.B); v(q.b); }
  for (auto& q : p.cost) { sym(q.Q); sym(q.R); r(q.H); v(q.q); v(q.r); }
  for (auto& k : p.con) for (auto& q : k) { r(q.C); r(q.D); v(q.e); }
  return p;
}

void Body(Ctx& c) {
  gen::Options o;
  Size z = PickSize(c, &o);
  bool al = c.chance(3, 4);
  bool autonomous = c.chance(1, 2), shareable = c.chance(1, 2);
  o.time_varying = !autonomous;
  o.per_knot = !shareable;
  Spec s = rec::RandomSpec(c, o, al && c.chance(7, 8));
  for (auto& d : s.dyn) autonomous = autonomous && d.IsAutonomous();
  std::vector<int> same(s.N + 1);
  for (int k = 0; k <= s.N; ++k) same[k] = k;
  if (shareable) {
    int i0 = 0;
    for (int k = 1; k < s.N; ++k) {
      if (c.chance(1, 6)) { i0 = k; continue; }
      s.dyn[k] = s.dyn[i0];
      s.cost[k] = s.cost[i0];
      s.con[k] = s.con[i0];
      same[k] = i0;
    }
  }
  SolverOptions op;
  rec::RandomSolveOptions(c, &op, true);
  op.max_iterations_total = std::min(op.max_iterations_total, 60);
  op.cost_tolerance = std::max(op.cost_tolerance, 1e-6);
  op.gradient_tolerance = std::max(op.gradient_tolerance, 1e-5);
  op.constraint_tolerance = std::max(op.constraint_tolerance, 1e-7);
  op.maximum_penalty = std::min(op.maximum_penalty, 1e5);
  op.line_search_upper_bound = std::max(op.line_search_upper_bound, 1.05);   // the ratio of an exact quadratic model is 1 up to rounding
  if (c.chance(1, 5)) op.initial_penalty = 0;
  Form base = Identity(s, z);
  Form f = MakeForm(c, s, z, autonomous, shareable, op.check_forwardpass_bounds);
  if (f.share) {
    f.same = same;
    for (int k = 0; k <= s.N; ++k) if (same[k] < k) f.add[k] = f.add[same[k]];
  }
  c.note("{}{} {} form: {} options: {}", al ? "AL " : "iLQR ", sol::Str(z), s.Brief(), f.what, rec::OptStr(op));
  if (f.identity) c.discard();
  Res a = Solve(s, base, al, op);
  if (!Finite(a)) c.discard();
  // how stable is the base solve?
  Diff worst;
  uint64_t seed = c.bits();
  for (int i = 0; i < 4; ++i) {
    Res q = Solve(Perturb(s, i % 2 ? -1e-10 : 1e-10, seed + i / 2), base, al, op);
    Diff d = Compare(a, q);
    if (!(d.d <= worst.d)) worst = d;
    if (!(worst.d <= 1e-6)) { c.label("discarded: unstable"); c.discard(); }
  }
  // improvement at rounding level before the end of an inner solve: decided by rounding
  for (size_t i = 0; i + 1 < a.st.dJ.size() && i < (size_t)a.st.it_total; ++i)
    if (std::abs(a.st.dJ[i]) < 1e-9 * (1 + std::abs(a.st.cost[i])) && a.st.grad[i] < 1e-3 && a.st.grad[i] >= op.gradient_tolerance) { c.label("discarded: decided by rounding"); c.discard(); }
  Res b = Solve(s, f, al, op);
  Diff d = Compare(a, b);
  double tol = 1e-7 + 100 * worst.d, add = 0;
  for (double v : f.add) add += std::abs(v);
  // steps near the optimum whose effect on the cost is at rounding level are taken or rejected at random
  for (size_t i = 0; i < std::min(a.st.dJ.size(), b.st.dJ.size()) && i < (size_t)a.st.it_total; ++i)
    if (a.st.dJ[i] == 0 && b.st.dJ[i] == 0) continue;   // rejected in both
    else if (std::abs(a.st.dJ[i]) < 1e-10 * (1 + std::abs(a.st.cost[i]) + add)) tol = std::max(tol, 100 * a.st.grad[i]);
  if (tol > 2e-3) { c.label("discarded: rejected steps"); c.discard(); }
  EXPECT(d.d <= tol, "{} (difference {:.3g}, tolerance {:.3g}) after: {}", d.what, d.d, tol, f.what);
  c.label(fmt::format("status {}", StatusName(a.status)));
  if (a.st.it_total >= 2) {
    c.nontrivial();
    std::string w;
    for (char ch : f.what) { if (ch == ' ') { c.label(w); w.clear(); } else w += ch; }
  }
}
}  // namespace

PBT_CHECK(equivalent_formulations, 5000, 100000) { Body(c); }
