#include "rec.hpp"

namespace rec {
Stats CopyStats(const altro::SolverStats& s) {
  Stats r;
  r.initial_cost = s.initial_cost;
  r.it_inner = s.iterations_inner;
  r.it_outer = s.iterations_outer;
  r.it_total = s.iterations_total;
  r.cost = s.cost;
  r.alpha = s.alpha;
  r.z = s.improvement_ratio;
  r.grad = s.gradient;
  r.dJ = s.cost_decrease;
  r.reg = s.regularization;
  r.viol = s.violations;
  r.pen = s.max_penalty;
  return r;
}
static double Back(const std::vector<double>& v) { return v.empty() ? NAN : v.back(); }
Run Record(sol::Solver& s) {
  Run r;
  int N = s.NumSegments();
  auto cb = [&]() {
    Snap p;
    p.viol = s.IsAL() ? s.GetMaxViolation(0) : 0.0;
    p.z = s.GetTraj();
    for (int k = 0; k <= N; ++k) {
      p.kp.push_back(s.Kp(k));
      if (k < N) {
        double one = s.Delta(k, 1.0), two = s.Delta(k, 2.0);   // a + b, 2a + 4b
        double b = (two - 2 * one) / 2;
        p.dv1 += b;
        p.dv0 += one - b;
      }
      if (s.IsAL()) p.al.push_back(s.Al(k));
    }
    p.reg = s.Reg();
    auto& st = s.Stats();
    p.stat_cost = Back(st.cost);
    p.stat_alpha = Back(st.alpha);
    p.stat_z = Back(st.improvement_ratio);
    p.stat_reg = Back(st.regularization);
    p.it_inner = st.iterations_inner;
    p.it_outer = st.iterations_outer;
    p.it_total = st.iterations_total;
    p.initial_cost = st.initial_cost;
    r.snaps.push_back(std::move(p));
    return r.snaps.back().viol;
  };
  s.SetCallback(cb);
  s.Solve();
  if (s.IsAL()) s.SetCallback([&s]() { return s.GetMaxViolation(0); });
  else s.SetCallback([]() { return 0.0; });
  r.final = s.GetTraj();
  r.status = s.Status();
  r.inner_status = s.InnerStatus();
  r.st = CopyStats(s.Stats());
  if (s.IsAL()) for (int k = 0; k <= N; ++k) r.al.push_back(s.Al(k));
  r.reg = s.Reg();
  return r;
}

double AlTerm(const gen::ConSpec& s, const VectorXd& lambda, double rho, const VectorXd& x, const VectorXd& u) {
  VectorXd g = s.G(x, u);
  long double J = 0;
  for (int i = 0; i < g.size(); ++i) {
    long double w = (long double)lambda(i) - (long double)rho * g(i);
    if (!s.eq) w = std::min(w, 0.0L);
    J += w * w - (long double)lambda(i) * lambda(i);
  }
  return static_cast<double>(J / (2 * (long double)rho));
}
std::vector<const gen::ConSpec*> Ordered(const Spec& s, int k) {
  std::vector<const gen::ConSpec*> r;
  for (auto& q : s.con[k]) if (q.eq) r.push_back(&q);
  for (auto& q : s.con[k]) if (!q.eq) r.push_back(&q);
  return r;
}
double RefCost(const Spec& s, const std::vector<VectorXd>& X, const std::vector<VectorXd>& U, const std::vector<AlKnot>& al) {
  double J = s.Cost(X, U);
  if (al.empty()) return J;
  VectorXd uN = VectorXd::Zero(s.m);
  for (int k = 0; k <= s.N; ++k) {
    auto cs = Ordered(s, k);
    for (size_t i = 0; i < cs.size(); ++i)
      J += AlTerm(*cs[i], al[k].con[i].lambda, al[k].con[i].penalty(0), X[k], k < s.N ? U[k] : uN);
  }
  return J;
}
double RefCostScale(const Spec& s, const std::vector<VectorXd>& X, const std::vector<VectorXd>& U, const std::vector<AlKnot>& al) {
  double J = 1;
  VectorXd uN = VectorXd::Zero(s.m);
  for (int k = 0; k <= s.N; ++k) {
    const VectorXd& u = k < s.N ? U[k] : uN;
    J += std::abs(s.cost[k].J(X[k], u)) + std::abs(s.cost[k].c0);
    if (al.empty()) continue;
    auto cs = Ordered(s, k);
    for (size_t i = 0; i < cs.size(); ++i) {
      double rho = al[k].con[i].penalty(0);
      VectorXd g = cs[i]->G(X[k], u);
      J += (al[k].con[i].lambda.squaredNorm() + rho * rho * g.squaredNorm()) / rho;
    }
  }
  return J;
}
double RefGradient(const std::vector<KpData>& kp, const std::vector<VectorXd>& U) {
  double g = 0;
  for (size_t k = 0; k < U.size(); ++k) {
    double mx = 0;
    for (int i = 0; i < U[k].size(); ++i) mx = std::max(mx, std::abs(kp[k].d(i)) / (std::abs(U[k](i)) + 1));
    g += mx;
  }
  return g / U.size();
}

LineSearch RefLineSearch(const Spec& s, const Traj& z, const Snap& a, const std::vector<AlKnot>& al, const SolverOptions& o) {
  LineSearch r;
  r.J0 = RefCost(s, z.X, z.U, al);
  r.scale = RefCostScale(s, z.X, z.U, al);
  double alpha = 1;
  for (int it = 0; it < o.line_search_max_iterations; ++it) {
    Cand q;
    q.alpha = alpha;
    q.X.push_back(s.x0);
    q.complete = true;
    for (int k = 0; k < s.N; ++k) {
      VectorXd u = z.U[k] + a.kp[k].K * (q.X[k] - z.X[k]) + alpha * a.kp[k].d;
      q.U.push_back(u);
      q.X.push_back(s.dyn[k].Step(q.X[k], u, z.t[k], z.h[k]));
      if (o.check_forwardpass_bounds) {
        double nx = q.X[k + 1].norm(), nu = u.norm();
        if (std::abs(nx - o.state_max) < 1e-7 * (1 + o.state_max) || std::abs(nu - o.control_max) < 1e-7 * (1 + o.control_max)) q.limit_ambiguous = true;
        if (nx > o.state_max) { q.complete = false; q.limit = 1; break; }
        if (nu > o.control_max) { q.complete = false; q.limit = 2; break; }
      }
    }
    if (q.complete) {
      q.J = RefCost(s, q.X, q.U, al);
      double expected = -alpha * (a.dv0 + alpha * a.dv1);
      double eps = 1e-9 * (r.scale + (std::isfinite(q.J) ? RefCostScale(s, q.X, q.U, al) : 0.0));
      double dJ = r.J0 - q.J;
      double pscale = alpha * (std::abs(a.dv0) + alpha * std::abs(a.dv1));
      if (expected > 0) q.z = dJ / expected; else q.z = -1;
      q.accept = o.line_search_lower_bound <= q.z && q.z <= o.line_search_upper_bound && q.J < r.J0;
      if (std::isfinite(q.J)) {
        if (std::abs(dJ) < eps) q.ambiguous = true;
        if (std::abs(expected) < 1e-9 * pscale + 1e-300) q.ambiguous = true;
        if (std::abs(dJ - o.line_search_lower_bound * expected) < eps) q.ambiguous = true;
        if (std::abs(dJ - o.line_search_upper_bound * expected) < eps * (1 + o.line_search_upper_bound) + 1e-7 * o.line_search_upper_bound * std::abs(expected)) q.ambiguous = true;
      }
    }
    // a huge candidate: rounding of the closed-loop rollout may matter for everything
    for (auto& x : q.X) if (x.allFinite() && x.cwiseAbs().maxCoeff() > 1e6 && q.accept) q.ambiguous = true;
    if (q.limit_ambiguous) q.ambiguous = true;
    if (q.ambiguous) r.ambiguous = true;
    r.cands.push_back(q);
    if (q.accept && !q.ambiguous) { r.success = true; break; }
    alpha /= o.line_search_decrease_factor;
  }
  return r;
}

void RegState::Increase(const SolverOptions& o) {
  drho = std::max(drho * o.bp_reg_increase_factor, o.bp_reg_increase_factor);
  rho = std::min(std::max(rho * drho, o.bp_reg_min), o.bp_reg_max);
}
void RegState::Decrease(const SolverOptions& o) {
  drho = std::min(drho / o.bp_reg_increase_factor, 1 / o.bp_reg_increase_factor);
  rho = std::min(std::max(rho * drho, o.bp_reg_min), o.bp_reg_max);
}

void RandomSolveOptions(pbt::Ctx& c, SolverOptions* o, bool constrained) {
  auto some = [&](int num = 1, int den = 3) { return c.chance(num, den); };
  o->max_iterations_total = some() ? c.range(1, 40) : 300;
  o->max_iterations_inner = some() ? c.range(1, 12) : 60;
  o->max_iterations_outer = some() ? c.range(1, 6) : 20;
  o->cost_tolerance = some() ? c.logreal(1e-9, 1) : 1e-4;
  o->gradient_tolerance = some() ? c.logreal(1e-7, 1) : 1e-2;
  if (some()) {
    o->bp_reg_increase_factor = c.real(1.1, 6);
    o->bp_reg_initial = c.one_of<double>({0.0, 1e-6, 1e-2, 1.0});
    o->bp_reg_min = c.one_of<double>({1e-8, 1e-4, 1e-2});
    o->bp_reg_max = c.one_of<double>({1e8, 1e4, 50.0, 2.0});
    o->bp_reg_fail_threshold = c.one_of<int>({100, 1, 3, 10});
  }
  if (some()) {
    o->line_search_max_iterations = c.range(1, 12);
    o->line_search_decrease_factor = c.real(1.2, 6);
    o->line_search_lower_bound = c.one_of<double>({1e-8, 1e-4, 0.1, 0.5, 0.9, 0.99, 0.0, -0.5});
    o->line_search_upper_bound = c.one_of<double>({10.0, 1.0, 1.2, 2.0, 100.0});
  }
  o->check_forwardpass_bounds = c.chance(9, 10);
  if (some(1, 5)) o->state_max = c.logreal(0.5, 30);
  if (some(1, 5)) o->control_max = c.logreal(0.2, 30);
  if (constrained) {
    o->constraint_tolerance = some() ? c.logreal(1e-8, 1) : 1e-4;
    o->maximum_penalty = some() ? c.logreal(1, 1e6) : 1e8;
    o->initial_penalty = some() ? c.logreal(0.01, 100) : 1.0;
  }
}
Multipliers RandomMultipliers(pbt::Ctx& c, const Spec& s) {
  Multipliers r;
  if (s.NumCon() == 0 || !c.chance(1, 4)) return r;
  r.on = true;
  r.reset = c.chance(1, 2);
  for (int k = 0; k <= s.N; ++k) {
    int ne = 0, ni = 0;
    for (auto& q : s.con[k]) {
      Multipliers::One o{k, q.eq, q.eq ? ne++ : ni++, 0, 0, VectorXd()};
      if (c.chance(2, 3)) o.penalty = c.logreal(0.01, 100);
      if (c.chance(1, 2)) o.scaling = c.real(1.25, 20);
      if (!r.reset && c.chance(2, 3)) o.lambda = gen::Vec(c, q.p, -2, q.eq ? 2 : 0);
      r.one.push_back(o);
    }
  }
  c.label("own multipliers");
  return r;
}
void Apply(const Multipliers& m, sol::Solver& s) {
  if (!m.on) return;
  s.Opts().initial_penalty = 0;      // keep the penalties set one by one
  s.Opts().reset_duals = m.reset;
  for (auto& o : m.one) {
    if (o.penalty > 0) s.SetConPenalty(o.k, o.eq, o.i, o.penalty);
    if (o.scaling > 0) s.SetConScaling(o.k, o.eq, o.i, o.scaling);
    if (o.lambda.size()) s.SetDuals(o.k, o.eq, o.i, o.lambda);
  }
}
std::string OptStr(const SolverOptions& o) {
  return fmt::format("it(total={} outer={} inner={}) tol(cost={:.3g} grad={:.3g} con={:.3g}) reg(inc={:.3g} init={:.3g} min={:.3g} max={:.3g} fail={}) ls(n={} dec={:.3g} lo={:.3g} up={:.3g}) lim(chk={} x={:.3g} u={:.3g}) pen(init={:.3g} max={:.3g}) threads={}",
                     o.max_iterations_total, o.max_iterations_outer, o.max_iterations_inner, o.cost_tolerance, o.gradient_tolerance, o.constraint_tolerance,
                     o.bp_reg_increase_factor, o.bp_reg_initial, o.bp_reg_min, o.bp_reg_max, o.bp_reg_fail_threshold, o.line_search_max_iterations,
                     o.line_search_decrease_factor, o.line_search_lower_bound, o.line_search_upper_bound, o.check_forwardpass_bounds, o.state_max, o.control_max,
                     o.initial_penalty, o.maximum_penalty, o.nthreads);
}
Spec RandomSpec(pbt::Ctx& c, gen::Options o, bool constrained) {
  o.Nmax = 8;
  int kind = c.range(0, 5);
  o.nonlinear = kind >= 2;
  o.nonquadratic = kind >= 1;
  o.nonconvex = kind >= 4;
  if (kind == 3) o.gain = 2.5;
  if (kind == 5) { o.gain = 4; o.guess = 4; }
  if (constrained) {
    o.max_con = 3;
    o.nonlinear_con = c.chance(1, 3);
    o.feasible = c.chance(4, 5);
  }
  Spec s = gen::MakeSpec(c, o);
  if (o.nonconvex && c.chance(1, 2))
    for (int k = 0; k < s.N; ++k)
      if (c.chance(1, 2)) s.cost[k].R -= c.real(0, 1.5) * MatrixXd::Identity(s.m, s.m);
  return s;
}
}  // namespace rec
