// C25: the line search takes the first acceptable step and otherwise changes nothing.
#include "rec.hpp"
using namespace gen;
using namespace rec;

const pbt::PropertyInfo pbt::kProperty = {
    "C25",
    "A case draws a problem (plain or constrained, convex or not, stable or not) with random line-search, bound, regularisation and tolerance options and runs a real Solve(); at every iteration an independent line search, run from the recorded previous trajectory with the recorded policy, predicts the accepted step (or none). Non-trivial: some iteration took a step shorter than one, or had no acceptable step, or hit a limit.",
    {"A candidate step whose cost change, ratio or norm lies within rounding distance of a threshold makes that iteration ambiguous: then only membership in the set of possible outcomes is required."}};

namespace {
// prev: trajectory before; sn: snapshot after the iteration
void CheckIteration(Ctx& c, const Spec& sp, const SolverOptions& o, const Traj& prev, const Snap& sn, size_t i, bool constrained, const RegState& dec) {
  for (auto& kp : sn.kp) if (kp.K.size() && (!kp.K.allFinite() || !kp.d.allFinite())) return;
  LineSearch ls = RefLineSearch(sp, prev, sn, sn.al, o);
  if (!std::isfinite(ls.J0)) return;
  bool changed = false;
  for (int k = 0; k < sp.N; ++k) changed |= MaxDiff(prev.U[k], sn.z.U[k]) > 0;
  for (int k = 0; k <= sp.N; ++k) changed |= MaxDiff(prev.X[k], sn.z.X[k]) > 0;
  auto matches = [&](const Cand& q) {
    if (!q.complete && !q.limit_ambiguous) return false;
    if (q.U.size() != (size_t)sp.N) return q.limit_ambiguous;
    double d = 0, sc = 1;
    for (int k = 0; k < sp.N; ++k) d = std::max(d, MaxDiff(q.U[k], sn.z.U[k]));
    for (int k = 0; k <= sp.N; ++k) d = std::max(d, MaxDiff(q.X[k], sn.z.X[k])), sc = std::max(sc, MaxAbs(q.X));
    return d < 1e-7 * sc;
  };
  if (ls.cands.size() > 1 || !ls.success) c.nontrivial();
  if (!ls.ambiguous) {
    if (ls.success) {
      const Cand& q = ls.cands.back();
      if (ls.cands.size() > 1) c.label("step after reductions");
      for (auto& r : ls.cands) if (r.limit == 1) c.label("state limit hit"); else if (r.limit == 2) c.label("control limit hit"); else if (!r.accept && r.complete && r.z > o.line_search_upper_bound) c.label("rejected: too good");
      else if (!r.accept && r.complete && r.J < ls.J0) c.label("rejected: too little");
      EXPECT(matches(q), "iteration {}: new trajectory is not the closed-loop rollout with step {} (recorded step {})", i, q.alpha, sn.stat_alpha);
      EXPECT(RelDiff(sn.stat_alpha, q.alpha) < 1e-12, "iteration {}: recorded step {} instead of {}", i, sn.stat_alpha, q.alpha);
      EXPECT(std::abs(sn.stat_cost - q.J) < 1e-8 * (ls.scale + std::abs(q.J)), "iteration {}: recorded cost {} instead of {}", i, sn.stat_cost, q.J);
      double expd = -q.alpha * (sn.dv0 + q.alpha * sn.dv1);
      EXPECT(std::abs(sn.stat_z - q.z) < 1e-6 * (1 + std::abs(q.z)) + 1e-9 * (ls.scale + std::abs(q.J)) / expd, "iteration {}: recorded ratio {} instead of {}", i, sn.stat_z, q.z);
    } else {
      c.label("no acceptable step");
      EXPECT(!changed, "iteration {}: no acceptable step, but the trajectory changed (recorded step {})", i, sn.stat_alpha);
    }
  } else {
    c.label("ambiguous iteration");
    bool ok = false;
    for (auto& q : ls.cands) if ((q.ambiguous || (q.accept)) && matches(q)) ok = true;
    if (!ls.success && !changed) ok = true;   // rejecting everything is possible as well
    if (!changed) for (auto& q : ls.cands) if (q.ambiguous) ok = true;
    EXPECT(ok, "iteration {}: outcome (recorded step {}) is not among the possible ones", i, sn.stat_alpha);
  }
  if (changed) {
    double J = RefCost(sp, sn.z.X, sn.z.U, sn.al);
    EXPECT(J < ls.J0 + 1e-9 * (ls.scale + std::abs(J)), "iteration {}: accepted step raised the cost {} -> {}", i, ls.J0, J);
    if (o.check_forwardpass_bounds)
      for (int k = 0; k < sp.N; ++k) {
        EXPECT(sn.z.X[k + 1].norm() <= o.state_max, "accepted a state beyond the limit");
        EXPECT(sn.z.U[k].norm() <= o.control_max, "accepted a control beyond the limit");
      }
  } else {
    EXPECT(std::abs(sn.stat_cost - ls.J0) < 1e-8 * ls.scale, "iteration {}: unchanged trajectory has cost {}, recorded {}", i, ls.J0, sn.stat_cost);
    // the regularisation is raised beyond what the backward pass left behind
    RegState r = dec;
    r.Increase(o);
    EXPECT(RelDiff(std::log(sn.reg), std::log(r.rho)) < 1e-9, "iteration {}: failed line search left regularisation {} expected {}", i, sn.reg, r.rho);
  }
  if (changed) EXPECT(RelDiff(std::log(sn.reg + 1e-300), std::log(dec.rho + 1e-300)) < 1e-9, "iteration {}: successful line search left regularisation {} expected {}", i, sn.reg, dec.rho);
  // derived constraint data belong to the present trajectory
  if (constrained) {
    VectorXd uN = VectorXd::Zero(sp.m);
    for (int k = 0; k <= sp.N; ++k) {
      auto cs = Ordered(sp, k);
      for (size_t j = 0; j < cs.size(); ++j) {
        VectorXd g = cs[j]->G(sn.z.X[k], k < sp.N ? sn.z.U[k] : uN);
        EXPECT(MaxDiff(g, sn.al[k].con[j].c) < 1e-9, "iteration {}: stored value of constraint {} at k={} is {} but the trajectory gives {} (changed={})", i, j, k, Str(sn.al[k].con[j].c), Str(g), changed);
      }
    }
    double v = sp.MaxViol(sn.z.X, sn.z.U);
    EXPECT(RelDiff(v, sn.viol) < 1e-9, "iteration {}: reported violation {} but the trajectory gives {}", i, sn.viol, v);
  }
}

void Whole(Ctx& c, bool constrained) {
  Options go;
  sol::Size z = sol::PickSize(c, &go);
  Spec sp = RandomSpec(c, go, constrained);
  altro::problem::Problem prob(sp.N);
  Fill(sp, &prob);
  auto sv = constrained ? sol::MakeAL(z, prob) : sol::MakeiLQR(z, prob);
  sv->NewTraj(sp);
  SolverOptions& o = sv->Opts();
  RandomSolveOptions(c, &o, constrained);
  if (constrained && c.chance(1, 2)) o.max_iterations_outer = c.range(1, 3);
  if (constrained) Apply(RandomMultipliers(c, sp), *sv);
  c.note("{} {} {}", sol::Str(z), sp.Brief(), OptStr(o));
  Run r = Record(*sv);
  Traj prev;
  prev.U = sp.U0;
  prev.X = sp.Rollout(sp.U0);
  prev.t = sp.t;
  prev.h = sp.h;
  RegState reg;
  for (size_t i = 0; i < r.snaps.size(); ++i) {
    if (!Finite(prev.X) || MaxAbs(prev.X) > 1e5) c.discard();
    const Snap& sn = r.snaps[i];
    if (sn.it_inner == 1) reg.rho = o.bp_reg_initial, reg.drho = 0;
    // bring the tracked regularisation to the value the backward pass used
    for (int g = 0; g < 400 && RelDiff(std::log(reg.rho + 1e-300), std::log(sn.stat_reg + 1e-300)) > 1e-9; ++g) reg.Increase(o);
    reg.rho = sn.stat_reg;
    RegState dec = reg;
    dec.Decrease(o);
    // a retried pass at the cap cannot be told from an untried one; the cap then decides
    CheckIteration(c, sp, o, prev, sn, i, constrained, dec);
    bool changed = false;
    for (int k = 0; k < sp.N; ++k) changed |= MaxDiff(prev.U[k], sn.z.U[k]) > 0;
    reg = dec;
    if (!changed) reg.Increase(o);
    prev = sn.z;
  }
}
}  // namespace

PBT_CHECK(solve_plain, 12000, 240000) { Whole(c, false); }
PBT_CHECK(solve_constrained, 12000, 240000) { Whole(c, true); }
