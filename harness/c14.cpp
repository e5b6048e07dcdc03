// C14: solver limits are honoured and the final status names the true reason.
#include "rec.hpp"
using namespace gen;
using namespace rec;

const pbt::PropertyInfo pbt::kProperty = {
    "C14",
    "A case draws a problem and small or large limits for inner, outer and total iterations, states, controls, penalties and regularisation, solves it with every iteration recorded, and recomputes from the generating functions which terminating conditions hold after each inner and outer iteration. Non-trivial: the solve ended for a reason other than convergence in its first iteration.",
    {"All iteration limits are at least one.", "When a recomputed quantity lies within rounding distance of its threshold, either outcome is accepted."}};

namespace {
enum Tri { kNo, kYes, kMaybe };
Tri Less(double v, double tol, double eps) {
  if (std::abs(v - tol) <= eps) return kMaybe;
  return v < tol ? kYes : kNo;
}
Tri And(Tri a, Tri b) { return a == kNo || b == kNo ? kNo : a == kYes && b == kYes ? kYes : kMaybe; }

void CheckLimits(const Spec& sp, const SolverOptions& o, const Traj& z, const char* w) {
  if (!o.check_forwardpass_bounds) return;
  for (int k = 0; k < sp.N; ++k) {
    EXPECT(z.X[k + 1].norm() <= o.state_max, "{}: an accepted step takes state {} to norm {} (limit {})", w, k + 1, z.X[k + 1].norm(), o.state_max);
    EXPECT(z.U[k].norm() <= o.control_max, "{}: an accepted step takes control {} to norm {} (limit {})", w, k, z.U[k].norm(), o.control_max);
  }
}

void Whole(Ctx& c, bool constrained) {
  Options go;
  sol::Size z = sol::PickSize(c, &go);
  Spec sp = RandomSpec(c, go, constrained);
  altro::problem::Problem prob(sp.N);
  Fill(sp, &prob);
  auto sv = constrained ? sol::MakeAL(z, prob) : sol::MakeiLQR(z, prob);
  sv->NewTraj(sp);
  SolverOptions& o = sv->Opts();
  RandomSolveOptions(c, &o, constrained);
  if (c.chance(1, 2)) o.max_iterations_total = c.range(1, 12);
  if (c.chance(1, 2)) o.max_iterations_inner = c.range(1, 6);
  if (constrained && c.chance(1, 3)) o.max_iterations_outer = c.range(1, 3);
  if (constrained && c.chance(1, 3)) o.maximum_penalty = o.initial_penalty * c.one_of<double>({0.5, 1, 10, 50, 1000});
  if (c.chance(1, 4)) { o.state_max = c.logreal(0.3, 5); o.control_max = c.logreal(0.3, 5); }
  if (constrained) Apply(RandomMultipliers(c, sp), *sv);
  int rounds = c.range(1, 2);
  c.note("{} {} {} rounds={}", sol::Str(z), sp.Brief(), OptStr(o), rounds);
  for (int round = 0; round < rounds; ++round) {
  if (round) {
    for (int k = 0; k < sp.N; ++k) sp.U0[k] = Vec(c, sp.m);
    sv->ResetTraj(sp);
  }
  Run r = Record(*sv);
  const size_t n = r.snaps.size();
  c.label(fmt::format("{}: {}", constrained ? "constrained" : "plain", sol::StatusName(r.status)));
  if (n > 1 || r.status != SolverStatus::kSolved) c.nontrivial();
  EXPECT((int)n <= o.max_iterations_total, "{} iterations performed, total limit {}", n, o.max_iterations_total);
  EXPECT(r.status != SolverStatus::kUnsolved, "the solve ended without a verdict");
  // group into inner solves
  size_t i = 0;
  int outer = 0;
  std::vector<VectorXd> X = sp.Rollout(sp.U0), U = sp.U0;
  const bool bp_failed = r.inner_status == SolverStatus::kBackwardPassRegularizationFailed;
  auto valid = [&](size_t q) { for (auto& kp : r.snaps[q].kp) if (kp.K.size() && (!kp.K.allFinite() || !kp.d.allFinite())) return false; return true; };
  while (i < n) {
    ++outer;
    size_t j = i;
    while (j < n && r.snaps[j].it_outer == r.snaps[i].it_outer && (j == i || r.snaps[j].it_inner > 1)) ++j;
    // iterations [i, j) form one inner solve
    EXPECT((int)(j - i) <= o.max_iterations_inner, "{} inner iterations, limit {}", j - i, o.max_iterations_inner);
    for (size_t q = i; q < j; ++q) {
      const Snap& sn = r.snaps[q];
      bool last = q + 1 == j;
      bool bp_ended = last && j == n && bp_failed;   // a backward pass after this iteration failed
      Traj prev;
      prev.X = X; prev.U = U; prev.t = sp.t; prev.h = sp.h;
      double J0 = RefCost(sp, X, U, sn.al), J1 = RefCost(sp, sn.z.X, sn.z.U, sn.al);
      double eps = 1e-10 * (RefCostScale(sp, X, U, sn.al) + RefCostScale(sp, sn.z.X, sn.z.U, sn.al));
      if (!std::isfinite(J0) || !std::isfinite(J1)) eps = INFINITY;
      bool changed = false;
      for (int k = 0; k < sp.N; ++k) changed |= MaxDiff(U[k], sn.z.U[k]) > 0;
      if (changed) CheckLimits(sp, o, sn.z, fmt::format("iteration {}", q).c_str());
      double g = RefGradient(sn.kp, sn.z.U);
      Tri conv = std::isfinite(eps) && std::isfinite(g) ? And(Less(J0 - J1, o.cost_tolerance, eps), Less(g, o.gradient_tolerance, 1e-9 * g + 1e-300)) : kMaybe;
      bool inner_lim = (int)(q - i + 1) >= o.max_iterations_inner;
      bool total_lim = (int)(q + 1) >= o.max_iterations_total;
      Tri limx = kNo, limu = kNo;
      if (!changed && valid(q)) {
        LineSearch ls = RefLineSearch(sp, prev, sn, sn.al, o);
        if (!ls.cands.empty() && !ls.success) {
          const Cand& b = ls.cands.back();
          if (b.limit_ambiguous) limx = limu = kMaybe;
          else if (b.limit == 1) limx = kYes;
          else if (b.limit == 2) limu = kYes;
        } else {
          limx = limu = kMaybe;
        }
      } else if (!changed) {
        limx = limu = kMaybe;
      }
      SolverStatus end = j == n ? r.inner_status : SolverStatus::kSolved;   // earlier inner solves must have converged
      if (!last || bp_ended) {
        EXPECT(conv != kYes, "iteration {} converged (decrease {}, gradient {}) but the inner solve continued", q, J0 - J1, g);
        EXPECT(!inner_lim, "iteration {} reached the inner limit but the inner solve continued", q);
        EXPECT(!total_lim, "iteration {} reached the total limit but the inner solve continued", q);
        EXPECT(limx != kYes && limu != kYes, "iteration {} failed at a state or control limit but the inner solve continued", q);
      } else {
        std::string why = fmt::format("iteration {} ended the inner solve with status {}: decrease {} (tol {}), gradient {} (tol {}), inner {}/{}, total {}/{}, state limit {}, control limit {}", q, sol::StatusName(end), J0 - J1, o.cost_tolerance, g, o.gradient_tolerance, q - i + 1, o.max_iterations_inner, q + 1, o.max_iterations_total, (int)limx, (int)limu);
        switch (end) {
          case SolverStatus::kSolved: EXPECT(conv != kNo, "{}", why); break;
          case SolverStatus::kMaxInnerIterations: EXPECT(inner_lim && conv != kYes, "{}", why); break;
          case SolverStatus::kMaxIterations: EXPECT(total_lim && conv != kYes, "{}", why); break;
          case SolverStatus::kStateLimit: EXPECT(limx != kNo && conv != kYes && !inner_lim && !total_lim, "{}", why); break;
          case SolverStatus::kControlLimit: EXPECT(limu != kNo && conv != kYes && !inner_lim && !total_lim, "{}", why); break;
          default: c.fail(why);
        }
      }
      X = sn.z.X;
      U = sn.z.U;
    }
    if (constrained) {
      double viol = sp.MaxViol(X, U), pen = 0;
      for (auto& k : r.snaps[j - 1].al) for (auto& cv : k.con) pen = std::max(pen, cv.penalty.maxCoeff());
      Tri feas = Less(viol, o.constraint_tolerance, 1e-10 * (1 + viol));
      Tri penx = pen > o.maximum_penalty ? kYes : kNo;   // read from the solver: nothing to round
      bool out_lim = outer >= o.max_iterations_outer, tot_lim = (int)j >= o.max_iterations_total;
      std::string why = fmt::format("after outer iteration {} (status {}, inner {}): violation {} (tol {}), penalty {} (max {}), outer limit {}, total {}/{}", outer, sol::StatusName(r.status), sol::StatusName(r.inner_status), viol, o.constraint_tolerance, pen, o.maximum_penalty, o.max_iterations_outer, j, o.max_iterations_total);
      EXPECT(outer <= o.max_iterations_outer, "{}", why);
      if (j < n || (bp_failed && i < n && r.st.it_outer > outer)) {
        EXPECT(feas != kYes && penx != kYes && !out_lim && !tot_lim, "continued {}", why);
      } else if (r.inner_status != SolverStatus::kSolved) {
        EXPECT(r.status == r.inner_status, "inner failure not reported {}", why);
      } else {
        switch (r.status) {
          case SolverStatus::kSolved: EXPECT(feas != kNo, "{}", why); break;
          case SolverStatus::kMaxPenalty: EXPECT(penx != kNo && feas != kYes, "{}", why); break;
          case SolverStatus::kMaxOuterIterations: EXPECT(out_lim && feas != kYes && penx != kYes, "{}", why); break;
          case SolverStatus::kMaxIterations: EXPECT(tot_lim && feas != kYes && penx != kYes, "{}", why); break;
          default: c.fail("impossible status " + why);
        }
      }
    }
    i = j;
  }
  if (!constrained) EXPECT(r.status == r.inner_status, "status");
  if (bp_failed) {
    EXPECT(r.status == SolverStatus::kBackwardPassRegularizationFailed, "backward pass failure reported as {}", sol::StatusName(r.status));
    EXPECT(o.bp_reg_max <= r.reg * o.bp_reg_increase_factor * (1 + 1e-9) * std::max(1.0, o.bp_reg_increase_factor) || r.st.reg.empty() || r.st.reg.back() >= o.bp_reg_max * (1 - 1e-12), "regularisation failure at regularisation {} (max {})", r.st.reg.back(), o.bp_reg_max);
    for (size_t q = 0; q < n; ++q) (void)q;
  }
  }
}
}  // namespace
PBT_CHECK(plain, 12000, 240000) { Whole(c, false); }
PBT_CHECK(constrained, 12000, 240000) { Whole(c, true); }
