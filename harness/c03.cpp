// C03: every solve ends in a true rollout that is no worse than the initial guess.
#include "rec.hpp"
using namespace gen;
using namespace rec;

const pbt::PropertyInfo pbt::kProperty = {
    "C03",
    "A case draws a problem of mixed difficulty (stable or exploding, convex or not, constrained or not, uniform or irregular times including a non-zero step at the last knot point), random limits, tolerances and line-search settings, and solves once or twice on the same solver, the second time possibly after new controls, times and initial state were written in place. The returned trajectory is re-rolled with the generating functions. Non-trivial: the solve did not end in success, or a line search failed, or the second solve was checked.",
    {}};

namespace {
bool SameOrNan(const VectorXd& a, const VectorXd& b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); ++i) {
    if (std::isnan(a(i)) && std::isnan(b(i))) continue;
    if (a(i) == b(i)) continue;
    if (!(std::abs(a(i) - b(i)) <= 1e-12 * (1 + std::abs(a(i))))) return false;
  }
  return true;
}
void CheckOutcome(Ctx& c, const Spec& sp, const Traj& z, const char* when) {
  EXPECT((int)z.X.size() == sp.N + 1, "{}: horizon changed", when);
  EXPECT(SameOrNan(z.X[0], sp.x0), "{}: the trajectory starts at {} instead of {}", when, Str(z.X[0]), Str(sp.x0));
  for (int k = 0; k < sp.N; ++k) {
    VectorXd xn = sp.dyn[k].Step(z.X[k], z.U[k], sp.t[k], sp.h[k]);
    EXPECT(SameOrNan(z.X[k + 1], xn), "{}: state {} is {} but the dynamics give {}", when, k + 1, Str(z.X[k + 1]), Str(xn));
  }
  for (int k = 0; k <= sp.N; ++k) {
    EXPECT(z.t[k] == sp.t[k], "{}: time {} changed from {} to {}", when, k, sp.t[k], z.t[k]);
    EXPECT(z.h[k] == sp.h[k], "{}: step {} changed from {} to {}", when, k, sp.h[k], z.h[k]);
  }
  (void)c;
}
void Whole(Ctx& c, bool constrained) {
  Options go;
  sol::Size z = sol::PickSize(c, &go);
  Spec sp = RandomSpec(c, go, constrained);
  if (c.chance(1, 4)) sp.h[sp.N] = 0.125f * c.range(1, 8);
  altro::problem::Problem prob(sp.N);
  Fill(sp, &prob);
  auto sv = constrained ? sol::MakeAL(z, prob) : sol::MakeiLQR(z, prob);
  sv->NewTraj(sp);
  SolverOptions& o = sv->Opts();
  RandomSolveOptions(c, &o, constrained);
  if (c.chance(1, 8)) { o.nthreads = c.range(2, 3); }
  if (constrained) Apply(RandomMultipliers(c, sp), *sv);
  c.note("{} {} {}", sol::Str(z), sp.Brief(), OptStr(o));
  int rounds = c.range(1, 2);
  for (int round = 0; round < rounds; ++round) {
    if (round == 1) {
      c.nontrivial();
      // write a new guess, times and initial state in place
      bool newt = c.chance(1, 2);
      for (int k = 0; k < sp.N; ++k) sp.U0[k] = Vec(c, sp.m);
      for (int k = 0; k <= sp.N; ++k) sp.X0[k] = Vec(c, sp.n);
      if (newt) {
        int keep = c.chance(1, 2) ? c.range(0, sp.N) : 0;   // the first steps may stay what they were
        float h0 = 0.0625f * c.range(1, 8), t = keep > 0 ? sp.t[0] : 0.25f * c.range(0, 8);
        for (int k = 0; k <= sp.N; ++k) {
          sp.t[k] = t;
          if (k >= keep) sp.h[k] = k < sp.N ? h0 * (c.chance(1, 3) ? 0.5f : 1.0f) : (c.chance(1, 3) ? h0 : 0.0f);
          t += sp.h[k];
        }
        if (c.chance(1, 3)) for (int k = 0; k <= sp.N; ++k) sp.t[k] += 1.0f;
      }
      if (c.chance(1, 2)) { sp.x0 = Vec(c, sp.n, -2, 2); prob.SetInitialState(sp.x0); }
      c.note("second solve newtimes={} x0={}", newt, Str(sp.x0));
      if (c.chance(1, 2)) sv->NewTraj(sp); else sv->ResetTraj(sp);
    }
    std::vector<VectorXd> X = sp.Rollout(sp.U0);
    double Jinit = sp.Cost(X, sp.U0);
    Run r;
    if (c.chance(1, 5)) {   // without any recording in the way
      sv->Solve();
      r.final = sv->GetTraj();
      r.status = sv->Status();
      r.st = CopyStats(sv->Stats());
    } else {
      r = Record(*sv);
    }
    c.label(fmt::format("{}: {}", constrained ? "constrained" : "plain", sol::StatusName(r.status)));
    if (r.status != SolverStatus::kSolved) c.nontrivial();
    CheckOutcome(c, sp, r.final, "after the solve");
    Traj prev;
    prev.X = X; prev.U = sp.U0; prev.t = sp.t; prev.h = sp.h;
    double Jprev = Jinit, Jprev_scale = RefCostScale(sp, X, sp.U0, {});
    for (size_t i = 0; i < r.snaps.size(); ++i) {
      CheckOutcome(c, sp, r.snaps[i].z, "during the solve");
      double J = sp.Cost(r.snaps[i].z.X, r.snaps[i].z.U);
      double sc = RefCostScale(sp, r.snaps[i].z.X, r.snaps[i].z.U, {});
      if (!constrained && std::isfinite(Jprev)) {
        EXPECT(J <= Jprev + 1e-11 * (sc + Jprev_scale), "cost rose in iteration {}: {} -> {}", i, Jprev, J);
        if (J == Jprev) c.label("line search failed"), c.nontrivial();
      }
      Jprev = J;
      Jprev_scale = sc;
    }
    if (!constrained && std::isfinite(Jinit)) {
      double J = sp.Cost(r.final.X, r.final.U);
      double sc = RefCostScale(sp, r.final.X, r.final.U, {});
      EXPECT(J <= Jinit + 1e-11 * (sc + RefCostScale(sp, X, sp.U0, {})), "final cost {} exceeds the initial cost {}", J, Jinit);
      EXPECT(std::abs(sv->Cost() - J) <= 1e-11 * sc, "the solver's cost {} is not the cost {} of the returned trajectory", sv->Cost(), J);
      EXPECT(std::abs(sv->CostAt(r.final) - J) <= 1e-11 * sc, "cost evaluated for a given trajectory differs");
      EXPECT(std::abs(r.st.initial_cost - Jinit) <= 1e-11 * (sc + RefCostScale(sp, X, sp.U0, {})), "recorded initial cost {} instead of {}", r.st.initial_cost, Jinit);
      if (!r.snaps.empty() && round == 0) EXPECT(std::abs(r.st.cost[r.snaps.size() - 1] - J) <= 1e-11 * (sc + Jprev_scale), "last recorded cost {} is not the cost {} of the returned trajectory", r.st.cost[r.snaps.size() - 1], J);
    }
  }
}
}  // namespace
PBT_CHECK(plain, 16000, 320000) { Whole(c, false); }
PBT_CHECK(constrained, 8000, 160000) { Whole(c, true); }
