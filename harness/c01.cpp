// C01: a solve that reports success returns a feasible, converged solution.
#include "rec.hpp"
using namespace gen;
using namespace rec;

const pbt::PropertyInfo pbt::kProperty = {
    "C01",
    "A case draws a problem (none, affine or nonlinear constraints, often hard or infeasible ones), tolerances, limits and penalties, solves it (sometimes twice) and, when success is reported, recomputes feasibility, dynamics, violation, cost decrease and gradient measure from the generating functions. Non-trivial: success was reported and at least one constraint exists or more than one iteration was taken.",
    {}};

namespace {
void CheckSuccess(Ctx& c, const Spec& sp, sol::Solver& sv, const SolverOptions& o, const Run& r, bool constrained, bool recorded) {
  const Traj& z = r.final;
  EXPECT(MaxDiff(z.X[0], sp.x0) == 0, "success, but the trajectory starts at {} instead of {}", Str(z.X[0]), Str(sp.x0));
  EXPECT(Finite(z.X) && Finite(z.U), "success with a non-finite trajectory");
  for (int k = 0; k < sp.N; ++k) {
    VectorXd xn = sp.dyn[k].Step(z.X[k], z.U[k], sp.t[k], sp.h[k]);
    EXPECT(MaxDiff(z.X[k + 1], xn) < 1e-10, "success, but the dynamics are violated at step {} by {}", k, MaxDiff(z.X[k + 1], xn));
  }
  if (constrained) {
    VectorXd uN = VectorXd::Zero(sp.m);
    double worst = 0;
    for (int k = 0; k <= sp.N; ++k)
      for (auto& cs : sp.con[k]) {
        VectorXd v = cs.Viol(z.X[k], k < sp.N ? z.U[k] : uN);
        for (int i = 0; i < v.size(); ++i) worst = std::max(worst, std::abs(v(i)));
      }
    EXPECT(worst < o.constraint_tolerance * (1 + 1e-9) + 1e-12, "success, but a constraint is violated by {} (tolerance {})", worst, o.constraint_tolerance);
    double rep = sv.GetMaxViolation(0);
    EXPECT(std::abs(rep - worst) < 1e-10 * (1 + worst), "reported violation {} but it is {}", rep, worst);
    EXPECT(std::abs(r.st.viol.back() - worst) < 1e-10 * (1 + worst), "recorded violation {} but it is {}", r.st.viol.back(), worst);
    EXPECT(std::abs(sv.MaxViolation(0) - worst) < 1e-10 * (1 + worst), "re-evaluated violation {} but it is {}", sv.MaxViolation(0), worst);
    EXPECT(std::abs(sv.MaxViolationAt(z, 0) - worst) < 1e-10 * (1 + worst), "violation of the passed trajectory {} but it is {}", sv.MaxViolationAt(z, 0), worst);
    if (worst > 1e-14) c.label("solved with residual violation");
  }
  if (!recorded || r.snaps.empty()) return;
  size_t L = r.snaps.size() - 1;
  const Snap& sn = r.snaps[L];
  double J1 = RefCost(sp, sn.z.X, sn.z.U, sn.al), J0, sc;
  std::vector<VectorXd> X0 = L > 0 ? r.snaps[L - 1].z.X : sp.Rollout(sp.U0), U0 = L > 0 ? r.snaps[L - 1].z.U : sp.U0;
  J0 = RefCost(sp, X0, U0, sn.al);   // multipliers and penalties of the last inner solve
  sc = RefCostScale(sp, sn.z.X, sn.z.U, sn.al) + RefCostScale(sp, X0, U0, sn.al);
  size_t n = r.st.it_total;
  EXPECT(n >= 1 && r.st.dJ.size() >= n && r.st.grad.size() >= n, "success without a recorded iteration");
  EXPECT(J0 - J1 < o.cost_tolerance + 1e-10 * sc, "success, but the last cost decrease is {} (tolerance {})", J0 - J1, o.cost_tolerance);
  EXPECT(std::abs(r.st.dJ[n - 1] - (J0 - J1)) < 1e-10 * sc, "recorded cost decrease {} but it is {}", r.st.dJ[n - 1], J0 - J1);
  EXPECT(r.st.dJ[n - 1] < o.cost_tolerance, "success with recorded cost decrease {} (tolerance {})", r.st.dJ[n - 1], o.cost_tolerance);
  double g = RefGradient(sn.kp, sn.z.U);
  EXPECT(g < o.gradient_tolerance * (1 + 1e-9), "success, but the gradient measure is {} (tolerance {})", g, o.gradient_tolerance);
  EXPECT(RelDiff(r.st.grad[n - 1], g) < 1e-10, "recorded gradient measure {} but it is {}", r.st.grad[n - 1], g);
}
void Whole(Ctx& c, bool constrained) {
  Options go;
  sol::Size z = sol::PickSize(c, &go);
  Spec sp = RandomSpec(c, go, constrained);
  altro::problem::Problem prob(sp.N);
  Fill(sp, &prob);
  auto sv = constrained ? sol::MakeAL(z, prob) : sol::MakeiLQR(z, prob);
  sv->NewTraj(sp);
  SolverOptions& o = sv->Opts();
  RandomSolveOptions(c, &o, constrained);
  if (c.chance(1, 8)) o.nthreads = c.range(2, 3);
  if (constrained && c.chance(1, 3)) o.constraint_tolerance = c.logreal(1e-3, 3);   // loose: early success
  if (constrained) Apply(RandomMultipliers(c, sp), *sv);
  c.note("{} {} {}", sol::Str(z), sp.Brief(), OptStr(o));
  int rounds = c.range(1, 2);
  for (int round = 0; round < rounds; ++round) {
    if (round == 1) {
      for (int k = 0; k < sp.N; ++k) sp.U0[k] = Vec(c, sp.m);
      if (c.chance(1, 2)) { sp.x0 = Vec(c, sp.n, -2, 2); prob.SetInitialState(sp.x0); }
      if (c.chance(1, 2)) o.reset_duals = false;
      if (c.chance(1, 2)) o.initial_penalty = c.one_of<double>({0, 1, 10});
      if (c.chance(1, 2)) sv->NewTraj(sp); else sv->ResetTraj(sp);
      c.note("second solve x0={} reset_duals={} pen0={}", Str(sp.x0), o.reset_duals, o.initial_penalty);
    }
    bool recorded = !c.chance(1, 4);
    Run r;
    if (recorded) {
      r = Record(*sv);
    } else {
      sv->Solve();
      r.final = sv->GetTraj();
      r.status = sv->Status();
      r.inner_status = sv->InnerStatus();
      r.st = CopyStats(sv->Stats());
    }
    if (r.status != SolverStatus::kSolved) { c.label("no success"); continue; }
    c.label(constrained ? "constrained success" : "plain success");
    if (sp.NumCon() > 0 || r.snaps.size() > 1) c.nontrivial();
    EXPECT(r.inner_status == SolverStatus::kSolved, "success, but the inner solver reports {}", sol::StatusName(r.inner_status));
    CheckSuccess(c, sp, *sv, o, r, constrained, recorded);
  }
}
}  // namespace
PBT_CHECK(plain, 8000, 160000) { Whole(c, false); }
PBT_CHECK(constrained, 16000, 320000) { Whole(c, true); }
