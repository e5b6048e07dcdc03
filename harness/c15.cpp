// C15: recorded statistics describe the iterations that actually happened.
#include "rec.hpp"
using namespace gen;
using namespace rec;

const pbt::PropertyInfo pbt::kProperty = {
    "C15",
    "Solves: a case draws a problem and options, records every iteration of one to three consecutive solves of one solver, and recomputes every history entry from that iteration's trajectory, policy, multipliers and penalties with the generating functions. Histories: random sequences of Log, NewIteration, SetCapacity and Reset on a statistics object, against a plain model. Non-trivial: at least two iterations, or a failed line search, or a second solve; for histories at least two iterations and a reset.",
    {}};

namespace {
void Whole(Ctx& c, bool constrained) {
  Options go;
  sol::Size z = sol::PickSize(c, &go);
  Spec sp = RandomSpec(c, go, constrained);
  altro::problem::Problem prob(sp.N);
  Fill(sp, &prob);
  auto sv = constrained ? sol::MakeAL(z, prob) : sol::MakeiLQR(z, prob);
  sv->NewTraj(sp);
  SolverOptions& o = sv->Opts();
  RandomSolveOptions(c, &o, constrained);
  if (c.chance(1, 8)) o.nthreads = c.range(2, 3);
  bool own_scaling = constrained && c.chance(1, 4);
  double phi = c.real(1, 20);
  if (own_scaling) sv->SetPenaltyScaling(phi);
  if (constrained) Apply(RandomMultipliers(c, sp), *sv);
  c.note("{} {} {}", sol::Str(z), sp.Brief(), OptStr(o));
  int rounds = c.one_of<int>({1, 1, 2, 3});
  for (int round = 0; round < rounds; ++round) {
    if (round) {
      c.nontrivial();
      for (int k = 0; k < sp.N; ++k) sp.U0[k] = Vec(c, sp.m);
      if (c.chance(1, 2)) sv->NewTraj(sp); else sv->ResetTraj(sp);
    }
    Run r = Record(*sv);
    const size_t n = r.snaps.size();
    if (n > 1) c.nontrivial();
    EXPECT(r.st.it_total == (int)n, "{} iterations counted, {} performed (solve {})", r.st.it_total, n, round);
    for (auto* v : {&r.st.cost, &r.st.alpha, &r.st.z, &r.st.grad, &r.st.dJ, &r.st.reg, &r.st.viol, &r.st.pen})
      EXPECT(v->size() >= n && v->size() <= n + 1, "history has {} entries after {} iterations (solve {})", v->size(), n, round);
    std::vector<VectorXd> X = sp.Rollout(sp.U0), U = sp.U0;
    int outer = 0, inner = 0;
    for (size_t i = 0; i < n; ++i) {
      const Snap& sn = r.snaps[i];
      // a new inner solve starts whenever the inner counter restarts
      if (sn.it_inner == 1) { ++outer; inner = 0; }
      ++inner;
      EXPECT(sn.it_inner == inner, "inner iteration counter {} expected {}", sn.it_inner, inner);
      EXPECT(sn.it_total == (int)i + 1, "total iteration counter {} expected {}", sn.it_total, i + 1);
      if (constrained) EXPECT(sn.it_outer == outer - 1, "outer iteration counter {} during outer iteration {}", sn.it_outer, outer);
      double J0 = RefCost(sp, X, U, sn.al), J1 = RefCost(sp, sn.z.X, sn.z.U, sn.al);
      double sc = RefCostScale(sp, X, U, sn.al) + RefCostScale(sp, sn.z.X, sn.z.U, sn.al);
      bool changed = false;
      for (int k = 0; k < sp.N; ++k) changed |= MaxDiff(U[k], sn.z.U[k]) > 0;
      if (!changed) c.nontrivial(), c.label("unchanged iteration");
      if (std::isfinite(sc)) {
        EXPECT(std::abs(r.st.cost[i] - J1) < 1e-10 * sc, "iteration {}: recorded cost {} is {}", i, r.st.cost[i], J1);
        EXPECT(std::abs(r.st.dJ[i] - (J0 - J1)) < 1e-10 * sc, "iteration {}: recorded cost change {} is {}", i, r.st.dJ[i], J0 - J1);
        if (!changed) EXPECT(r.st.dJ[i] == 0 || std::abs(r.st.dJ[i]) < 1e-12 * sc, "iteration {}: unchanged trajectory, cost change {}", i, r.st.dJ[i]);
        EXPECT(inner > 1 || std::abs(sn.initial_cost - J0) < 1e-10 * sc, "iteration {}: initial cost {} is {}", i, sn.initial_cost, J0);
      }
      double g = RefGradient(sn.kp, sn.z.U);
      if (std::isfinite(g)) EXPECT(RelDiff(r.st.grad[i], g) < 1e-10, "iteration {}: recorded gradient measure {} is {}", i, r.st.grad[i], g);
      double viol = constrained ? sp.MaxViol(sn.z.X, sn.z.U) : 0.0;
      if (std::isfinite(viol)) EXPECT(std::abs(r.st.viol[i] - viol) < 1e-10 * (1 + viol), "iteration {}: recorded violation {} is {}", i, r.st.viol[i], viol);
      if (constrained) {
        double pen = 0;
        for (auto& k : sn.al) for (auto& cv : k.con) pen = std::max(pen, cv.penalty.maxCoeff());
        EXPECT(RelDiff(r.st.pen[i], pen) < 1e-12, "iteration {}: recorded penalty {} is {}", i, r.st.pen[i], pen);
      }
      // regularisation: visible in the control Hessian actually factorised
      bool fin = true;
      for (auto& kp : sn.kp) if (kp.K.size() && !kp.K.allFinite()) fin = false;
      if (fin) {
        for (int k = 0; k < sp.N; ++k) {
          const KpData& kp = sn.kp[k];
          double scq = kp.Quu_reg.cwiseAbs().maxCoeff() + 1e-300;
          for (int a = 0; a < sp.m; ++a)
            EXPECT(std::abs(kp.Quu_reg(a, a) - kp.Quu(a, a) - r.st.reg[i]) < 1e-9 * (scq + r.st.reg[i]), "iteration {}: recorded regularisation {} but {} was used", i, r.st.reg[i], kp.Quu_reg(a, a) - kp.Quu(a, a));
        }
      }
      if (changed && fin && std::isfinite(sc)) {
        double a = r.st.alpha[i];
        // the recorded step length reproduces the new controls
        VectorXd x = sp.x0;
        double d = 0, mag = 1;
        for (int k = 0; k < sp.N; ++k) {
          VectorXd u = U[k] + sn.kp[k].K * (x - X[k]) + a * sn.kp[k].d;
          d = std::max(d, MaxDiff(u, sn.z.U[k]));
          mag = std::max(mag, x.cwiseAbs().maxCoeff());
          x = sp.dyn[k].Step(x, u, sp.t[k], sp.h[k]);
        }
        EXPECT(d < 1e-7 * mag, "iteration {}: the recorded step length {} does not reproduce the step taken ({})", i, a, d);
        double expd = -a * (sn.dv0 + a * sn.dv1);
        double zr = (J0 - J1) / expd;
        double slack = 1e-6 * (1 + std::abs(zr)) + 1e-10 * sc / std::abs(expd);
        EXPECT(std::abs(r.st.z[i] - zr) < slack, "iteration {}: recorded improvement ratio {} is {}", i, r.st.z[i], zr);
      }
      X = sn.z.X;
      U = sn.z.U;
    }
    if (constrained) {
      bool bp = r.inner_status == SolverStatus::kBackwardPassRegularizationFailed;
      EXPECT(r.st.it_outer == outer || (bp && r.st.it_outer == outer + 1), "{} outer iterations counted, {} performed", r.st.it_outer, outer);
    }
    if (n) EXPECT(r.st.it_inner == inner || r.inner_status == SolverStatus::kBackwardPassRegularizationFailed, "inner counter {} after {} iterations", r.st.it_inner, inner);
  }
}

// ---- the statistics object on its own
void Histories(Ctx& c) {
  altro::SolverStats st;
  struct Col { const char* title; std::vector<double>* v; std::vector<double> model; };
  std::vector<Col> cols = {{"cost", &st.cost, {}}, {"viol", &st.violations, {}}, {"dJ", &st.cost_decrease, {}}, {"grad", &st.gradient, {}},
                           {"alpha", &st.alpha, {}}, {"reg", &st.regularization, {}}, {"z", &st.improvement_ratio, {}}, {"pen", &st.max_penalty, {}}};
  auto add = [&]() { for (auto& q : cols) q.model.push_back(q.model.empty() ? 0.0 : q.model.back()); };
  int len = 0, ops = c.range(1, 40), iters = 0;
  bool reset = false;
  std::string hist;
  for (int i = 0; i < ops; ++i) {
    switch (c.range(0, 9)) {
      case 0: case 1: case 2: case 3: case 4: case 5: {
        size_t j = c.below(cols.size() + 2);
        double v = c.real(-100, 100);
        hist += fmt::format("log {} {:.3g};", j, v);
        if (len == 0) { add(); len = 1; }
        if (j < cols.size()) { st.Log(cols[j].title, v); cols[j].model.back() = v; }
        else st.Log(j == cols.size() ? "iters" : "iter_al", i);
        break;
      }
      case 6: case 7:
        hist += "new;";
        st.NewIteration(); add(); ++len; ++iters;
        break;
      case 8: {
        hist += "cap;";
        st.SetCapacity(c.range(0, 50));
        break;
      }
      default:
        if (!c.chance(1, 2)) { st.SetTolerances(1e-3, 1e-3, 1e-3); break; }
        hist += "reset;";
        st.iterations_inner = st.iterations_outer = st.iterations_total = 7;
        st.initial_cost = 3;
        st.Reset();
        EXPECT(st.iterations_inner == 0 && st.iterations_outer == 0 && st.iterations_total == 0 && st.initial_cost == 0, "counters survive a reset");
        for (auto& q : cols) q.model.clear();
        len = 0;
        reset = true;
    }
    for (auto& q : cols) {
      EXPECT(q.v->size() == q.model.size(), "history '{}' has {} entries, expected {} after {}", q.title, q.v->size(), q.model.size(), hist);
      for (size_t k = 0; k < q.model.size(); ++k) EXPECT((*q.v)[k] == q.model[k], "history '{}' entry {} is {}, expected {} after {}", q.title, k, (*q.v)[k], q.model[k], hist);
    }
  }
  c.note("{}", hist);
  if (reset && iters > 1) c.nontrivial();
}
}  // namespace
PBT_CHECK(plain, 10000, 200000) { Whole(c, false); }
PBT_CHECK(constrained, 10000, 200000) { Whole(c, true); }
PBT_CHECK(histories, 20000, 200000) { Histories(c); }
