// C12: fixed-size, run-time-size and half-fixed solvers agree.
#include <set>

#include "rec.hpp"

const pbt::PropertyInfo pbt::kProperty = {
    "C12",
    "Problems with 3 states and 2 controls on solvers instantiated as <-1,-1>, <3,2>, <3,-1> and <-1,2>. (a) lockstep: every step of the algorithm from the same state on all "
    "four, compared tightly; (b) whole solves, with sensitivities to rounding measured by perturbing the guess by 1e-12 on one of them: every quantity that "
    "is stable under such perturbations must agree. Non-trivial: (a) a completed backward pass; (b) status and iteration counts stable and at least two iterations.",
    {"whole solves: quantities that change under relative perturbations of 1e-12 of the guess are not compared"}};

namespace {
using pbt::Ctx;
using namespace sol;

double Mx(const MatrixXd& a) { return a.size() ? a.cwiseAbs().maxCoeff() : 0.0; }
void Near(const MatrixXd& a, const MatrixXd& b, double tol, const char* what, int k, Size z) {
  EXPECT(a.rows() == b.rows() && a.cols() == b.cols(), "{} of knot {}: size {}x{} for {} but {}x{} for run-time sizes", what, k, a.rows(), a.cols(), sol::Str(z), b.rows(), b.cols());
  double d = 0;
  bool nan = false;
  for (int i = 0; i < a.size(); ++i) {
    if (std::isfinite(a.data()[i]) != std::isfinite(b.data()[i])) nan = true;
    else if (std::isfinite(a.data()[i])) d = std::max(d, std::abs(a.data()[i] - b.data()[i]));
  }
  EXPECT(!nan && d <= tol, "{} of knot {}: {} differs from run-time sizes by {} (tolerance {})", what, k, sol::Str(z), d, tol);
}

void Lockstep(Ctx& c) {
  gen::Options o;
  o.n = 3;
  o.m = 2;
  bool al = c.chance(1, 2);
  gen::Spec sp = rec::RandomSpec(c, o, al);
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  auto sizes = Sizes();
  std::vector<SolverPtr> S;
  for (auto z : sizes) {
    S.push_back(al ? MakeAL(z, prob) : MakeiLQR(z, prob));
    S.back()->NewTraj(sp);
  }
  altro::SolverOptions opt = S[0]->Opts();
  rec::RandomSolveOptions(c, &opt, al);
  for (auto& s : S) s->Opts() = opt;
  c.note("{}{}", al ? "AL " : "", sp.Brief());
  for (auto& s : S) { s->SolveSetup(); if (al) s->AlInit(); s->Rollout(); }
  bool done = false;
  for (int it = 0, M = c.range(1, 4); it < M && !done; ++it) {
    // same state everywhere
    Traj t = S[0]->GetTraj();
    if (!gen::Finite(t.X) || gen::MaxAbs(t.X) > 1e4) break;
    for (auto& s : S) for (int k = 0; k <= sp.N; ++k) { s->SetX(k, t.X[k]); s->SetU(k, k < sp.N ? t.U[k] : t.uN); }
    if (al && c.chance(1, 2)) {
      for (int k = 0; k <= sp.N; ++k) {
        AlKnot a = S[0]->Al(k);
        int j[2] = {0, 0};
        for (auto& v : a.con) {
          int i = j[v.eq]++;
          VectorXd l = gen::Vec(c, v.lambda.size(), -2, v.eq ? 2 : 0);
          double r = c.logreal(0.1, 50);
          for (auto& s : S) { s->SetDuals(k, v.eq, i, l); s->SetConPenalty(k, v.eq, i, r); }
        }
      }
    }
    for (auto& s : S) { s->Rollout(); s->UpdateExpansions(); s->BackwardPass(); }
    bool fail = S[0]->InnerStatus() != SolverStatus::kUnsolved;
    for (size_t i = 1; i < S.size(); ++i) {
      Size z = sizes[i];
      for (int k = 0; k <= sp.N; ++k) {
        KpData p = S[i]->Kp(k), q = S[0]->Kp(k);
        double e = 1e-10 * (1 + Mx(q.xx) + Mx(q.uu) + Mx(q.xu) + Mx(q.gx) + Mx(q.gu));
        Near(p.A, q.A, 1e-11 * (1 + Mx(q.A)), "A", k, z); Near(p.B, q.B, 1e-11 * (1 + Mx(q.B)), "B", k, z);
        Near(p.xx, q.xx, e, "dxdx", k, z); Near(p.xu, q.xu, e, "dxdu", k, z); Near(p.uu, q.uu, e, "dudu", k, z);
        Near(p.gx, q.gx, e, "dx", k, z); Near(p.gu, q.gu, e, "du", k, z);
        EXPECT(std::abs(S[i]->Costs()(k) - S[0]->Costs()(k)) <= e + 1e-10 * (1 + std::abs(S[0]->Costs()(k))), "cost of knot {}: {} gives {}, run-time sizes {}", k, sol::Str(z), S[i]->Costs()(k), S[0]->Costs()(k));
      }
    }
    if (fail) break;
    // conditioning of the backward pass
    double cond = 1;
    for (int k = 0; k < sp.N; ++k) {
      KpData q = S[0]->Kp(k);
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(q.Quu_reg);
      double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff();
      cond = std::max(cond, lo > 0 ? hi / lo : 1e18);
      cond = std::max(cond, Mx(q.S));
      cond = std::max(cond, Mx(q.K));
    }
    if (cond > 1e5) break;
    for (size_t i = 1; i < S.size(); ++i) {
      Size z = sizes[i];
      EXPECT(S[i]->InnerStatus() == S[0]->InnerStatus(), "status after the backward pass");
      EXPECT(std::abs(S[i]->Reg() - S[0]->Reg()) <= 1e-12 * S[0]->Reg(), "regularisation {} vs {}", S[i]->Reg(), S[0]->Reg());
      for (int k = 0; k <= sp.N; ++k) {
        KpData p = S[i]->Kp(k), q = S[0]->Kp(k);
        double e = 1e-11 * cond * cond;
        Near(p.S, q.S, e * (1 + Mx(q.S)), "cost-to-go Hessian", k, z);
        Near(p.s, q.s, e * (1 + Mx(q.s)), "cost-to-go gradient", k, z);
        if (k == sp.N) continue;
        Near(p.K, q.K, e * (1 + Mx(q.K)), "K", k, z);
        Near(p.d, q.d, e * (1 + Mx(q.d) + Mx(q.s)), "d", k, z);
        Near(p.Qxx, q.Qxx, e * (1 + Mx(q.Qxx)), "Qxx", k, z);
        Near(p.Quu_reg, q.Quu_reg, e * (1 + Mx(q.Quu_reg)), "Quu_reg", k, z);
        EXPECT(std::abs(p.delta_one - q.delta_one) <= e * (1 + std::abs(q.delta_one) + Mx(q.d) * Mx(q.Qu)), "expected decrease of knot {}", k);
      }
    }
    // one closed-loop rollout with the same step
    double alpha = c.one_of<double>({1.0, 0.5, 0.1});
    std::vector<bool> ok;
    for (auto& s : S) ok.push_back(s->RolloutClosedLoop(alpha));
    (void)ok;
    c.nontrivial();
    for (auto& s : S) s->Rollout();
    done = c.chance(1, 3);
    for (auto& s : S) s->ForwardPass();
    Traj f0 = S[0]->GetTraj();
    for (size_t i = 1; i < S.size(); ++i)
      if (S[i]->Cost() == S[0]->Cost()) c.label("same cost");
  }
}

struct Out {
  SolverStatus status, inner;
  int it_inner, it_outer, it_total;
  std::vector<std::vector<double>> h;   // histories and the trajectory, flattened
};
const char* kNames[] = {"cost", "alpha", "z", "gradient", "dJ", "regularisation", "violation", "penalty", "states", "controls", "multipliers", "initial cost", "gains"};
Out RunOne(Size z, bool al, const gen::Spec& sp, const altro::SolverOptions& opt) {
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  auto s = al ? MakeAL(z, prob) : MakeiLQR(z, prob);
  s->Opts() = opt;
  s->NewTraj(sp);
  s->Solve();
  Out o;
  o.status = s->Status();
  o.inner = s->InnerStatus();
  auto st = rec::CopyStats(s->Stats());
  o.it_inner = st.it_inner; o.it_outer = st.it_outer; o.it_total = st.it_total;
  o.h = {st.cost, st.alpha, st.z, st.grad, st.dJ, st.reg, st.viol, st.pen, {}, {}, {}, {st.initial_cost}, {}};
  Traj t = s->GetTraj();
  for (auto& x : t.X) for (int i = 0; i < x.size(); ++i) o.h[8].push_back(x(i));
  for (auto& x : t.U) for (int i = 0; i < x.size(); ++i) o.h[9].push_back(x(i));
  if (al) for (int k = 0; k <= sp.N; ++k) for (auto& v : s->Al(k).con) for (int i = 0; i < v.lambda.size(); ++i) o.h[10].push_back(v.lambda(i));
  for (int k = 0; k < sp.N; ++k) { KpData p = s->Kp(k); for (int i = 0; i < p.K.size(); ++i) o.h[12].push_back(p.K.data()[i]); }
  return o;
}
void Whole(Ctx& c) {
  gen::Options o;
  o.n = 3;
  o.m = 2;
  bool al = c.chance(2, 3);
  gen::Spec sp = rec::RandomSpec(c, o, al);
  altro::SolverOptions opt;
  rec::RandomSolveOptions(c, &opt, al);
  opt.max_iterations_total = std::min(opt.max_iterations_total, 60);
  if (c.chance(1, 8)) opt.nthreads = 2;
  c.note("{}{} {}", al ? "AL " : "", sp.Brief(), rec::OptStr(opt));
  Size dd{-1, -1};
  Out base = RunOne(dd, al, sp, opt);
  std::vector<Out> per;
  const int P = 5;
  for (int i = 0; i < P; ++i) {
    gen::Spec q = sp;
    uint64_t s = 0x9e3779b97f4a7c15ull * (i + 1);
    auto r = [&]() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (double)(s >> 11) / 9007199254740992.0 * 2 - 1; };
    for (auto& u : q.U0) for (int j = 0; j < u.size(); ++j) u(j) += 1e-12 * (1 + std::abs(u(j))) * r();
    for (int j = 0; j < q.x0.size(); ++j) q.x0(j) += 1e-12 * (1 + std::abs(q.x0(j))) * r();
    per.push_back(RunOne(dd, al, q, opt));
  }
  bool stable = true;
  for (auto& p : per) stable &= p.status == base.status && p.inner == base.inner && p.it_inner == base.it_inner && p.it_outer == base.it_outer && p.it_total == base.it_total;
  c.label(stable ? "stable outcome" : "outcome sensitive to rounding");
  if (!stable) c.discard();
  c.label(fmt::format("status {}", StatusName(base.status)));
  if (base.it_total >= 2) c.nontrivial();
  for (auto z : Sizes()) {
    if (z.n < 0 && z.m < 0) continue;
    Out f = RunOne(z, al, sp, opt);
    EXPECT(f.status == base.status, "{}: status {}, run-time sizes {}", sol::Str(z), StatusName(f.status), StatusName(base.status));
    EXPECT(f.inner == base.inner, "{}: inner status {}, run-time sizes {}", sol::Str(z), StatusName(f.inner), StatusName(base.inner));
    EXPECT(f.it_inner == base.it_inner && f.it_outer == base.it_outer && f.it_total == base.it_total, "{}: iterations {}/{}/{}, run-time sizes {}/{}/{}", sol::Str(z),
           f.it_inner, f.it_outer, f.it_total, base.it_inner, base.it_outer, base.it_total);
    for (size_t q = 0; q < base.h.size(); ++q) {
      bool len = true;
      for (auto& p : per) len &= p.h[q].size() == base.h[q].size();
      if (!len) continue;
      EXPECT(f.h[q].size() == base.h[q].size(), "{}: {} has {} entries, run-time sizes {}", sol::Str(z), kNames[q], f.h[q].size(), base.h[q].size());
      for (size_t i = 0; i < base.h[q].size(); ++i) {
        double b = base.h[q][i], dev = 0, mag = std::abs(b);
        bool fin = std::isfinite(b);
        for (auto& p : per) { fin &= std::isfinite(p.h[q][i]); if (fin) dev = std::max(dev, std::abs(p.h[q][i] - b)); }
        if (!fin) continue;
        double sc = 1;
        if (q == 4 || q == 0) for (double v : base.h[0]) sc = std::max(sc, std::abs(v));
        if (q == 4) sc = std::max(sc, std::abs(base.h[11][0]));
        if (dev > 1e-5 * std::max(mag, 1.0)) continue;      // not determined to a useful accuracy
        EXPECT(std::isfinite(f.h[q][i]) && std::abs(f.h[q][i] - b) <= 300 * dev + 1e-9 * std::max(mag, sc), "{}: {}[{}] = {}, run-time sizes {} (sensitivity {})", sol::Str(z), kNames[q], i, f.h[q][i], b, dev);
      }
    }
  }
}
}  // namespace

PBT_CHECK(lockstep, 3000, 60000) { Lockstep(c); }
PBT_CHECK(whole_solves, 2500, 50000) { Whole(c); }
