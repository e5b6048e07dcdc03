// C11: a solve depends only on the problem, the guess and the options, not on the solver's history.
#include "rec.hpp"

const pbt::PropertyInfo pbt::kProperty = {
    "C11",
    "One to three solvers (iLQR / AL, run-time or fixed size) built from one problem live through random histories: solves with random options (many hitting limits or "
    "failing), other trajectories with other times, single algorithm steps, changes of the problem's initial state, of multipliers and penalties, of thread settings; "
    "then a solve is compared bit for bit with the same solve on a freshly built solver. Non-trivial: at least one earlier solve with at least one "
    "iteration and a compared solve with at least one accepted step.",
    {"when initial_penalty is 0 or reset_duals is off the penalties / multipliers left by the history are part of the input and are copied to the fresh solver",
     "penalty scaling factors set by the user persist and are copied to the fresh solver"}};

namespace {
using pbt::Ctx;
using namespace sol;

struct Out {
  rec::Stats st;
  Traj z;
  SolverStatus status, inner;
  std::vector<AlKnot> al;
  std::vector<KpData> kp;
  double reg, viol = 0;
};
Out Read(Solver& s) {
  Out o;
  o.st = rec::CopyStats(s.Stats());
  o.z = s.GetTraj();
  o.status = s.Status();
  o.inner = s.InnerStatus();
  o.reg = s.Reg();
  for (int k = 0; k <= s.NumSegments(); ++k) {
    o.kp.push_back(s.Kp(k));
    if (s.IsAL()) o.al.push_back(s.Al(k));
  }
  if (s.IsAL()) o.viol = s.GetMaxViolation(0);
  return o;
}
bool Bit(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool Bit(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!Bit(a[i], b[i])) return false;
  return true;
}
bool Bit(const MatrixXd& a, const MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.size(); ++i) if (!Bit(a.data()[i], b.data()[i])) return false;
  return true;
}
void Compare(const Out& a, const Out& b, const char* what) {
  EXPECT(a.status == b.status, "{}: status {} fresh solver {}", what, StatusName(a.status), StatusName(b.status));
  EXPECT(a.inner == b.inner, "{}: inner status {} fresh solver {}", what, StatusName(a.inner), StatusName(b.inner));
  EXPECT(a.st.it_inner == b.st.it_inner && a.st.it_outer == b.st.it_outer && a.st.it_total == b.st.it_total, "{}: iterations {}/{}/{} fresh solver {}/{}/{}", what,
         a.st.it_inner, a.st.it_outer, a.st.it_total, b.st.it_inner, b.st.it_outer, b.st.it_total);
  EXPECT(Bit(a.st.initial_cost, b.st.initial_cost), "{}: initial cost {} fresh solver {}", what, a.st.initial_cost, b.st.initial_cost);
#define H(f) EXPECT(Bit(a.st.f, b.st.f), "{}: history '" #f "' differs: sizes {} {}", what, a.st.f.size(), b.st.f.size())
  H(cost); H(alpha); H(z); H(grad); H(dJ); H(reg); H(viol); H(pen);
#undef H
  for (size_t k = 0; k < a.z.X.size(); ++k) {
    EXPECT(Bit(a.z.X[k], b.z.X[k]), "{}: state {} {} fresh solver {}", what, k, gen::Str(a.z.X[k]), gen::Str(b.z.X[k]));
    if (k < a.z.U.size()) EXPECT(Bit(a.z.U[k], b.z.U[k]), "{}: control {} {} fresh solver {}", what, k, gen::Str(a.z.U[k]), gen::Str(b.z.U[k]));
    EXPECT(a.z.t[k] == b.z.t[k] && a.z.h[k] == b.z.h[k], "{}: time {}", what, k);
  }
  EXPECT(Bit(a.reg, b.reg), "{}: regularisation {} fresh solver {}", what, a.reg, b.reg);
  EXPECT(Bit(a.viol, b.viol), "{}: violation {} fresh solver {}", what, a.viol, b.viol);
  for (size_t k = 0; k < a.al.size(); ++k)
    for (size_t i = 0; i < a.al[k].con.size(); ++i)
      EXPECT(Bit(a.al[k].con[i].lambda, b.al[k].con[i].lambda) && Bit(a.al[k].con[i].penalty, b.al[k].con[i].penalty) && Bit(a.al[k].con[i].c, b.al[k].con[i].c),
             "{}: multipliers, penalties or values of constraint {} at {} differ", what, i, k);
  for (size_t k = 0; k < a.kp.size(); ++k) {
    const KpData &p = a.kp[k], &q = b.kp[k];
    EXPECT(Bit(p.A, q.A) && Bit(p.B, q.B) && Bit(p.xx, q.xx) && Bit(p.xu, q.xu) && Bit(p.uu, q.uu) && Bit(p.gx, q.gx) && Bit(p.gu, q.gu), "{}: expansion {} differs", what, k);
    if (a.status != SolverStatus::kBackwardPassRegularizationFailed)
      EXPECT(Bit(p.K, q.K) && Bit(p.d, q.d) && Bit(p.S, q.S) && Bit(p.s, q.s), "{}: policy {} differs", what, k);
  }
}
gen::Spec Guess(Ctx& c, const gen::Spec& sp) {
  gen::Spec g = sp;
  if (c.chance(2, 3)) for (auto& u : g.U0) u = gen::Vec(c, sp.m, -2, 2);
  if (c.chance(1, 2)) for (auto& x : g.X0) x = gen::Vec(c, sp.n, -2, 2);
  if (c.chance(1, 3)) {
    int keep = c.chance(1, 2) ? c.range(0, sp.N) : 0;   // the first steps may stay what they were
    float t = keep > 0 ? sp.t[0] : (float)c.real(0, 2);
    for (int k = 0; k <= sp.N; ++k) {
      g.t[k] = t;
      if (k >= keep) g.h[k] = k < sp.N ? (float)c.real(0.02, 0.25) : 0.f;
      t += g.h[k];
    }
  }
  return g;
}
// A trajectory is fully written: the terminal control too.
void Place(Ctx& c, Solver& s, const gen::Spec& g) {
  if (c.chance(1, 2)) s.NewTraj(g); else { s.ResetTraj(g); s.SetU(g.N, VectorXd::Zero(g.m)); }
}

void Body(Ctx& c) {
  gen::Options o;
  Size z = PickSize(c, &o);
  bool constrained = c.chance(2, 3);
  gen::Spec sp = rec::RandomSpec(c, o, constrained);
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  c.note("{} {}", sol::Str(z), sp.Brief());
  std::vector<SolverPtr> S;
  int ns = c.range(1, 3);
  for (int i = 0; i < ns; ++i) {
    S.push_back(c.chance(2, 3) ? MakeAL(z, prob) : MakeiLQR(z, prob));
    S.back()->NewTraj(sp);
  }
  auto options = [&](Solver& s) {
    rec::RandomSolveOptions(c, &s.Opts(), constrained);
    s.Opts().max_iterations_total = std::min(s.Opts().max_iterations_total, 80);
    s.Opts().reset_duals = c.chance(2, 3);
    if (c.chance(1, 4)) s.Opts().initial_penalty = 0;
    if (c.chance(1, 8)) s.Opts().nthreads = c.range(1, 3);
  };
  VectorXd x0 = sp.x0;
  int prior = 0, ops = c.range(1, 8);
  for (int q = 0; q < ops; ++q) {
    int si = (int)c.below(ns), op = c.range(0, 8);
    Solver& s = *S[si];
    c.note("s{} op{}", si, op);
    switch (op) {
      case 0: case 1: case 2: case 3:
        options(s);
        if (c.chance(2, 3)) Place(c, s, Guess(c, sp));
        c.note("{}", rec::OptStr(s.Opts()));
        s.Solve();
        prior += s.Stats().iterations_total > 0;
        break;
      case 4: x0 = gen::Vec(c, sp.n, -2, 2); prob.SetInitialState(x0); break;
      case 5: {     // single steps of the algorithm
        s.SolveSetup();
        s.Rollout();
        s.Cost();
        s.UpdateExpansions();
        s.BackwardPass();
        if (c.chance(1, 2)) s.ForwardPass();
        break;
      }
      case 6: Place(c, s, Guess(c, sp)); break;
      case 7:
        if (s.IsAL()) {
          for (int k = 0; k <= sp.N; ++k) {
            AlKnot a = s.Al(k);
            int j[2] = {0, 0};
            for (auto& v : a.con) {
              int i = j[v.eq]++;
              if (c.chance(1, 3)) s.SetConPenalty(k, v.eq, i, c.logreal(0.1, 100));
              if (c.chance(1, 3)) s.SetConScaling(k, v.eq, i, c.real(1.5, 12));
              if (c.chance(1, 3)) s.SetDuals(k, v.eq, i, gen::Vec(c, v.lambda.size(), -2, v.eq ? 2 : 0));
            }
          }
        }
        break;
      case 8: {
        Traj t = s.GetTraj();
        for (auto& x : t.X) x = gen::Vec(c, sp.n, -2, 2);
        s.CostAt(t);
        break;
      }
    }
  }
  // the compared solves: every solver once, in order (each one also becomes history of the others)
  int accepted = 0;
  for (int i = 0; i < ns; ++i) {
    Solver& s = *S[i];
    options(s);
    gen::Spec g = Guess(c, sp);
    gen::Spec fs = sp;
    fs.x0 = x0;
    altro::problem::Problem p2(sp.N);
    gen::Fill(fs, &p2);
    SolverPtr f = s.IsAL() ? MakeAL(z, p2) : MakeiLQR(z, p2);
    f->Opts() = s.Opts();
    if (s.IsAL())
      for (int k = 0; k <= sp.N; ++k) {
        AlKnot a = s.Al(k);
        int j[2] = {0, 0};
        for (auto& v : a.con) {
          int ii = j[v.eq]++;
          f->SetConScaling(k, v.eq, ii, v.scaling);
          if (s.Opts().initial_penalty <= 0) f->SetConPenalty(k, v.eq, ii, v.penalty(0));
          if (!s.Opts().reset_duals) f->SetDuals(k, v.eq, ii, v.lambda);
        }
      }
    c.note("compare {}: reset {} {}", i, s.Opts().reset_duals, rec::OptStr(s.Opts()));
    Place(c, s, g);
    f->NewTraj(g);
    s.Solve();
    f->Solve();
    Out a = Read(s), b = Read(*f);
    Compare(a, b, s.IsAL() ? "AL" : "iLQR");
    // and once more: the very same solve again
    if (s.Opts().reset_duals && s.Opts().initial_penalty > 0) {
      Place(c, s, g);
      s.Solve();
      Compare(Read(s), b, "second solve");
    }
    c.label(fmt::format("status {}", StatusName(a.status)));
    accepted += !a.st.alpha.empty();
    EXPECT(Bit(a.z.X[0], x0), "the solve started at {} but the problem's initial state is {}", gen::Str(a.z.X[0]), gen::Str(x0));
  }
  if (prior > 0) c.label("with earlier solves");
  if (prior > 0 && accepted > 0) c.nontrivial();
}
}  // namespace

PBT_CHECK(history_independence, 5000, 100000) { Body(c); }
