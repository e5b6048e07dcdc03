// C06: multipliers and penalties follow the method of multipliers, in whole solves and under
// arbitrary histories of the public update / set / reset operations.
#include "rec.hpp"

const pbt::PropertyInfo pbt::kProperty = {
    "C06",
    "(a) random histories of penalty/scaling/multiplier setters (per element, constraint, type, knot point, whole problem), resets, initialisations, updates and "
    "re-evaluations at other trajectories on a constrained solver, compared after every operation with a plain-data model; (b) recorded real solves "
    "(sequences of up to three on one solver) whose multipliers and penalties are recomputed at every inner iteration and outer update. "
    "Non-trivial: (a) at least two constraints and an update that changes a multiplier; (b) at least one outer update with a non-zero multiplier.",
    {"penalties stay below 1e9 in histories"}};

namespace {
using gen::ConSpec;
using pbt::Ctx;
using namespace sol;

struct Con {
  const ConSpec* s;
  VectorXd l, rho, c;
  double scl = 10;
};
using Model = std::vector<std::vector<Con>>;   // [knot][equalities, then inequalities]

Model Fresh(const gen::Spec& s) {
  Model M(s.N + 1);
  for (int k = 0; k <= s.N; ++k)
    for (auto* q : rec::Ordered(s, k)) M[k].push_back({q, VectorXd::Zero(q->p), VectorXd::Ones(q->p), VectorXd::Zero(q->p), 10});
  return M;
}
void Dual(Con* q) {
  VectorXd w = q->l - q->rho.cwiseProduct(q->c);
  q->l = q->s->eq ? w : VectorXd(w.cwiseMin(0.0));
}
void EvalAt(Model* M, const Traj& z) {
  int N = (int)z.U.size();
  for (int k = 0; k <= N; ++k)
    for (auto& q : (*M)[k]) q.c = q.s->G(z.X[k], k < N ? z.U[k] : z.uN);
}
double MaxPen(const Model& M) {
  double r = 0;
  for (auto& v : M) for (auto& q : v) r = std::max(r, q.rho.maxCoeff());
  return r;
}
double MaxViol(const Model& M) {
  double r = 0;
  for (auto& v : M)
    for (auto& q : v)
      for (int i = 0; i < q.c.size(); ++i) r = std::max(r, q.s->eq ? std::abs(q.c(i)) : std::max(0.0, q.c(i)));
  return r;
}
void Compare(Solver& s, Model* M, const char* what) {
  for (size_t k = 0; k < M->size(); ++k) {
    AlKnot a = s.Al(k);
    EXPECT(a.con.size() == (*M)[k].size(), "{}: knot {} has {} constraints", what, k, a.con.size());
    for (size_t i = 0; i < a.con.size(); ++i) {
      Con& q = (*M)[k][i];
      double sc = 1 + q.l.cwiseAbs().maxCoeff() + q.rho.maxCoeff() * (q.c.cwiseAbs().maxCoeff() + 1) * 1e-3;
      EXPECT(a.con[i].eq == q.s->eq, "{}: knot {} constraint {} type", what, k, i);
      EXPECT(gen::MaxDiff(a.con[i].lambda, q.l) <= 1e-9 * sc, "{}: knot {} constraint {} multiplier {} expected {}", what, k, i, gen::Str(a.con[i].lambda), gen::Str(q.l));
      EXPECT(gen::MaxDiff(a.con[i].penalty, q.rho) <= 1e-12 * q.rho.maxCoeff(), "{}: knot {} constraint {} penalty {} expected {}", what, k, i, gen::Str(a.con[i].penalty), gen::Str(q.rho));
      EXPECT(a.con[i].scaling == q.scl, "{}: knot {} constraint {} scaling {} expected {}", what, k, i, a.con[i].scaling, q.scl);
      EXPECT(gen::MaxDiff(a.con[i].c, q.c) <= 1e-9 * (1 + q.c.cwiseAbs().maxCoeff()), "{}: knot {} constraint {} value {} expected {}", what, k, i, gen::Str(a.con[i].c), gen::Str(q.c));
      if (!q.s->eq) EXPECT(a.con[i].lambda.maxCoeff() <= 0, "{}: inequality multiplier outside the dual cone: {}", what, gen::Str(a.con[i].lambda));
      q.l = a.con[i].lambda;      // carry the exact value: no accumulation of rounding
      q.rho = a.con[i].penalty;
      q.c = a.con[i].c;
    }
  }
  double mp = MaxPen(*M);
  EXPECT(std::abs(s.GetMaxPenalty() - mp) <= 1e-12 * mp, "{}: GetMaxPenalty {} expected {}", what, s.GetMaxPenalty(), mp);
}
Traj RandTraj(Ctx& c, const gen::Spec& s) {
  Traj z;
  for (int k = 0; k <= s.N; ++k) {
    z.X.push_back(gen::Vec(c, s.n, -2, 2));
    if (k < s.N) z.U.push_back(gen::Vec(c, s.m, -2, 2));
  }
  z.uN = VectorXd::Zero(s.m);
  z.t = s.t;
  z.h = s.h;
  return z;
}
// index of the (eq, i) constraint of knot k in the model
Con& At(Model& M, int k, bool eq, int i) {
  int j = 0;
  for (auto& q : M[k]) if (q.s->eq == eq && j++ == i) return q;
  abort();
}
int Num(const Model& M, int k, bool eq) {
  int j = 0;
  for (auto& q : M[k]) j += q.s->eq == eq;
  return j;
}

double Pen(Ctx& c) { return c.chance(1, 8) ? c.logreal(1e-8, 1e15) : c.logreal(1e-2, 1e3); }

void Histories(Ctx& c) {
  gen::Options o;
  o.Nmax = 4;
  Size z = PickSize(c, &o);
  o.max_con = 4;
  o.nonlinear_con = c.chance(1, 2);
  o.feasible = false;
  gen::Spec sp = gen::MakeSpec(c, o);
  if (sp.NumCon() == 0) c.discard();
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  auto s = MakeAL(z, prob);
  s->NewTraj(sp);
  Model M = Fresh(sp);
  Traj traj = s->GetTraj();
  c.note("{} {}", sol::Str(z), sp.Brief());
  int total = 0;
  for (auto& v : M) total += v.size();
  Compare(*s, &M, "fresh");
  int ops = c.range(1, 25);
  bool changed = false;
  for (int q = 0; q < ops; ++q) {
    int op = c.range(0, 15), k = c.range(0, sp.N);
    bool eq = c.chance(1, 2);
    while (M[k].empty()) k = (k + 1) % (sp.N + 1);
    if (Num(M, k, eq) == 0) eq = !eq;
    int i = (int)c.below(Num(M, k, eq));
    c.note("op{} k{} {}{}", op, k, eq ? "e" : "i", i);
    switch (op) {
      case 0: { double r = Pen(c); s->SetPenalty(r); for (auto& v : M) for (auto& p : v) p.rho.setConstant(r); break; }
      case 1: { double r = c.real(1, 12); s->SetPenaltyScaling(r); for (auto& v : M) for (auto& p : v) p.scl = r; break; }
      case 2: { double r = Pen(c); s->SetConPenalty(k, eq, i, r); At(M, k, eq, i).rho.setConstant(r); break; }
      case 3: { double r = c.real(1, 12); s->SetConScaling(k, eq, i, r); At(M, k, eq, i).scl = r; break; }
      case 4: { double r = Pen(c); s->SetKnotPenalty(k, eq, r); for (auto& p : M[k]) if (p.s->eq == eq) p.rho.setConstant(r); break; }
      case 5: { double r = c.real(1, 12); s->SetKnotScaling(k, eq, r); for (auto& p : M[k]) if (p.s->eq == eq) p.scl = r; break; }
      case 6: {
        Con& p = At(M, k, eq, i);
        p.l = gen::Vec(c, p.s->p, -3, eq ? 3 : 0);
        s->SetDuals(k, eq, i, p.l);
        break;
      }
      case 7: {
        s->KnotUpdateDuals(k);
        for (auto& p : M[k]) { VectorXd b = p.l; Dual(&p); changed |= gen::MaxDiff(b, p.l) > 1e-6; }
        break;
      }
      case 8: if (MaxPen(M) > 1e18) break; s->KnotUpdatePenalties(k); for (auto& p : M[k]) p.rho *= p.scl; break;
      case 9: s->KnotResetDuals(k); for (auto& p : M[k]) p.l.setZero(); break;
      case 10:
        s->UpdateDuals();
        for (auto& v : M) for (auto& p : v) { VectorXd b = p.l; Dual(&p); changed |= gen::MaxDiff(b, p.l) > 1e-6; }
        break;
      case 11: if (MaxPen(M) > 1e18) break; s->UpdatePenalties(); for (auto& v : M) for (auto& p : v) p.rho *= p.scl; break;
      case 12: s->ResetDuals(); for (auto& v : M) for (auto& p : v) p.l.setZero(); break;
      case 13: {   // the AL initialisation at the start of a solve
        auto& opt = s->Opts();
        opt.reset_duals = c.chance(1, 2);
        opt.initial_penalty = c.one_of<double>({0.0, 1.0, 0.0, 37.5, -1.0});
        s->AlInit();
        if (opt.reset_duals) for (auto& v : M) for (auto& p : v) p.l.setZero();
        if (opt.initial_penalty > 0) for (auto& v : M) for (auto& p : v) p.rho.setConstant(opt.initial_penalty);
        EvalAt(&M, traj);
        auto st = rec::CopyStats(s->Stats());
        EXPECT(st.pen.size() == 1 && std::abs(st.pen[0] - MaxPen(M)) <= 1e-12 * MaxPen(M), "penalty recorded by the initialisation {} expected {}", st.pen.empty() ? NAN : st.pen[0], MaxPen(M));
        EXPECT(st.viol.size() == 1 && std::abs(st.viol[0] - MaxViol(M)) <= 1e-9 * (1 + MaxViol(M)), "violation recorded by the initialisation {} expected {}", st.viol.empty() ? NAN : st.viol[0], MaxViol(M));
        break;
      }
      case 14: {   // constraint values move to another trajectory
        Traj w = RandTraj(c, sp);
        double v = c.chance(1, 2) ? s->MaxViolationAt(w, 0) : (s->CostAt(w), s->GetMaxViolation(0));
        EvalAt(&M, w);
        EXPECT(std::abs(v - MaxViol(M)) <= 1e-9 * (1 + MaxViol(M)), "violation {} expected {}", v, MaxViol(M));
        break;
      }
      case 15: {   // ... or back to the solver's own trajectory, possibly a new one
        if (c.chance(1, 2)) {
          traj = RandTraj(c, sp);
          for (int j = 0; j <= sp.N; ++j) { s->SetX(j, traj.X[j]); if (j < sp.N) s->SetU(j, traj.U[j]); }
        }
        s->Cost();
        EvalAt(&M, traj);
        break;
      }
    }
    Compare(*s, &M, fmt::format("op {}", op).c_str());
  }
  c.label(changed ? "multipliers moved" : "no multiplier moved");
  if (total >= 2 && changed) c.nontrivial();
}

// Element-wise penalties on a single AL cost: each element is updated with its own penalty.
void Elementwise(Ctx& c) {
  gen::Options o;
  o.max_con = 4;
  o.Nmax = 1;
  o.Nmin = 1;
  o.feasible = false;
  Size z = PickSize(c, &o);
  gen::Spec sp = gen::MakeSpec(c, o);
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  auto al = MakeAlCost(z, prob, 0);
  Model M(1);
  for (auto* q : rec::Ordered(sp, 0)) M[0].push_back({q, VectorXd::Zero(q->p), VectorXd::Ones(q->p), VectorXd::Zero(q->p), 10});
  if (M[0].empty()) c.discard();
  for (int rep = 0, R = c.range(1, 5); rep < R; ++rep) {
    for (int e = 0; e < 2; ++e)
      for (int i = 0; i < Num(M, 0, e); ++i) {
        if (c.chance(1, 3)) continue;
        VectorXd r(At(M, 0, e, i).s->p);
        for (int j = 0; j < r.size(); ++j) r(j) = c.logreal(0.1, 100);
        al->SetPenaltyVec(e, i, r);
        At(M, 0, e, i).rho = r;
        VectorXd x = gen::Vec(c, sp.n, -2, 2), u = gen::Vec(c, sp.m, -2, 2);
        al->CalcExpansion(e, i, x, u);
        At(M, 0, e, i).c = At(M, 0, e, i).s->G(x, u);
      }
    al->UpdateDuals();
    for (auto& q : M[0]) Dual(&q);
    if (c.chance(1, 2)) { al->UpdatePenalties(); for (auto& q : M[0]) q.rho *= q.scl; }
    AlKnot a = al->Get();
    for (size_t i = 0; i < a.con.size(); ++i) {
      Con& q = M[0][i];
      EXPECT(gen::MaxDiff(a.con[i].lambda, q.l) <= 1e-9 * (1 + q.l.cwiseAbs().maxCoeff() + q.rho.maxCoeff() * 1e-3), "constraint {} multiplier {} expected {}", i, gen::Str(a.con[i].lambda), gen::Str(q.l));
      EXPECT(gen::MaxDiff(a.con[i].penalty, q.rho) <= 1e-12 * q.rho.maxCoeff(), "constraint {} penalty {} expected {}", i, gen::Str(a.con[i].penalty), gen::Str(q.rho));
      q.l = a.con[i].lambda;
    }
  }
  c.nontrivial();
}

void Solves(Ctx& c) {
  gen::Options o;
  Size z = PickSize(c, &o);
  gen::Spec sp = rec::RandomSpec(c, o, true);
  if (sp.NumCon() == 0) c.discard();
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  auto s = MakeAL(z, prob);
  s->NewTraj(sp);
  Model M = Fresh(sp);
  c.note("{} {}", sol::Str(z), sp.Brief());
  int solves = c.range(1, 3), updates = 0;
  for (int q = 0; q < solves; ++q) {
    rec::RandomSolveOptions(c, &s->Opts(), true);
    s->Opts().max_iterations_total = std::min(s->Opts().max_iterations_total, 150);
    s->Opts().reset_duals = c.chance(1, 2);
    if (c.chance(1, 3)) s->Opts().initial_penalty = 0;
    for (int k = 0; k <= sp.N; ++k)
      for (int e = 0; e < 2; ++e)
        for (int i = 0; i < Num(M, k, e); ++i)
          if (c.chance(1, 4)) { double f = c.real(1, 15); s->SetConScaling(k, e, i, f); At(M, k, e, i).scl = f; }
    if (c.chance(1, 3)) {
      int k = c.range(0, sp.N);
      if (!M[k].empty()) {
        double r = c.logreal(0.1, 50);
        bool eq = M[k][0].s->eq;
        s->SetConPenalty(k, eq, 0, r);
        At(M, k, eq, 0).rho.setConstant(r);
      }
    }
    if (c.chance(1, 2)) s->ResetTraj(sp);
    c.note("solve {}: reset {} {}", q, s->Opts().reset_duals, rec::OptStr(s->Opts()));
    // what the options say about the start of this solve
    if (s->Opts().reset_duals) for (auto& v : M) for (auto& p : v) p.l.setZero();
    if (s->Opts().initial_penalty > 0) for (auto& v : M) for (auto& p : v) p.rho.setConstant(s->Opts().initial_penalty);
    rec::Run r = rec::Record(*s);
    auto match = [&](const std::vector<AlKnot>& al, const char* what, int it) {
      for (int k = 0; k <= sp.N; ++k)
        for (size_t i = 0; i < al[k].con.size(); ++i) {
          Con& p = M[k][i];
          double sc = 1 + p.l.cwiseAbs().maxCoeff() + 1e-3 * p.rho.maxCoeff() * (1 + p.c.cwiseAbs().maxCoeff());
          EXPECT(gen::MaxDiff(al[k].con[i].lambda, p.l) <= 1e-9 * sc, "{} iteration {}: knot {} constraint {} multiplier {} expected {}", what, it, k, i, gen::Str(al[k].con[i].lambda), gen::Str(p.l));
          EXPECT(gen::MaxDiff(al[k].con[i].penalty, p.rho) <= 1e-12 * p.rho.maxCoeff(), "{} iteration {}: knot {} constraint {} penalty {} expected {}", what, it, k, i, gen::Str(al[k].con[i].penalty), gen::Str(p.rho));
          if (!p.s->eq) EXPECT(al[k].con[i].lambda.maxCoeff() <= 0, "inequality multiplier outside the dual cone");
          p.l = al[k].con[i].lambda;
        }
    };
    bool fin = true;
    size_t j = 0;
    for (; j < r.snaps.size(); ++j) {
      if (!gen::Finite(r.snaps[j].z.X) || !gen::Finite(r.snaps[j].z.U)) { fin = false; break; }
      match(r.snaps[j].al, "during the solve,", (int)j);
      bool last_of_outer = j + 1 == r.snaps.size() || r.snaps[j + 1].it_outer != r.snaps[j].it_outer;
      if (last_of_outer) {
        Traj w = r.snaps[j].z;
        if (gen::MaxAbs(w.X) > 1e5) { fin = false; break; }
        EvalAt(&M, w);
        for (auto& v : M) for (auto& p : v) { Dual(&p); if (!p.l.isZero(0)) updates++; }
        if (j + 1 < r.snaps.size()) for (auto& v : M) for (auto& p : v) p.rho *= p.scl;
      }
    }
    if (!fin) c.discard();
    if (r.snaps.empty()) c.discard();
    // an outer iteration whose inner solve failed before any step is recorded still updates the multipliers
    if (r.st.it_outer != r.snaps.back().it_outer + 1) { c.label("outer iteration without inner iterations"); c.discard(); }
    match(r.al, "after the solve,", r.st.it_total);
    for (int k = 0; k <= sp.N; ++k) for (size_t i = 0; i < M[k].size(); ++i) M[k][i].rho = r.al[k].con[i].penalty;
    c.label(fmt::format("status {}", sol::StatusName(r.status)));
    c.label(fmt::format("outer {}", std::min(r.st.it_outer, 6)));
  }
  c.label(fmt::format("solves {}", solves));
  if (updates > 0) c.nontrivial();
}
}  // namespace

PBT_CHECK(histories, 20000, 400000) { Histories(c); }
PBT_CHECK(elementwise, 8000, 100000) { Elementwise(c); }
PBT_CHECK(solves, 8000, 150000) { Solves(c); }
