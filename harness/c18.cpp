// C18: reported constraint violations and constraint summaries are exact.
#include <sstream>

#include "rec.hpp"

const pbt::PropertyInfo pbt::kProperty = {
    "C18",
    "Constrained problems (0..4 constraints per knot point, linear and nonlinear, shared labels), solvers of run-time and fixed size; violations "
    "queried for the stored trajectory, for other trajectories (random, feasible, on the boundary) and after whole or partial solves, in three norms, per knot "
    "point and in total; summaries sorted, unsorted and printed; all recomputed from the generating functions. Non-trivial: at least two "
    "constraints, at least one violated.",
    {"constraint values are finite"}};

namespace {
using pbt::Ctx;
using namespace sol;

struct Row { std::string label; std::string type; int index; VectorXd viol; };
std::vector<Row> Expect(const gen::Spec& s, const Traj& z) {
  std::vector<Row> r;
  for (int k = 0; k <= s.N; ++k)
    for (auto* q : rec::Ordered(s, k)) {
      VectorXd v = q->G(z.X[k], k < s.N ? z.U[k] : z.uN);
      if (!q->eq) v = v.cwiseMax(0.0);
      r.push_back({q->label, q->eq ? "Equality Constraint" : "Inequality Constraint", k, v});
    }
  return r;
}
double Norm(const std::vector<double>& v, int p) {
  long double r = 0;
  for (double x : v) {
    if (p == 0) r = std::max<long double>(r, std::abs(x));
    else r += p == 1 ? std::abs((long double)x) : (long double)x * x;
  }
  return p == 2 ? std::sqrt(r) : (double)r;
}
double Total(const std::vector<Row>& rows, int p, int knot = -1) {
  std::vector<double> v;
  for (auto& r : rows) if (knot < 0 || r.index == knot) for (int i = 0; i < r.viol.size(); ++i) v.push_back(r.viol(i));
  return Norm(v, p);
}
void Same(double got, double want, int p, const char* what) {
  if (p == 0) EXPECT(got == want, "{} infinity norm {} expected {}", what, got, want);
  else EXPECT(std::abs(got - want) <= 1e-12 * want, "{} {}-norm {} expected {}", what, p, got, want);
  EXPECT((got == 0) == (want == 0), "{}: zero exactly when satisfied; got {} expected {}", what, got, want);
}
double Inf(const VectorXd& v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0.0; }

void CheckInfo(Ctx& c, Solver& s, const std::vector<Row>& rows) {
  auto info = s.Info(false);
  EXPECT(info.size() == rows.size(), "summary lists {} constraints, expected {}", info.size(), rows.size());
  for (size_t i = 0; i < rows.size(); ++i) {
    EXPECT(info[i].label == rows[i].label, "entry {} label '{}' expected '{}'", i, info[i].label, rows[i].label);
    EXPECT(info[i].type == rows[i].type, "entry {} type '{}' expected '{}'", i, info[i].type, rows[i].type);
    EXPECT(info[i].index == rows[i].index, "entry {} index {} expected {}", i, info[i].index, rows[i].index);
    EXPECT(info[i].violation.size() == rows[i].viol.size() && info[i].violation.cwiseAbs() == rows[i].viol.cwiseAbs(), "entry {} violation {} expected {}", i, gen::Str(info[i].violation), gen::Str(rows[i].viol));
  }
  auto sorted = s.Info(true);
  EXPECT(sorted.size() == rows.size(), "sorted summary lists {} constraints", sorted.size());
  for (size_t i = 1; i < sorted.size(); ++i)
    EXPECT(Inf(sorted[i - 1].violation) >= Inf(sorted[i].violation), "sorted summary: entry {} ({}) before entry {} ({})", i - 1, Inf(sorted[i - 1].violation), i, Inf(sorted[i].violation));
  std::vector<bool> used(rows.size(), false);
  for (auto& e : sorted) {
    bool found = false;
    for (size_t j = 0; j < rows.size() && !found; ++j)
      if (!used[j] && rows[j].label == e.label && rows[j].index == e.index && rows[j].type == e.type && rows[j].viol.size() == e.violation.size() && rows[j].viol.cwiseAbs() == e.violation.cwiseAbs()) used[j] = found = true;
    EXPECT(found, "sorted summary has an entry that is not a constraint of the problem: {} at {}", e.label, e.index);
  }
  if (c.chance(1, 6)) {   // the printed form carries the same content in the same order
    bool sort = c.chance(1, 2);
    int prec = c.range(2, 9);
    pbt::CaptureStdout cap;
    s.PrintViolations(sort, prec);
    std::string out = cap.Stop();
    std::istringstream is(out);
    std::string line;
    std::getline(is, line);
    EXPECT(line == fmt::format("Got {} constraints", rows.size()), "first line '{}'", line);
    auto& list = sort ? sorted : info;
    for (size_t i = 0; i < list.size(); ++i) {
      EXPECT((bool)std::getline(is, line), "printed summary ends after {} of {}", i, list.size());
      std::string head = fmt::format("{} at index {}: [", list[i].label, list[i].index);
      EXPECT(line.compare(0, head.size(), head) == 0, "line '{}' expected to start with '{}'", line, head);
      std::string body = line.substr(head.size());
      EXPECT(!body.empty() && body.back() == ']', "line '{}'", line);
      body.pop_back();
      for (auto& ch : body) if (ch == ',') ch = ' ';
      std::istringstream nums(body);
      std::vector<double> got;
      std::string tok;
      while (nums >> tok) got.push_back(strtod(tok.c_str(), nullptr));
      EXPECT((int)got.size() == list[i].violation.size(), "line '{}' has {} values, expected {}", line, got.size(), list[i].violation.size());
      for (size_t j = 0; j < got.size(); ++j)
        EXPECT(std::abs(got[j] - list[i].violation(j)) <= std::pow(10.0, 1 - prec) * std::abs(list[i].violation(j)) + 1e-300, "line '{}' value {} expected {}", line, got[j], list[i].violation(j));
    }
    EXPECT(!std::getline(is, line), "unexpected extra line '{}'", line);
    c.label("printed");
  }
}
// the values presently stored (no re-evaluation)
void CheckStored(Ctx& c, Solver& s, const gen::Spec& sp, const Traj& z) {
  auto rows = Expect(sp, z);
  for (int q = 0, M = c.range(1, 4); q < M; ++q) {   // queries in any order, repeatedly
    switch (c.range(0, 2)) {
      case 0: { int p = c.range(0, 2); Same(s.GetMaxViolation(p), Total(rows, p), p, "stored violation"); break; }
      case 1: {
        int k = c.range(0, sp.N);
        AlKnot a = s.Al(k);
        Same(a.max_viol_inf, Total(rows, 0, k), 0, "knot point");
        Same(a.max_viol_1, Total(rows, 1, k), 1, "knot point");
        Same(a.max_viol_2, Total(rows, 2, k), 2, "knot point");
        break;
      }
      case 2: CheckInfo(c, s, rows); break;
    }
  }
}
Traj RandTraj(Ctx& c, const gen::Spec& s, const std::vector<VectorXd>& Xs, const std::vector<VectorXd>& Us) {
  Traj z;
  int mode = c.range(0, 2);      // 0: anything, 1: the hidden feasible one, 2: feasible except at one knot
  int bad = c.range(0, s.N);
  for (int k = 0; k <= s.N; ++k) {
    bool f = mode == 1 || (mode == 2 && k != bad);
    z.X.push_back(f ? Xs[k] : gen::Vec(c, s.n, -2, 2));
    if (k < s.N) z.U.push_back(f ? Us[k] : gen::Vec(c, s.m, -2, 2));
  }
  z.uN = VectorXd::Zero(s.m);
  z.t = s.t;
  z.h = s.h;
  return z;
}

void Queries(Ctx& c) {
  gen::Options o;
  o.Nmax = 5;
  Size z = PickSize(c, &o);
  o.max_con = 0;
  gen::Spec sp = gen::MakeSpec(c, o);
  // constraints satisfied by a hidden pair of sequences (exactly, for the linear ones)
  std::vector<VectorXd> Xs, Us;
  for (int k = 0; k <= sp.N; ++k) { Xs.push_back(gen::Vec(c, sp.n)); Us.push_back(k < sp.N ? gen::Vec(c, sp.m) : VectorXd(VectorXd::Zero(sp.m))); }
  o.nonlinear_con = c.chance(1, 2);
  bool same = c.chance(1, 4);
  for (int k = 0; k <= sp.N; ++k)
    for (int i = 0, M = c.range(0, 4); i < M; ++i) {
      sp.con[k].push_back(gen::MakeCon(c, sp.n, sp.m, k == sp.N, o, &Xs[k], &Us[k], c.chance(1, 2), c.range(1, 4)));
      if (same) sp.con[k].back().label = "con";
    }
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  auto s = MakeAL(z, prob);
  s->NewTraj(sp);
  c.note("{} {}", sol::Str(z), sp.Brief());
  int total = 0, nrows = 0;
  for (int k = 0; k <= sp.N; ++k) {
    int pk = 0;
    for (auto& q : sp.con[k]) { pk += q.p; nrows++; }
    EXPECT(s->NumCon(k) == pk && prob.NumConstraints(k) == pk, "knot {}: solver counts {}, problem counts {}, expected {}", k, s->NumCon(k), prob.NumConstraints(k), pk);
    EXPECT(s->Al(k).num_con == pk, "knot {}: cost counts {} expected {}", k, s->Al(k).num_con, pk);
    total += pk;
  }
  EXPECT(s->NumCon() == total && prob.NumConstraints() == total, "solver counts {}, problem counts {}, expected {}", s->NumCon(), prob.NumConstraints(), total);
  bool violated = false;
  for (int q = 0, M = c.range(1, 6); q < M; ++q) {
    Traj w = RandTraj(c, sp, Xs, Us);
    int how = c.range(0, 3), p = c.range(0, 2);
    auto rows = Expect(sp, w);
    c.note("query {} p{}", how, p);
    violated |= Total(rows, 0) > 0;
    if (Total(rows, 0) == 0) c.label("exactly satisfied");
    switch (how) {
      case 0: Same(s->MaxViolationAt(w, p), Total(rows, p), p, "violation of a given trajectory"); break;
      case 1:
        for (int k = 0; k <= sp.N; ++k) { s->SetX(k, w.X[k]); if (k < sp.N) s->SetU(k, w.U[k]); }
        Same(s->MaxViolation(p), Total(rows, p), p, "violation of the solver's trajectory");
        break;
      case 2: s->CostAt(w); break;
      case 3:
        for (int k = 0; k <= sp.N; ++k) { s->SetX(k, w.X[k]); if (k < sp.N) s->SetU(k, w.U[k]); }
        if (c.chance(1, 2)) s->UpdateExpansions(); else s->Cost();
        break;
    }
    CheckStored(c, *s, sp, w);
  }
  if (nrows >= 2 && violated) c.nontrivial();
}

void AfterSolve(Ctx& c) {
  gen::Options o;
  Size z = PickSize(c, &o);
  gen::Spec sp = rec::RandomSpec(c, o, true);
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  auto s = MakeAL(z, prob);
  s->NewTraj(sp);
  c.note("{} {}", sol::Str(z), sp.Brief());
  int nrows = 0;
  for (auto& v : sp.con) nrows += v.size();
  for (int q = 0, M = c.range(1, 2); q < M; ++q) {
    rec::RandomSolveOptions(c, &s->Opts(), true);
    s->Opts().max_iterations_total = std::min(s->Opts().max_iterations_total, 150);
    rec::Apply(rec::RandomMultipliers(c, sp), *s);
    c.note("{}", rec::OptStr(s->Opts()));
    s->Solve();
    Traj f = s->GetTraj();
    if (!gen::Finite(f.X) || gen::MaxAbs(f.X) > 1e6) c.discard();
    c.label(fmt::format("status {}", sol::StatusName(s->Status())));
    auto rows = Expect(sp, f);
    // what the solve left behind, before anything is evaluated again
    double tol = 1e-9 * (1 + Total(rows, 1));   // accepted steps are evaluated on the same states: equal up to rounding
    EXPECT(std::abs(s->GetMaxViolation(0) - Total(rows, 0)) <= tol, "violation after the solve {} recomputed {}", s->GetMaxViolation(0), Total(rows, 0));
    CheckStored(c, *s, sp, f);
    auto v = rec::CopyStats(s->Stats()).viol;
    if (!v.empty()) EXPECT(std::abs(v.back() - Total(rows, 0)) <= tol, "last recorded violation {} recomputed {}", v.back(), Total(rows, 0));
    if (nrows >= 2 && Total(rows, 0) > 0) c.nontrivial();
  }
}
}  // namespace

PBT_CHECK(queries, 6000, 120000) { Queries(c); }
PBT_CHECK(after_solve, 4000, 80000) { AfterSolve(c); }
