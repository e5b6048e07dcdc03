// C21: diagnostics never change what is computed.
#include <unistd.h>

#include <sstream>

#include "altro/common/solver_logger.hpp"
#include "rec.hpp"

const pbt::PropertyInfo pbt::kProperty = {
    "C21",
    "Histories of solves (both solvers, run-time and fixed sizes, changing guesses and options) run on a plain solver without diagnostics and on one with random verbosity, profiling "
    "(to stdout or a file), header frequency, colour tolerances and read-only queries between solves; all results compared bit for bit, and the printed table parsed: columns, rows, values. "
    "Non-trivial: at least one diagnostic was on and at least two iterations were taken.",
    {"queries that take another trajectory overwrite the stored constraint values, which are compared only right after a solve"}};

namespace {
using pbt::Ctx;
using namespace sol;
using altro::LogLevel;

bool Same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool SameM(const MatrixXd& a, const MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.size(); ++i) if (!Same(a.data()[i], b.data()[i])) return false;
  return true;
}
void SameV(const std::vector<double>& a, const std::vector<double>& b, const char* w) {
  EXPECT(a.size() == b.size(), "history {}: {} entries with diagnostics, {} without", w, a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) EXPECT(Same(a[i], b[i]), "history {}[{}]: {} with diagnostics, {} without", w, i, a[i], b[i]);
}
void Compare(Solver& a, Solver& b, int N) {   // a: diagnostics, b: plain
  EXPECT(a.Status() == b.Status() && a.InnerStatus() == b.InnerStatus(), "status {}/{} with diagnostics, {}/{} without", StatusName(a.Status()), StatusName(a.InnerStatus()), StatusName(b.Status()), StatusName(b.InnerStatus()));
  auto x = rec::CopyStats(a.Stats()), y = rec::CopyStats(b.Stats());
  EXPECT(x.it_inner == y.it_inner && x.it_outer == y.it_outer && x.it_total == y.it_total, "iterations {}/{}/{} with diagnostics, {}/{}/{} without", x.it_inner, x.it_outer, x.it_total, y.it_inner, y.it_outer, y.it_total);
  EXPECT(Same(x.initial_cost, y.initial_cost), "initial cost");
  SameV(x.cost, y.cost, "cost"); SameV(x.alpha, y.alpha, "alpha"); SameV(x.z, y.z, "z"); SameV(x.grad, y.grad, "gradient");
  SameV(x.dJ, y.dJ, "dJ"); SameV(x.reg, y.reg, "regularisation"); SameV(x.viol, y.viol, "violation"); SameV(x.pen, y.pen, "penalty");
  Traj s = a.GetTraj(), t = b.GetTraj();
  for (int k = 0; k <= N; ++k) {
    EXPECT(SameM(s.X[k], t.X[k]), "state {}: {} with diagnostics, {} without", k, gen::Str(s.X[k]), gen::Str(t.X[k]));
    if (k < N) EXPECT(SameM(s.U[k], t.U[k]), "control {}", k);
    EXPECT(s.t[k] == t.t[k] && s.h[k] == t.h[k], "times at {}", k);
  }
  EXPECT(SameM(a.Costs(), b.Costs()), "individual costs");
  EXPECT(Same(a.Reg(), b.Reg()), "regularisation");
  for (int k = 0; k < N; ++k) {
    KpData p = a.Kp(k), q = b.Kp(k);
    EXPECT(SameM(p.K, q.K) && SameM(p.d, q.d) && SameM(p.xx, q.xx) && SameM(p.A, q.A), "expansions and policy at {}", k);
  }
  if (!a.IsAL()) return;
  for (int k = 0; k <= N; ++k) {
    AlKnot p = a.Al(k), q = b.Al(k);
    for (size_t i = 0; i < q.con.size(); ++i)
      EXPECT(SameM(p.con[i].lambda, q.con[i].lambda) && SameM(p.con[i].penalty, q.con[i].penalty) && SameM(p.con[i].c, q.con[i].c), "multipliers, penalties or values of constraint {} at knot {}", i, k);
  }
}

// ---- the printed table
std::string Strip(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') ++i; continue; }
    r += s[i];
  }
  return r;
}
struct Table {
  std::vector<std::string> cols;
  std::vector<std::vector<std::string>> rows;
  std::vector<size_t> headers;   // number of rows before each header
};
std::vector<std::string> Words(const std::string& l) {
  std::istringstream is(l);
  std::vector<std::string> v;
  std::string w;
  while (is >> w) v.push_back(w);
  return v;
}
Table Parse(const std::string& out, Solver& s) {
  Table t;
  std::istringstream is(Strip(out));
  std::string line;
  bool have_next = (bool)std::getline(is, line);
  while (have_next) {
    auto w = Words(line);
    bool header = !w.empty() && isalpha((unsigned char)w[0][0]) && w[0] != "nan" && w[0] != "inf";
    if (header) {
      if (t.cols.empty()) t.cols = w;
      EXPECT(w == t.cols, "header '{}' differs from the first one", line);
      t.headers.push_back(t.rows.size());
      EXPECT((bool)std::getline(is, line) && !line.empty() && line.find_first_not_of('-') == std::string::npos, "header is followed by '{}'", line);
    } else {
      EXPECT(!t.cols.empty(), "data before any header: '{}'", line);
      std::vector<std::string> v;
      size_t pos = 0;
      for (auto& c : t.cols) {
        size_t width = s.Stats().GetLogger().GetEntry(c).GetWidth(), e = std::min(line.size(), pos + width);
        while (e < line.size() && line[e] != ' ') ++e;
        auto q = Words(line.substr(std::min(pos, line.size()), e - pos));
        EXPECT(q.size() <= 1, "column {} of '{}'", c, line);
        v.push_back(q.empty() ? "" : q[0]);
        pos = e + 1;
      }
      EXPECT(Words(line.substr(std::min(pos, line.size()))).empty(), "row '{}' has more than {} columns", line, t.cols.size());
      t.rows.push_back(v);
    }
    have_next = (bool)std::getline(is, line);
  }
  return t;
}
int Find(const Table& t, const std::string& c) {
  for (size_t i = 0; i < t.cols.size(); ++i) if (t.cols[i] == c) return i;
  return -1;
}
std::string Fmt(Solver& s, const std::string& col, double v) { return Words(fmt::format(fmt::runtime(s.Stats().GetLogger().GetEntry(col).GetFormat()), v)).at(0); }

void CheckTable(Ctx& c, const std::string& out, Solver& s, LogLevel v, int freq) {
  auto st = rec::CopyStats(s.Stats());
  if (v == LogLevel::kSilent) { EXPECT(out.empty(), "output of a silent solve: {}", out); return; }
  Table t = Parse(out, s);
  bool inner = v >= LogLevel::kInner;
  size_t want = s.IsAL() ? (inner ? st.it_total : st.it_outer) : (inner ? st.it_total : 0);
  EXPECT(t.rows.size() == want, "{} rows at level {} for {} iterations:\n{}", t.rows.size(), (int)v, want, Strip(out));
  if (want == 0) return;
  // columns: those entries of the logger that are active at this level, in the same relative order at every level
  size_t active = 0;
  for (auto& kv : s.Stats().GetLogger()) active += kv.second.IsActive(v);
  EXPECT(active == t.cols.size(), "{} columns printed, {} active", t.cols.size(), active);
  for (auto& col : t.cols) EXPECT(s.Stats().GetLogger().GetEntry(col).IsActive(v), "column {} at level {}", col, (int)v);
  if (!inner) {
    EXPECT(t.headers.size() == (want + freq - 1) / freq, "{} headers for {} rows with frequency {}", t.headers.size(), want, freq);
    for (size_t i = 0; i < t.headers.size(); ++i) EXPECT(t.headers[i] == i * freq, "header {} before row {}", i, t.headers[i]);
  } else {
    EXPECT(!t.headers.empty() && t.headers[0] == 0, "no header");
    if (!s.IsAL()) EXPECT(t.headers.size() == 1, "{} headers", t.headers.size());
  }
  auto at = [&](size_t row, const char* col) { int i = Find(t, col); return i < 0 ? std::string() : t.rows[row][i]; };
  auto check = [&](size_t row, const char* col, double x) {
    std::string q = at(row, col);
    if (!q.empty()) EXPECT(q == Fmt(s, col, x), "row {}: {} is {}, expected {}", row, col, q, Fmt(s, col, x));
  };
  if (inner) {
    for (size_t i = 0; i < want; ++i) {
      check(i, "cost", st.cost[i]);
      check(i, "dJ", st.dJ[i]);
      check(i, "grad", st.grad[i]);
      check(i, "alpha", st.alpha[i]);
      check(i, "z", st.z[i]);
      if (Find(t, "cost") >= 0 && Find(t, "dJ") >= 0) EXPECT(!at(i, "cost").empty() && !at(i, "dJ").empty(), "row {} lacks cost or improvement", i);
      std::string q = at(i, "iters");
      if (!q.empty()) EXPECT(q == fmt::format("{}", i + 1), "row {}: iters {}", i, q);
    }
  } else {
    for (size_t i = 0; i < want; ++i) {
      std::string q = at(i, "iter_al");
      if (Find(t, "iter_al") >= 0) EXPECT(q == fmt::format("{}", i + 1), "row {}: iter_al {}", i, q);
      if (Find(t, "viol") >= 0) EXPECT(!at(i, "viol").empty(), "row {} lacks the violation:\n{}", i, Strip(out));
    }
    check(want - 1, "viol", st.viol.back());
    check(want - 1, "cost", st.cost.back());
    std::string q = at(want - 1, "iters");
    if (!q.empty()) EXPECT(q == fmt::format("{}", st.it_total), "last row: iters {} of {}", q, st.it_total);
  }
  c.label("table checked");
}

void Queries(Ctx& c, Solver& s, altro::problem::Problem& prob, const gen::Spec& sp) {
  pbt::CaptureStdout cap;
  for (int i = 0, M = c.range(0, 4); i < M; ++i) {
    int k = c.range(0, sp.N);
    VectorXd x = gen::Vec(c, sp.n, -2, 2), u = k < sp.N ? gen::Vec(c, sp.m, -2, 2) : VectorXd(VectorXd::Zero(sp.m));
    Traj t = s.GetTraj();
    for (auto& q : t.X) q = gen::Vec(c, sp.n, -2, 2);
    switch (c.range(0, 9)) {
      case 0: prob.GetCostFunction(k)->CheckGradient(x, u, 1e-4, c.chance(1, 2)); break;
      case 1: prob.GetCostFunction(k)->CheckHessian(x, u, VectorXd::Constant(1, 1), 1e-4, c.chance(1, 2)); break;
      case 2: if (k < sp.N) { MatrixXd J = MatrixXd::Zero(sp.n, sp.n + sp.m); prob.GetDynamics(k)->Jacobian(x, u, 0.3f, 0.1f, J); } break;
      case 3: {
        auto& q = prob.GetInequalityConstraints()[k];
        if (!q.empty()) q[0]->CheckJacobian(x, u, 1e-4, c.chance(1, 2));
        break;
      }
      case 4: s.CostAt(t); break;
      case 5: (void)s.Status(); (void)s.Tasks(); (void)s.Stats().ProfileOutputFile(); break;
      default:
        if (!s.IsAL()) { (void)s.Cost(); break; }
        switch (c.range(0, 7)) {
          case 0: s.MaxViolation(0); break;
          case 1: s.MaxViolationAt(t, c.range(0, 2)); break;
          case 2: s.GetMaxViolation(c.range(0, 2)); break;
          case 3: s.Info(c.chance(1, 2)); break;
          case 4: s.PrintViolations(c.chance(1, 2), 4); break;
          case 5: s.GetMaxPenalty(); s.NumCon(); s.NumCon(k); break;
          case 6: s.AlCostEval(k, x, u); break;
          case 7: s.AlCostFn(k)->CheckGradient(x, u, 1e-4, c.chance(1, 2)); break;
        }
    }
  }
  cap.Stop();
}

// The steps a solve is made of, one at a time.
void Steps(Ctx& c, Solver& a, Solver& b, const gen::Spec& sp) {
  c.label("single steps");
  auto both = [&](const char* what, const std::function<void(Solver&)>& f) {
    std::string out;
    { pbt::CaptureStdout cap; f(a); cap.Stop(); }
    { pbt::CaptureStdout cap; f(b); out = cap.Stop(); }
    EXPECT(out.empty(), "output of {} without diagnostics: {}", what, out);
    Traj s = a.GetTraj(), t = b.GetTraj();
    for (int k = 0; k <= sp.N; ++k) EXPECT(SameM(s.X[k], t.X[k]) && (k == sp.N || SameM(s.U[k], t.U[k])), "knot {} after {}: {} with diagnostics, {} without", k, what, gen::Str(s.X[k]), gen::Str(t.X[k]));
    EXPECT(a.Status() == b.Status() && Same(a.Reg(), b.Reg()), "status or regularisation after {}", what);
  };
  // queries may have left the constraint values of another trajectory, which UpdateDuals would use
  if (a.IsAL()) both("MaxViolation", [](Solver& s) { s.MaxViolation(0); });
  if (a.IsAL() && c.chance(2, 3)) both("Init", [](Solver& s) { s.AlInit(); });
  both("SolveSetup", [](Solver& s) { s.SolveSetup(); });
  if (c.chance(4, 5)) both("Rollout", [](Solver& s) { s.Rollout(); });
  for (int it = 0, M = c.range(0, 3); it < M; ++it) {
    both("UpdateExpansions", [](Solver& s) { s.Cost(); s.UpdateExpansions(); });
    both("BackwardPass", [](Solver& s) { s.BackwardPass(); });
    if (a.Status() != SolverStatus::kUnsolved) break;
    both("ForwardPass", [](Solver& s) { s.ForwardPass(); });
    both("UpdateConvergenceStatistics", [](Solver& s) { s.UpdateConvStats(); });
    bool da = false, db = false;
    both("IsDone", [&](Solver& s) { (&s == &a ? da : db) = s.IsDone(); });
    EXPECT(da == db, "IsDone {} with diagnostics, {} without", da, db);
    if (da) break;
  }
  if (a.IsAL()) {
    both("UpdateDuals", [](Solver& s) { s.UpdateDuals(); });
    both("UpdatePenalties", [](Solver& s) { s.UpdatePenalties(); });
  }
}

void Body(Ctx& c) {
  gen::Options o;
  Size z = PickSize(c, &o);
  bool al = c.chance(2, 3);
  gen::Spec sp = rec::RandomSpec(c, o, al);
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  std::string dir = pbt::Scratch(), noise;
  c.note("{}{} {}", al ? "AL " : "", sol::Str(z), sp.Brief());
  auto b = al ? MakeAL(z, prob) : MakeiLQR(z, prob);
  auto a = al ? MakeAL(z, prob) : MakeiLQR(z, prob);
  a->NewTraj(sp);
  b->NewTraj(sp);
  int solves = c.range(1, 3);
  bool any = false;
  int steps = 0;
  SolverPtr b2;   // same table as a, but no profile and default colour limits
  if (c.chance(1, 4)) { b2 = al ? MakeAL(z, prob) : MakeiLQR(z, prob); b2->NewTraj(sp); }
  for (int i = 0; i < solves; ++i) {
    rec::RandomSolveOptions(c, &b->Opts(), al);
    b->Opts().max_iterations_total = std::min(b->Opts().max_iterations_total, 40);
    b->Opts().reset_duals = c.chance(2, 3);
    b->Opts().nthreads = c.chance(1, 8) ? 2 : 1;
    a->Opts() = b->Opts();
    if (b2) b2->Opts() = b->Opts();
    if (al) { auto ml = rec::RandomMultipliers(c, sp); rec::Apply(ml, *a); rec::Apply(ml, *b); if (b2) rec::Apply(ml, *b2); }
    if (c.chance(1, 3)) {   // a guess whose states are not a rollout
      c.label("guess is not a rollout");
      for (int k = 0; k <= sp.N; ++k) { VectorXd x = gen::Vec(c, sp.n, -3, 3); a->SetX(k, x); b->SetX(k, x); if (b2) b2->SetX(k, x); }
    }
    LogLevel v = (LogLevel)c.range(0, 5);
    int freq = c.one_of<int>({10, 1, 2, 3, 7});
    a->Opts().verbose = v;
    a->Opts().header_frequency = freq;
    a->Opts().profiler_enable = c.chance(1, 3);
    a->Opts().profiler_output_to_file = c.chance(1, 2);
    a->Opts().log_directory = dir;
    a->Opts().profile_filename = c.chance(1, 2) ? "p1" : "p2";
    if (c.chance(1, 4)) a->Stats().SetTolerances(c.logreal(1e-6, 1), c.logreal(1e-6, 1), c.logreal(1e-6, 1));
    c.note("verbose={} freq={} profile={}/{}", (int)v, freq, a->Opts().profiler_enable, a->Opts().profiler_output_to_file);
    any |= v != LogLevel::kSilent || a->Opts().profiler_enable;
    Queries(c, *a, prob, sp);
    if (c.chance(1, 4)) { Steps(c, *a, *b, sp); ++steps; }
    std::string outb, outa;
    { pbt::CaptureStdout cap; b->Solve(); outb = cap.Stop(); }
    EXPECT(outb.empty(), "output of a silent solve without profiling: {}", outb);
    { pbt::CaptureStdout cap; a->Solve(); outa = cap.Stop(); }
    Compare(*a, *b, sp.N);
    CheckTable(c, outa, *a, v, freq);
    if (b2 && steps == 0) {
      b2->Opts().verbose = v;
      b2->Opts().header_frequency = freq;
      std::string out2;
      { pbt::CaptureStdout cap; b2->Solve(); out2 = cap.Stop(); }
      EXPECT(Strip(out2) == Strip(outa), "the table depends on profiling, colour limits or queries:\n{}\n---\n{}", Strip(outa), Strip(out2));
      c.label("tables compared");
    }
    if (any && b->Stats().iterations_total >= 2) c.nontrivial();
    Queries(c, *a, prob, sp);
    if (c.chance(1, 2))
      for (int k = 0; k < sp.N; ++k) { VectorXd u = gen::Vec(c, sp.m, -1, 1); a->SetU(k, u); b->SetU(k, u); if (b2) b2->SetU(k, u); }
  }
  std::string outb;
  { pbt::CaptureStdout cap; b.reset(); outb = cap.Stop(); }
  EXPECT(outb.empty(), "output when a solver without diagnostics is destroyed: {}", outb);
  { pbt::CaptureStdout cap; a.reset(); cap.Stop(); }
}

// Columns of a level contain those of all lower levels, in the same order.
void Levels(Ctx& c) {
  gen::Options o;
  Size z = PickSize(c, &o);
  o.Nmax = 4;
  bool al = c.chance(1, 2);
  gen::Spec sp = rec::RandomSpec(c, o, al);
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  c.note("{}{} {}", al ? "AL " : "", sol::Str(z), sp.Brief());
  std::vector<std::string> prev;
  std::vector<std::vector<std::string>> prev_rows;
  LogLevel pv = LogLevel::kSilent;
  for (int v = 1; v <= 5; ++v) {
    auto s = al ? MakeAL(z, prob) : MakeiLQR(z, prob);
    s->NewTraj(sp);
    s->Opts().max_iterations_inner = 5;
    s->Opts().max_iterations_outer = 3;
    s->Opts().verbose = (LogLevel)v;
    std::string out;
    { pbt::CaptureStdout cap; s->Solve(); out = cap.Stop(); }
    if (s->Stats().iterations_total == 0 || (!al && v < 3)) continue;
    Table t = Parse(out, *s);
    size_t j = 0;
    for (auto& col : t.cols) if (j < prev.size() && prev[j] == col) ++j;
    EXPECT(j == prev.size(), "level {} lacks a column of level {}, or has another order", v, v - 1);
    // between levels that report the same kind of iteration, the shared columns hold the same data
    if (!prev.empty() && ((int)pv >= 3) == (v >= 3)) {
      EXPECT(prev_rows.size() == t.rows.size(), "{} rows at level {}, {} at level {}", t.rows.size(), v, prev_rows.size(), v - 1);
      for (size_t r = 0; r < t.rows.size(); ++r)
        for (size_t q = 0; q < prev.size(); ++q) EXPECT(prev_rows[r][q] == t.rows[r][Find(t, prev[q])], "row {} column {}", r, prev[q]);
    }
    prev = t.cols;
    prev_rows = t.rows;
    pv = (LogLevel)v;
    c.nontrivial();
  }
}
}  // namespace

PBT_CHECK(diagnostics, 3000, 60000) { Body(c); }
PBT_CHECK(levels, 600, 6000) { Levels(c); }
