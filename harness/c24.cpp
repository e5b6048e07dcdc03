// C24: misuse is stopped by an assertion at the call; correct use never trips one.
#include <csignal>
#include <unistd.h>

#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/common/knotpoint.hpp"
#include "altro/common/log_entry.hpp"
#include "altro/common/solver_logger.hpp"
#include "altro/common/threadpool.hpp"
#include "altro/common/trajectory.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "gen.hpp"
using namespace gen;
using altro::constraints::Equality;
using altro::constraints::Inequality;
using altro::problem::CostFunction;
using altro::problem::DiscreteDynamics;
using altro::problem::Problem;

const pbt::PropertyInfo pbt::kProperty = {
    "C24",
    "A case draws an entry point with documented preconditions, a valid preceding history for the object it is called on and "
    "arguments (or a lifecycle state) on either side of the boundary of what is documented, and runs the call in a forked "
    "child. Oracle: if the precondition is violated the child must die by an assertion with a diagnostic before the call "
    "returns, without sanitizer report, other signal or hang; if it is respected the call must return, the object must stay "
    "usable and the child must exit normally. Non-trivial: a misuse, or an argument at the boundary of the valid range.",
    {"a thrown std::out_of_range is accepted as the diagnostic of GetALCost, which documents no assertion",
     "values documented inconsistently (penalty 0, penalty scaling 1, k_stop 0) are not generated",
     "assertions are enabled (no NDEBUG), as in the repository's default build"}};

namespace {
struct Act {
  std::string what;
  bool bad = false;
  bool edge = false;      // at the boundary of the valid range
  bool throw_ok = false;
  std::function<void()> prep, call, after;
};
void Mark(const char* m) {
  if (write(2, m, strlen(m)) < 0) _exit(98);
}
void Judge(Ctx& c, const Act& a) {
  c.note("{} -> {}", a.what, a.bad ? "misuse" : "valid");
  c.label(a.bad ? "misuse" : "valid");
  if (a.bad || a.edge) c.nontrivial();
  c.key(a.what + (a.bad ? "!" : "."));
  auto r = pbt::RunChild([&] {
    if (a.prep) a.prep();
    Mark("\n@PREPARED@\n");
    a.call();
    Mark("\n@RETURNED@\n");
    if (a.after) a.after();
    Mark("\n@END@\n");
  }, 40);
  auto has = [&](const char* s) { return r.err.find(s) != std::string::npos; };
  std::string tail = r.err.size() > 900 ? r.err.substr(r.err.size() - 900) : r.err;
  for (char& ch : tail) if (ch == '\n') ch = '|';
  EXPECT(!r.timeout, "{}: does not return ({})", a.what, tail);
  EXPECT(has("@PREPARED@"), "{}: the valid preceding history failed: {}", a.what, tail);
  EXPECT(!has("AddressSanitizer") && !has("runtime error:"), "{}: memory error or undefined behaviour: {}", a.what, tail);
  if (!a.bad) {
    EXPECT(has("@RETURNED@"), "{}: rejected although its preconditions hold: {}", a.what, tail);
    EXPECT(r.exited && r.exit_code == 0 && has("@END@"), "{}: unusable after a valid call: {}", a.what, tail);
  } else {
    EXPECT(!has("@RETURNED@"), "{}: misuse accepted silently", a.what);
    if (a.throw_ok && r.exited && r.exit_code == 99 && has("uncaught exception")) return;
    EXPECT(r.signaled && r.signal == SIGABRT, "{}: misuse ends without an assertion (exit {} signal {}): {}", a.what, r.exit_code, r.signal, tail);
    EXPECT(has("Assert failed") || has("Assertion `"), "{}: no diagnostic: {}", a.what, tail);
  }
}

// An index around [0, N]: mostly near the ends.
int Index(Ctx& c, int N) {
  switch (c.below(8)) {
    case 0: return 0;
    case 1: return N;
    case 2: return -1;
    case 3: return N + 1;
    case 4: return N - 1;
    case 5: return c.range(0, N);
    case 6: return N + 2 + (int)c.below(3);
    default: return c.one_of<int>({-2, -3, -100, 1000000, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()});
  }
}
bool Edge(int k, int N) { return k <= 1 || k >= N - 1; }

// A user constraint that defines no more than it has to.
template <class ConType>
class BareCon : public altro::constraints::Constraint<ConType> {
 public:
  BareCon(int n, int m, int p) : n_(n), m_(m), p_(p) {}
  int OutputDimension() const override { return p_; }
  std::string GetLabel() const override { return "bare"; }
  void Evaluate(const altro::VectorXdRef& x, const altro::VectorXdRef& u, Eigen::Ref<VectorXd> out) override {
    for (int i = 0; i < p_; ++i) out(i) = 0.1 * (i + 1) * (x(i % n_) + u(i % m_)) - 5;
  }
  void Jacobian(const altro::VectorXdRef&, const altro::VectorXdRef&, Eigen::Ref<MatrixXd> jac) override {
    jac.setZero();
    for (int i = 0; i < p_; ++i) {
      jac(i, i % n_) = 0.1 * (i + 1);
      jac(i, n_ + i % m_) += 0.1 * (i + 1);
    }
  }

 private:
  int n_, m_, p_;
};

Options SmallOpts() {
  Options o;
  o.nmax = 3;
  o.mmax = 2;
  o.Nmax = 5;
  o.nonquadratic = false;
  return o;
}
DynSpec OneDyn(Ctx& c, int n, int m) { return MakeDyn(c, n, m, SmallOpts()); }
CostSpec OneCost(Ctx& c, int n, int m) { return MakeCost(c, n, m, false, SmallOpts()); }
std::shared_ptr<DiscreteDynamics> DynPtr(Ctx& c, int n, int m) { return std::make_shared<UDyn>(OneDyn(c, n, m), nullptr); }
std::shared_ptr<CostFunction> CostPtr(Ctx& c, int n, int m) { return std::make_shared<UCost>(OneCost(c, n, m), nullptr); }

// -------------------------------------------------------------------------------------- problem
void ProblemUse(Ctx& c) {
  int N = c.range(1, 6), n = c.range(1, 3), m = c.range(1, 2);
  auto p = std::make_shared<Problem>(N);
  std::vector<char> dyn(N + 1, 0), cost(N + 1, 0);
  // valid preceding history
  int ops = c.range(0, 12);
  for (int i = 0; i < ops; ++i) {
    int k = c.range(0, N);
    switch (c.below(4)) {
      case 0: p->SetCostFunction(CostPtr(c, n, m), k); cost[k] = 1; break;
      case 1:
        k = std::min(k, N - 1);
        p->SetDynamics(DynPtr(c, n, m), k);
        dyn[k] = 1;
        if (k == N - 1) dyn[N] = 1;
        break;
      case 2:
        if (c.chance(1, 2)) p->SetConstraint(std::make_shared<BareCon<Equality>>(n, m, c.range(1, 3)), k);
        else p->SetConstraint(std::make_shared<BareCon<Inequality>>(n, m, c.range(1, 3)), k);
        break;
      default: p->SetInitialState(Vec(c, n)); break;
    }
  }
  if (c.chance(1, 4)) p = std::make_shared<Problem>(*p);
  else if (c.chance(1, 4)) p = std::make_shared<Problem>(std::move(*p));
  Act a;
  int k = Index(c, N);
  a.edge = Edge(k, N);
  a.after = [p, N] {
    for (int i = 0; i <= N; ++i) p->NumConstraints(i), p->GetCostFunction(i);
    p->NumConstraints();
    p->IsFullyDefined();
  };
  switch (c.below(12)) {
    case 0: {
      auto f = CostPtr(c, n, m);
      a.what = fmt::format("SetCostFunction(f, {}) N={}", k, N);
      a.bad = k < 0 || k > N;
      a.call = [=] { p->SetCostFunction(f, k); };
      break;
    }
    case 1: {
      auto f = DynPtr(c, n, m);
      a.what = fmt::format("SetDynamics(f, {}) N={}", k, N);
      a.bad = k < 0 || k >= N;
      a.call = [=] { p->SetDynamics(f, k); };
      break;
    }
    case 2: {
      k = c.range(0, N - 1);
      a.what = fmt::format("SetDynamics(null, {}) N={}", k, N);
      a.bad = true;
      a.call = [=] { p->SetDynamics(std::shared_ptr<DiscreteDynamics>(), k); };
      break;
    }
    case 3:
    case 4: {
      bool eq = c.chance(1, 2);
      int len = c.chance(1, 5) ? 0 : c.range(1, 3);
      bool null = c.chance(1, 6);
      if (null || len == 0) k = c.range(0, N);
      a.what = fmt::format("SetConstraint<{}>({}, {}) N={}", eq ? "Eq" : "Ineq", null ? "null" : fmt::format("length {}", len), k, N);
      a.bad = null || len == 0 || k < 0 || k > N;
      if (eq) {
        std::shared_ptr<BareCon<Equality>> f = null ? nullptr : std::make_shared<BareCon<Equality>>(n, m, len);
        a.call = [=] { p->SetConstraint(f, k); };
      } else {
        std::shared_ptr<BareCon<Inequality>> f = null ? nullptr : std::make_shared<BareCon<Inequality>>(n, m, len);
        a.call = [=] { p->SetConstraint(f, k); };
      }
      break;
    }
    case 5:
      a.what = fmt::format("NumConstraints({}) N={}", k, N);
      a.bad = k < 0 || k > N;
      a.call = [=] { p->NumConstraints(k); };
      break;
    case 6:
      a.what = fmt::format("GetCostFunction({}) N={}", k, N);
      a.bad = k < 0 || k > N;
      a.call = [=] { p->GetCostFunction(k); };
      break;
    case 7:
    case 8: {
      bool def = k >= 0 && k <= N && dyn[k];
      a.what = fmt::format("GetDynamics({}) N={} {}", k, N, def ? "defined" : "undefined");
      a.bad = !def;
      a.call = [=] { p->GetDynamics(k); };
      break;
    }
    case 9: {
      int cnt = c.range(0, N + 2), st = c.chance(1, 2) ? 0 : c.range(-2, N + 2);
      std::vector<std::shared_ptr<CostFunction>> v;
      for (int i = 0; i < cnt; ++i) v.push_back(CostPtr(c, n, m));
      a.what = fmt::format("SetCostFunction(vector of {}, start {}) N={}", cnt, st, N);
      a.bad = cnt > 0 && (st < 0 || st + cnt - 1 > N);
      a.edge = st == 0 || st + cnt - 1 == N;
      a.call = [=] { p->SetCostFunction(v, st); };
      break;
    }
    case 10: {
      int cnt = c.range(0, N + 1), st = c.chance(1, 2) ? 0 : c.range(-2, N + 1);
      std::vector<std::shared_ptr<DiscreteDynamics>> v;
      for (int i = 0; i < cnt; ++i) v.push_back(DynPtr(c, n, m));
      int hole = cnt && c.chance(1, 5) ? (int)c.below(cnt) : -1;
      if (hole >= 0) v[hole] = nullptr;
      a.what = fmt::format("SetDynamics(vector of {}{}, start {}) N={}", cnt, hole >= 0 ? " with a null" : "", st, N);
      a.bad = cnt > 0 && (hole >= 0 || st < 0 || st + cnt - 1 >= N);
      a.edge = st == 0 || st + cnt == N;
      a.call = [=] { p->SetDynamics(v, st); };
      break;
    }
    default: {
      int nn = c.range(-1, 3), mm = c.range(-1, 3);
      a.what = fmt::format("IdentityDynamics({}, {})", nn, mm);
      a.bad = nn <= 0 || mm <= 0;
      a.edge = nn <= 1 || mm <= 1;
      a.call = [=] { altro::problem::IdentityDynamics f(nn, mm); };
      a.after = nullptr;
    }
  }
  Judge(c, a);
}

// -------------------------------------------------------------------------------------- solvers
// Which defect a problem has (nullptr: none).
const char* Spoil(Ctx& c, const Spec& s, Problem* p, int how) {
  int k = c.range(0, s.N);
  switch (how) {
    case 1: p->SetCostFunction(std::shared_ptr<CostFunction>(), k); return "missing cost";
    case 2: return "missing dynamics";  // handled by the caller
    case 3: p->SetInitialState(VectorXd(0)); return "missing initial state";
    default: p->SetInitialState(VectorXd::Zero(s.n + 1 + (int)c.below(2))); return "initial state of wrong size";
  }
}
// Fills a problem, optionally incomplete.
std::shared_ptr<Problem> Make(Ctx& c, const Spec& s, bool bad, std::string* how) {
  auto p = std::make_shared<Problem>(s.N);
  if (!bad) {
    Fill(s, p.get());
    return p;
  }
  int h = c.range(1, 4);
  if (h == 2) {
    int k = c.range(0, s.N - 1);
    for (int i = 0; i < s.N; ++i)
      if (i != k) p->SetDynamics(std::shared_ptr<DiscreteDynamics>(std::make_shared<UDyn>(s.dyn[i], nullptr)), i);
    for (int i = 0; i <= s.N; ++i) p->SetCostFunction(std::shared_ptr<CostFunction>(std::make_shared<UCost>(s.cost[i], nullptr)), i);
    p->SetInitialState(s.x0);
    *how = "missing dynamics";
  } else {
    Fill(s, p.get());
    *how = Spoil(c, s, p.get(), h);
  }
  return p;
}
template <int n, int m>
std::shared_ptr<altro::Trajectory<n, m>> TrajOf(int sn, int sm, int N) {
  auto Z = std::make_shared<altro::Trajectory<n, m>>(sn, sm, N);
  Z->SetUniformStep(0.1);
  return Z;
}
// A division of [0, N+1] into tasks, possibly spoilt.
std::vector<int> Tasks(Ctx& c, int N, bool* bad, std::string* how) {
  std::vector<int> v{0};
  for (int k = 1; k <= N; ++k)
    if (c.chance(1, 3)) v.push_back(k);
  v.push_back(N + 1);
  *bad = true;
  switch (c.below(10)) {
    case 0: v.clear(); *how = "empty"; break;
    case 1: v = {c.chance(1, 2) ? 0 : N + 1}; *how = "one element"; break;
    case 2: v.front() = c.one_of<int>({-1, 1, -5}); *how = "first element not 0"; break;
    case 3: v.back() = c.one_of<int>({N, N + 2, N + 7}); *how = "last element not N+1"; break;
    case 4: {
      int i = (int)c.below(v.size());
      v.insert(v.begin() + i, v[i]);
      *how = "duplicate";
      break;
    }
    case 5: {
      int i = c.range(1, (int)v.size() - 1);  // before position i, a value that breaks the order
      int w = c.chance(1, 2) ? v[i] + c.range(0, 3) : v[i - 1] - c.range(0, 3);
      v.insert(v.begin() + i, w);
      *how = "not increasing";
      break;
    }
    case 6: v.insert(v.begin() + 1, c.chance(1, 2) ? -1 : N + 2); *how = "inner element out of range"; break;
    default: *bad = false; *how = "valid";
  }
  // a mutation can leave a valid division (e.g. inserting in a gap): recompute
  bool ok = v.size() >= 2 && v.front() == 0 && v.back() == N + 1;
  for (size_t i = 1; i < v.size(); ++i) ok = ok && v[i] > v[i - 1];
  *bad = !ok;
  return v;
}

template <int n, int m>
void ILQRUse(Ctx& c) {
  using Solver = altro::ilqr::iLQR<n, m>;
  Options o = SmallOpts();
  if (n > 0) o.n = n;
  if (m > 0) o.m = m;
  Spec s = MakeSpec(c, o);
  const int N = s.N;
  int threads = c.range(1, 3);
  enum { kEmpty, kPartial, kReady } st = c.chance(1, 4) ? kEmpty : c.chance(1, 5) ? kPartial : kReady;
  int part = c.range(1, N);                       // knot points copied when partial
  enum { kNone, kWrong, kGood } tr = c.chance(1, 4) ? kNone : c.chance(1, 4) ? kWrong : kGood;
  int wrongN = c.chance(1, 3) ? c.range(1, N + 3) : c.chance(1, 2) ? N + 1 : std::max(1, N - 1);
  if (tr == kWrong && wrongN == N) tr = kGood;
  bool solved = st == kReady && c.chance(1, 3);   // a complete solve happened before
  bool moved = c.chance(1, 5);
  auto p = std::make_shared<Problem>(N);
  Fill(s, p.get());
  auto sp = std::make_shared<std::unique_ptr<Solver>>(std::make_unique<Solver>(N));
  auto prep = [=] {
    Solver& q = **sp;
    q.GetOptions().nthreads = threads;
    q.GetOptions().max_iterations_inner = 3;
    if (st == kReady) q.InitializeFromProblem(*p);
    if (st == kPartial) q.CopyFromProblem(*p, 0, part);
    if (solved) {
      q.SetTrajectory(MakeTraj<n, m>(s));
      q.Solve();
    }
    if (tr == kWrong) q.SetTrajectory(TrajOf<n, m>(s.n, s.m, wrongN));
    if (tr == kGood) q.SetTrajectory(MakeTraj<n, m>(s));
    if (moved) *sp = std::make_unique<Solver>(std::move(q));
  };
  // the trajectory in force
  if (tr == kNone && solved) tr = kGood;
  const char* stn[] = {"uninitialised", "partially initialised", "initialised"};
  const char* trn[] = {"no trajectory", "trajectory of wrong length", "trajectory"};
  std::string ctx = fmt::format("iLQR<{},{}> N={} {} {}{}{}", n, m, N, stn[st], trn[tr], solved ? " solved" : "", moved ? " moved" : "");
  c.label(stn[st]);
  c.label(trn[tr]);
  Act a;
  a.prep = prep;
  auto use = [=] {  // the solver stays usable
    Solver& q = **sp;
    if (st != kReady) return;
    q.SetTrajectory(MakeTraj<n, m>(s));
    q.Solve();
  };
  a.after = use;
  bool runnable = st == kReady && tr == kGood;
  a.edge = true;
  switch (c.below(13)) {
    case 0: {
      int k = Index(c, N);
      a.what = fmt::format("GetKnotPointFunction({})", k);
      a.bad = k < 0 || k > N || st == kEmpty || (st == kPartial && k >= part);
      // a partially copied solver: whether present knot points may be queried is not documented
      if (st == kPartial && k >= 0 && k < part) c.discard();
      a.call = [=] { (*sp)->GetKnotPointFunction(k).StateDimension(); };
      break;
    }
    case 1:
    case 2: {
      bool bad;
      std::string how;
      auto v = Tasks(c, N, &bad, &how);
      a.what = fmt::format("SetTaskAssignment({})", fmt::join(v, ","));
      a.bad = bad;
      c.label("tasks " + how);
      a.call = [=] { (*sp)->SetTaskAssignment(v); };
      break;
    }
    case 3:
    case 4:
      a.what = "Solve()";
      a.bad = !runnable;
      a.call = [=] { (*sp)->Solve(); };
      break;
    case 5:
      a.what = "Cost()";
      a.bad = !runnable;
      a.call = [=] { (*sp)->Cost(); };
      break;
    case 6: {
      int M = c.chance(1, 2) ? N : wrongN;
      auto Z = TrajOf<n, m>(s.n, s.m, M);
      a.what = fmt::format("Cost(trajectory of {} segments)", M);
      a.bad = st != kReady || M != N;
      a.call = [=] { (*sp)->Cost(*Z); };
      break;
    }
    case 7:
      a.what = "UpdateExpansions()";
      a.bad = !runnable;
      a.call = [=] { (*sp)->UpdateExpansions(); };
      break;
    case 8:
      a.what = "SetTrajectory(null)";
      a.bad = true;
      a.call = [=] { (*sp)->SetTrajectory(nullptr); };
      break;
    case 9: {
      // initialise a fresh solver of N segments with a problem
      int M = c.chance(1, 2) ? N : std::max(1, N + c.range(-1, 2));
      bool dims = c.chance(1, 4), inc = c.chance(1, 3);
      Options o2 = o;
      o2.Nmin = o2.Nmax = M;
      o2.n = s.n;
      o2.m = s.m;
      if (dims) (c.chance(1, 2) ? o2.n : o2.m) += c.one_of<int>({1, 2});
      Spec s2 = MakeSpec(c, o2);
      std::string how;
      auto p2 = Make(c, s2, inc, &how);
      bool wrongdims = (n > 0 && s2.n != n) || (m > 0 && s2.m != m);
      a.what = fmt::format("InitializeFromProblem({} segments, {}x{} {})", M, s2.n, s2.m, inc ? how : "complete");
      a.bad = M != N || inc || wrongdims;
      auto fresh = std::make_shared<Solver>(N);
      a.call = [=] { fresh->InitializeFromProblem(*p2); };
      a.after = [=] {
        fresh->SetTrajectory(MakeTraj<n, m>(s2));
        fresh->GetOptions().max_iterations_inner = 2;
        fresh->Solve();
      };
      break;
    }
    case 10:
    case 11: {
      int k0 = Index(c, N), k1 = Index(c, N + 1);
      if (c.chance(1, 2)) k0 = c.range(0, N);
      else if (c.chance(1, 2)) k1 = c.range(1, N + 1);
      if (k1 == 0) c.discard();
      bool inc = c.chance(1, 6);
      std::string how;
      int M = c.chance(1, 5) ? std::max(1, N + c.range(-1, 1)) : N;
      Spec s2 = s;
      if (M != N) {
        Options o2 = o;
        o2.Nmin = o2.Nmax = M;
        o2.n = s.n;
        o2.m = s.m;
        s2 = MakeSpec(c, o2);
      }
      auto p2 = Make(c, s2, inc, &how);
      a.what = fmt::format("CopyFromProblem({}, {}) of {} segments{}", k0, k1, M, inc ? " " + how : "");
      a.bad = k0 < 0 || k0 > N || k1 < 0 || k1 > N + 1 || inc || M != N;
      auto fresh = std::make_shared<Solver>(N);
      a.call = [=] { fresh->CopyFromProblem(*p2, k0, k1); };
      a.after = nullptr;
      break;
    }
    default: {
      a.what = "MakeTrajectory()";
      bool unknown = st == kEmpty && (n < 0 || m < 0);
      a.bad = unknown;
      a.call = [=] { (*sp)->MakeTrajectory(0.1f); };
    }
  }
  a.what = ctx + " " + a.what;
  Judge(c, a);
}

template <int n, int m>
void ALUse(Ctx& c) {
  using Solver = altro::augmented_lagrangian::AugmentedLagrangianiLQR<n, m>;
  Options o = SmallOpts();
  if (n > 0) o.n = n;
  if (m > 0) o.m = m;
  o.max_con = c.range(0, 2);
  Spec s = MakeSpec(c, o);
  const int N = s.N;
  int threads = c.range(1, 3);
  bool bare = c.chance(1, 3);
  bool init = c.chance(3, 4);
  enum { kNone, kWrong, kGood } tr = c.chance(1, 4) ? kNone : c.chance(1, 4) ? kWrong : kGood;
  int wrongN = c.chance(1, 2) ? N + 1 : c.chance(1, 2) ? N + 3 : std::max(1, N - 1);
  if (tr == kWrong && wrongN == N) tr = kGood;
  bool solved = init && c.chance(1, 3);
  auto p = std::make_shared<Problem>(N);
  Fill(s, p.get());
  std::vector<int> neq(N + 1, 0), nineq(N + 1, 0), ncon(N + 1, 0);
  for (int k = 0; k <= N; ++k)
    for (auto& q : s.con[k]) (q.eq ? neq[k] : nineq[k])++, ncon[k] += q.p;
  if (bare) {
    int k = c.range(0, N), len = c.range(1, 3);
    p->SetConstraint(std::make_shared<BareCon<Inequality>>(s.n, s.m, len), k);
    nineq[k]++;
    ncon[k] += len;
  }
  int total = 0;
  for (int v : ncon) total += v;
  auto sp = std::make_shared<std::unique_ptr<Solver>>(std::make_unique<Solver>(N));
  Act a;
  a.prep = [=] {
    Solver& q = **sp;
    auto setopt = [&](Solver& z) {
      z.GetOptions().nthreads = threads;
      z.GetOptions().max_iterations_inner = 3;
      z.GetOptions().max_iterations_outer = 2;
    };
    setopt(q);
    if (init) q.InitializeFromProblem(*p);
    if (solved) {
      q.SetTrajectory(MakeTraj<n, m>(s));
      q.Solve();
    }
    if (tr == kWrong) q.SetTrajectory(TrajOf<n, m>(s.n, s.m, wrongN));
    if (tr == kGood) q.SetTrajectory(MakeTraj<n, m>(s));
  };
  if (tr == kNone && solved) tr = kGood;
  a.after = [=] {
    if (!init) return;
    Solver& q = **sp;
    q.SetTrajectory(MakeTraj<n, m>(s));
    q.Solve();
    q.GetConstraintInfo();
    q.NumConstraints();
  };
  const char* trn[] = {"no trajectory", "trajectory of wrong length", "trajectory"};
  std::string ctx = fmt::format("AL<{},{}> N={} {} {}{} {} constraints", n, m, N, init ? "initialised" : "uninitialised", trn[tr], solved ? " solved" : "", total);
  c.label(init ? "al initialised" : "al uninitialised");
  c.label(trn[tr]);
  bool runnable = init && tr == kGood;
  a.edge = true;
  switch (c.below(22)) {
    case 0:
    case 1: {
      int k = Index(c, N);
      a.what = fmt::format("NumConstraints({})", k);
      a.bad = k < 0 || k > N || !init;
      int want = a.bad ? 0 : ncon[k];
      a.call = [=] {
        if ((*sp)->NumConstraints(k) != want) _exit(97);
      };
      break;
    }
    case 2:
      a.what = "NumConstraints()";
      a.bad = !init;
      a.call = [=] { (*sp)->NumConstraints(); };
      break;
    case 3: {
      int k = Index(c, N);
      a.what = fmt::format("GetALCost({})", k);
      a.bad = k < 0 || k > N || !init;
      a.throw_ok = true;
      a.call = [=] { (*sp)->GetALCost(k)->NumConstraints(); };
      break;
    }
    case 4:
    case 5:
      a.what = "Solve()";
      a.bad = !runnable;
      a.call = [=] { (*sp)->Solve(); };
      break;
    case 6: {
      double rho = c.one_of<double>({-1e-12, -1.0, -100.0, 1e-12, 1.0, 50.0});
      if (total == 0) c.discard();
      a.what = fmt::format("SetPenalty({})", rho);
      a.bad = rho < 0 || !init;
      a.call = [=] { (*sp)->SetPenalty(rho); };
      break;
    }
    case 7: {
      double phi = c.one_of<double>({0.999999, 0.5, 0.0, -2.0, 1.000001, 2.0, 10.0});
      if (total == 0) c.discard();
      a.what = fmt::format("SetPenaltyScaling({})", phi);
      a.bad = phi < 1 || !init;
      a.call = [=] { (*sp)->SetPenaltyScaling(phi); };
      break;
    }
    case 8: {
      bool sort = c.chance(1, 2);
      a.what = "GetConstraintInfo()";
      a.bad = !init;
      a.call = [=] { (*sp)->GetConstraintInfo(sort); };
      break;
    }
    case 9:
      a.what = "PrintViolations()";
      a.bad = !init;
      a.call = [=] { (*sp)->PrintViolations(); };
      break;
    case 10:
      a.what = "MaxViolation()";
      a.bad = !runnable;
      a.call = [=] { (*sp)->MaxViolation(); };
      break;
    case 11: {
      int M = c.chance(1, 2) ? N : wrongN;
      auto Z = TrajOf<n, m>(s.n, s.m, M);
      a.what = fmt::format("MaxViolation(trajectory of {} segments)", M);
      a.bad = !init || M != N;
      a.call = [=] { (*sp)->MaxViolation(*Z); };
      break;
    }
    case 12:
      a.what = "GetMaxViolation()";
      a.bad = !init;
      a.call = [=] { (*sp)->GetMaxViolation(); };
      break;
    case 13:
      a.what = "GetMaxPenalty()";
      a.bad = !init;
      a.call = [=] { (*sp)->GetMaxPenalty(); };
      break;
    case 14:
      a.what = "UpdateDuals()";
      a.bad = !init;
      a.call = [=] { (*sp)->UpdateDuals(); };
      break;
    case 15:
      a.what = "UpdatePenalties()";
      a.bad = !init;
      a.call = [=] { (*sp)->UpdatePenalties(); };
      break;
    case 16: {
      a.what = "Init()";
      a.bad = !runnable;
      a.call = [=] { (*sp)->Init(); };
      break;
    }
    case 17:
    case 18: {
      // per-constraint setters of the AL cost
      if (!init) c.discard();
      int k = c.range(0, N);
      bool eq = c.chance(1, 2), scal = c.chance(1, 2);
      int num = eq ? neq[k] : nineq[k];
      int i = c.chance(2, 3) ? c.range(-1, num + 1) : Index(c, num);
      double v = scal ? c.one_of<double>({2.0, 0.5, 10.0, 4.0}) : c.one_of<double>({2.0, -0.5, 10.0, 4.0});
      a.what = fmt::format("GetALCost({})->SetPenalty{}<{}>({}, {}) of {}", k, scal ? "Scaling" : "", eq ? "Eq" : "Ineq", v, i, num);
      a.bad = i < 0 || i >= num || v < (scal ? 1 : 0);
      a.call = [=] {
        auto f = (*sp)->GetALCost(k);
        if (eq) scal ? f->template SetPenaltyScaling<Equality>(v, i) : f->template SetPenalty<Equality>(v, i);
        else scal ? f->template SetPenaltyScaling<Inequality>(v, i) : f->template SetPenalty<Inequality>(v, i);
      };
      break;
    }
    case 19: {
      bool null = c.chance(1, 2);
      if (!init) c.discard();
      int k = c.range(0, N);
      auto f = null ? nullptr : CostPtr(c, s.n, s.m);
      a.what = fmt::format("GetALCost({})->SetCostFunction({})", k, null ? "null" : "f");
      a.bad = null;
      a.call = [=] { (*sp)->GetALCost(k)->SetCostFunction(f); };
      break;
    }
    case 20: {
      // an AL cost with or without its cost function; a knot point in or out of range
      int how = (int)c.below(3);
      using Cost = altro::augmented_lagrangian::ALCost<n, m>;
      if (how == 0) {
        int k = Index(c, N);
        a.what = fmt::format("ALCost(problem, {})", k);
        a.bad = k < 0 || k > N;
        a.call = [=] { Cost f(*p, k); };
        a.prep = a.after = nullptr;
      } else {
        bool set = c.chance(1, 2);
        int op = (int)c.below(3);
        auto f = CostPtr(c, s.n, s.m);
        a.what = fmt::format("ALCost {} cost function: {}", set ? "with" : "without", op == 0 ? "Evaluate" : op == 1 ? "Gradient" : "Hessian");
        a.bad = !set;
        auto g = std::make_shared<Cost>(s.n, s.m);
        int sn = s.n, sm = s.m;
        a.prep = [=] { if (set) g->SetCostFunction(f); };
        a.call = [=] {
          VectorXd x = VectorXd::Ones(sn), u = VectorXd::Ones(sm), dx = VectorXd::Zero(sn), du = VectorXd::Zero(sm);
          MatrixXd xx = MatrixXd::Zero(sn, sn), xu = MatrixXd::Zero(sn, sm), uu = MatrixXd::Zero(sm, sm);
          if (op == 0) g->Evaluate(x, u);
          if (op == 1) g->Gradient(x, u, dx, du);
          if (op == 2) g->Hessian(x, u, xx, xu, uu);
        };
        a.after = nullptr;
      }
      break;
    }
    default: {
      int M = c.chance(1, 2) ? N : std::max(1, N + c.range(-2, 2));
      bool dims = c.chance(1, 4), inc = c.chance(1, 3), ctor = M == N && c.chance(1, 2);
      Options o2 = o;
      o2.Nmin = o2.Nmax = M;
      o2.n = s.n;
      o2.m = s.m;
      if (dims) (c.chance(1, 2) ? o2.n : o2.m) += c.one_of<int>({1, 2});
      Spec s2 = MakeSpec(c, o2);
      std::string how;
      auto p2 = Make(c, s2, inc, &how);
      bool wrongdims = (n > 0 && s2.n != n) || (m > 0 && s2.m != m);
      a.what = fmt::format("{}({} segments, {}x{} {})", ctor ? "constructor" : "InitializeFromProblem", M, s2.n, s2.m, inc ? how : "complete");
      a.bad = M != N || inc || wrongdims;
      auto hold = std::make_shared<std::unique_ptr<Solver>>();
      a.prep = [=] { if (!ctor) *hold = std::make_unique<Solver>(N); };
      a.call = [=] {
        if (ctor) *hold = std::make_unique<Solver>(*p2);
        else (*hold)->InitializeFromProblem(*p2);
      };
      a.after = [=] {
        (*hold)->SetTrajectory(MakeTraj<n, m>(s2));
        (*hold)->GetOptions().max_iterations_inner = 2;
        (*hold)->GetOptions().max_iterations_outer = 2;
        (*hold)->Solve();
      };
    }
  }
  a.what = ctx + " " + a.what;
  Judge(c, a);
}

// -------------------------------------------------------------------------------------- data types
template <int n, int m>
void SizedUse(Ctx& c) {
  Act a;
  int nn = c.chance(1, 2) && n > 0 ? n : c.range(1, 5), mm = c.chance(1, 2) && m > 0 ? m : c.range(1, 5);
  if (n > 0 && c.chance(1, 8)) nn = 0;
  if (m > 0 && c.chance(1, 8)) mm = 0;
  bool fits = (n < 0 || nn == n) && (m < 0 || mm == m);
  a.edge = true;
  switch (c.below(10)) {
    case 0:
      a.what = fmt::format("StateControlSized<{},{}>({},{})", n, m, nn, mm);
      a.bad = !fits;
      a.call = [=] { altro::StateControlSized<n, m> z(nn, mm); };
      break;
    case 1:
      a.what = fmt::format("StateControlSized<{},{}>()", n, m);
      a.bad = n < 0 || m < 0;
      a.call = [=] { altro::StateControlSized<n, m> z; };
      break;
    case 2:
      a.what = fmt::format("KnotPoint<{},{}>({},{})", n, m, nn, mm);
      a.bad = !fits;
      a.call = [=] { altro::KnotPoint<n, m> z(nn, mm); };
      break;
    case 3: {
      auto z = std::make_shared<altro::KnotPoint<-1, -1>>(nn, mm);
      a.what = fmt::format("KnotPoint<{},{}>(run-time knot point {}x{})", n, m, nn, mm);
      a.bad = !fits;
      a.call = [=] { altro::KnotPoint<n, m> y(*z); };
      break;
    }
    case 4:
      a.what = fmt::format("KnotPoint<{},{}>::Random()", n, m);
      a.bad = n < 0 || m < 0;
      a.call = [=] { altro::KnotPoint<n, m>::Random(); };
      break;
    case 5: {
      int N = c.range(0, 4);
      a.what = fmt::format("Trajectory<{},{}>({},{},{})", n, m, nn, mm, N);
      a.bad = !fits;
      a.call = [=] { altro::Trajectory<n, m> Z(nn, mm, N); };
      break;
    }
    case 6: {
      int ex = c.range(0, 4), eu = c.chance(1, 2) ? std::max(0, ex - 1) : c.range(0, 4), et = c.chance(1, 2) ? ex : c.range(0, 4);
      std::vector<altro::VectorN<n>> X;
      std::vector<altro::VectorN<m>> U;
      std::vector<float> t;
      int vn = n > 0 ? n : nn, vm = m > 0 ? m : mm;
      for (int i = 0; i < ex; ++i) X.push_back(Vec(c, vn));
      for (int i = 0; i < eu; ++i) U.push_back(Vec(c, vm));
      for (int i = 0; i < et; ++i) t.push_back(0.1f * i);
      a.what = fmt::format("Trajectory<{},{}>({} states, {} controls, {} times)", n, m, ex, eu, et);
      a.bad = ex != eu + 1 || et != ex || eu == 0;
      a.call = [=] { altro::Trajectory<n, m> Z(X, U, t); };
      break;
    }
    case 7: {
      a.what = fmt::format("CostExpansion<{},{}>({},{})", n, m, nn, mm);
      a.bad = !fits;
      a.call = [=] { altro::ilqr::CostExpansion<n, m> z(nn, mm); };
      break;
    }
    case 8: {
      int vn = n > 0 ? n : nn, vm = m > 0 ? m : mm;
      vn = std::max(vn, 1);
      vm = std::max(vm, 1);
      int xn = c.chance(1, 2) ? vn : c.range(1, 4), xm = c.chance(1, 2) ? vm : c.range(1, 4);
      auto f = CostPtr(c, vn, vm);
      auto z = std::make_shared<altro::ilqr::CostExpansion<n, m>>(vn, vm);
      bool kp = c.chance(1, 2);
      a.what = fmt::format("CostExpansion<{},{}>({},{}).CalcExpansion({}, {})", n, m, vn, vm, xn, xm);
      a.bad = xn != vn || xm != vm;
      a.call = [=] {
        altro::KnotPoint<-1, -1> y(xn, xm);
        if (kp) z->CalcExpansion(f, y);
        else z->CalcExpansion(f, y.State(), y.Control());
      };
      break;
    }
    default: {
      int vn = std::max(nn, 1), vm = std::max(mm, 1);
      bool nd = c.chance(1, 5), nc = c.chance(1, 5), term = c.chance(1, 3);
      bool ok = (n < 0 || vn == n) && (m < 0 || vm == m);
      std::shared_ptr<DiscreteDynamics> d = nd ? nullptr : DynPtr(c, vn, vm);
      std::shared_ptr<CostFunction> f = nc ? nullptr : CostPtr(c, vn, vm);
      using KPF = altro::ilqr::KnotPointFunctions<n, m>;
      a.what = term ? fmt::format("KnotPointFunctions<{},{}>({}, {}, {})", n, m, vn, vm, nc ? "null" : "cost")
                    : fmt::format("KnotPointFunctions<{},{}>({}, {}) {}x{}", n, m, nd ? "null" : "dynamics", nc ? "null" : "cost", vn, vm);
      a.bad = nc || !ok || (!term && nd);
      a.call = [=] {
        if (term) KPF z(vn, vm, f);
        else KPF z(d, f);
      };
    }
  }
  Judge(c, a);
}

class BareScalar : public altro::problem::CostFunction {
 public:
  using altro::ScalarFunction::Gradient;
  using altro::ScalarFunction::Hessian;
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  double Evaluate(const altro::VectorXdRef& x, const altro::VectorXdRef& u) override { return x.squaredNorm() + u.squaredNorm(); }
  void Gradient(const altro::VectorXdRef& x, const altro::VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    dx = 2 * x;
    du = 2 * u;
  }
  void Hessian(const altro::VectorXdRef&, const altro::VectorXdRef&, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    xx = 2 * MatrixXd::Identity(2, 2);
    xu.setZero();
    uu = 2 * MatrixXd::Identity(1, 1);
  }
};
template <class Cone>
void ConeAct(Ctx& c, const char* name, bool hasproj, Act* a) {
  int p = c.range(1, 4), q = c.chance(1, 2) ? p : c.range(1, 5), r = c.chance(1, 2) ? p : c.range(1, 5), w = c.chance(1, 2) ? p : c.range(1, 5);
  VectorXd x = Vec(c, p, -2, 2), b = Vec(c, w);
  switch (hasproj ? c.below(3) : 1 + c.below(2)) {
    case 0:
      a->what = fmt::format("{}::Projection(size {}, size {})", name, p, q);
      a->bad = p != q;
      a->call = [=] {
        VectorXd out = VectorXd::Zero(q);
        Cone::Projection(x, out);
      };
      break;
    case 1:
      if (q == r && q != p) c.discard();  // square of another size: undocumented
      if (q != r && std::is_same<Cone, altro::constraints::ZeroCone>::value) c.discard();  // no size is documented
      a->what = fmt::format("{}::Jacobian(size {}, {}x{})", name, p, q, r);
      a->bad = q != r;
      a->call = [=] {
        MatrixXd jac = MatrixXd::Zero(q, r);
        Cone::Jacobian(x, jac);
      };
      break;
    default:
      if (q == r && q != p) c.discard();
      a->what = fmt::format("{}::Hessian(size {}, b {}, {}x{})", name, p, w, q, r);
      a->bad = q != r || w != p;
      a->call = [=] {
        MatrixXd h = MatrixXd::Zero(q, r);
        Cone::Hessian(x, b, h);
      };
  }
}
void FunctionUse(Ctx& c) {
  Act a;
  a.edge = true;
  switch (c.below(5)) {
    case 0: {
      int op = (int)c.below(3);
      if (op == 0) {
        int q = c.range(0, 3);
        a.what = fmt::format("ScalarFunction::Evaluate(out of size {})", q);
        a.bad = q != 1;
        a.call = [=] {
          BareScalar f;
          VectorXd out = VectorXd::Zero(q);
          static_cast<altro::FunctionBase&>(f).Evaluate(VectorXd::Ones(2), VectorXd::Ones(1), out);
        };
      } else if (op == 1) {
        int q = c.range(0, 3);
        a.what = fmt::format("ScalarFunction::Jacobian({} rows)", q);
        a.bad = q != 1;
        a.call = [=] {
          BareScalar f;
          MatrixXd jac = MatrixXd::Zero(q, 3);
          static_cast<altro::FunctionBase&>(f).Jacobian(VectorXd::Ones(2), VectorXd::Ones(1), jac);
        };
      } else {
        int q = c.range(0, 3);
        double v = c.one_of<double>({1, 1, 0, -1, 2, 0.999, 1.001});
        a.what = fmt::format("ScalarFunction::Hessian(b = {} x {})", q, v);
        a.bad = q != 1 || v != 1;
        a.call = [=] {
          BareScalar f;
          MatrixXd h = MatrixXd::Zero(3, 3);
          static_cast<altro::FunctionBase&>(f).Hessian(VectorXd::Ones(2), VectorXd::Ones(1), VectorXd::Constant(q, v), h);
        };
      }
      break;
    }
    case 1: ConeAct<altro::constraints::ZeroCone>(c, "ZeroCone", true, &a); break;
    case 2: ConeAct<altro::constraints::IdentityCone>(c, "IdentityCone", true, &a); break;
    case 3: ConeAct<altro::constraints::NegativeOrthant>(c, "NegativeOrthant", true, &a); break;
    default: {
      bool st = c.chance(1, 2), def = c.chance(1, 2);
      a.what = fmt::format("Constraint::{}Dimension() {}", st ? "State" : "Control", def ? "defined" : "not defined");
      a.bad = !def;
      ConSpec s = MakeCon(c, 2, 1, false, SmallOpts(), nullptr, nullptr, true, 1);
      a.call = [=] {
        UEq f(s, nullptr);
        BareCon<Equality> g(2, 1, 1);
        altro::FunctionBase& h = def ? static_cast<altro::FunctionBase&>(f) : g;
        st ? h.StateDimension() : h.ControlDimension();
      };
    }
  }
  Judge(c, a);
}

// -------------------------------------------------------------------------------------- logging
void LogUse(Ctx& c) {
  Act a;
  using altro::LogEntry;
  using altro::LogLevel;
  if (c.chance(1, 3)) {
    // a history of bounds, the last of which may cross
    auto e = std::make_shared<LogEntry>("x", "{:.3g}");
    double lo = -std::numeric_limits<double>::infinity(), hi = -lo;
    // the initial bounds are read from the documentation of the setters: none
    int ops = c.range(0, 5);
    auto val = [&] {
      switch (c.below(8)) {
        case 0: return lo;
        case 1: return hi;
        case 2: return std::nextafter(hi, -1e300);
        case 3: return std::nextafter(lo, 1e300);
        case 4: return std::nextafter(hi, 1e300);
        case 5: return std::nextafter(lo, -1e300);
        case 6: return c.one_of<double>({0.0, 1e300, -1e300, 1.0, -1.0, 1e-300});
        default: return c.real(-10, 10);
      }
    };
    for (int i = 0; i < ops; ++i) {
      double v = val();
      if (c.chance(1, 2)) {
        if (!(v <= hi)) continue;
        e->SetLowerBound(v);
        lo = v;
      } else {
        if (!(v >= lo)) continue;
        e->SetUpperBound(v);
        hi = v;
      }
    }
    bool low = c.chance(1, 2);
    double v = val();
    a.what = fmt::format("LogEntry::Set{}Bound({}) with [{}, {}]", low ? "Lower" : "Upper", v, lo, hi);
    a.bad = low ? v > hi : v < lo;
    a.edge = ops > 0;
    a.call = [=] { low ? e->SetLowerBound(v) : e->SetUpperBound(v); };
    a.after = [=] { e->Log(1.0); };
    Judge(c, a);
    return;
  }
  auto lg = std::make_shared<altro::SolverLogger>(c.one_of<LogLevel>({LogLevel::kSilent, LogLevel::kOuter, LogLevel::kInner, LogLevel::kDebug}));
  int cnt = c.range(0, 5);
  for (int i = 0; i < cnt; ++i) {
    lg->AddEntry(c.range(-(i + 1), i), fmt::format("t{}", i), "{:.3g}").SetLevel(c.one_of<LogLevel>({LogLevel::kOuter, LogLevel::kInner, LogLevel::kDebug}));
    if (c.chance(1, 3)) lg->Log(fmt::format("t{}", (int)c.below(i + 1)), 1.5);
    if (c.chance(1, 8)) lg->Clear();
  }
  a.after = [=] {
    for (int i = 0; i < cnt; ++i) lg->Log(fmt::format("t{}", i), 2.0 * i);
    for (int i = 0; i < 3; ++i) lg->Print();
    lg->PrintHeader();
    lg->PrintData();
  };
  switch (c.below(4)) {
    case 0:
    case 1: {
      int col = c.chance(3, 4) ? c.range(-(cnt + 2), cnt + 1) : c.one_of<int>({1000, -1000, std::numeric_limits<int>::max(), -1000000});
      a.what = fmt::format("AddEntry({}) with {} entries", col, cnt);
      a.bad = col > cnt || col < -(cnt + 1);
      a.edge = col >= cnt - 1 || col <= -cnt;
      a.call = [=] { lg->AddEntry(col, "new", "{:.3g}"); };
      break;
    }
    case 2: {
      int f = c.one_of<int>({1, 2, 10, 0, -1, -10, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()});
      a.what = fmt::format("SetFrequency({})", f);
      a.bad = f <= 0;
      a.edge = f == 1;
      a.call = [=] { lg->SetFrequency(f); };
      break;
    }
    default: {
      bool known = cnt > 0 && c.chance(1, 2), get = c.chance(1, 2);
      std::string t = known ? fmt::format("t{}", (int)c.below(cnt)) : c.one_of<const char*>({"unknown", "", "T0", "t0 "});
      a.what = fmt::format("{}('{}') with {} entries", get ? "GetEntry" : "Log", t, cnt);
      // the repository's tests log values of unknown titles: they have to be dropped without a trace
      a.bad = get && !known;
      a.edge = true;
      auto use = a.after;
      if (!get && !known) a.after = [=] {
        if (lg->NumEntries() != cnt) _exit(97);
        lg->AddEntry(-(cnt + 1), "front", "{:.3g}");
        lg->AddEntry(cnt + 1, "back", "{:.3g}");
        use();
      };
      a.call = [=] {
        if (get) lg->GetEntry(t).GetTitle();
        else lg->Log(t, 3.25);
      };
    }
  }
  Judge(c, a);
}

// -------------------------------------------------------------------------------------- thread pool
void PoolUse(Ctx& c) {
  using altro::ThreadPool;
  Act a;
  auto pool = std::make_shared<std::unique_ptr<ThreadPool>>(std::make_unique<ThreadPool>());
  int cycles = c.range(0, 3), nth = c.range(1, 4), tasks = c.range(0, 6);
  bool running = c.chance(1, 2);
  a.prep = [=] {
    ThreadPool& q = **pool;
    for (int i = 0; i < cycles; ++i) {
      q.LaunchThreads(nth);
      for (int j = 0; j < tasks; ++j) q.AddTask([] {});
      q.Wait();
      q.StopThreads();
    }
    if (running) q.LaunchThreads(nth);
  };
  a.edge = cycles > 0;
  a.after = [=] {
    if (!*pool) return;
    ThreadPool& q = **pool;
    if (!q.IsRunning()) q.LaunchThreads(2);
    std::atomic<int> n{0};
    for (int j = 0; j < 5; ++j) q.AddTask([&] { n++; });
    q.Wait();
    if (n != 5) _exit(97);
    q.StopThreads();
  };
  std::string ctx = fmt::format("pool ({} cycles, {})", cycles, running ? "running" : "stopped");
  a.bad = running;
  switch (c.below(3)) {
    case 0: {
      int k = c.range(1, 4);
      a.what = fmt::format("{} LaunchThreads({})", ctx, k);
      a.call = [=] { (*pool)->LaunchThreads(k); };
      break;
    }
    case 1:
      a.what = ctx + " move construction";
      a.call = [=] { *pool = std::make_unique<ThreadPool>(std::move(**pool)); };
      break;
    default:
      a.what = ctx + " move assignment";
      a.call = [=] {
        auto q = std::make_unique<ThreadPool>();
        *q = std::move(**pool);
        *pool = std::move(q);
      };
  }
  Judge(c, a);
}
}  // namespace

PBT_CHECK(problem, 4000, 30000) { ProblemUse(c); }
PBT_CHECK(ilqr, 6000, 60000) {
  if (c.chance(1, 2)) ILQRUse<3, 2>(c);
  else ILQRUse<-1, -1>(c);
}
PBT_CHECK(al, 8000, 80000) {
  if (c.chance(1, 2)) ALUse<3, 2>(c);
  else ALUse<-1, -1>(c);
}
PBT_CHECK(sized, 3000, 9000) {
  switch (c.below(4)) {
    case 0: SizedUse<-1, -1>(c); break;
    case 1: SizedUse<3, 2>(c); break;
    case 2: SizedUse<3, -1>(c); break;
    default: SizedUse<-1, 2>(c);
  }
}
PBT_CHECK(functions, 1500, 6000) { FunctionUse(c); }
PBT_CHECK(logging, 3000, 9000) { LogUse(c); }
PBT_CHECK(pool, 800, 3000) { PoolUse(c); }
