// C09: multi-threaded expansion work gives the same result as serial work.
#include <chrono>
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>

#include "rec.hpp"

const pbt::PropertyInfo pbt::kProperty = {
    "C09",
    "(a) default divisions for all horizons 1..80 x threads 1..64/automatic x tasks per thread 1..6, before and after solves; (b) histories of re-configuration (threads, tasks per thread, custom "
    "divisions), partial steps, block-wise expansions and whole solves run in lockstep on a threaded and a serial solver, compared bit for bit; (c) instrumented cost functions that delay, count and "
    "rendezvous: every knot point is expanded exactly once, in the reported tasks, which run concurrently, and nothing is in flight afterwards. Run under ASan and TSan. "
    "Non-trivial: more than one worker thread and more than one task.",
    {"function objects are distinct per knot point or safe for concurrent use", "user functions return well within the pool's 10 s timeout"}};

namespace {
using pbt::Ctx;
using namespace sol;

bool Same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
void SameM(const MatrixXd& a, const MatrixXd& b, const char* what, int k) {
  EXPECT(a.rows() == b.rows() && a.cols() == b.cols(), "{} of knot {}: size {}x{}, serial {}x{}", what, k, a.rows(), a.cols(), b.rows(), b.cols());
  for (int i = 0; i < a.size(); ++i) EXPECT(Same(a.data()[i], b.data()[i]), "{} of knot {}: entry {} is {}, serial {}", what, k, i, a.data()[i], b.data()[i]);
}
void SameV(const std::vector<double>& a, const std::vector<double>& b, const char* what) {
  EXPECT(a.size() == b.size(), "{}: {} entries, serial {}", what, a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) EXPECT(Same(a[i], b[i]), "{}[{}] = {}, serial {}", what, i, a[i], b[i]);
}
void SameSolver(Solver& a, Solver& b, int N) {
  for (int k = 0; k <= N; ++k) {
    KpData p = a.Kp(k), q = b.Kp(k);
    SameM(p.A, q.A, "A", k); SameM(p.B, q.B, "B", k);
    SameM(p.xx, q.xx, "dxdx", k); SameM(p.xu, q.xu, "dxdu", k); SameM(p.uu, q.uu, "dudu", k);
    SameM(p.gx, q.gx, "dx", k); SameM(p.gu, q.gu, "du", k);
    SameM(p.S, q.S, "S", k); SameM(p.s, q.s, "s", k); SameM(p.K, q.K, "K", k); SameM(p.d, q.d, "d", k);
    if (a.IsAL()) {
      AlKnot x = a.Al(k), y = b.Al(k);
      for (size_t i = 0; i < y.con.size(); ++i) {
        SameM(x.con[i].lambda, y.con[i].lambda, "multiplier", k);
        SameM(x.con[i].penalty, y.con[i].penalty, "penalty", k);
        SameM(x.con[i].c, y.con[i].c, "constraint value", k);
      }
    }
  }
  SameM(a.Costs(), b.Costs(), "costs", -1);
  Traj s = a.GetTraj(), t = b.GetTraj();
  for (int k = 0; k <= N; ++k) SameM(s.X[k], t.X[k], "state", k);
  for (int k = 0; k < N; ++k) SameM(s.U[k], t.U[k], "control", k);
  auto x = rec::CopyStats(a.Stats()), y = rec::CopyStats(b.Stats());
  SameV(x.cost, y.cost, "cost"); SameV(x.alpha, y.alpha, "alpha"); SameV(x.z, y.z, "z"); SameV(x.grad, y.grad, "gradient"); SameV(x.dJ, y.dJ, "dJ");
  SameV(x.reg, y.reg, "regularisation"); SameV(x.viol, y.viol, "violation"); SameV(x.pen, y.pen, "penalty");
  EXPECT(x.it_inner == y.it_inner && x.it_outer == y.it_outer && x.it_total == y.it_total, "iterations {}/{}/{}, serial {}/{}/{}", x.it_inner, x.it_outer, x.it_total, y.it_inner, y.it_outer, y.it_total);
  EXPECT(Same(x.initial_cost, y.initial_cost), "initial cost {}, serial {}", x.initial_cost, y.initial_cost);
  EXPECT(a.Status() == b.Status() && a.InnerStatus() == b.InnerStatus(), "status {} / {}, serial {} / {}", StatusName(a.Status()), StatusName(a.InnerStatus()), StatusName(b.Status()), StatusName(b.InnerStatus()));
  EXPECT(Same(a.Reg(), b.Reg()), "regularisation {}, serial {}", a.Reg(), b.Reg());
}
void ValidDivision(const std::vector<int>& v, int N) {
  EXPECT(v.size() >= 2 && v.front() == 0 && v.back() == N + 1, "division of {} elements from {} to {} for {} knot points", v.size(), v.empty() ? -1 : v.front(), v.empty() ? -1 : v.back(), N + 1);
  for (size_t i = 1; i < v.size(); ++i) EXPECT(v[i] > v[i - 1], "division: {} follows {} at {}", v[i], v[i - 1], i);
}
std::vector<int> RandDivision(Ctx& c, int N) {
  std::vector<int> v{0};
  int den = c.one_of<int>({3, 1, 8});
  for (int k = 1; k <= N; ++k) if (c.chance(1, den)) v.push_back(k);
  v.push_back(N + 1);
  return v;
}
int RandThreads(Ctx& c, bool small) {
  int w = c.range(0, 9);
  if (w == 9 && !small) return c.range(5, 24);
  if (w == 8) return altro::kPickHardwareThreads;
  return 1 + w % 4;
}
int Actual(int nthreads) { return nthreads == altro::kPickHardwareThreads ? (int)std::thread::hardware_concurrency() : nthreads; }

// ---- (a)
void Divisions(Ctx& c) {
  int N = c.range(1, 80);
  gen::Options o;
  o.Nmin = o.Nmax = N;
  o.nonlinear = false; o.nonquadratic = false; o.per_knot = false;
  o.nmax = 2; o.mmax = 1;
  Size z = PickSize(c, &o);
  gen::Spec sp = gen::MakeSpec(c, o);
  altro::problem::Problem prob(N);
  gen::Fill(sp, &prob);
  auto s = c.chance(1, 3) ? MakeAL(z, prob) : MakeiLQR(z, prob);
  s->NewTraj(sp);
  std::vector<int> custom;
  for (int i = 0, M = c.range(1, 4); i < M; ++i) {
    int nt = c.chance(1, 2) ? c.range(1, 64) : RandThreads(c, false), tpt = c.range(1, 6);
    s->Opts().nthreads = nt;
    s->Opts().tasks_per_thread = tpt;
    c.note("N={} threads={} tasks per thread={}", N, nt, tpt);
    if (c.chance(1, 6)) { custom = RandDivision(c, N); s->SetTasks(custom); }
    auto v = s->Tasks();
    ValidDivision(v, N);
    int want = Actual(nt) * tpt;
    if (!custom.empty()) EXPECT(v == custom, "custom division not kept: {} elements instead of {}", v.size(), custom.size());
    else if (want <= N) EXPECT((int)v.size() - 1 == want, "{} tasks for {} threads with {} tasks each and {} segments", v.size() - 1, Actual(nt), tpt, N);
    EXPECT(s->NumTasks() == (int)v.size() - 1, "NumTasks {} for {} tasks", s->NumTasks(), v.size() - 1);
    if (v.size() > 2) c.nontrivial();
    if (nt <= 8 && c.chance(1, 4)) {   // a solver runs with it
      s->SolveSetup();
      s->Rollout();
      s->UpdateExpansions();
      EXPECT(s->Tasks() == v, "the division changed with the solve");
      EXPECT(Actual(nt) == 1 ? s->NumThreads() <= 1 : s->NumThreads() == Actual(nt), "{} threads running, {} requested", s->NumThreads(), Actual(nt));
    }
  }
}

// ---- (b)
void History(Ctx& c) {
  gen::Options o;
  Size z = PickSize(c, &o);
  bool al = c.chance(1, 2);
  gen::Spec sp = rec::RandomSpec(c, o, al);
  altro::problem::Problem prob(sp.N), prob1(sp.N);
  gen::Fill(sp, &prob);
  gen::Fill(sp, &prob1);
  auto a = al ? MakeAL(z, prob) : MakeiLQR(z, prob);
  auto b = al ? MakeAL(z, prob1) : MakeiLQR(z, prob1);
  rec::RandomSolveOptions(c, &a->Opts(), al);
  a->Opts().max_iterations_total = std::min(a->Opts().max_iterations_total, 20);
  if (c.chance(1, 2)) a->Opts().nthreads = RandThreads(c, true);
  b->Opts() = a->Opts();
  b->Opts().nthreads = 1;
  b->Opts().tasks_per_thread = 1;
  a->NewTraj(sp);
  b->NewTraj(sp);
  if (al) { auto ml = rec::RandomMultipliers(c, sp); rec::Apply(ml, *a); rec::Apply(ml, *b); }
  c.note("{}{} {} threads={}", al ? "AL " : "", sol::Str(z), sp.Brief(), a->Opts().nthreads);
  bool setup = false, custom = false;
  auto both = [&](auto f) { f(*a); f(*b); };
  for (int i = 0, M = c.range(2, 8); i < M; ++i) {
    switch (c.range(0, 8)) {
      case 0: case 1: {
        both([](Solver& s) { s.Solve(); });
        SameSolver(*a, *b, sp.N);
        setup = true;
        if (Actual(a->Opts().nthreads) > 1) {
          EXPECT(a->NumThreads() == Actual(a->Opts().nthreads), "{} threads running, {} requested", a->NumThreads(), Actual(a->Opts().nthreads));
          if (a->NumTasks() > 1) c.nontrivial();
        } else EXPECT(a->NumThreads() <= 1, "{} threads running, 1 requested", a->NumThreads());
        c.note("solve {} it={}", StatusName(a->Status()), a->Stats().iterations_total);
        break;
      }
      case 2: a->Opts().nthreads = RandThreads(c, true); c.note("threads={}", a->Opts().nthreads); break;
      case 3: a->Opts().tasks_per_thread = c.range(1, 4); c.note("tasks per thread={}", a->Opts().tasks_per_thread); break;
      case 4: {
        auto v = RandDivision(c, sp.N);
        a->SetTasks(v);
        custom = true;
        c.note("division of {}", v.size() - 1);
        break;
      }
      case 5: {
        auto v = a->Tasks();
        ValidDivision(v, sp.N);
        (void)custom;
        break;
      }
      case 6: {    // a few steps by hand
        both([&](Solver& s) { s.SolveSetup(); if (al) s.AlInit(); s.Rollout(); });
        setup = true;
        if (!gen::Finite(b->GetTraj().X)) break;
        int it = c.range(1, 3);
        c.note("{} steps", it);
        for (int j = 0; j < it; ++j) {
          both([](Solver& s) { s.UpdateExpansions(); });
          SameSolver(*a, *b, sp.N);
          both([](Solver& s) { s.BackwardPass(); });
          SameSolver(*a, *b, sp.N);
          if (b->InnerStatus() != SolverStatus::kUnsolved) break;
          both([](Solver& s) { s.ForwardPass(); });
          SameSolver(*a, *b, sp.N);
        }
        if (a->NumThreads() > 1 && a->NumTasks() > 1) c.nontrivial();
        break;
      }
      case 7: {    // another guess, and expansions at it
        for (int k = 0; k < sp.N; ++k) { VectorXd u = gen::Vec(c, sp.m, -1, 1); both([&](Solver& s) { s.SetU(k, u); }); }
        if (setup) {
          both([](Solver& s) { s.Rollout(); s.UpdateExpansions(); });
          SameSolver(*a, *b, sp.N);
          c.note("expansions");
        }
        break;
      }
      case 8: {    // block-wise, in any order
        if (!setup) break;
        auto v = RandDivision(c, sp.N);
        std::vector<int> ord(v.size() - 1);
        for (size_t j = 0; j < ord.size(); ++j) ord[j] = j;
        for (size_t j = ord.size(); j-- > 1;) std::swap(ord[j], ord[c.below(j + 1)]);
        for (int j : ord) a->ExpansionBlock(v[j], v[j + 1]);
        b->UpdateExpansions();
        SameSolver(*a, *b, sp.N);
        c.note("{} blocks", ord.size());
        break;
      }
    }
  }
}

// ---- (c)
struct Probe {
  std::mutex mu;
  std::condition_variable cv;
  std::vector<int> count;                          // expansions started per knot point
  std::vector<std::pair<std::thread::id, int>> log;
  std::vector<int> delay;                          // microseconds per knot point
  std::map<int, int> first;                        // first knot points that rendezvous
  int arrived = 0, needed = 0;
  bool timed_out = false;
  std::atomic<int> inflight{0};
  bool on = false;
  void Enter(int k) {
    if (!on) return;
    std::unique_lock<std::mutex> l(mu);
    count[k]++;
    log.push_back({std::this_thread::get_id(), k});
    if (needed > 1 && first.count(k)) {
      arrived++;
      cv.notify_all();
      if (!cv.wait_for(l, std::chrono::seconds(5), [&] { return arrived >= needed || timed_out; })) { timed_out = true; cv.notify_all(); }
    }
    int d = delay[k];
    l.unlock();
    if (d == 1) std::this_thread::yield();
    else if (d > 1) std::this_thread::sleep_for(std::chrono::microseconds(d));
  }
};
class PCost : public gen::UCost {
 public:
  PCost(const gen::CostSpec& s, Probe* p, int k) : gen::UCost(s, nullptr), p_(p), k_(k) {}
  double Evaluate(const altro::VectorXdRef& x, const altro::VectorXdRef& u) override {
    p_->inflight++;
    double r = gen::UCost::Evaluate(x, u);
    p_->inflight--;
    return r;
  }
  void Gradient(const altro::VectorXdRef& x, const altro::VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    p_->inflight++;
    p_->Enter(k_);
    gen::UCost::Gradient(x, u, dx, du);
    p_->inflight--;
  }
  void Hessian(const altro::VectorXdRef& x, const altro::VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    p_->inflight++;
    gen::UCost::Hessian(x, u, xx, xu, uu);
    if (p_->on && p_->delay[k_] > 1) std::this_thread::sleep_for(std::chrono::microseconds(p_->delay[k_] / 2));
    p_->inflight--;
  }

 private:
  Probe* p_;
  int k_;
};
void Instrumented(Ctx& c) {
  gen::Options o;
  Size z = PickSize(c, &o);
  o.Nmax = 14;
  o.nonlinear = false;
  o.nmax = 2; o.mmax = 2;
  bool al = c.chance(1, 3);
  if (al) o.max_con = 1;
  gen::Spec sp = gen::MakeSpec(c, o);
  Probe pr;
  altro::problem::Problem prob(sp.N), prob1(sp.N);
  gen::Fill(sp, &prob);
  gen::Fill(sp, &prob1);
  for (int k = 0; k <= sp.N; ++k) prob.SetCostFunction(std::make_shared<PCost>(sp.cost[k], &pr, k), k);
  auto a = al ? MakeAL(z, prob) : MakeiLQR(z, prob);
  auto b = al ? MakeAL(z, prob1) : MakeiLQR(z, prob1);
  a->NewTraj(sp);
  b->NewTraj(sp);
  b->SolveSetup();
  if (al) b->AlInit();
  b->Rollout();
  c.note("{}{} {}", al ? "AL " : "", sol::Str(z), sp.Brief());
  for (int i = 0, M = c.range(1, 5); i < M; ++i) {
    if (c.chance(2, 3)) a->Opts().nthreads = c.range(1, 5);
    if (c.chance(1, 3)) a->Opts().tasks_per_thread = c.range(1, 3);
    if (c.chance(1, 4)) a->SetTasks(RandDivision(c, sp.N));
    if (c.chance(1, 4)) (void)a->Tasks();
    a->SolveSetup();
    if (al) a->AlInit();
    a->Rollout();
    auto v = a->Tasks();
    ValidDivision(v, sp.N);
    int nt = a->Opts().nthreads, tasks = v.size() - 1;
    c.note("threads={} tasks={}", nt, tasks);
    EXPECT(nt == 1 ? a->NumThreads() <= 1 : a->NumThreads() == nt, "{} threads running, {} requested", a->NumThreads(), nt);
    {
      std::unique_lock<std::mutex> l(pr.mu);
      pr.count.assign(sp.N + 1, 0);
      pr.log.clear();
      pr.delay.assign(sp.N + 1, 0);
      int slow = c.range(0, 2);
      for (auto& d : pr.delay) d = slow == 0 ? 0 : c.one_of<int>({0, 1, 50, 300});
      pr.first.clear();
      pr.arrived = 0;
      pr.needed = nt > 1 ? std::min(nt, tasks) : 0;
      // tasks are taken in order by idle workers: the first knot points of the first `needed` tasks meet
      for (int j = 0; j < pr.needed; ++j) pr.first[v[j]] = 1;
      pr.timed_out = false;
      pr.on = true;
    }
    a->UpdateExpansions();
    int fl = pr.inflight.load();
    std::unique_lock<std::mutex> l(pr.mu);
    pr.on = false;
    EXPECT(fl == 0, "{} evaluations still running after the expansions", fl);
    for (int k = 0; k <= sp.N; ++k) EXPECT(pr.count[k] == 1, "knot point {} was expanded {} times", k, pr.count[k]);
    EXPECT(!pr.timed_out, "the {} tasks of the reported division do not run concurrently on {} threads ({} of {} started)", tasks, nt, pr.arrived, pr.needed);
    // each task is processed by one thread, in increasing order, without interruption by another task of that thread
    std::map<std::thread::id, std::vector<int>> per;
    for (auto& e : pr.log) per[e.first].push_back(e.second);
    EXPECT((int)per.size() <= std::max(1, nt), "{} threads took part", per.size());
    if (nt > 1)
      for (auto& e : per) {
        auto& q = e.second;
        for (size_t j = 0; j < q.size();) {
          int t = 0;
          while (v[t + 1] <= q[j]) ++t;
          EXPECT(q[j] == v[t], "a thread starts at knot point {}, which is inside task {} of the reported division", q[j], t);
          for (int k = v[t]; k < v[t + 1]; ++k, ++j) EXPECT(j < q.size() && q[j] == k, "task {} is not processed as a whole in increasing order", t);
        }
      }
    if (nt > 1 && tasks > 1) c.nontrivial();
    l.unlock();
    b->UpdateExpansions();
    for (int k = 0; k <= sp.N; ++k) {
      KpData p = a->Kp(k), q = b->Kp(k);
      SameM(p.A, q.A, "A", k); SameM(p.xx, q.xx, "dxdx", k); SameM(p.uu, q.uu, "dudu", k); SameM(p.gx, q.gx, "dx", k); SameM(p.gu, q.gu, "du", k);
    }
    SameM(a->Costs(), b->Costs(), "costs", -1);
  }
}
}  // namespace

PBT_CHECK(divisions, 3000, 60000) { Divisions(c); }
PBT_CHECK(history, 1500, 40000) { History(c); }
PBT_CHECK(instrumented, 500, 8000) { Instrumented(c); }
