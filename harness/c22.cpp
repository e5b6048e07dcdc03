// C22: a moved solver, pool, problem or trajectory behaves like the original.
#include "altro/common/threadpool.hpp"
#include "rec.hpp"

const pbt::PropertyInfo pbt::kProperty = {
    "C22",
    "Histories (configure, threads and custom divisions, guesses, penalties, multipliers, whole solves, single algorithm steps, queries, output, moves; built from a problem directly or "
    "empty and initialised later; problem and trajectory objects moved too) run on two equal solvers of which one is moved at random points, its source destroyed at once, later or at the end; "
    "everything observable is compared bit for bit after each step, under ASan. Also statistics objects and stopped pools against unmoved twins. "
    "Non-trivial: at least one move and, after it, at least two iterations (or a logged value, or a task run after the move).",
    {"a moved-from object is only destroyed", "a pool is moved only while stopped"}};

namespace {
using pbt::Ctx;
using namespace sol;
using altro::LogLevel;

bool Same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool SameM(const MatrixXd& a, const MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.size(); ++i) if (!Same(a.data()[i], b.data()[i])) return false;
  return true;
}
void SameV(const std::vector<double>& a, const std::vector<double>& b, const char* w) {
  EXPECT(a.size() == b.size(), "history {}: {} entries after a move, {} without", w, a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) EXPECT(Same(a[i], b[i]), "history {}[{}]: {} after a move, {} without", w, i, a[i], b[i]);
}
void SameStats(const SolverStats& a, const SolverStats& b) {
  auto x = rec::CopyStats(a), y = rec::CopyStats(b);
  EXPECT(x.it_inner == y.it_inner && x.it_outer == y.it_outer && x.it_total == y.it_total, "iterations {}/{}/{} after a move, {}/{}/{} without", x.it_inner, x.it_outer, x.it_total, y.it_inner, y.it_outer, y.it_total);
  EXPECT(Same(x.initial_cost, y.initial_cost), "initial cost {} after a move, {} without", x.initial_cost, y.initial_cost);
  SameV(x.cost, y.cost, "cost"); SameV(x.alpha, y.alpha, "alpha"); SameV(x.z, y.z, "z"); SameV(x.grad, y.grad, "gradient");
  SameV(x.dJ, y.dJ, "dJ"); SameV(x.reg, y.reg, "regularisation"); SameV(x.viol, y.viol, "violation"); SameV(x.pen, y.pen, "penalty");
  EXPECT(a.GetVerbosity() == b.GetVerbosity(), "verbosity {} after a move, {} without", (int)a.GetVerbosity(), (int)b.GetVerbosity());
}
void SameOpts(const SolverOptions& a, const SolverOptions& b) {
#define F(f) EXPECT(a.f == b.f, "option " #f " is {} after a move, {} without", a.f, b.f)
  F(max_iterations_total); F(max_iterations_outer); F(max_iterations_inner); F(cost_tolerance); F(gradient_tolerance); F(bp_reg_increase_factor);
  F(bp_reg_enable); F(bp_reg_initial); F(bp_reg_max); F(bp_reg_min); F(bp_reg_fail_threshold); F(check_forwardpass_bounds); F(state_max); F(control_max);
  F(line_search_max_iterations); F(line_search_lower_bound); F(line_search_upper_bound); F(line_search_decrease_factor); F(constraint_tolerance);
  F(maximum_penalty); F(initial_penalty); F(reset_duals); F(header_frequency); F(profiler_enable); F(profiler_output_to_file); F(log_directory);
  F(profile_filename); F(nthreads); F(tasks_per_thread);
#undef F
  EXPECT(a.verbose == b.verbose, "option verbose");
}
void Compare(Solver& a, Solver& b, int N, bool init, bool traj) {   // a: moved
  EXPECT(a.NumSegments() == b.NumSegments(), "{} segments after a move, {} without", a.NumSegments(), b.NumSegments());
  EXPECT(a.Status() == b.Status() && a.InnerStatus() == b.InnerStatus(), "status {}/{} after a move, {}/{} without", StatusName(a.Status()), StatusName(a.InnerStatus()), StatusName(b.Status()), StatusName(b.InnerStatus()));
  SameOpts(a.Opts(), b.Opts());
  SameStats(a.Stats(), b.Stats());
  EXPECT(Same(a.Reg(), b.Reg()), "regularisation {} after a move, {} without", a.Reg(), b.Reg());
  EXPECT(SameM(a.Costs(), b.Costs()), "individual costs {} after a move, {} without", gen::Str(a.Costs()), gen::Str(b.Costs()));
  EXPECT((a.TrajPtr() == nullptr) == (b.TrajPtr() == nullptr), "trajectory lost or gained by a move");
  EXPECT((a.InitialState() == nullptr) == (b.InitialState() == nullptr), "initial state lost or gained by a move");
  if (b.InitialState()) EXPECT(SameM(*a.InitialState(), *b.InitialState()), "initial state {} after a move, {} without", gen::Str(*a.InitialState()), gen::Str(*b.InitialState()));
  if (traj) {
    Traj s = a.GetTraj(), t = b.GetTraj();
    for (int k = 0; k <= N; ++k) {
      EXPECT(SameM(s.X[k], t.X[k]), "state {}: {} after a move, {} without", k, gen::Str(s.X[k]), gen::Str(t.X[k]));
      if (k < N) EXPECT(SameM(s.U[k], t.U[k]), "control {}: {} after a move, {} without", k, gen::Str(s.U[k]), gen::Str(t.U[k]));
      EXPECT(s.t[k] == t.t[k] && s.h[k] == t.h[k], "times at {}", k);
    }
    EXPECT(SameM(s.uN, t.uN), "terminal control");
  }
  if (!init) return;
  for (int k = 0; k <= N; ++k) {
    KpData p = a.Kp(k), q = b.Kp(k);
    EXPECT(SameM(p.K, q.K) && SameM(p.d, q.d) && SameM(p.S, q.S) && SameM(p.s, q.s), "policy or cost to go at {}", k);
    EXPECT(SameM(p.xx, q.xx) && SameM(p.xu, q.xu) && SameM(p.uu, q.uu) && SameM(p.gx, q.gx) && SameM(p.gu, q.gu) && SameM(p.A, q.A) && SameM(p.B, q.B), "expansions at {}", k);
  }
  if (!a.IsAL()) return;
  EXPECT(a.NumCon() == b.NumCon(), "{} constraints after a move, {} without", a.NumCon(), b.NumCon());
  for (int k = 0; k <= N; ++k) {
    AlKnot p = a.Al(k), q = b.Al(k);
    EXPECT(p.con.size() == q.con.size() && p.num_con == q.num_con && a.NumCon(k) == b.NumCon(k), "number of constraints at {}", k);
    for (size_t i = 0; i < q.con.size(); ++i)
      EXPECT(SameM(p.con[i].lambda, q.con[i].lambda) && SameM(p.con[i].penalty, q.con[i].penalty) && SameM(p.con[i].c, q.con[i].c) && p.con[i].scaling == q.con[i].scaling,
             "multipliers, penalties or values of constraint {} at knot {}", i, k);
  }
}

void Body(Ctx& c) {
  gen::Options o;
  Size z = PickSize(c, &o);
  bool al = c.chance(1, 2);
  gen::Spec sp = rec::RandomSpec(c, o, al);
  const int N = sp.N;
  c.note("{}{} {}", al ? "AL " : "iLQR ", sol::Str(z), sp.Brief());
  auto prob_a = std::make_unique<altro::problem::Problem>(N);
  altro::problem::Problem prob_b(N);
  gen::Fill(sp, prob_a.get());
  gen::Fill(sp, &prob_b);
  int moves = 0, since = 0;
  auto move_problem = [&]() {
    if (!c.chance(1, 3)) return;
    c.note("problem moved");
    if (c.chance(1, 2)) {
      auto q = std::make_unique<altro::problem::Problem>(std::move(*prob_a));
      prob_a = std::move(q);
    } else {
      auto q = std::make_unique<altro::problem::Problem>(c.range(0, 5));
      *q = std::move(*prob_a);
      prob_a = std::move(q);
    }
    moves++;
  };
  std::vector<SolverPtr> graveyard;          // sources kept alive for a while
  SolverPtr a, b;
  bool init = true, traj = false;
  auto move = [&]() {
    SolverPtr d = a->MoveOut();
    const char* what = "destroyed";
    if (c.chance(1, 2)) { graveyard.push_back(std::move(a)); what = "kept"; }
    c.note("move, source {}", what);
    a = std::move(d);
    moves++;
    since = 0;
  };
  move_problem();
  if (c.chance(3, 4)) {
    a = al ? MakeAL(z, *prob_a) : MakeiLQR(z, *prob_a);
    b = al ? MakeAL(z, prob_b) : MakeiLQR(z, prob_b);
  } else {
    init = false;
    a = al ? MakeALEmpty(z, N) : MakeiLQREmpty(z, N);
    b = al ? MakeALEmpty(z, N) : MakeiLQREmpty(z, N);
  }
  auto both = [&](auto&& f) { f(*a); f(*b); };
  auto options = [&]() {
    rec::RandomSolveOptions(c, &b->Opts(), al);
    SolverOptions& q = b->Opts();
    q.max_iterations_total = std::min(q.max_iterations_total, 40);
    q.reset_duals = c.chance(2, 3);
    if (c.chance(1, 4)) q.initial_penalty = 0;
    q.nthreads = c.chance(1, 3) ? c.range(2, 4) : 1;
    q.tasks_per_thread = c.chance(1, 3) ? c.range(1, 3) : 1;
    q.verbose = c.chance(1, 4) ? (LogLevel)c.range(0, 5) : LogLevel::kSilent;
    q.header_frequency = c.range(1, 12);
    a->Opts() = b->Opts();
    c.note("options {} tpt={} verbose={}", rec::OptStr(q), q.tasks_per_thread, (int)q.verbose);
  };
  auto guess = [&]() {
    gen::Spec g = sp;
    for (auto& u : g.U0) u = gen::Vec(c, sp.m, -1, 1);
    bool fresh = !traj || c.chance(1, 2);
    c.note(fresh ? "new trajectory" : "new guess");
    both([&](Solver& s) { if (fresh) s.NewTraj(g); else { s.ResetTraj(g); s.SetU(N, VectorXd::Zero(sp.m)); } });
    traj = true;
  };
  int iters_after = 0, ops = c.range(2, 10);
  bool threads_used = false, custom = false;
  for (int i = 0; i < ops; ++i) {
    if (c.chance(1, 2)) move();
    if (c.chance(1, 4)) move_problem();
    if (!graveyard.empty() && c.chance(1, 4)) graveyard.erase(graveyard.begin() + c.below(graveyard.size()));
    int op = i == ops - 1 ? 0 : c.range(0, 11);
    if (op <= 7 && op != 4 && op != 6 && !init) op = 8;
    switch (op) {
      case 0: case 1: case 2: {          // solve
        if (!init) { both([&](Solver& s) { s.InitializeFromProblem(&s == a.get() ? *prob_a : prob_b); }); init = true; }
        if (!traj || c.chance(1, 3)) guess();
        if (c.chance(1, 2)) options();
        std::string outa, outb;
        c.note("solve");
        { pbt::CaptureStdout cap; b->Solve(); outb = cap.Stop(); }
        { pbt::CaptureStdout cap; a->Solve(); outa = cap.Stop(); }
        EXPECT(outa == outb, "printed after a move:\n{}\nwithout:\n{}", outa, outb);
        threads_used |= b->Opts().nthreads > 1;
        if (moves > 0) { since += b->Stats().iterations_total; iters_after = std::max(iters_after, since); }
        if (b->Opts().nthreads > 1) EXPECT(a->NumTasks() == b->NumTasks(), "{} tasks after a move, {} without", a->NumTasks(), b->NumTasks());
        EXPECT(a->NumThreads() == b->NumThreads(), "{} threads after a move, {} without", a->NumThreads(), b->NumThreads());
        break;
      }
      case 3: {                          // single steps
        if (!traj) break;
        c.note("steps");
        int stop = c.range(1, 6);
        both([&](Solver& s) {
          if (s.IsAL()) s.AlInit();
          s.SolveSetup();
          if (stop > 1) s.Rollout();
          if (stop > 2) { s.Cost(); s.UpdateExpansions(); }
          if (stop > 3) s.BackwardPass();
          if (stop > 4 && s.InnerStatus() != SolverStatus::kBackwardPassRegularizationFailed) s.ForwardPass();
          if (stop > 4) s.UpdateConvStats();
        });
        break;
      }
      case 4: guess(); break;
      case 5: {                          // initial state through the problem or the solver
        VectorXd x0 = gen::Vec(c, sp.n, -2, 2);
        bool via = c.chance(1, 2);
        c.note("initial state via {}", via ? "problem" : "solver");
        if (via) { prob_a->SetInitialState(x0); prob_b.SetInitialState(x0); }
        else both([&](Solver& s) { *s.InitialState() = x0; });
        break;
      }
      case 6: {                          // task divisions
        std::vector<int> v = {0};
        for (int k = 1; k <= N; ++k) if (c.chance(1, 2)) v.push_back(k);
        v.push_back(N + 1);
        c.note("custom division into {}", v.size() - 1);
        both([&](Solver& s) { s.SetTasks(v); });
        custom = true;
        break;
      }
      case 7: {                          // constraint updates
        if (!al) break;
        c.note("constraint updates");
        int what = c.range(0, 6);
        double r = c.logreal(0.1, 50);
        for (int k = 0; k <= N; ++k) {
          AlKnot q = b->Al(k);
          int j[2] = {0, 0};
          for (auto& v : q.con) {
            int id = j[v.eq]++;
            VectorXd l = gen::Vec(c, v.lambda.size(), -2, v.eq ? 2 : 0);
            both([&](Solver& s) {
              if (what == 0) s.SetConPenalty(k, v.eq, id, r + k);
              if (what == 1) s.SetConScaling(k, v.eq, id, 1.5 + r);
              if (what == 2) s.SetDuals(k, v.eq, id, l);
            });
          }
        }
        if (what == 3 && traj) both([&](Solver& s) { s.UpdateDuals(); });
        if (what == 4) both([&](Solver& s) { s.UpdatePenalties(); });
        if (what == 5) both([&](Solver& s) { s.SetPenalty(r); s.SetPenaltyScaling(2 + r); });
        if (what == 6) both([&](Solver& s) { s.ResetDuals(); });
        break;
      }
      case 8: options(); break;
      case 9: {                          // queries
        if (!init) break;
        double va[9] = {}, vb[9] = {};
        bool sorted = c.chance(1, 2);
        std::string outa, outb;
        auto q = [&](Solver& s, double* v, std::string* out) {
          pbt::CaptureStdout cap;
          if (traj) v[0] = s.Cost();
          if (traj) v[1] = s.NormalizedGain();
          if (traj) v[2] = s.CostAt(s.GetTraj());
          if (s.IsAL()) {
            if (traj) { v[3] = s.MaxViolation(0); v[4] = s.MaxViolationAt(s.GetTraj(), 2); }
            v[5] = s.GetMaxViolation(1);
            v[6] = s.GetMaxPenalty();
            v[7] = s.NumCon();
            s.PrintViolations(sorted, 5);
          }
          s.Stats().PrintLast();
          *out = cap.Stop();
        };
        q(*a, va, &outa);
        q(*b, vb, &outb);
        for (int t = 0; t < 9; ++t) EXPECT(Same(va[t], vb[t]), "query {}: {} after a move, {} without", t, va[t], vb[t]);
        EXPECT(outa == outb, "printed by queries after a move:\n{}\nwithout:\n{}", outa, outb);
        break;
      }
      case 10: {                         // logging through the statistics
        double x = c.real(-5, 5);
        const char* title = c.one_of<const char*>({"cost", "viol", "dJ", "grad", "alpha", "reg", "z", "pen", "iters"});
        bool next = c.chance(1, 2), wipe = c.chance(1, 4);
        c.note("log {}{}{}", title, next ? " next" : "", wipe ? " reset" : "");
        both([&](Solver& s) {
          if (wipe) s.Stats().Reset();
          s.Stats().Log(title, x);
          if (next) s.Stats().NewIteration();
        });
        break;
      }
      case 11: {                         // a callback of the user
        if (al) break;
        c.note("callback");
        both([&](Solver& s) { auto n = std::make_shared<double>(0); s.SetCallback([n]() { return *n += 1; }); });
        break;
      }
    }
    Compare(*a, *b, N, init, traj);
    if (custom && init && traj) EXPECT(a->Tasks() == b->Tasks(), "division of the work");
  }
  EXPECT(a->Tasks() == b->Tasks(), "division of the work");
  if (moves > 0) c.label("moved");
  if (threads_used) c.label("threads");
  if (moves > 0 && iters_after >= 2) c.nontrivial();
  // destruction order
  if (c.chance(1, 2)) { graveyard.clear(); a.reset(); } else { a.reset(); graveyard.clear(); }
}

// The statistics object on its own: construction and assignment.
void Stats(Ctx& c) {
  auto a = std::make_unique<SolverStats>(), b = std::make_unique<SolverStats>();
  std::vector<std::unique_ptr<SolverStats>> old;
  int moves = 0, logged = 0, ops = c.range(2, 25);
  for (int i = 0; i < ops; ++i) {
    switch (c.range(0, 6)) {
      case 0: {
        std::unique_ptr<SolverStats> d;
        if (c.chance(1, 2)) {
          c.note("construct");
          d = std::make_unique<SolverStats>(std::move(*a));
        } else {
          c.note("assign");
          d = std::make_unique<SolverStats>();
          if (c.chance(1, 2)) { d->Log("cost", 7.0); d->NewIteration(); d->Log("pen", 3.0); }
          *d = std::move(*a);
        }
        if (c.chance(1, 2)) old.push_back(std::move(a));
        a = std::move(d);
        moves++;
        break;
      }
      case 1: {
        a->GetOptions().verbose = b->GetOptions().verbose = (LogLevel)c.range(0, 5);
        a->GetOptions().max_iterations_total = b->GetOptions().max_iterations_total = c.range(1, 400);
        if (c.chance(1, 2)) { a->Reset(); b->Reset(); c.note("reset"); }
        else { a->SetVerbosity(b->GetOptions().verbose); b->SetVerbosity(b->GetOptions().verbose); }
        break;
      }
      case 2: { int n = c.range(0, 100); a->SetCapacity(n); b->SetCapacity(n); break; }
      case 3: { a->NewIteration(); b->NewIteration(); c.note("new iteration"); break; }
      case 4: {
        double t[3] = {c.real(0, 1), c.real(0, 1), c.real(0, 1)};
        a->SetTolerances(t[0], t[1], t[2]);
        b->SetTolerances(t[0], t[1], t[2]);
        break;
      }
      default: {
        double x = c.real(-5, 5);
        const char* title = c.one_of<const char*>({"cost", "viol", "dJ", "grad", "alpha", "reg", "z", "pen"});
        c.note("log {}", title);
        a->Log(title, x);
        b->Log(title, x);
        logged += moves > 0;
      }
    }
    SameStats(*a, *b);
    std::string oa, ob;
    { pbt::CaptureStdout cap; a->PrintLast(); oa = cap.Stop(); }
    { pbt::CaptureStdout cap; b->PrintLast(); ob = cap.Stop(); }
    EXPECT(oa == ob, "printed after a move:\n{}\nwithout:\n{}", oa, ob);
    if (!old.empty() && c.chance(1, 3)) old.pop_back();
  }
  if (logged > 0) c.nontrivial();
}

// A stopped pool: queued work, results and configuration survive the move.
void Pool(Ctx& c) {
  using altro::ThreadPool;
  auto p = std::make_unique<ThreadPool>();
  std::vector<std::unique_ptr<ThreadPool>> old;
  std::vector<std::shared_ptr<std::atomic<int>>> runs;
  int moves = 0, ran_after = 0, ops = c.range(3, 15);
  auto move = [&]() {
    std::unique_ptr<ThreadPool> d;
    if (c.chance(1, 2)) d = std::make_unique<ThreadPool>(std::move(*p));
    else { d = std::make_unique<ThreadPool>(); *d = std::move(*p); }
    if (c.chance(1, 2)) old.push_back(std::move(p));
    p = std::move(d);
    moves++;
    c.note("move");
    EXPECT(!p->IsRunning() && p->NumThreads() == 0, "a moved stopped pool runs");
  };
  auto pending = [&]() { int n = 0; for (auto& r : runs) n += *r == 0; return n; };
  for (int i = 0; i < ops; ++i) {
    if (c.chance(1, 3)) move();
    if (c.chance(2, 3)) {
      int n = c.range(1, 8);
      c.note("add {}", n);
      for (int t = 0; t < n; ++t) {
        auto r = std::make_shared<std::atomic<int>>(0);
        runs.push_back(r);
        p->AddTask([r]() { ++*r; });
      }
      EXPECT((int)p->NumTasks() == pending(), "{} tasks queued, {} were added", p->NumTasks(), pending());
    } else {
      bool after = moves > 0 && pending() > 0;
      int nt = c.range(1, 3);
      c.note("run with {}", nt);
      p->LaunchThreads(nt);
      EXPECT(p->IsRunning() && (int)p->NumThreads() == nt, "running pool reports {} threads", p->NumThreads());
      p->Wait();
      for (size_t j = 0; j < runs.size(); ++j) EXPECT(*runs[j] == 1, "task {} ran {} times", j, runs[j]->load());
      p->StopThreads();
      ran_after += after;
    }
    if (!old.empty() && c.chance(1, 3)) old.pop_back();
  }
  old.clear();
  move();
  p->LaunchThreads(2);
  ran_after += pending() > 0;
  p->Wait();
  for (size_t j = 0; j < runs.size(); ++j) EXPECT(*runs[j] == 1, "task {} ran {} times at the end", j, runs[j]->load());
  if (ran_after > 0) c.nontrivial();
}
// A trajectory: everything it held before a move is in the target, which is independent of the source.
template <int n, int m>
void TrajMoves(Ctx& c, int nx, int mu) {
  using T = altro::Trajectory<n, m>;
  const int N = c.range(1, 8);
  auto a = std::make_unique<T>(nx, mu, N);
  T b(nx, mu, N);
  std::vector<std::unique_ptr<T>> old;
  int moves = 0, writes = 0, ops = c.range(2, 20);
  c.note("<{},{}> {}x{} N={}", n, m, nx, mu, N);
  for (int i = 0; i < ops; ++i) {
    int k = c.range(0, N);
    switch (c.range(0, 5)) {
      case 0: case 1: {
        std::unique_ptr<T> d;
        if (c.chance(1, 2)) { d = std::make_unique<T>(std::move(*a)); c.note("construct"); }
        else { d = std::make_unique<T>(nx, mu, c.range(1, 9)); *d = std::move(*a); c.note("assign"); }
        if (c.chance(1, 2)) old.push_back(std::move(a));
        a = std::move(d);
        moves++;
        break;
      }
      case 2: { VectorXd x = gen::Vec(c, nx, -2, 2); a->State(k) = x; b.State(k) = x; writes += moves > 0; c.note("state {}", k); break; }
      case 3: { VectorXd u = gen::Vec(c, mu, -2, 2); a->Control(k) = u; b.Control(k) = u; writes += moves > 0; c.note("control {}", k); break; }
      case 4: { float t = (float)c.real(0, 5), h = (float)c.real(0, 1); a->SetTime(k, t); b.SetTime(k, t); a->SetStep(k, h); b.SetStep(k, h); break; }
      case 5: { float h = (float)c.real(0, 1); if (c.chance(1, 2)) { a->SetUniformStep(h); b.SetUniformStep(h); } else if (c.chance(1, 3)) { a->SetZero(); b.SetZero(); } break; }
    }
    EXPECT(a->NumSegments() == b.NumSegments(), "{} segments after a move, {} without", a->NumSegments(), b.NumSegments());
    for (int j = 0; j <= N; ++j) {
      EXPECT(a->StateDimension(j) == nx && a->ControlDimension(j) == mu, "dimensions at {} after a move", j);
      EXPECT(SameM(a->State(j), b.State(j)) && SameM(a->Control(j), b.Control(j)), "state or control {}: {} {} after a move, {} {} without", j, gen::Str(a->State(j)), gen::Str(a->Control(j)), gen::Str(b.State(j)), gen::Str(b.Control(j)));
      EXPECT(a->GetTime(j) == b.GetTime(j) && a->GetStep(j) == b.GetStep(j), "time or step {} after a move", j);
      EXPECT(a->GetKnotPoint(j).IsTerminal() == b.GetKnotPoint(j).IsTerminal(), "terminal mark {} after a move", j);
      EXPECT(SameM(a->GetKnotPoint(j).GetStateControl(), b.GetKnotPoint(j).GetStateControl()), "stacked state and control {} after a move", j);
    }
    EXPECT(a->CheckTimeConsistency() == b.CheckTimeConsistency(), "time consistency after a move");
    if (!old.empty() && c.chance(1, 3)) old.pop_back();
  }
  if (moves > 0 && writes > 0) c.nontrivial();
}
}  // namespace

PBT_CHECK(solver_moves, 4000, 80000) { Body(c); }
PBT_CHECK(stats_moves, 1500, 20000) { Stats(c); }
PBT_CHECK(pool_moves, 400, 4000) { Pool(c); }
PBT_CHECK(trajectory_moves, 1500, 20000) {
  int n = c.range(1, 4), m = c.range(1, 3);
  switch (c.range(0, 3)) {
    case 0: TrajMoves<3, 2>(c, 3, 2); break;
    case 1: TrajMoves<3, Eigen::Dynamic>(c, 3, m); break;
    case 2: TrajMoves<Eigen::Dynamic, 2>(c, n, 2); break;
    default: TrajMoves<Eigen::Dynamic, Eigen::Dynamic>(c, n, m);
  }
}
