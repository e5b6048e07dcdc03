// C13: problem definitions.
#include "sol.hpp"
using namespace gen;
using altro::constraints::Equality;
using altro::constraints::Inequality;
using altro::problem::CostFunction;
using altro::problem::DiscreteDynamics;
using altro::problem::Problem;

const pbt::PropertyInfo pbt::kProperty = {
    "C13",
    "Stateful: a case draws 1..3 problems (1..6 segments) and up to 30 operations (single and vector assignments of dynamics, "
    "costs and constraints at random or clashing knot points, initial states of right and wrong size, copies, moves and "
    "assignments between problems of different horizon), mirrored in a plain model; after every operation every query of "
    "every live problem is compared with the model. A second check builds the constrained inner problem of generated "
    "problems and evaluates it. Non-trivial: a copy, move or assignment followed by another write, or a constrained problem.",
    {"a moved-from problem is only destroyed or assigned to"}};

namespace {
struct MProb {
  int N = 1;
  VectorXd x0 = VectorXd(0);
  std::vector<std::shared_ptr<CostFunction>> cost;
  std::vector<std::shared_ptr<DiscreteDynamics>> dyn;
  std::vector<std::vector<std::shared_ptr<altro::constraints::Constraint<Equality>>>> eq;
  std::vector<std::vector<std::shared_ptr<altro::constraints::Constraint<Inequality>>>> ineq;
  explicit MProb(int n) : N(n), cost(n + 1), dyn(n), eq(n + 1), ineq(n + 1) {}
  bool Full() const {
    for (auto& f : cost) if (!f) return false;
    for (auto& f : dyn) if (!f) return false;
    return x0.size() > 0 && dyn[0]->StateDimension() == x0.size();
  }
  int NumCon(int k) const {
    int p = 0;
    for (auto& f : eq[k]) p += f->OutputDimension();
    for (auto& f : ineq[k]) p += f->OutputDimension();
    return p;
  }
};
void Query(Problem& p, const MProb& r, bool verbose) {
  EXPECT(p.NumSegments() == r.N, "segments {} vs {}", p.NumSegments(), r.N);
  EXPECT(p.GetInitialState() == r.x0, "initial state {} vs {}", Str(p.GetInitialState()), Str(r.x0));
  EXPECT(p.GetInitialStatePointer() && *p.GetInitialStatePointer() == r.x0, "initial state pointer");
  int tot = 0;
  EXPECT((int)p.GetEqualityConstraints().size() == r.N + 1 && (int)p.GetInequalityConstraints().size() == r.N + 1, "constraint containers have {} and {} knot points", p.GetEqualityConstraints().size(), p.GetInequalityConstraints().size());
  for (int k = 0; k <= r.N; ++k) {
    EXPECT(p.GetCostFunction(k) == r.cost[k], "cost function at {} is not the one assigned", k);
    if (k < r.N && r.dyn[k]) EXPECT(p.GetDynamics(k) == r.dyn[k], "dynamics at {} are not the ones assigned", k);
    if (k == r.N && r.dyn[k - 1]) {
      EXPECT(p.GetDynamics(k)->StateDimension() == r.dyn[k - 1]->StateDimension() && p.GetDynamics(k)->ControlDimension() == r.dyn[k - 1]->ControlDimension(), "terminal dimensions");
    }
    EXPECT(p.NumConstraints(k) == r.NumCon(k), "constraint length at {}: {} vs {}", k, p.NumConstraints(k), r.NumCon(k));
    tot += r.NumCon(k);
    EXPECT(p.GetEqualityConstraints()[k] == r.eq[k], "equality constraints at {} differ from those added ({} vs {})", k, p.GetEqualityConstraints()[k].size(), r.eq[k].size());
    EXPECT(p.GetInequalityConstraints()[k] == r.ineq[k], "inequality constraints at {} differ from those added ({} vs {})", k, p.GetInequalityConstraints()[k].size(), r.ineq[k].size());
  }
  EXPECT(p.NumConstraints() == tot, "total constraint length {} vs {}", p.NumConstraints(), tot);
  bool full;
  std::string out;
  {
    pbt::CaptureStdout cap;
    full = verbose ? p.IsFullyDefined(true) : p.IsFullyDefined();
    out = cap.Stop();
  }
  EXPECT(full == r.Full(), "completeness reported {} for a problem that is {}fully defined", full, r.Full() ? "" : "not ");
  if (!verbose) EXPECT(out.empty(), "quiet completeness query printed");
}
DynSpec TinyDyn(int n, int m) {
  DynSpec d;
  d.n = n;
  d.m = m;
  d.A = MatrixXd::Zero(n, n);
  d.B = MatrixXd::Zero(n, m);
  d.P = d.G = d.A;
  d.b = d.w = VectorXd::Zero(n);
  return d;
}
ConSpec TinyCon(int n, int m, int p) {
  ConSpec s;
  s.p = p;
  s.C = MatrixXd::Zero(p, n);
  s.D = MatrixXd::Zero(p, m);
  s.e = s.v = s.w = VectorXd::Zero(p);
  return s;
}
CostSpec TinyCost(int n, int m) {
  CostSpec s;
  s.n = n;
  s.m = m;
  s.Q = MatrixXd::Identity(n, n);
  s.R = MatrixXd::Identity(m, m);
  s.H = MatrixXd::Zero(n, m);
  s.q = VectorXd::Zero(n);
  s.r = VectorXd::Zero(m);
  return s;
}
}  // namespace

PBT_CHECK(history, 12000, 400000) {
  int n = c.range(1, 4), m = c.range(1, 3);
  struct Obj {
    std::unique_ptr<Problem> p;
    MProb r{1};
  };
  std::vector<Obj> objs;
  auto fresh = [&]() {
    Obj o;
    int N = c.range(1, 6);
    o.r = MProb(N);
    if (c.chance(1, 4)) {
      VectorXd x = Vec(c, n);
      o.p = std::make_unique<Problem>(N, std::make_shared<VectorXd>(x));
      o.r.x0 = x;
    } else {
      o.p = std::make_unique<Problem>(N);
    }
    return o;
  };
  objs.push_back(fresh());
  c.note("n={} m={} N={}", n, m, objs[0].r.N);
  Query(*objs[0].p, objs[0].r, false);
  bool copied = false, wrote = false, was_full = false;
  int nops = c.range(1, 30);
  for (int i = 0; i < nops; ++i) {
    size_t a = c.below(objs.size());
    Obj& o = objs[a];
    int N = o.r.N, k = c.range(0, N), kd = c.range(0, N - 1);
    int op = c.range(0, 14);
    c.note("op{} on {} k={}", op, a, k);
    bool copyop = false;
    auto dyn = [&]() { return std::make_shared<UDyn>(TinyDyn(c.chance(1, 10) ? n + 1 : n, m), nullptr); };
    auto cost = [&]() { return std::make_shared<UCost>(TinyCost(n, m), nullptr); };
    switch (op) {
      case 0: {
        auto f = dyn();
        o.p->SetDynamics(f, kd);
        o.r.dyn[kd] = f;
        break;
      }
      case 1: {
        std::shared_ptr<CostFunction> f = c.chance(1, 8) ? nullptr : cost();
        o.p->SetCostFunction(f, k);
        o.r.cost[k] = f;
        break;
      }
      case 2: {  // interval of dynamics, possibly one shared object
        int len = c.range(1, N - kd);
        std::vector<std::shared_ptr<UDyn>> v;
        auto shared = dyn();
        for (int j = 0; j < len; ++j) v.push_back(c.chance(1, 2) ? shared : dyn());
        if (kd == 0 && c.chance(1, 2)) o.p->SetDynamics(v);
        else o.p->SetDynamics(v, kd);
        for (int j = 0; j < len; ++j) o.r.dyn[kd + j] = v[j];
        break;
      }
      case 3: {
        int len = c.range(1, N + 1 - k);
        std::vector<std::shared_ptr<UCost>> v;
        auto shared = cost();
        for (int j = 0; j < len; ++j) v.push_back(c.chance(1, 2) ? shared : cost());
        if (k == 0 && c.chance(1, 2)) o.p->SetCostFunction(v);
        else o.p->SetCostFunction(v, k);
        for (int j = 0; j < len; ++j) o.r.cost[k + j] = v[j];
        break;
      }
      case 4: case 5: {
        auto f = std::make_shared<UEq>(TinyCon(n, m, c.range(1, 3)), nullptr);
        if (op == 4) o.p->SetConstraint(f, k);
        else o.p->SetConstraint<Equality>(std::shared_ptr<altro::constraints::Constraint<Equality>>(f), k);
        o.r.eq[k].push_back(f);
        break;
      }
      case 6: case 7: {
        auto f = std::make_shared<UIneq>(TinyCon(n, m, c.range(1, 3)), nullptr);
        if (op == 6) o.p->SetConstraint(f, k);
        else o.p->SetConstraint<Inequality>(std::shared_ptr<altro::constraints::Constraint<Inequality>>(f), k);
        o.r.ineq[k].push_back(f);
        if (c.chance(1, 4)) {  // the same object at another knot point
          int k2 = c.range(0, N);
          o.p->SetConstraint(f, k2);
          o.r.ineq[k2].push_back(f);
        }
        break;
      }
      case 8: {
        VectorXd x = Vec(c, c.chance(1, 5) ? n + 1 : n);
        o.p->SetInitialState(x);
        o.r.x0 = x;
        break;
      }
      case 9: {
        Obj q;
        q.p = std::make_unique<Problem>(*o.p);
        q.r = o.r;
        copyop = true;
        if (objs.size() < 3) objs.push_back(std::move(q));
        else objs[c.below(3)] = std::move(q);
        break;
      }
      case 10: {
        size_t b = c.below(objs.size());
        *objs[b].p = static_cast<const Problem&>(*o.p);
        if (b != a) objs[b].r = o.r;
        copyop = true;
        break;
      }
      case 11: {
        auto q = std::make_unique<Problem>(std::move(*o.p));
        o.p = std::move(q);
        copyop = true;
        break;
      }
      case 12: {
        if (objs.size() < 2) {
          objs.push_back(fresh());
          break;
        }
        size_t b = (a + 1) % objs.size();
        *objs[b].p = std::move(*o.p);
        objs[b].r = o.r;
        if (c.chance(1, 2)) {
          Obj q = fresh();
          *o.p = *q.p;  // a moved-from problem can be assigned to
          o.r = q.r;
        } else {
          objs[a] = fresh();
        }
        copyop = true;
        break;
      }
      case 13: {  // complete the definition
        for (int j = 0; j < N; ++j) if (!o.r.dyn[j] || o.r.dyn[j]->StateDimension() != n) {
          auto f = std::make_shared<UDyn>(TinyDyn(n, m), nullptr);
          o.p->SetDynamics(f, j);
          o.r.dyn[j] = f;
        }
        for (int j = 0; j <= N; ++j) if (!o.r.cost[j]) {
          auto f = cost();
          o.p->SetCostFunction(f, j);
          o.r.cost[j] = f;
        }
        if (c.chance(4, 5)) {
          VectorXd x = Vec(c, n);
          o.p->SetInitialState(x);
          o.r.x0 = x;
        }
        break;
      }
      default: {
        auto f = dyn();
        o.p->SetDynamics(f, N - 1);
        o.r.dyn[N - 1] = f;
      }
    }
    if (copyop) copied = true;
    else if (copied) wrote = true;
    bool verbose = c.chance(1, 16);
    for (auto& q : objs) {
      Query(*q.p, q.r, verbose);
      was_full |= q.r.Full();
    }
  }
  if (was_full) c.label("fully defined at some point");
  if (copied && wrote) c.nontrivial();
}

// The constrained problem handed to the inner solver.
PBT_CHECK(inner_problem, 3000, 100000) {
  gen::Options o;
  o.max_con = c.range(0, 3);
  o.nonlinear_con = c.chance(1, 3);
  o.Nmax = 6;
  auto z = sol::PickSize(c, &o);
  Spec s = MakeSpec(c, o);
  Problem prob(s.N);
  Fill(s, &prob);
  c.note("{} {}", sol::Str(z), s.Brief());
  c.label(s.NumCon() ? "constrained" : "unconstrained");
  if (s.NumCon()) c.nontrivial();
  auto al = sol::Get(z).build(prob);
  EXPECT(al->NumSegments() == s.N, "horizon {} vs {}", al->NumSegments(), s.N);
  EXPECT(al->GetInitialState() == s.x0, "initial state");
  EXPECT(al->IsFullyDefined(), "the inner problem is not fully defined");
  EXPECT(al->NumConstraints() == 0, "the inner problem still has constraints");
  for (int k = 0; k < s.N; ++k) EXPECT(al->GetDynamics(k) == prob.GetDynamics(k), "dynamics at {} are not shared", k);
  VectorXd x1 = Vec(c, s.n);
  prob.SetInitialState(x1);
  EXPECT(al->GetInitialState() == x1, "a change of the initial state does not reach the inner problem");
  for (int rep = 0; rep < 2; ++rep)
    for (int k = 0; k <= s.N; ++k) {
      VectorXd x = Vec(c, s.n, -2, 2), u = Vec(c, s.m, -2, 2);
      auto f = al->GetCostFunction(k);
      EXPECT(f->StateDimension() == s.n && f->ControlDimension() == s.m, "dimensions of the inner cost at {}", k);
      // fresh multipliers are zero, penalties one
      double ref = s.cost[k].J(x, u), mag = std::fabs(ref) + 1;
      for (auto& q : s.con[k]) {
        VectorXd g = q.G(x, u);
        for (int i = 0; i < q.p; ++i) {
          double v = q.eq ? g(i) : std::max(0.0, g(i));
          ref += 0.5 * v * v;
          mag += v * v;
        }
      }
      EXPECT(std::fabs(f->Evaluate(x, u) - ref) <= 1e-12 * mag, "inner cost at {}: {} vs {}", k, f->Evaluate(x, u), ref);
    }
  std::vector<std::shared_ptr<CostFunction>> none;
  for (int k = 0; k <= s.N; ++k) EXPECT(prob.GetCostFunction(k) != al->GetCostFunction(k), "the original problem was modified");
  EXPECT(prob.NumConstraints() == s.NumCon(), "the original problem lost constraints");
}
