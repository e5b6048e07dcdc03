// C16: trajectories and knot points.
#include "gen.hpp"
using namespace gen;
using altro::KnotPoint;
using altro::Trajectory;

const pbt::PropertyInfo pbt::kProperty = {
    "C16",
    "Stateful: a case draws a size instantiation (<-1,-1>, <3,2>, <3,-1>, <-1,2>), a length 1..8 and a sequence of up to 25 "
    "operations (element and whole-vector writes, times, steps, uniform steps, zeroing, terminal marking, copies, moves, "
    "assignments between trajectories of different length, construction from states/controls/times and from knot points, "
    "conversions between size instantiations) on up to three trajectories, mirrored in a plain-data model; every accessor is "
    "compared with the model after every operation, so sharing between copies is seen as an unexpected change. Non-trivial: "
    "at least one copy, move or construction followed by a write. Time-consistency cases place the worst step error around "
    "the tolerance.",
    {"states and controls written are finite"}};

namespace {
struct MKp {
  VectorXd x, u;
  float t = 0, h = 0;
};
using Model = std::vector<MKp>;

template <int n, int m>
void CheckKp(const KnotPoint<n, m>& z, const MKp& r, int k) {
  EXPECT(z.State().size() == r.x.size() && VectorXd(z.State()) == r.x, "state at {}: {} vs {}", k, Str(z.State()), Str(r.x));
  EXPECT(z.Control().size() == r.u.size() && VectorXd(z.Control()) == r.u, "control at {}: {} vs {}", k, Str(z.Control()), Str(r.u));
  EXPECT(z.GetTime() == r.t, "time at {}: {} vs {}", k, z.GetTime(), r.t);
  EXPECT(z.GetStep() == r.h, "step at {}: {} vs {}", k, z.GetStep(), r.h);
  EXPECT(z.StateDimension() == r.x.size() && z.ControlDimension() == r.u.size(), "dimensions at {}: {},{}", k, z.StateDimension(), z.ControlDimension());
  EXPECT(z.IsTerminal() == (r.h == 0), "terminal flag at {}", k);
  VectorXd xu(r.x.size() + r.u.size());
  xu << r.x, r.u;
  EXPECT(VectorXd(z.GetStateControl()) == xu, "stacked state and control at {}", k);
}
template <int n, int m>
void CheckTraj(Trajectory<n, m>& Z, const Model& r) {
  int N = (int)r.size() - 1;
  EXPECT(Z.NumSegments() == N, "segments {} vs {}", Z.NumSegments(), N);
  const Trajectory<n, m>& C = Z;
  for (int k = 0; k <= N; ++k) {
    CheckKp(C.GetKnotPoint(k), r[k], k);
    EXPECT(&C.GetKnotPoint(k) == &Z[k] && &Z.GetKnotPoint(k) == &Z[k] && &Z.State(k) == &C.State(k) && &Z.Control(k) == &C.Control(k), "accessors name different data at {}", k);
    EXPECT(VectorXd(C.State(k)) == r[k].x && VectorXd(C.Control(k)) == r[k].u, "state or control accessor at {}", k);
    EXPECT(C.GetTime(k) == (double)r[k].t && C.GetStep(k) == r[k].h, "time or step accessor at {}: {} {} vs {} {}", k, C.GetTime(k), C.GetStep(k), r[k].t, r[k].h);
    EXPECT(C.StateDimension(k) == r[k].x.size() && C.ControlDimension(k) == r[k].u.size(), "dimension accessors at {}", k);
  }
  int k = 0;
  for (auto it = C.begin(); it != C.end(); ++it, ++k) EXPECT(&*it == &C.GetKnotPoint(k), "iteration visits another element at {}", k);
  EXPECT(k == N + 1, "iteration visits {} elements", k);
}

template <int n, int m>
void Run(Ctx& c) {
  int nn = n > 0 ? n : c.range(1, 5), mm = m > 0 ? m : c.range(1, 4);
  struct Obj {
    std::unique_ptr<Trajectory<n, m>> Z;
    Model r;
  };
  std::vector<Obj> objs;
  auto fresh = [&](int N) {
    Obj o;
    o.Z = std::make_unique<Trajectory<n, m>>(nn, mm, N);
    o.r.assign(N + 1, MKp{VectorXd::Zero(nn), VectorXd::Zero(mm), 0, 0});
    return o;
  };
  int N0 = c.range(1, 8);
  objs.push_back(fresh(N0));
  c.note("<{},{}> n={} m={} N={}", n, m, nn, mm, N0);
  c.label(fmt::format("<{},{}>", n, m));
  CheckTraj(*objs[0].Z, objs[0].r);
  int nops = c.range(1, 25);
  bool copied = false, wrote = false;
  for (int i = 0; i < nops; ++i) {
    size_t a = c.below(objs.size());
    Obj& o = objs[a];
    int N = (int)o.r.size() - 1;
    int k = c.range(0, N);
    int op = c.range(0, 17);
    c.note("op{} on {} k={}", op, a, k);
    bool copyop = false;
    switch (op) {
      case 0: {
        VectorXd v = Vec(c, nn, -5, 5);
        o.Z->State(k) = v;
        o.r[k].x = v;
        break;
      }
      case 1: {
        VectorXd v = Vec(c, mm, -5, 5);
        o.Z->Control(k) = v;
        o.r[k].u = v;
        break;
      }
      case 2: {
        int j = c.range(0, nn - 1);
        double v = c.real(-5, 5);
        o.Z->GetKnotPoint(k).State()(j) = v;
        o.r[k].x(j) = v;
        break;
      }
      case 3: {
        float t = (float)c.real(-3, 9);
        o.Z->SetTime(k, t);
        o.r[k].t = t;
        break;
      }
      case 4: {
        float h = c.chance(1, 4) ? 0.0f : (float)c.real(-1, 1);
        o.Z->SetStep(k, h);
        o.r[k].h = h;
        break;
      }
      case 5: {
        float h = (float)c.logreal(1e-3, 1);
        o.Z->SetUniformStep(h);
        for (int j = 0; j <= N; ++j) {
          // times are multiples of the step, up to float rounding
          double t = o.Z->GetTime(j);
          EXPECT(std::fabs(t - (double)j * h) <= 1e-6 * (1 + std::fabs(j * h)), "uniform time {} at {}, expected {}", t, j, j * (double)h);
          o.r[j].t = (float)t;
          o.r[j].h = j < N ? h : 0.0f;
        }
        break;
      }
      case 6:
        o.Z->SetZero();
        for (auto& q : o.r) q.x.setZero(), q.u.setZero();
        break;
      case 7:
        (*o.Z)[k].SetTerminal();
        o.r[k].h = 0;
        o.r[k].u.setZero();
        break;
      case 8: {
        (*o.Z)[k].SetTime(1.5f);
        (*o.Z)[k].SetStep(0.25f);
        o.r[k].t = 1.5f;
        o.r[k].h = 0.25f;
        break;
      }
      case 9: {  // copy-construct
        Obj q;
        q.Z = std::make_unique<Trajectory<n, m>>(*o.Z);
        q.r = o.r;
        copyop = true;
        if (objs.size() < 3) objs.push_back(std::move(q));
        else objs[c.below(3)] = std::move(q);
        break;
      }
      case 10: {  // move-construct; the source is destroyed
        auto z = std::make_unique<Trajectory<n, m>>(std::move(*o.Z));
        o.Z = std::move(z);
        copyop = true;
        break;
      }
      case 11: {  // copy-assign over a trajectory of another length
        size_t b = c.below(objs.size());
        *objs[b].Z = *o.Z;
        objs[b].r = Model(o.r);
        copyop = true;
        break;
      }
      case 12: {  // move-assign
        if (objs.size() < 2) break;
        size_t b = (a + 1) % objs.size();
        *objs[b].Z = std::move(*o.Z);
        objs[b].r = o.r;
        Obj q = fresh(c.range(1, 8));
        if (c.chance(1, 2)) {  // the moved-from trajectory can be assigned to
          *o.Z = *q.Z;
          o.r = q.r;
        } else {
          objs[a] = std::move(q);
        }
        copyop = true;
        break;
      }
      case 13: {  // from states, controls and times
        int N2 = c.range(1, 8);
        std::vector<altro::VectorN<n>> X;
        std::vector<altro::VectorN<m>> U;
        std::vector<float> T;
        Obj q;
        float t = (float)c.real(-2, 2);
        for (int j = 0; j <= N2; ++j) {
          VectorXd x = Vec(c, nn, -5, 5), u = Vec(c, mm, -5, 5);
          X.push_back(x);
          if (j < N2) U.push_back(u);
          T.push_back(t);
          q.r.push_back(MKp{x, j < N2 ? u : VectorXd::Zero(mm), t, 0});
          t += (float)c.logreal(1e-3, 2);
        }
        for (int j = 0; j < N2; ++j) q.r[j].h = T[j + 1] - T[j];
        q.Z = std::make_unique<Trajectory<n, m>>(X, U, T);
        EXPECT(q.Z->GetKnotPoint(N2).IsTerminal(), "last point is not terminal");
        EXPECT(q.Z->CheckTimeConsistency(), "a trajectory built from times is not time-consistent");
        copyop = true;
        objs[a] = std::move(q);
        break;
      }
      case 14: {  // from knot points
        std::vector<KnotPoint<n, m>> zs(o.Z->begin(), o.Z->end());
        Obj q;
        q.Z = std::make_unique<Trajectory<n, m>>(zs);
        q.r = o.r;
        copyop = true;
        if (objs.size() < 3) objs.push_back(std::move(q));
        else objs[c.below(3)] = std::move(q);
        break;
      }
      case 15: {  // knot point conversions, there and back, then write back to another index
        altro::KnotPoint<-1, -1> d(o.Z->GetKnotPoint(k));
        CheckKp(d, o.r[k], k);
        KnotPoint<n, m> back(d);
        CheckKp(back, o.r[k], k);
        KnotPoint<n, -1> half(back);
        CheckKp(half, o.r[k], k);
        KnotPoint<n, m> back2(half);
        d.State()(0) += 1;
        d.SetTime(99);
        d.SetStep(98);
        CheckKp(back, o.r[k], k);
        int k2 = c.range(0, N);
        (*o.Z)[k2] = c.chance(1, 2) ? back : std::move(back2);
        o.r[k2] = o.r[k];
        copyop = true;
        break;
      }
      case 16: {  // knot point constructors and copies
        VectorXd x = Vec(c, nn), u = Vec(c, mm);
        KnotPoint<n, m> z(altro::VectorN<n>(x), altro::VectorN<m>(u), 2.5f, 0.5f), z0(nn, mm), z1(z), z2(nn, mm);
        CheckKp(z0, MKp{VectorXd::Zero(nn), VectorXd::Zero(mm), 0, 0}, -1);
        z2 = z;
        z.State()(0) = 7;
        z.SetTime(3);
        MKp r{x, u, 2.5f, 0.5f};
        CheckKp(z1, r, -1);
        CheckKp(z2, r, -1);
        KnotPoint<n, m> z3(std::move(z2));
        CheckKp(z3, r, -1);
        z0 = std::move(z3);
        CheckKp(z0, r, -1);
        (*o.Z)[k] = z0;
        o.r[k] = r;
        copyop = true;
        break;
      }
      default: {  // write through iteration
        int j = 0;
        for (auto& z : *o.Z) {
          z.Control()(0) = j;
          o.r[j].u(0) = j;
          ++j;
        }
      }
    }
    if (copyop) copied = true;
    else if (copied) wrote = true;
    for (auto& q : objs) CheckTraj(*q.Z, q.r);
  }
  if (copied && wrote) c.nontrivial();
}

template <int n, int m>
void Consistency(Ctx& c) {
  int nn = n > 0 ? n : 2, mm = m > 0 ? m : 2, N = c.range(1, 10);
  Trajectory<n, m> Z(nn, mm, N);
  bool dflt = c.chance(1, 3);
  double eps = dflt ? 1e-6 : c.logreal(1e-7, 1e-1);
  float t = (float)c.real(-1, 3);
  std::vector<float> T, H;
  int bad = c.chance(1, 3) ? -1 : c.range(0, N - 1);
  for (int k = 0; k <= N; ++k) {
    T.push_back(t);
    t += (float)c.logreal(1e-3, 1);
  }
  for (int k = 0; k < N; ++k) H.push_back(T[k + 1] - T[k]);
  if (bad >= 0) H[bad] += (float)((c.chance(1, 2) ? 1 : -1) * eps * c.one_of({0.3, 0.9, 1.1, 3.0, 1000.0}));
  float hN = c.chance(1, 2) ? 0.0f : 0.7f;  // the terminal step takes no part
  for (int k = 0; k <= N; ++k) {
    Z.SetTime(k, T[k]);
    Z.SetStep(k, k < N ? H[k] : hN);
  }
  double worst = 0;
  for (int k = 0; k < N; ++k) worst = std::max(worst, std::fabs((double)H[k] - ((double)T[k + 1] - (double)T[k])));
  c.note("N={} eps={} bad={} worst={:.3g} T={} ", N, eps, bad, worst, Str(Eigen::Map<Eigen::VectorXf>(T.data(), T.size())));
  double slack = 1.2e-7 * (1 + std::fabs(T[N])) * 2;
  if (std::fabs(worst - eps) < slack) c.discard();
  if (bad >= 0) c.nontrivial();
  bool verbose = c.chance(1, 6), ans;
  std::string out;
  {
    pbt::CaptureStdout cap;
    ans = dflt && !verbose ? Z.CheckTimeConsistency() : Z.CheckTimeConsistency(eps, verbose);
    out = cap.Stop();
  }
  c.label(worst <= eps ? "consistent" : "inconsistent");
  EXPECT(ans == (worst <= eps), "time consistency reported {} with the worst step error {:.6g} and tolerance {:.6g}", ans, worst, eps);
  if (!verbose) EXPECT(out.empty(), "a quiet check printed");
  for (int k = 0; k <= N; ++k) EXPECT(Z.GetTime(k) == T[k] && Z.GetStep(k) == (k < N ? H[k] : hN), "the check changed the trajectory");
}
}  // namespace

PBT_CHECK(history, 12000, 400000) {
  switch (c.below(4)) {
    case 0: Run<-1, -1>(c); break;
    case 1: Run<3, 2>(c); break;
    case 2: Run<3, -1>(c); break;
    default: Run<-1, 2>(c);
  }
}
PBT_CHECK(time_consistency, 20000, 600000) {
  c.chance(1, 2) ? Consistency<-1, -1>(c) : Consistency<3, 2>(c);
}
// Fixed-size default construction.
PBT_CHECK(fixed_default, 300, 3000) {
  int N = c.range(0, 10);
  Trajectory<3, 2> Z(N);
  Model r(N + 1, MKp{VectorXd::Zero(3), VectorXd::Zero(2), 0, 0});
  c.note("N={}", N);
  if (N > 1) c.nontrivial();
  CheckTraj(Z, r);
  KnotPoint<3, 2> z;
  CheckKp(z, r[0], 0);
}
