// C02: convex problems are solved to the global optimum of the underlying program.
#include "rec.hpp"

const pbt::PropertyInfo pbt::kProperty = {
    "C02",
    "Linear time-varying dynamics with offsets, strictly convex quadratic costs with cross terms, solvers of run-time and fixed size. (a) unconstrained: the first iteration must land on "
    "the optimum of the condensed dense QP (solved in long double) with a unit step, from any guess. (b) affine equality and inequality constraints at random knot points (feasible by construction): a "
    "successful solve is compared with a primal-dual interior-point reference through rigorous duality bounds, and its own multipliers must satisfy the KKT conditions. Non-trivial: (a) the guess is not "
    "optimal; (b) success with at least one active constraint.",
    {"strict convexity: control Hessian at least rmin (0.02..0.3)",
     "complementarity is only tested by the solver through the constraint violation, so the allowed cost gap contains the solver's own complementarity gap, which is checked separately"}};

namespace {
using pbt::Ctx;
using namespace sol;
typedef Eigen::Matrix<long double, -1, -1> ML;
typedef Eigen::Matrix<long double, -1, 1> VL;

// x_k = F[k] U + f[k]
struct Qp {
  int nu = 0;
  std::vector<ML> F;
  std::vector<VL> f;
  ML H;
  VL g;
  long double c = 0;
  ML Ae, Ai;       // Ae U = be, Ai U <= bi
  VL be, bi;
  struct Ref { int k; int con; int row; };   // con: position in rec::Ordered
  std::vector<Ref> re, ri;
  long double J(const VL& U) const { return (0.5L * U.dot(H * U)) + g.dot(U) + c; }
};
Qp Condense(const gen::Spec& s) {
  Qp q;
  int n = s.n, m = s.m, N = s.N;
  q.nu = N * m;
  q.F.push_back(ML::Zero(n, q.nu));
  q.f.push_back(s.x0.cast<long double>());
  for (int k = 0; k < N; ++k) {
    MatrixXd A, B;
    VectorXd zx = VectorXd::Zero(n), zu = VectorXd::Zero(m);
    s.dyn[k].DStep(zx, zu, s.t[k], s.h[k], &A, &B);
    VectorXd d = s.dyn[k].Step(zx, zu, s.t[k], s.h[k]);
    ML F = A.cast<long double>() * q.F[k];
    F.middleCols(k * m, m) += B.cast<long double>();
    q.F.push_back(F);
    q.f.push_back(A.cast<long double>() * q.f[k] + d.cast<long double>());
  }
  q.H = ML::Zero(q.nu, q.nu);
  q.g = VL::Zero(q.nu);
  std::vector<std::vector<VL>> er(1), ir(1);
  std::vector<VL> Erow, Irow;
  std::vector<long double> Eb, Ib;
  for (int k = 0; k <= N; ++k) {
    auto& cs = s.cost[k];
    ML Q = cs.Q.cast<long double>(), R = cs.R.cast<long double>(), X = cs.H.cast<long double>();
    VL qv = cs.q.cast<long double>(), rv = cs.r.cast<long double>();
    ML E = ML::Zero(m, q.nu);
    if (k < N) E.middleCols(k * m, m) = ML::Identity(m, m);
    q.H += q.F[k].transpose() * Q * q.F[k] + E.transpose() * R * E + q.F[k].transpose() * X * E + E.transpose() * X.transpose() * q.F[k];
    q.g += q.F[k].transpose() * (Q * q.f[k] + qv) + E.transpose() * (X.transpose() * q.f[k] + rv);
    q.c += 0.5L * q.f[k].dot(Q * q.f[k]) + qv.dot(q.f[k]) + (long double)cs.c0;
    auto oc = rec::Ordered(s, k);
    for (size_t i = 0; i < oc.size(); ++i) {
      ML C = oc[i]->C.cast<long double>(), D = oc[i]->D.cast<long double>();
      ML row = C * q.F[k] + D * E;
      VL b = oc[i]->e.cast<long double>() - C * q.f[k];
      for (int r = 0; r < oc[i]->p; ++r) {
        (oc[i]->eq ? Erow : Irow).push_back(row.row(r).transpose());
        (oc[i]->eq ? Eb : Ib).push_back(b(r));
        (oc[i]->eq ? q.re : q.ri).push_back({k, (int)i, r});
      }
    }
  }
  q.H = 0.5L * (q.H + q.H.transpose()).eval();
  q.Ae = ML::Zero(Erow.size(), q.nu); q.be = VL::Zero(Erow.size());
  q.Ai = ML::Zero(Irow.size(), q.nu); q.bi = VL::Zero(Irow.size());
  for (size_t i = 0; i < Erow.size(); ++i) { q.Ae.row(i) = Erow[i].transpose(); q.be(i) = Eb[i]; }
  for (size_t i = 0; i < Irow.size(); ++i) { q.Ai.row(i) = Irow[i].transpose(); q.bi(i) = Ib[i]; }
  return q;
}
VL Stack(const std::vector<VectorXd>& U) {
  int m = U[0].size();
  VL r(U.size() * m);
  for (size_t k = 0; k < U.size(); ++k) r.segment(k * m, m) = U[k].cast<long double>();
  return r;
}
// Primal-dual interior point, multipliers y (free), z >= 0:  H U + g + Ae' y + Ai' z = 0.
struct Sol { bool ok = false; VL U, y, z; long double lower = 0, upper = 0, infeas = 0; };
Sol SolveQp(const Qp& q) {
  Sol s;
  int ne = q.be.size(), ni = q.bi.size(), nu = q.nu;
  Eigen::LDLT<ML> hl(q.H);
  s.U = hl.solve(-q.g);
  s.y = VL::Zero(ne);
  s.z = VL::Constant(ni, 1);
  VL w = VL::Constant(ni, 1);
  for (int i = 0; i < ni; ++i) w(i) = std::max(1.0L, std::abs(q.bi(i) - q.Ai.row(i).dot(s.U)));
  const long double reg = 1e-13L;
  for (int it = 0; it < 120; ++it) {
    VL rd = q.H * s.U + q.g + q.Ae.transpose() * s.y + q.Ai.transpose() * s.z;
    VL rp = q.Ae * s.U - q.be, rc = q.Ai * s.U + w - q.bi;
    long double mu = ni ? s.z.dot(w) / ni : 0;
    long double res = rd.cwiseAbs().maxCoeff();
    if (ne) res = std::max(res, rp.cwiseAbs().maxCoeff());
    if (ni) res = std::max(res, rc.cwiseAbs().maxCoeff());
    if (res < 1e-13L && mu < 1e-14L) break;
    ML K = q.H;
    VL sc = ni ? VL(s.z.cwiseQuotient(w)) : VL();
    if (ni) K += q.Ai.transpose() * sc.asDiagonal() * q.Ai;
    Eigen::LDLT<ML> kl(K);
    ML S = q.Ae * kl.solve(ML(q.Ae.transpose())) + reg * ML::Identity(ne, ne);
    Eigen::LDLT<ML> sl;
    if (ne) sl.compute(S);
    VL dU, dy, dz, dw;
    auto dir = [&](const VL& comp) {     // comp: target of z w residual (z w - comp = 0)
      VL r1 = -rd;
      if (ni) r1 -= q.Ai.transpose() * VL(sc.cwiseProduct(rc) + (comp - s.z.cwiseProduct(w)).cwiseQuotient(w));
      dU = kl.solve(r1);
      if (ne) {
        dy = sl.solve(VL(q.Ae * dU + rp));
        dU -= kl.solve(VL(q.Ae.transpose() * dy));
      } else dy = VL::Zero(0);
      dw = ni ? VL(-rc - q.Ai * dU) : VL();
      dz = ni ? VL((comp - s.z.cwiseProduct(w) - s.z.cwiseProduct(dw)).cwiseQuotient(w)) : VL();
    };
    auto step = [&](long double f) {
      long double a = 1;
      for (int i = 0; i < ni; ++i) {
        if (dw(i) < 0) a = std::min(a, -f * w(i) / dw(i));
        if (dz(i) < 0) a = std::min(a, -f * s.z(i) / dz(i));
      }
      return a;
    };
    VL comp = VL::Zero(ni);
    dir(comp);
    if (ni) {
      long double a = step(1), mua = (s.z + a * dz).dot(w + a * dw) / ni, sig = std::pow(mua / mu, 3);
      comp = VL::Constant(ni, sig * mu) - dz.cwiseProduct(dw);
      dir(comp);
    }
    long double a = step(0.995L);
    s.U += a * dU;
    s.y += a * dy;
    if (ni) { s.z += a * dz; w += a * dw; }
    if (!s.U.allFinite() || !s.y.allFinite() || !s.z.allFinite() || !w.allFinite()) return s;
  }
  // bounds: q(y, z) <= optimum; J(U) >= optimum if U is feasible
  VL gl = q.g + q.Ae.transpose() * s.y + q.Ai.transpose() * s.z;
  s.lower = q.c - 0.5L * gl.dot(hl.solve(gl)) - q.be.dot(s.y) - q.bi.dot(s.z);
  s.upper = q.J(s.U);
  if (ne) s.infeas = std::max(s.infeas, (q.Ae * s.U - q.be).cwiseAbs().maxCoeff());
  if (ni) s.infeas = std::max(s.infeas, (q.Ai * s.U - q.bi).maxCoeff());
  // degenerate rows can leave the multipliers undetermined: only a certified pair of bounds is a reference
  bool certified = std::isfinite((double)s.lower) && std::isfinite((double)s.upper) && (!ni || s.z.minCoeff() >= 0);
  s.ok = certified && s.infeas < 1e-9L && std::abs(s.upper - s.lower) < 1e-8L * (1 + std::abs(s.upper));
  return s;
}

gen::Options LqOptions(Ctx& c, Size* z) {
  gen::Options o;
  *z = PickSize(c, &o);
  o.nonlinear = o.nonquadratic = o.nonconvex = false;
  o.rmin = c.one_of<double>({0.1, 0.02, 0.3});
  o.guess = c.one_of<double>({1, 0, 10});
  o.gain = c.one_of<double>({0.5, 2, 0});
  return o;
}

void Unconstrained(Ctx& c) {
  Size z;
  gen::Options o = LqOptions(c, &z);
  if (c.chance(1, 6)) o.Nmax = 30;
  gen::Spec sp = gen::MakeSpec(c, o);
  if (c.chance(1, 6)) {   // uncontrollable
    for (auto& d : sp.dyn) { d.B.row(0).setZero(); d.A.row(0).setZero(); }
    c.label("uncontrollable state");
  }
  bool al = c.chance(1, 5);   // the AL solver on a problem without constraints
  Qp q = Condense(sp);
  Eigen::LDLT<ML> hl(q.H);
  VL Us = hl.solve(-q.g);
  long double Js = q.J(Us);
  Eigen::SelfAdjointEigenSolver<ML> es(q.H);
  long double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff(), cond = hi / lo;
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  auto s = al ? MakeAL(z, prob) : MakeiLQR(z, prob);
  s->NewTraj(sp);
  if (c.chance(1, 8)) s->Opts().nthreads = c.range(2, 3);
  c.note("{}{} {}", al ? "AL " : "", sol::Str(z), sp.Brief());
  VL U0 = Stack(sp.U0);
  long double J0 = q.J(U0);
  double mag = 1 + std::abs((double)J0) + std::abs((double)Js);
  auto X0 = sp.Rollout(sp.U0);
  mag += rec::RefCostScale(sp, X0, sp.U0, {});
  std::vector<VectorXd> Uv;
  for (int k = 0; k < sp.N; ++k) Uv.push_back(Us.segment(k * sp.m, sp.m).cast<double>());
  mag += rec::RefCostScale(sp, sp.Rollout(Uv), Uv, {});
  s->Solve();
  auto st = rec::CopyStats(s->Stats());
  Traj t = s->GetTraj();
  double J = sp.Cost(t.X, t.U);
  if (cond > 1e7 || gen::MaxAbs(X0) > 1e4) { c.label("ill-conditioned"); c.discard(); }
  bool opt_guess = J0 - Js < 1e-7 * mag;
  if (!opt_guess) {
    c.nontrivial();
    EXPECT(st.cost.size() > 0 && st.alpha.size() > 0, "no iteration recorded");
    EXPECT(st.alpha[0] == 1.0, "first step {} of a linear-quadratic problem", st.alpha[0]);
    EXPECT(std::abs(st.cost[0] - (double)Js) <= 1e-9 * mag + 1e-12 * mag * std::sqrt((double)cond), "cost after the first step {}, optimum {} (guess {})", st.cost[0], (double)Js, (double)J0);
    double zz = st.z[0];
    EXPECT(std::abs(zz - 1) <= 1e-9 * mag / (double)(J0 - Js) + 1e-7, "improvement ratio of an exact model {}", zz);
    EXPECT(std::abs(st.initial_cost - (double)J0) <= 1e-10 * mag, "initial cost {} expected {}", st.initial_cost, (double)J0);
  }
  EXPECT(std::abs(J - (double)Js) <= 1e-9 * mag + 1e-12 * mag * std::sqrt((double)cond), "final cost {}, optimum {} (guess {})", J, (double)Js, (double)J0);
  EXPECT(s->Status() == SolverStatus::kSolved || opt_guess || st.it_total >= 1, "status {}", StatusName(s->Status()));
  // trajectory: closed-loop rounding grows with the conditioning; if the solve stopped because it was already optimal, strong convexity gives the bound
  VL dU = Stack(t.U) - Us;
  double tol = 1e-10 * (double)cond * (1 + (double)Us.cwiseAbs().maxCoeff() + (double)U0.cwiseAbs().maxCoeff()) + std::sqrt(2 * (1e-12 * mag) / (double)lo) + 1e-9;
  if (opt_guess) tol += std::sqrt(2 * (double)(J0 - Js + 1e-12 * mag) / (double)lo);
  EXPECT((double)dU.cwiseAbs().maxCoeff() <= tol, "controls differ from the optimum by {} (tolerance {})", (double)dU.cwiseAbs().maxCoeff(), tol);
  c.label(fmt::format("{} iterations", st.it_total));
}

void Constrained(Ctx& c) {
  Size z;
  gen::Options o = LqOptions(c, &z);
  o.Nmax = 8;
  o.max_con = 3;
  o.guess = c.one_of<double>({1, 0, 4});
  o.gain = c.one_of<double>({0.5, 1, 0});
  gen::Spec sp = gen::MakeSpec(c, o);
  Qp q = Condense(sp);
  if (q.be.size() + q.bi.size() == 0) c.discard();
  Sol ref = SolveQp(q);
  if (!ref.ok) { c.label("reference not accurate"); c.discard(); }
  altro::problem::Problem prob(sp.N);
  gen::Fill(sp, &prob);
  auto s = MakeAL(z, prob);
  s->NewTraj(sp);
  auto& opt = s->Opts();
  bool tight = c.chance(3, 4);
  if (tight) {
    opt.cost_tolerance = 1e-9;
    opt.gradient_tolerance = 1e-8;
    opt.constraint_tolerance = c.one_of<double>({1e-7, 1e-6, 1e-8});
  }
  opt.initial_penalty = c.one_of<double>({1, 10, 100, 0.1});
  if (c.chance(1, 8)) opt.nthreads = c.range(2, 3);
  c.note("{} {} tight={} con_tol={} pen={}", sol::Str(z), sp.Brief(), tight, opt.constraint_tolerance, opt.initial_penalty);
  int resolve = c.chance(1, 4) ? 1 : 0;
  rec::Run r = rec::Record(*s);
  if (resolve) {    // from another guess, keeping or resetting the multipliers
    for (int k = 0; k < sp.N; ++k) s->SetU(k, gen::Vec(c, sp.m, -2, 2));
    opt.reset_duals = c.chance(1, 2);
    r = rec::Record(*s);
  }
  c.label(StatusName(r.status));
  if (r.status != SolverStatus::kSolved) c.discard();
  // the solver's result in the condensed program: multipliers in its sign convention (g <= 0, L = J - lambda' g)
  VL U = Stack(r.final.U);
  long double J = q.J(U);
  double tol = opt.constraint_tolerance;
  VL le(q.re.size()), li(q.ri.size());
  for (size_t i = 0; i < q.re.size(); ++i) le(i) = r.al[q.re[i].k].con[q.re[i].con].lambda(q.re[i].row);
  for (size_t i = 0; i < q.ri.size(); ++i) li(i) = r.al[q.ri[i].k].con[q.ri[i].con].lambda(q.ri[i].row);
  VL ce = q.Ae * U - q.be, ci = q.Ai * U - q.bi;
  int active = 0;
  for (size_t i = 0; i < q.ri.size(); ++i) {
    EXPECT(li(i) <= 0, "multiplier {} of inequality {} at knot {} has the wrong sign", (double)li(i), i, q.ri[i].k);
    EXPECT(ci(i) < tol * (1 + 1e-9) + 1e-11, "success, but inequality at knot {} is {} (tolerance {})", q.ri[i].k, (double)ci(i), tol);
    if (ref.z(i) > 1e-6) active++;
  }
  for (size_t i = 0; i < q.re.size(); ++i) EXPECT(std::abs((double)ce(i)) < tol * (1 + 1e-9) + 1e-11, "success, but equality at knot {} is {} (tolerance {})", q.re[i].k, (double)ce(i), tol);
  if (active + (int)q.re.size() > 0) c.nontrivial();
  c.label(fmt::format("{} active inequalities", std::min(active, 5)));
  // stationarity with the solver's multipliers
  VL grad = q.H * U + q.g, res = grad;
  if (le.size()) res -= q.Ae.transpose() * le;
  if (li.size()) res -= q.Ai.transpose() * li;
  double rho = 0;
  for (auto& a : r.al) for (auto& v : a.con) rho = std::max(rho, v.penalty.maxCoeff());
  double nA = 0;
  if (q.Ae.size()) nA += (double)q.Ae.squaredNorm();
  if (q.Ai.size()) nA += (double)q.Ai.squaredNorm();
  double curv = (double)q.H.norm() + rho * nA;      // bound on the Hessian of the augmented Lagrangian
  EXPECT(!r.snaps.empty(), "no iteration recorded");
  size_t L = r.snaps.size() - 1;
  VL Uprev = Stack(L > 0 ? r.snaps[L - 1].z.U : (resolve ? r.final.U : sp.U0));
  bool have_prev = L > 0 || !resolve;
  double dU = (double)(U - Uprev).norm();
  double lammax = 1;
  for (int i = 0; i < le.size(); ++i) lammax = std::max(lammax, std::abs((double)le(i)));
  for (int i = 0; i < li.size(); ++i) lammax = std::max(lammax, std::abs((double)li(i)));
  double round = 1e-9 * (curv * (1 + (double)U.norm()) + (double)grad.norm() + lammax * std::sqrt(nA + 1));
  double rn = (double)res.norm();
  // A failed line search leaves the trajectory as it is: only a decrease below rounding may be left.
  if (dU <= 1e-9 * (1 + (double)U.norm())) round += std::sqrt(1e-12 * curv * (1 + rec::RefCostScale(sp, r.final.X, r.final.U, r.al)));
  curv += r.reg;
  // A full Newton step on a piecewise quadratic leaves at most (curvature) x (step); a damped one at most 2/alpha times as much.
  double alpha = r.st.alpha[r.st.it_total - 1];
  if (have_prev && alpha > 0) EXPECT(rn <= 2 * curv * dU / alpha + round, "stationarity residual {} with the reported multipliers; last step {} (alpha {}), curvature {}, rounding {}", rn, dU, alpha, curv, round);
  // own complementarity gap
  double comp = 0;
  for (int i = 0; i < li.size(); ++i) comp += std::abs((double)(li(i) * ci(i)));
  double feas_gap = 0;
  for (int i = 0; i < le.size(); ++i) feas_gap += std::abs((double)(le(i) * ce(i)));
  Eigen::LDLT<ML> hl(q.H);
  double stat = 0.5 * (double)res.dot(hl.solve(res));
  double mag = 1 + std::abs((double)J) + std::abs((double)ref.upper) + std::abs((double)q.c);
  double slack = comp + feas_gap + stat + 1e-9 * mag;
  EXPECT((double)(J - ref.upper) <= slack, "cost {} exceeds the optimum {} by {} (own duality gap {})", (double)J, (double)ref.upper, (double)(J - ref.upper), slack);
  double below = 1e-9 * mag;
  for (int i = 0; i < ref.y.size(); ++i) below += std::abs((double)ref.y(i)) * std::abs((double)ce(i));
  for (int i = 0; i < ref.z.size(); ++i) below += (double)ref.z(i) * std::max(0.0, (double)ci(i));
  EXPECT((double)(ref.lower - J) <= below, "cost {} is below the optimum {} by {} (explained by violations: {})", (double)J, (double)ref.lower, (double)(ref.lower - J), below);
  // accuracy the tolerances imply
  if (tight) {
    double gap = comp / mag;
    c.label(gap < 1e-9 ? "gap<1e-9" : gap < 1e-7 ? "gap<1e-7" : gap < 1e-5 ? "gap<1e-5" : gap < 1e-3 ? "gap<1e-3" : "gap>=1e-3");
  }
}
}  // namespace

PBT_CHECK(unconstrained, 8000, 160000) { Unconstrained(c); }
PBT_CHECK(constrained, 6000, 120000) { Constrained(c); }
