// C04: the backward pass yields the exact regularised optimal feedback policy.
#include "sol.hpp"
using namespace gen;
using sol::SolverPtr;

const pbt::PropertyInfo pbt::kProperty = {
    "C04",
    "A case draws sizes, horizon, linear/nonlinear time-varying dynamics, arbitrary symmetric (often indefinite) quadratic costs with cross terms, a trajectory and regularisation options, then runs one or more expansion+backward(+forward) passes and compares gains, cost-to-go, regularisation and predicted decrease with an independent Riccati recursion. Non-trivial: at least one pass needed a regularisation retry, or a non-zero regularisation was used, or a cross term was present with horizon >= 2.",
    {"Cases whose control Hessian has an eigenvalue within 1e-7 (relative) of zero are discarded: there success of a Cholesky factorisation is a matter of rounding."}};

namespace {
struct Ref {
  double rho = 0, drho = 0;
  std::vector<MatrixXd> K, S;
  std::vector<VectorXd> d, s;
  double dv0 = 0, dv1 = 0;
  bool failed = false, ambiguous = false;
  int retries = 0, max_retry_depth = 0;
  double used_rho = 0;
};
void Increase(Ref* r, const altro::SolverOptions& o) {
  r->drho = std::max(r->drho * o.bp_reg_increase_factor, o.bp_reg_increase_factor);
  r->rho = std::min(std::max(r->rho * r->drho, o.bp_reg_min), o.bp_reg_max);
}
void Decrease(Ref* r, const altro::SolverOptions& o) {
  r->drho = std::min(r->drho / o.bp_reg_increase_factor, 1 / o.bp_reg_increase_factor);
  r->rho = std::min(std::max(r->rho * r->drho, o.bp_reg_min), o.bp_reg_max);
}
// Independent recursion in expanded-variable form: value function V_k(dx) = 1/2 dx'S dx + s'dx.
void Backward(const Spec& sp, const std::vector<VectorXd>& X, const std::vector<VectorXd>& U, const altro::SolverOptions& o, Ref* r) {
  int N = sp.N, n = sp.n, m = sp.m, at_max = 0;
  r->retries = 0;
  while (true) {
    r->K.assign(N, MatrixXd());
    r->d.assign(N, VectorXd());
    r->S.assign(N + 1, MatrixXd());
    r->s.assign(N + 1, VectorXd());
    r->dv0 = r->dv1 = 0;
    MatrixXd xx, xu, uu;
    VectorXd gx, gu;
    sp.cost[N].Hess(X[N], VectorXd::Zero(m), &xx, &xu, &uu);
    sp.cost[N].Grad(X[N], VectorXd::Zero(m), &gx, &gu);
    r->S[N] = xx;
    r->s[N] = gx;
    bool ok = true;
    for (int k = N - 1; k >= 0; --k) {
      sp.cost[k].Hess(X[k], U[k], &xx, &xu, &uu);
      sp.cost[k].Grad(X[k], U[k], &gx, &gu);
      MatrixXd fx, fu;
      sp.dyn[k].DStep(X[k], U[k], sp.t[k], sp.h[k], &fx, &fu);
      // joint Hessian W and gradient w of stage cost + next value, over (dx, du)
      MatrixXd W(n + m, n + m), Fz(n, n + m);
      W << xx, xu, xu.transpose(), uu;
      Fz << fx, fu;
      W += Fz.transpose() * r->S[k + 1] * Fz;
      VectorXd w(n + m);
      w << gx, gu;
      w += Fz.transpose() * r->s[k + 1];
      MatrixXd Wuu = W.bottomRightCorner(m, m);
      MatrixXd reg = 0.5 * (Wuu + Wuu.transpose()) + r->rho * MatrixXd::Identity(m, m);
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(reg);
      double mn = es.eigenvalues().minCoeff();
      double scale = 1e-300 + es.eigenvalues().cwiseAbs().maxCoeff();
      if (!std::isfinite(mn) || std::abs(mn) < 1e-7 * scale) { r->ambiguous = true; return; }
      if (mn <= 0) {
        ok = false;
        r->max_retry_depth = std::max(r->max_retry_depth, N - 1 - k);
        break;
      }
      MatrixXd inv = es.eigenvectors() * es.eigenvalues().cwiseInverse().asDiagonal() * es.eigenvectors().transpose();
      r->K[k] = -inv * W.bottomLeftCorner(m, n);
      r->d[k] = -inv * w.tail(m);
      // substitute du = K dx + d into the unregularised quadratic model
      MatrixXd T(n + m, n);
      T << MatrixXd::Identity(n, n), r->K[k];
      VectorXd o2(n + m);
      o2 << VectorXd::Zero(n), r->d[k];
      r->S[k] = T.transpose() * W * T;
      r->S[k] = (0.5 * (r->S[k] + r->S[k].transpose())).eval();
      r->s[k] = T.transpose() * (w + W * o2);
      r->dv0 += r->d[k].dot(w.tail(m));
      r->dv1 += 0.5 * r->d[k].dot(Wuu * r->d[k]);
    }
    if (ok) break;
    r->retries++;
    Increase(r, o);
    if (r->rho >= o.bp_reg_max) at_max++;
    if (at_max >= o.bp_reg_fail_threshold) { r->failed = true; break; }
  }
  r->used_rho = r->rho;
  Decrease(r, o);
}

Spec IndefiniteSpec(Ctx& c, sol::Size* z) {
  Options o;
  *z = sol::PickSize(c, &o);
  o.Nmax = 8;
  o.nonconvex = true;
  Spec s = MakeSpec(c, o);
  int mode = c.range(0, 3);   // 0: as generated (mostly convex), 1..3: indefinite control curvature
  for (int k = 0; k <= s.N && mode > 0; ++k) {
    if (c.chance(1, 2)) s.cost[k].Q = Sym(c, s.n, 2);
    if (k < s.N && c.chance(mode, 4)) {
      s.cost[k].R = Sym(c, s.m, 2) + (mode == 3 ? -1.0 : 1.0) * MatrixXd::Identity(s.m, s.m);
      s.cost[k].H = Mat(c, s.n, s.m, 1);
      s.cost[k].kap = 0;
    }
  }
  return s;
}
void RegOptions(Ctx& c, altro::SolverOptions* o) {
  o->bp_reg_increase_factor = c.chance(1, 2) ? 1.6 : c.real(1.1, 8);
  o->bp_reg_initial = c.one_of<double>({0.0, 0.0, 1e-6, 1e-2, 1.0, 5.0});
  o->bp_reg_min = c.one_of<double>({1e-8, 1e-8, 1e-4, 1e-1});
  o->bp_reg_max = c.one_of<double>({1e8, 1e8, 1e3, 1e5});
}

void Passes(Ctx& c) {
  sol::Size z;
  Spec sp = IndefiniteSpec(c, &z);
  altro::problem::Problem prob(sp.N);
  Fill(sp, &prob);
  SolverPtr sv = sol::MakeiLQR(z, prob);
  sv->NewTraj(sp);
  altro::SolverOptions& o = sv->Opts();
  RegOptions(c, &o);
  c.note("{} reg(init={} min={} max={} inc={})", sp.Brief(), o.bp_reg_initial, o.bp_reg_min, o.bp_reg_max, o.bp_reg_increase_factor);
  sv->SolveSetup();
  Ref r;
  r.rho = o.bp_reg_initial;
  sv->Rollout();
  int passes = c.range(1, 4);
  bool cross = false;
  for (auto& cs : sp.cost) cross |= !cs.H.isZero(0);
  for (int p = 0; p < passes; ++p) {
    sol::Traj tr = sv->GetTraj();
    auto &X = tr.X, &U = tr.U;
    if (!Finite(X) || MaxAbs(X) > 1e4) c.discard();
    const Ref r_before = r;
    Backward(sp, X, U, o, &r);
    if (r.ambiguous) c.discard();
    double blow = 0;
    for (auto& S : r.S) if (S.size()) blow = std::max(blow, S.cwiseAbs().maxCoeff());
    if (!(blow < 1e7) || r.rho > 1e7) c.discard();   // conditioning beyond the comparison tolerance
    sv->UpdateExpansions();
    double J0 = sp.Cost(X, U);
    sv->BackwardPass();
    if (r.failed) {  // whole solves are covered by the 'exhausted' check
      EXPECT(sv->Status() == altro::SolverStatus::kBackwardPassRegularizationFailed, "regularisation exhausted but the status is {}", sol::StatusName(sv->Status()));
      break;
    }
    EXPECT(sv->Status() != altro::SolverStatus::kBackwardPassRegularizationFailed, "the pass succeeds at regularisation {} but reported failure", r.used_rho);
    if (r.retries) c.label("retries"), c.nontrivial();
    if (r.retries && r.max_retry_depth > 0) c.label("retry after partial pass");
    if (r.used_rho > 1e-6) c.label("regularised"), c.nontrivial();
    if (cross && sp.N >= 2) c.nontrivial();
    const double tol = 1e-6;
    bool off = false;
    for (int k = 0; k <= sp.N; ++k) {
      sol::KpData kp = sv->Kp(k);
      off |= !(MaxDiff(kp.S, r.S[k]) < tol && MaxDiff(kp.s, r.s[k]) < tol);
      if (k < sp.N) off |= !(MaxDiff(kp.K, r.K[k]) < tol && MaxDiff(kp.d, r.d[k]) < tol);
    }
    if (off) {   // is the recursion itself so sensitive? perturb the data by a few roundings
      Spec q = sp;
      for (int k = 0; k <= sp.N; ++k) {
        q.cost[k].Q *= 1 + 3e-14;
        q.cost[k].q *= 1 - 3e-14;
        if (k < sp.N) q.cost[k].R *= 1 - 3e-14, q.cost[k].H *= 1 + 3e-14;
      }
      Ref t = r_before;
      Backward(q, X, U, o, &t);
      double sens = 0;
      for (int k = 0; k <= sp.N; ++k) {
        sens = std::max({sens, MaxDiff(t.S[k], r.S[k]), MaxDiff(t.s[k], r.s[k])});
        if (k < sp.N) sens = std::max({sens, MaxDiff(t.K[k], r.K[k]), MaxDiff(t.d[k], r.d[k])});
      }
      if (!(sens < 1e-8)) { c.label("recursion sensitive to rounding"); c.discard(); }
    }
    for (int k = 0; k <= sp.N; ++k) {
      sol::KpData kp = sv->Kp(k);
      EXPECT(MaxDiff(kp.S, r.S[k]) < tol, "cost-to-go Hessian at k={} pass {} (retries {}): diff {}", k, p, r.retries, MaxDiff(kp.S, r.S[k]));
      EXPECT(MaxDiff(kp.s, r.s[k]) < tol, "cost-to-go gradient at k={} pass {}: diff {}", k, p, MaxDiff(kp.s, r.s[k]));
      if (k == sp.N) continue;
      EXPECT(MaxDiff(kp.K, r.K[k]) < tol, "feedback gain at k={} pass {}: diff {}", k, p, MaxDiff(kp.K, r.K[k]));
      EXPECT(MaxDiff(kp.d, r.d[k]) < tol, "feedforward gain at k={} pass {}: diff {}", k, p, MaxDiff(kp.d, r.d[k]));
    }
    for (double a : {1.0, 0.5, 0.125}) {
      double sum = 0;
      for (int k = 0; k < sp.N; ++k) sum += sv->Delta(k, a);
      EXPECT(RelDiff(sum, a * r.dv0 + a * a * r.dv1) < tol, "predicted change of the knot points for alpha={}: {} vs {}", a, sum, a * r.dv0 + a * a * r.dv1);
    }
    EXPECT(RelDiff(std::log(sv->Stats().regularization.back() + 1e-12), std::log(r.used_rho + 1e-12)) < 1e-6, "regularisation recorded {} expected {}", sv->Stats().regularization.back(), r.used_rho);
    EXPECT(RelDiff(std::log(sv->Reg() + 1e-12), std::log(r.rho + 1e-12)) < 1e-6, "regularisation after the pass {} expected {}", sv->Reg(), r.rho);
    // The total predicted decrease is observable through the recorded improvement ratio.
    o.line_search_lower_bound = 1e-8;
    o.line_search_upper_bound = 1e12;
    o.check_forwardpass_bounds = false;
    int before = sv->Stats().improvement_ratio.size();
    (void)before;
    double old_z = sv->Stats().improvement_ratio.back();
    double rho_before = sv->Reg();
    sv->ForwardPass();
    sol::Traj tr2 = sv->GetTraj();
    auto &X2 = tr2.X, &U2 = tr2.U;
    bool moved = false;
    for (int k = 0; k < sp.N; ++k) moved |= MaxDiff(U[k], U2[k]) > 0;
    if (moved && sv->Reg() == rho_before) {
      double z = sv->Stats().improvement_ratio.back(), a = sv->Stats().alpha.back();
      (void)old_z;
      double J = sp.Cost(X2, U2);
      double expected = -(a * r.dv0 + a * a * r.dv1);
      // only when the difference of the costs is numerically meaningful
      if (std::abs(J0 - J) > 1e-6 * (1 + std::abs(J0)) && std::isfinite(J)) {
        double zr = (J0 - J) / expected;
        double slack = 1e-5 * (1 + std::abs(zr)) + 1e-9 * (1 + std::abs(J0)) / std::abs(expected);
        EXPECT(std::abs(z - zr) < slack, "improvement ratio {} vs actual/predicted {} (alpha={}, retries {}, dJ={})", z, zr, a, r.retries, J0 - J);
        c.label("total prediction checked");
        if (r.retries && r.max_retry_depth > 0) c.label("total prediction checked after partial retry");
      }
    } else {
      // a failed line search raises the regularisation once more
      if (sv->Reg() > rho_before) Increase(&r, o);
    }
  }
}
}  // namespace

PBT_CHECK(passes, 60000, 1200000) { Passes(c); }

// Long horizons with unstable dynamics: the recursion is well conditioned (the feedback is
// stabilising), so rounding errors must not grow with the open-loop dynamics.
PBT_CHECK(long_horizon, 1500, 30000) {
  Options o;
  sol::Size z = sol::PickSize(c, &o);
  o.Nmin = 20;
  o.Nmax = 90;
  o.big = false;
  o.nonlinear = o.nonquadratic = o.per_knot = false;
  o.gain = 3;
  o.guess = 0;
  Spec sp = MakeSpec(c, o);
  double rad = c.real(0.5, 1.8);      // spectral radius per step, roughly
  for (auto& d : sp.dyn) {
    MatrixXd A = d.ode ? MatrixXd(MatrixXd::Identity(sp.n, sp.n) + sp.h[0] * d.A) : d.A;
    A *= rad / std::max(1e-3, A.eigenvalues().cwiseAbs().maxCoeff());
    d.A = d.ode ? MatrixXd((A - MatrixXd::Identity(sp.n, sp.n)) / sp.h[0]) : A;
    d.b.setZero();
    d.om = 0;
  }
  for (auto& h : sp.h) if (h > 0) h = sp.h[0];
  sp.x0.setZero();
  altro::problem::Problem prob(sp.N);
  Fill(sp, &prob);
  SolverPtr sv = sol::MakeiLQR(z, prob);
  sv->NewTraj(sp);
  altro::SolverOptions& o2 = sv->Opts();
  c.note("{} {} radius={}", sol::Str(z), sp.Brief(), rad);
  std::vector<VectorXd> X = sp.Rollout(sp.U0), U = sp.U0;
  if (!Finite(X) || MaxAbs(X) > 1e4) c.discard();
  Ref r, t;
  r.rho = t.rho = o2.bp_reg_initial;
  Backward(sp, X, U, o2, &r);
  if (r.ambiguous || r.failed || r.retries) c.discard();
  double blow = 0;
  for (auto& S : r.S) blow = std::max(blow, S.cwiseAbs().maxCoeff());
  if (!(blow < 1e7)) c.discard();
  Spec q = sp;
  for (int k = 0; k <= sp.N; ++k) q.cost[k].Q *= 1 + (k % 2 ? 3e-14 : -3e-14), q.cost[k].q *= 1 - 3e-14;
  for (int k = 0; k < sp.N; ++k) q.dyn[k].A *= 1 + (k % 2 ? 1e-15 : -1e-15);
  Backward(q, X, U, o2, &t);
  double sens = 0;
  for (int k = 0; k <= sp.N; ++k) {
    sens = std::max({sens, MaxDiff(t.S[k], r.S[k]), MaxDiff(t.s[k], r.s[k])});
    if (k < sp.N) sens = std::max({sens, MaxDiff(t.K[k], r.K[k]), MaxDiff(t.d[k], r.d[k])});
  }
  if (!(sens < 1e-10)) { c.label("recursion sensitive to rounding"); c.discard(); }
  c.label(rad > 1.05 ? "unstable" : "stable or marginal");
  if (rad > 1.05) c.nontrivial();
  sv->SolveSetup();
  sv->Rollout();
  sv->UpdateExpansions();
  sv->BackwardPass();
  for (int k = 0; k <= sp.N; ++k) {
    sol::KpData kp = sv->Kp(k);
    EXPECT(MaxDiff(kp.S, r.S[k]) < 1e-6 && MaxDiff(kp.s, r.s[k]) < 1e-6, "cost-to-go at k={} differs by {} and {} although the recursion is insensitive ({})", k, MaxDiff(kp.S, r.S[k]), MaxDiff(kp.s, r.s[k]), sens);
    if (k < sp.N) EXPECT(MaxDiff(kp.K, r.K[k]) < 1e-6 && MaxDiff(kp.d, r.d[k]) < 1e-6, "gains at k={} differ by {} and {} although the recursion is insensitive ({})", k, MaxDiff(kp.K, r.K[k]), MaxDiff(kp.d, r.d[k]), sens);
  }
}

// When the regularisation limit cannot make the control Hessian positive definite, the solve must
// end and say so.
PBT_CHECK(exhausted, 8000, 80000) {
  Options o;
  sol::Size z = sol::PickSize(c, &o);
  o.Nmax = 5;
  o.nonlinear = false;
  o.nonquadratic = false;
  Spec sp = MakeSpec(c, o);
  int kbad = c.range(0, sp.N - 1);
  sp.cost[kbad].R = -c.real(5, 50) * MatrixXd::Identity(sp.m, sp.m);
  sp.cost[kbad].H.setZero();
  altro::problem::Problem prob(sp.N);
  Fill(sp, &prob);
  SolverPtr sv = sol::MakeiLQR(z, prob);
  sv->NewTraj(sp);
  auto& opt = sv->Opts();
  opt.bp_reg_max = c.logreal(0.01, 20);
  opt.bp_reg_initial = c.one_of<double>({0.0, 1e-3});
  opt.bp_reg_fail_threshold = c.range(1, 20);
  std::vector<VectorXd> U = sp.U0, X = sp.Rollout(U);
  Ref r;
  r.rho = opt.bp_reg_initial;
  Backward(sp, X, U, opt, &r);
  if (r.ambiguous || !r.failed) c.discard();
  c.note("{} bad k={} reg max={} threshold={}", sp.Brief(), kbad, opt.bp_reg_max, opt.bp_reg_fail_threshold);
  c.nontrivial();
  sv->Solve();
  EXPECT(sv->Status() == altro::SolverStatus::kBackwardPassRegularizationFailed, "status is {}", (int)sv->Status());
  auto U2 = sv->GetTraj().U;
  for (int k = 0; k < sp.N; ++k) EXPECT(MaxDiff(U[k], U2[k]) == 0, "controls changed by a failed solve");
}
