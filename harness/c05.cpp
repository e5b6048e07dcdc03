// C05: the augmented-Lagrangian cost, its gradient and its Gauss-Newton Hessian against an
// independent evaluation from the plain data, under arbitrary histories of calls.
#include "rec.hpp"

const pbt::PropertyInfo pbt::kProperty = {
    "C05",
    "Generated knot points (0..4 equality/inequality constraints of length 1..3, nonlinear costs and constraints) held by two interleaved AL costs of run-time or "
    "fixed size; random histories of penalty, multiplier, update and replacement operations mixed with value / gradient / Hessian calls at "
    "fresh and repeated points (also points on the active-set boundary for the value). Non-trivial: at least one constraint and at least 4 derivative calls in a history with a change in between.",
    {"constraints have at least one element (Problem::SetConstraint asserts it)", "all elements of one constraint share one penalty (what the documented setters produce)",
     "gradient/Hessian are not compared where a component of (multiplier - penalty * constraint) is within 1e-9 of zero (the Hessian is not defined there)"}};

namespace {
using gen::ConSpec;
using gen::CostSpec;
using pbt::Ctx;
using namespace sol;
using altro::FunctionBase;

struct Model {
  int n, m;
  CostSpec cost;
  std::vector<ConSpec> eq, in;
  std::vector<VectorXd> leq, lin;
  std::vector<double> req, rin, seq, sin;
  std::vector<VectorXd> ceq, cin;      // last constraint value evaluated (what UpdateDuals uses)
  std::unique_ptr<AlCost> al;
  std::shared_ptr<altro::problem::Problem> prob;

  ConSpec& con(bool e, int i) { return e ? eq[i] : in[i]; }
  VectorXd& lam(bool e, int i) { return e ? leq[i] : lin[i]; }
  double& rho(bool e, int i) { return e ? req[i] : rin[i]; }
  double& scl(bool e, int i) { return e ? seq[i] : sin[i]; }
  VectorXd& val(bool e, int i) { return e ? ceq[i] : cin[i]; }
  int num(bool e) const { return e ? (int)eq.size() : (int)in.size(); }
  void Fresh(bool e) {
    auto& l = e ? leq : lin;
    auto& r = e ? req : rin;
    auto& s = e ? seq : sin;
    auto& v = e ? ceq : cin;
    l.clear(); v.clear();
    r.assign(num(e), 1.0);
    s.assign(num(e), 10.0);
    for (int i = 0; i < num(e); ++i) {
      l.push_back(VectorXd::Zero(con(e, i).p));
      v.push_back(VectorXd::Zero(con(e, i).p));
    }
  }
};

struct Ref {
  double J = 0, scale = 1, gscale = 1, hscale = 1, fdscale = 1;
  VectorXd dx, du;
  MatrixXd xx, xu, uu;
  bool kink = false;     // some component of lambda - rho c is at zero
};
Ref Reference(Model& M, const VectorXd& x, const VectorXd& u) {
  Ref r;
  r.J = M.cost.J(x, u);
  r.scale = 1 + std::abs(r.J) + std::abs(M.cost.c0);
  M.cost.Grad(x, u, &r.dx, &r.du);
  M.cost.Hess(x, u, &r.xx, &r.xu, &r.uu);
  for (int t = 0; t < 2; ++t) {
    bool e = t == 0;
    for (int i = 0; i < M.num(e); ++i) {
      const ConSpec& s = M.con(e, i);
      double rho = M.rho(e, i);
      const VectorXd& l = M.lam(e, i);
      VectorXd g = s.G(x, u);
      MatrixXd gx, gu;
      s.DG(x, u, &gx, &gu);
      r.J += rec::AlTerm(s, l, rho, x, u);
      r.scale += (l.squaredNorm() + rho * rho * g.squaredNorm()) / rho;
      for (int j = 0; j < s.p; ++j) {
        double w = l(j) - rho * g(j);
        if (!e && std::abs(w) < 1e-9 * (1 + std::abs(l(j)) + rho * std::abs(g(j)))) r.kink = true;
        r.fdscale += rho * (gx.row(j).squaredNorm() + gu.row(j).squaredNorm());
        if (!e && w > 0) continue;
        r.dx -= gx.row(j).transpose() * w;
        r.du -= gu.row(j).transpose() * w;
        r.xx += rho * gx.row(j).transpose() * gx.row(j);
        r.xu += rho * gx.row(j).transpose() * gu.row(j);
        r.uu += rho * gu.row(j).transpose() * gu.row(j);
        double nj = gx.row(j).norm() + gu.row(j).norm();
        r.gscale += (std::abs(l(j)) + rho * std::abs(g(j))) * nj;
        r.hscale += rho * nj * nj;
      }
    }
  }
  r.gscale += r.dx.cwiseAbs().maxCoeff() + r.du.cwiseAbs().maxCoeff();
  r.hscale += r.xx.cwiseAbs().maxCoeff() + r.uu.cwiseAbs().maxCoeff() + r.xu.cwiseAbs().maxCoeff();
  return r;
}
double JRef(Model& M, const VectorXd& x, const VectorXd& u) { return Reference(M, x, u).J; }

std::vector<ConSpec> MakeCons(Ctx& c, const gen::Options& o, bool eq, int n, int m, bool term) {
  std::vector<ConSpec> r;
  int k = c.range(0, 2);
  for (int i = 0; i < k; ++i) r.push_back(gen::MakeCon(c, n, m, term, o, nullptr, nullptr, eq, c.range(1, 3)));
  return r;
}
Model MakeModel(Ctx& c, Size z, const gen::Options& o, int n, int m) {
  Model M;
  M.n = n;
  M.m = m;
  int term = c.chance(1, 4);
  M.cost = gen::MakeCost(c, n, m, term, o);
  M.eq = MakeCons(c, o, true, n, m, term);
  M.in = MakeCons(c, o, false, n, m, term);
  gen::Spec s;
  s.n = n; s.m = m; s.N = 1;
  s.x0 = VectorXd::Zero(n);
  s.t = {0.f, 0.1f}; s.h = {0.1f, 0.f};
  s.dyn.push_back(gen::MakeDyn(c, n, m, o));
  s.cost = {M.cost, M.cost};
  s.con.resize(2);
  for (auto& q : M.eq) s.con[0].push_back(q);
  for (auto& q : M.in) s.con[0].push_back(q);
  M.prob = std::make_shared<altro::problem::Problem>(1);
  gen::Fill(s, M.prob.get());
  M.al = MakeAlCost(z, *M.prob, 0);
  M.Fresh(true);
  M.Fresh(false);
  return M;
}

const double kRt = 1e-10;
void CheckValue(Ctx&, Model& M, const VectorXd& x, const VectorXd& u) {
  Ref r = Reference(M, x, u);
  double J = M.al->Fn().Evaluate(x, u);
  EXPECT(std::isfinite(J) && std::abs(J - r.J) <= kRt * r.scale, "value {} expected {}", J, r.J);
}
void CheckGrad(Ctx& c, Model& M, const VectorXd& x, const VectorXd& u) {
  Ref r = Reference(M, x, u);
  VectorXd dx = VectorXd::Constant(M.n, 7.5), du = VectorXd::Constant(M.m, -7.5);
  M.al->Fn().Gradient(x, u, dx, du);
  EXPECT(dx.allFinite() && du.allFinite(), "gradient not finite");
  EXPECT(gen::MaxDiff(dx, r.dx) <= kRt * r.gscale, "dx {} expected {}", gen::Str(dx), gen::Str(r.dx));
  EXPECT(gen::MaxDiff(du, r.du) <= kRt * r.gscale, "du {} expected {}", gen::Str(du), gen::Str(r.du));
  // finite difference of the library's own value along a random direction
  VectorXd vx = gen::Vec(c, M.n), vu = gen::Vec(c, M.m);
  double h = 1e-5;
  auto& f = M.al->Fn();
  double fd = (f.Evaluate(x + h * vx, u + h * vu) - f.Evaluate(x - h * vx, u - h * vu)) / (2 * h);
  double an = dx.dot(vx) + du.dot(vu);
  double tol = 1e-4 * (r.gscale + r.hscale + r.fdscale) + 1e-10 * r.scale / h;
  EXPECT(std::abs(fd - an) <= tol, "directional derivative of the value {} gradient gives {} (tol {})", fd, an, tol);
}
void CheckHess(Ctx&, Model& M, const VectorXd& x, const VectorXd& u) {
  Ref r = Reference(M, x, u);
  if (r.kink) return;
  MatrixXd xx = MatrixXd::Constant(M.n, M.n, 3.5), xu = MatrixXd::Constant(M.n, M.m, -3.5), uu = MatrixXd::Constant(M.m, M.m, 9.5);
  M.al->Fn().Hessian(x, u, xx, xu, uu);
  EXPECT(xx.allFinite() && xu.allFinite() && uu.allFinite(), "Hessian not finite");
  EXPECT(gen::MaxDiff(xx, r.xx) <= kRt * r.hscale, "dxdx differs by {}", gen::MaxDiff(xx, r.xx));
  EXPECT(gen::MaxDiff(xu, r.xu) <= kRt * r.hscale, "dxdu differs by {}", gen::MaxDiff(xu, r.xu));
  EXPECT(gen::MaxDiff(uu, r.uu) <= kRt * r.hscale, "dudu differs by {}", gen::MaxDiff(uu, r.uu));
}
void CheckStacked(Ctx&, Model& M, const VectorXd& x, const VectorXd& u) {
  Ref r = Reference(M, x, u);
  FunctionBase& f = M.al->Fn();
  VectorXd out = VectorXd::Constant(1, 5);
  f.Evaluate(x, u, out);
  EXPECT(std::abs(out(0) - r.J) <= kRt * r.scale, "generic value {} expected {}", out(0), r.J);
  MatrixXd jac = MatrixXd::Constant(1, M.n + M.m, 5);
  f.Jacobian(x, u, jac);
  EXPECT(gen::MaxDiff(jac.leftCols(M.n), r.dx.transpose()) <= kRt * r.gscale, "generic Jacobian dx");
  EXPECT(gen::MaxDiff(jac.rightCols(M.m), r.du.transpose()) <= kRt * r.gscale, "generic Jacobian du");
  if (r.kink) return;
  MatrixXd H = MatrixXd::Constant(M.n + M.m, M.n + M.m, 5);
  f.Hessian(x, u, VectorXd::Ones(1), H);
  MatrixXd R(M.n + M.m, M.n + M.m);
  R << r.xx, r.xu, r.xu.transpose(), r.uu;
  EXPECT(gen::MaxDiff(H, R) <= kRt * r.hscale, "generic Hessian differs by {}", gen::MaxDiff(H, R));
}
void CheckState(Model& M) {
  AlKnot k = M.al->Get();
  int total = 0;
  EXPECT((int)k.con.size() == M.num(true) + M.num(false), "number of constraints {}", k.con.size());
  for (int t = 0, j = 0; t < 2; ++t)
    for (int i = 0; i < M.num(t == 0); ++i, ++j) {
      bool e = t == 0;
      total += M.con(e, i).p;
      double sc = 1 + M.lam(e, i).cwiseAbs().sum();
      EXPECT(gen::MaxDiff(k.con[j].lambda, M.lam(e, i)) <= 1e-9 * sc, "multiplier {} {} expected {}", i, gen::Str(k.con[j].lambda), gen::Str(M.lam(e, i)));
      VectorXd rr = VectorXd::Constant(M.con(e, i).p, M.rho(e, i));
      EXPECT(gen::MaxDiff(k.con[j].penalty, rr) <= 1e-12 * M.rho(e, i), "penalty {} expected {}", gen::Str(k.con[j].penalty), M.rho(e, i));
      M.lam(e, i) = k.con[j].lambda;   // keep the reference free of accumulated rounding
    }
  EXPECT(k.num_con == total, "NumConstraints {} expected {}", k.num_con, total);
}
void Touch(Model& M, const VectorXd& x, const VectorXd& u) {    // any evaluation refreshes the stored values
  for (int t = 0; t < 2; ++t)
    for (int i = 0; i < M.num(t == 0); ++i) M.val(t == 0, i) = M.con(t == 0, i).G(x, u);
}

void Histories(Ctx& c) {
  gen::Options o;
  o.nonlinear_con = true;
  o.nonconvex = true;
  Size z = PickSize(c, &o);
  int n = o.n > 0 ? o.n : c.range(1, 4), m = o.m > 0 ? o.m : c.range(1, 3);
  std::vector<Model> Ms;
  int copies = c.range(1, 2);
  for (int i = 0; i < copies; ++i) Ms.push_back(MakeModel(c, z, o, n, m));
  if (copies == 2 && c.chance(1, 3)) {   // both AL costs hold the very same cost and constraint objects
    Model S;
    S.n = n; S.m = m; S.cost = Ms[0].cost; S.eq = Ms[0].eq; S.in = Ms[0].in; S.prob = Ms[0].prob;
    S.al = MakeAlCost(z, *S.prob, 0);
    S.Fresh(true); S.Fresh(false);
    Ms[1] = std::move(S);
    c.label("shared constraint objects");
  }
  c.note("{} n {} m {} eq {} in {}", sol::Str(z), n, m, Ms[0].num(true), Ms[0].num(false));
  std::vector<std::pair<VectorXd, VectorXd>> pts;
  int ops = c.range(1, 24), derivs = 0, changes = 0;
  bool any = false;
  for (int q = 0; q < ops; ++q) {
    Model& M = Ms[c.below(Ms.size())];
    any |= M.num(true) + M.num(false) > 0;
    int op = c.range(0, 13);
    bool e = c.chance(1, 2);
    if (M.num(e) == 0) e = !e;
    bool has = M.num(e) > 0;
    int i = has ? (int)c.below(M.num(e)) : 0;
    if (op >= 4 && op <= 12 && !has) op = c.range(0, 3);
    if (op <= 4 || pts.empty()) {
      if (pts.empty() || c.chance(1, 2)) pts.push_back({gen::Vec(c, n, -2, 2), gen::Vec(c, m, -2, 2)});
    }
    auto P = pts[c.below(pts.size())];
    c.note("op{} k{} i{}", op, e ? "e" : "i", i);
    switch (op) {
      case 0: CheckValue(c, M, P.first, P.second); Touch(M, P.first, P.second); derivs++; break;
      case 1: { VectorXd a = P.first, b = P.second; CheckGrad(c, M, a, b); M.al->Fn().Evaluate(a, b); Touch(M, a, b); derivs++; break; }
      case 2: CheckHess(c, M, P.first, P.second); if (!Reference(M, P.first, P.second).kink) Touch(M, P.first, P.second); derivs++; break;
      case 3: CheckStacked(c, M, P.first, P.second); Touch(M, P.first, P.second); derivs++; break;
      case 4: {   // one constraint's stored values refreshed at another point
        M.al->CalcExpansion(e, i, P.first, P.second);
        M.val(e, i) = M.con(e, i).G(P.first, P.second);
        break;
      }
      case 5: { double r = c.logreal(1e-3, 1e4); M.al->SetPenalty(e, i, r); M.rho(e, i) = r; changes++; break; }
      case 6: { double r = c.logreal(1e-3, 1e4); M.al->SetPenaltyAll(e, r); for (int j = 0; j < M.num(e); ++j) M.rho(e, j) = r; changes++; break; }
      case 7: {
        VectorXd l = gen::Vec(c, M.con(e, i).p, -3, 3);
        if (!e) l = l.cwiseMin(0.0);
        if (!e && c.chance(1, 3)) l.setZero();
        M.al->SetDuals(e, i, l);
        M.lam(e, i) = l;
        changes++;
        break;
      }
      case 8: { double s = c.real(1, 20); M.al->SetScaling(e, i, s); M.scl(e, i) = s; break; }
      case 9: {
        M.al->UpdateDuals();
        for (int t = 0; t < 2; ++t)
          for (int j = 0; j < M.num(t == 0); ++j) {
            VectorXd w = M.lam(t == 0, j) - M.rho(t == 0, j) * M.val(t == 0, j);
            M.lam(t == 0, j) = t == 0 ? w : VectorXd(w.cwiseMin(0.0));
          }
        changes++;
        break;
      }
      case 10: {
        bool small = true;
        for (int t = 0; t < 2; ++t) for (int j = 0; j < M.num(t == 0); ++j) small &= M.rho(t == 0, j) * M.scl(t == 0, j) < 1e6;
        if (!small) break;
        M.al->UpdatePenalties();
        for (int t = 0; t < 2; ++t) for (int j = 0; j < M.num(t == 0); ++j) M.rho(t == 0, j) *= M.scl(t == 0, j);
        changes++;
        break;
      }
      case 11: M.al->ResetDuals(); for (auto& l : M.leq) l.setZero(); for (auto& l : M.lin) l.setZero(); changes++; break;
      case 12: {
        double J = M.al->ConAugLag(e, i, P.first, P.second);
        M.val(e, i) = M.con(e, i).G(P.first, P.second);
        double R = rec::AlTerm(M.con(e, i), M.lam(e, i), M.rho(e, i), P.first, P.second);
        double sc = 1 + (M.lam(e, i).squaredNorm() + M.rho(e, i) * M.rho(e, i) * M.val(e, i).squaredNorm()) / M.rho(e, i);
        EXPECT(std::abs(J - R) <= kRt * sc, "term of one constraint {} expected {}", J, R);
        break;
      }
      case 13: {
        bool te = c.chance(1, 2);
        auto cs = MakeCons(c, o, te, n, m, false);
        if (te) { M.al->ReplaceEq(cs); M.eq = cs; } else { M.al->ReplaceIneq(cs); M.in = cs; }
        M.Fresh(te);
        changes++;
        c.label("constraints replaced");
        break;
      }
    }
    CheckState(M);
  }
  // every point once more, in both directions, after the whole history
  for (auto& M : Ms)
    for (auto& P : pts) {
      CheckHess(c, M, P.first, P.second);
      CheckValue(c, M, P.first, P.second);
      CheckGrad(c, M, P.first, P.second);
      CheckValue(c, M, P.first, P.second);
    }
  c.label(fmt::format("derivs>={}", derivs / 4 * 4));
  if (any && derivs >= 4 && changes >= 1) c.nontrivial();
}

// Points exactly on, just inside and just outside the kink of an inequality: the value stays the
// formula's (it is continuous there) and the gradient stays the derivative (it is continuous too).
void Boundary(Ctx& c) {
  gen::Options o;
  Size z = PickSize(c, &o);
  int n = o.n > 0 ? o.n : c.range(1, 4), m = o.m > 0 ? o.m : c.range(1, 3);
  Model M = MakeModel(c, z, o, n, m);
  if (M.in.empty() || M.in[0].C.isZero(0)) c.discard();
  double rho = c.logreal(1e-2, 1e3);
  VectorXd l = gen::Vec(c, M.in[0].p, -2, 0);
  if (c.chance(1, 2)) l(0) = 0;
  M.al->SetPenalty(false, 0, rho); M.rho(false, 0) = rho;
  M.al->SetDuals(false, 0, l); M.lam(false, 0) = l;
  VectorXd x = gen::Vec(c, n, -2, 2), u = gen::Vec(c, m, -2, 2);
  // move x so that component 0 has c = l/rho (+ tiny)
  double eps = c.one_of<double>({0.0, 1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3});
  VectorXd a = M.in[0].C.row(0);
  double target = l(0) / rho + eps, g = M.in[0].G(x, u)(0);
  x += a * (target - g) / a.squaredNorm();
  c.note("n {} m {} eps {} rho {} l {}", n, m, eps, rho, gen::Str(l));
  c.nontrivial();
  c.label(eps == 0 ? "on the boundary" : eps > 0 ? "outside" : "inside");
  CheckValue(c, M, x, u);
  CheckGrad(c, M, x, u);
  CheckHess(c, M, x, u);
  CheckValue(c, M, x, u);
}
}  // namespace

PBT_CHECK(histories, 25000, 600000) { Histories(c); }
PBT_CHECK(active_set_boundary, 10000, 200000) { Boundary(c); }
