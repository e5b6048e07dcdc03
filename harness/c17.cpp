// C17: finite differences, derivative checks and interface adapters.
#include "gen.hpp"
#include <altro/utils/derivative_checker.hpp>
using namespace gen;
using altro::FunctionBase;
using altro::ScalarFunction;

const pbt::PropertyInfo pbt::kProperty = {
    "C17",
    "A case draws a smooth function (affine + quadratic + sine terms, several outputs or scalar or a cost with state-control "
    "coupling), a point, sizes, a step size or tolerance, and where relevant a pattern of wrong derivative entries (one, two, cancelling, exchanged or missing columns, scaled row) and the "
    "memory layout of the output (own storage or block of a larger matrix, pre-filled with junk). Non-trivial: the function "
    "has curvature and at least two variables.",
    {"accept/reject is only decided when the true discrepancy is at least 3x away from the tolerance plus the difference error"}};

namespace {
struct Smooth {  // f_i = a_i'z + 0.5 z'S_i z + c_i sin(w_i'z + p_i)
  int p = 1, n = 1, m = 1;
  MatrixXd a, w;
  std::vector<MatrixXd> S;
  VectorXd c, ph;
  int nz() const { return n + m; }
  VectorXd F(const VectorXd& z) const {
    VectorXd r(p);
    for (int i = 0; i < p; ++i) r(i) = a.row(i).dot(z) + 0.5 * z.dot(S[i] * z) + c(i) * std::sin(w.row(i).dot(z) + ph(i));
    return r;
  }
  MatrixXd J(const VectorXd& z) const {
    MatrixXd r(p, nz());
    for (int i = 0; i < p; ++i) r.row(i) = a.row(i) + (S[i] * z).transpose() + c(i) * std::cos(w.row(i).dot(z) + ph(i)) * w.row(i);
    return r;
  }
  MatrixXd H(const VectorXd& z, const VectorXd& b) const {
    MatrixXd r = MatrixXd::Zero(nz(), nz());
    for (int i = 0; i < p; ++i) r += b(i) * (S[i] - c(i) * std::sin(w.row(i).dot(z) + ph(i)) * w.row(i).transpose() * w.row(i));
    return 0.5 * (r + r.transpose());  // exactly symmetric
  }
  // bounds on |f|, second, third and fourth derivatives of sum_i |b_i| f_i near z
  double Mag(const VectorXd& z) const {
    double r = 0;
    for (int i = 0; i < p; ++i) r = std::max(r, a.row(i).norm() * z.norm() + 0.5 * S[i].norm() * z.squaredNorm() + std::fabs(c(i)));
    return r + 1;
  }
  double Dk(int k) const {
    double r = 0;
    for (int i = 0; i < p; ++i) r = std::max(r, (k == 2 ? S[i].norm() : 0) + std::fabs(c(i)) * std::pow(w.row(i).norm(), k));
    return r;
  }
};
Smooth MakeSmooth(Ctx& c, int p, int n, int m, double curv = 1) {
  Smooth s;
  s.p = p;
  s.n = n;
  s.m = m;
  s.a = Mat(c, p, n + m, 2);
  s.w = Mat(c, p, n + m, 1);
  for (int i = 0; i < p; ++i) s.S.push_back(Sym(c, n + m, curv));
  s.c = Vec(c, p, -curv, curv);
  s.ph = Vec(c, p, -2, 2);
  return s;
}
template <int NZ>
void FdCase(Ctx& c, int nz) {
  bool scalar = c.chance(1, 3), central = c.chance(1, 2);
  int p = scalar ? 1 : c.range(1, 4);
  Smooth s = MakeSmooth(c, p, nz, 0);
  VectorXd z = Vec(c, nz, -2, 2);
  double eps = std::pow(10, -c.one_of({3.0, 4.0, 5.0, 6.0, 7.0}));
  double mag = s.Mag(z);
  c.note("NZ={} nz={} p={} central={} eps={} z={}", NZ, nz, p, central, eps, Str(z));
  if (nz >= 2 && s.Dk(2) > 0.1) c.nontrivial();
  double tol = (central ? eps * eps * s.Dk(3) / 6 * 1.1 : eps * s.Dk(2) / 2 * 1.1) + 40 * 2.3e-16 * mag / eps + 1e-13;
  MatrixXd jt = s.J(z);
  using V = Eigen::Matrix<double, NZ, 1>;
  V zz = z;
  if (!scalar) {
    auto f = [&](const V& q) -> VectorXd { return s.F(q); };
    MatrixXd J = altro::utils::FiniteDiffJacobian<-1, NZ>(f, zz, eps, central);
    EXPECT(J.rows() == p && J.cols() == nz, "shape {}x{}", J.rows(), J.cols());
    EXPECT((J - jt).cwiseAbs().maxCoeff() <= tol, "Jacobian error {:.3g}, expected at most {:.3g}", (J - jt).cwiseAbs().maxCoeff(), tol);
    if (NZ < 0) {
      auto g = [&](const VectorXd& q) -> VectorXd { return s.F(q); };
      MatrixXd J2 = altro::utils::FiniteDiffJacobian(g, VectorXd(z), eps, central);
      EXPECT(J2 == J, "the two interfaces differ");
    }
    // default arguments: forward, step 1e-6
    MatrixXd J3 = altro::utils::FiniteDiffJacobian<-1, NZ>(f, zz);
    double t3 = 1e-6 * s.Dk(2) / 2 * 1.1 + 40 * 2.3e-16 * mag / 1e-6;
    EXPECT((J3 - jt).cwiseAbs().maxCoeff() <= t3, "default Jacobian error {:.3g}, expected at most {:.3g}", (J3 - jt).cwiseAbs().maxCoeff(), t3);
  } else {
    auto f = [&](const VectorXd& q) -> double { return s.F(q)(0); };
    VectorXd g = altro::utils::FiniteDiffGradient<NZ>(f, zz, eps, central);
    EXPECT(g.size() == nz, "gradient length {}", g.size());
    EXPECT((g - jt.transpose()).cwiseAbs().maxCoeff() <= tol, "gradient error {:.3g}, expected at most {:.3g}", (g - jt.transpose()).cwiseAbs().maxCoeff(), tol);
    double e2 = std::pow(10, -c.one_of({3.0, 3.5, 4.0}));
    MatrixXd Ht = s.H(z, VectorXd::Ones(1));
    MatrixXd H = altro::utils::FiniteDiffHessian<NZ>(f, zz, e2, central);
    double th = (central ? e2 * e2 * s.Dk(4) * 1.0 : 2 * e2 * s.Dk(3)) + 80 * 2.3e-16 * mag / (e2 * e2) + 1e-12;
    EXPECT(H.rows() == nz && H.cols() == nz, "shape");
    EXPECT((H - Ht).cwiseAbs().maxCoeff() <= th, "Hessian error {:.3g}, expected at most {:.3g} (step {})", (H - Ht).cwiseAbs().maxCoeff(), th, e2);
    MatrixXd H2 = altro::utils::FiniteDiffHessian<NZ>(f, zz);
    double t2 = 1e-8 * s.Dk(4) + 80 * 2.3e-16 * mag / 1e-8;
    EXPECT((H2 - Ht).cwiseAbs().maxCoeff() <= t2, "default Hessian error {:.3g}, expected at most {:.3g}", (H2 - Ht).cwiseAbs().maxCoeff(), t2);
  }
}

// ------------------------------------------------------------------ user functions with a wrong entry
struct Wrong {
  MatrixXd D;   // added to the Jacobian / Hessian; empty: nothing wrong
  bool any() const { return D.size() > 0; }
};
class VecFn : public FunctionBase {
 public:
  VecFn(Smooth s, Wrong wj, Wrong wh) : s_(std::move(s)), wj_(wj), wh_(wh) {}
  int StateDimension() const override { return s_.n; }
  int ControlDimension() const override { return s_.m; }
  int OutputDimension() const override { return s_.p; }
  bool HasHessian() const override { return true; }
  VectorXd Z(const altro::VectorXdRef& x, const altro::VectorXdRef& u) const {
    VectorXd z(s_.nz());
    z << x, u;
    return z;
  }
  void Evaluate(const altro::VectorXdRef& x, const altro::VectorXdRef& u, Eigen::Ref<VectorXd> out) override { out = s_.F(Z(x, u)); }
  void Jacobian(const altro::VectorXdRef& x, const altro::VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
    jac = s_.J(Z(x, u));
    if (wj_.any()) jac += wj_.D;
  }
  void Hessian(const altro::VectorXdRef& x, const altro::VectorXdRef& u, const altro::VectorXdRef& b, Eigen::Ref<MatrixXd> h) override {
    h = s_.H(Z(x, u), b);
    if (wh_.any()) h += wh_.D;
  }

 protected:
  Smooth s_;
  Wrong wj_, wh_;
};
class ScalFn : public ScalarFunction {
 public:
  using ScalarFunction::Evaluate;
  using ScalarFunction::Hessian;
  ScalFn(Smooth s, Wrong wj, Wrong wh) : s_(std::move(s)), wj_(wj), wh_(wh) {}
  int StateDimension() const override { return s_.n; }
  int ControlDimension() const override { return s_.m; }
  VectorXd Z(const altro::VectorXdRef& x, const altro::VectorXdRef& u) const {
    VectorXd z(s_.nz());
    z << x, u;
    return z;
  }
  double Evaluate(const altro::VectorXdRef& x, const altro::VectorXdRef& u) override { return s_.F(Z(x, u))(0); }
  void Gradient(const altro::VectorXdRef& x, const altro::VectorXdRef& u, Eigen::Ref<VectorXd> g) override {
    g = s_.J(Z(x, u)).transpose();
    if (wj_.any()) g += wj_.D.row(0).transpose();
  }
  void Hessian(const altro::VectorXdRef& x, const altro::VectorXdRef& u, Eigen::Ref<MatrixXd> h) override {
    h = s_.H(Z(x, u), VectorXd::Ones(1));
    if (wh_.any()) h += wh_.D;
  }

 private:
  Smooth s_;
  Wrong wj_, wh_;
};
class CostFn : public altro::problem::CostFunction {
 public:
  using altro::ScalarFunction::Evaluate;
  using altro::problem::CostFunction::Gradient;
  using altro::problem::CostFunction::Hessian;
  CostFn(Smooth s, Wrong wj, Wrong wh) : s_(std::move(s)), wj_(wj), wh_(wh) {}
  int StateDimension() const override { return s_.n; }
  int ControlDimension() const override { return s_.m; }
  VectorXd Z(const altro::VectorXdRef& x, const altro::VectorXdRef& u) const {
    VectorXd z(s_.nz());
    z << x, u;
    return z;
  }
  double Evaluate(const altro::VectorXdRef& x, const altro::VectorXdRef& u) override { return s_.F(Z(x, u))(0); }
  void Gradient(const altro::VectorXdRef& x, const altro::VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    VectorXd g = s_.J(Z(x, u)).transpose();
    if (wj_.any()) g += wj_.D.row(0).transpose();
    dx = g.head(s_.n);
    du = g.tail(s_.m);
  }
  void Hessian(const altro::VectorXdRef& x, const altro::VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    MatrixXd h = s_.H(Z(x, u), VectorXd::Ones(1));
    if (wh_.any()) h += wh_.D;
    xx = h.topLeftCorner(s_.n, s_.n);
    xu = h.topRightCorner(s_.n, s_.m);
    uu = h.bottomRightCorner(s_.m, s_.m);
  }

 private:
  Smooth s_;
  Wrong wj_, wh_;
};
}  // namespace

PBT_CHECK(finite_differences, 60000, 900000) {
  switch (c.below(4)) {
    case 0: FdCase<3>(c, 3); break;
    case 1: FdCase<1>(c, 1); break;
    default: FdCase<-1>(c, c.range(1, 6));
  }
}

PBT_CHECK(checkers, 60000, 900000) {
  int kind = c.range(0, 2);  // 0 vector, 1 scalar, 2 cost
  int n = c.range(1, 4), m = c.range(1, 3), p = kind == 0 ? c.range(1, 4) : 1;
  Smooth s = MakeSmooth(c, p, n, m);
  bool hess = c.chance(1, 2), random_pt = c.chance(1, 4), verbose = c.chance(1, 8), dflt = c.chance(1, 3);
  double tol = dflt ? 1e-4 : c.logreal(2e-4, 5e-2);
  VectorXd x = Vec(c, n, -1.5, 1.5), u = Vec(c, m, -1.5, 1.5), b = kind == 0 && p > 1 ? Vec(c, p) : VectorXd(VectorXd::Ones(p));
  Wrong w;
  bool wrong = c.chance(2, 3);
  const char* pattern = "none";
  if (wrong) {
    int rows = hess ? n + m : p, cols = n + m;
    MatrixXd D = MatrixXd::Zero(rows, cols);
    double d = (c.chance(1, 2) ? 1 : -1) * tol * (c.chance(1, 5) ? 0.2 : c.logreal(4, 1e4));
    bool special = c.chance(1, 20);
    if (special) d = c.chance(1, 2) ? NAN : INFINITY;
    int i = c.range(0, rows - 1), j = c.range(0, cols - 1);
    if (kind == 2 && hess && i >= n && j < n) std::swap(i, j);  // a cost provides the upper right block only
    int pat = special ? 0 : c.range(0, 6);
    VectorXd z(n + m);
    z << x, u;
    MatrixXd right = hess ? s.H(z, b) : s.J(z);
    switch (pat) {
      default: pattern = "one entry"; D(i, j) = d; break;
      case 2: pattern = "two entries"; D(i, j) = d; D(c.range(0, rows - 1), c.range(0, cols - 1)) += c.chance(1, 2) ? -d : d; break;
      case 3:   // errors that cancel along a row or a column
        pattern = "cancelling entries";
        D(i, j) = d;
        if (c.chance(1, 2)) D(i, (j + 1) % cols) -= d; else D((i + 1) % rows, j) -= d;
        break;
      case 4: pattern = "two columns exchanged"; D.col(j) = right.col((j + 1) % cols) - right.col(j); D.col((j + 1) % cols) = -D.col(j); break;
      case 5: pattern = "a column missing"; D.col(j) = -right.col(j); break;
      case 6: pattern = "a row scaled"; D.row(i) = right.row(i) * c.one_of<double>({-2, 1, -1}); break;
    }
    if (kind == 2 && hess) {   // the blocks a cost does not provide follow from the others
      D.bottomLeftCorner(m, n) = D.topRightCorner(n, m).transpose();
      D.topLeftCorner(n, n) = D.topLeftCorner(n, n).eval();
    }
    w.D = D;
    if (D.cwiseAbs().maxCoeff() == 0) { w.D.resize(0, 0); wrong = false; }
  }
  c.note("kind={} n={} m={} p={} hess={} random={} tol={} x={} u={} b={} wrong: {}", kind, n, m, p, hess, random_pt, tol, Str(x), Str(u), Str(b), pattern);
  Wrong none;
  std::unique_ptr<FunctionBase> f;
  if (kind == 0) f = std::make_unique<VecFn>(s, hess ? none : w, hess ? w : none);
  if (kind == 1) f = std::make_unique<ScalFn>(s, hess ? none : w, hess ? w : none);
  if (kind == 2) f = std::make_unique<CostFn>(s, hess ? none : w, hess ? w : none);
  // discrepancy and difference error
  double disc = 0, worst = 0;   // all entries together; the largest entry
  if (wrong) {
    disc = w.D.norm();
    for (int i = 0; i < w.D.size(); ++i) worst = std::fabs(w.D(i)) <= worst ? worst : std::fabs(w.D(i));   // NaN sticks
  }
  VectorXd zmax = VectorXd::Constant(n + m, 1.5);
  double mag = s.Mag(zmax) * (hess ? p : 1), ent = std::sqrt((double)(hess ? (n + m) * (n + m) : p * (n + m)));
  double fd = ent * (hess ? 1e-8 * s.Dk(4) * p + 80 * 2.3e-16 * mag / 1e-8 : 1e-6 * s.Dk(2) + 40 * 2.3e-16 * mag / 1e-6);
  if (3 * fd > tol) c.discard();
  bool answer;
  std::string out;
  {
    pbt::CaptureStdout cap;
    bool grad = !hess && kind > 0 && c.chance(1, 2);
    if (hess) answer = random_pt ? (dflt ? f->CheckHessian() : f->CheckHessian(tol, verbose)) : (dflt ? f->CheckHessian(x, u, b) : f->CheckHessian(x, u, b, tol, verbose));
    else if (grad) {
      auto& g = static_cast<ScalarFunction&>(*f);
      answer = random_pt ? (dflt ? g.CheckGradient() : g.CheckGradient(tol, verbose)) : (dflt ? g.CheckGradient(x, u) : g.CheckGradient(x, u, tol, verbose));
    } else answer = random_pt ? (dflt ? f->CheckJacobian() : f->CheckJacobian(tol, verbose)) : (dflt ? f->CheckJacobian(x, u) : f->CheckJacobian(x, u, tol, verbose));
    out = cap.Stop();
  }
  if (dflt || !verbose) EXPECT(out.empty(), "a quiet check printed: {}", out.substr(0, 100));
  c.label(hess ? "Hessian check" : "Jacobian/gradient check");
  c.label(pattern);
  if (s.Dk(2) > 0.1) c.nontrivial();
  if (!wrong || disc < tol - 2 * fd) EXPECT(answer, "a derivative within {:.3g} of the truth was rejected at tolerance {:.3g}", disc, tol);
  else if (!(worst < tol + 2 * fd)) EXPECT(!answer, "a derivative wrong ({}) by {:.3g} in an entry was accepted at tolerance {:.3g}", pattern, worst, tol);
}

// Every way of calling a scalar / cost function gives the same, completely defined results.
PBT_CHECK(adapters, 30000, 900000) {
  bool cost = c.chance(2, 3);
  int n = c.range(1, 5), m = c.range(1, 4), nz = n + m;
  Smooth s = MakeSmooth(c, 1, n, m);
  VectorXd x = Vec(c, n, -2, 2), u = Vec(c, m, -2, 2), z(nz);
  z << x, u;
  Wrong none;
  CostFn cf(s, none, none);
  ScalFn sf(s, none, none);
  ScalarFunction& f = cost ? static_cast<ScalarFunction&>(cf) : static_cast<ScalarFunction&>(sf);
  FunctionBase& fb = f;
  double val = s.F(z)(0);
  VectorXd grad = s.J(z).transpose();
  MatrixXd H = s.H(z, VectorXd::Ones(1));
  double fill = c.one_of({std::nan(""), 3.5, 0.0});
  bool blk = c.chance(1, 2);
  int r0 = blk ? c.range(0, 2) : 0, c0 = blk ? c.range(0, 2) : 0, er = blk ? c.range(0, 2) : 0, ec = blk ? c.range(0, 1) : 0;
  c.note("cost={} n={} m={} x={} u={} fill={} block offset {},{} extra {},{}", cost, n, m, Str(x), Str(u), fill, r0, c0, er, ec);
  c.label(blk ? "strided output" : "own storage");
  if (nz >= 3 && std::fabs(s.c(0)) + s.S[0].norm() > 0.1) c.nontrivial();
  auto guard = [&](const MatrixXd& big, int rows, int cols, const char* what) {
    for (int i = 0; i < big.rows(); ++i)
      for (int j = 0; j < big.cols(); ++j)
        if (i < r0 || i >= r0 + rows || j < c0 || j >= c0 + cols)
          EXPECT(std::isnan(fill) ? std::isnan(big(i, j)) : big(i, j) == fill, "{} wrote outside its output at ({},{})", what, i - r0, j - c0);
  };
  EXPECT(f.Evaluate(x, u) == val, "value {} vs {}", f.Evaluate(x, u), val);
  VectorXd v1 = VectorXd::Constant(1, fill);
  fb.Evaluate(x, u, Eigen::Ref<VectorXd>(v1));
  EXPECT(v1(0) == val, "vector interface value {} vs {}", v1(0), val);
  EXPECT(fb.OutputDimension() == 1 && fb.HasHessian(), "scalar function metadata");
  {
    VectorXd big = VectorXd::Constant(r0 + nz + er, fill);
    f.Gradient(x, u, big.segment(r0, nz));
    EXPECT(big.segment(r0, nz) == grad, "stacked gradient {} vs {}", Str(big.segment(r0, nz)), Str(grad));
  }
  {
    MatrixXd big = MatrixXd::Constant(r0 + 1 + er, c0 + nz + ec, fill);
    fb.Jacobian(x, u, big.block(r0, c0, 1, nz));
    VectorXd got = big.block(r0, c0, 1, nz).transpose();
    EXPECT(got == grad, "Jacobian row {} vs gradient {}", Str(got), Str(grad));
    guard(big, 1, nz, "Jacobian");
  }
  {
    MatrixXd big = MatrixXd::Constant(r0 + nz + er, c0 + nz + ec, fill);
    f.Hessian(x, u, big.block(r0, c0, nz, nz));
    MatrixXd got = big.block(r0, c0, nz, nz);
    EXPECT(got.allFinite() && (got - H).cwiseAbs().maxCoeff() == 0, "stacked Hessian does not equal the Hessian (max entry difference {})", (got - H).cwiseAbs().maxCoeff());
    guard(big, nz, nz, "Hessian");
    MatrixXd big2 = MatrixXd::Constant(r0 + nz + er, c0 + nz + ec, fill);
    VectorXd one = VectorXd::Ones(1);
    fb.Hessian(x, u, one, big2.block(r0, c0, nz, nz));
    got = big2.block(r0, c0, nz, nz);
    EXPECT(got.allFinite() && (got - H).cwiseAbs().maxCoeff() == 0, "Hessian through the vector interface differs");
    guard(big2, nz, nz, "vector-interface Hessian");
  }
  if (cost) {
    MatrixXd big = MatrixXd::Constant(r0 + nz + er, c0 + nz + ec, fill);
    VectorXd dx = VectorXd::Constant(n, fill), du = VectorXd::Constant(m, fill);
    cf.Gradient(x, u, dx, du);
    EXPECT(dx == grad.head(n) && du == grad.tail(m), "blocked gradient");
    cf.Hessian(x, u, big.block(r0, c0, n, n), big.block(r0, c0 + n, n, m), big.block(r0 + n, c0 + n, m, m));
    EXPECT(big.block(r0, c0, n, n) == H.topLeftCorner(n, n) && big.block(r0, c0 + n, n, m) == H.topRightCorner(n, m) &&
               big.block(r0 + n, c0 + n, m, m) == H.bottomRightCorner(m, m), "blocked Hessian");
  }
}
