// C07: cone projections.
#include "gen.hpp"
using namespace gen;
using altro::constraints::Equality;
using altro::constraints::IdentityCone;
using altro::constraints::Inequality;
using altro::constraints::NegativeOrthant;
using altro::constraints::ZeroCone;

const pbt::PropertyInfo pbt::kProperty = {
    "C07",
    "A case draws a cone, a dimension 0..12 and points whose elements mix ordinary values, exact zeros (both signs), "
    "ties, denormals, huge values and infinities, plus a memory layout for every output (own storage, part of a longer "
    "vector, block of a larger matrix) pre-filled with NaN or junk. Non-trivial: dimension >= 2 with at least one element "
    "inside and one outside the cone, or a point on the boundary.",
    {"NaN inputs are outside the domain"}};

namespace {
struct Cone {
  const char* name;
  void (*proj)(const altro::VectorXdRef&, Eigen::Ref<VectorXd>);
  void (*jac)(const altro::VectorXdRef&, Eigen::Ref<MatrixXd>);
  void (*hess)(const altro::VectorXdRef&, const altro::VectorXdRef&, Eigen::Ref<MatrixXd>);
  void (*dual)(const altro::VectorXdRef&, Eigen::Ref<VectorXd>);
  void (*dualdual)(const altro::VectorXdRef&, Eigen::Ref<VectorXd>);
  int kind;  // 0 zero, 1 identity, 2 negative orthant
};
template <class C>
Cone Make(const char* name, int kind) {
  return {name, &C::Projection, &C::Jacobian, &C::Hessian, &C::DualCone::Projection, &C::DualCone::DualCone::Projection, kind};
}
Cone PickCone(Ctx& c) {
  switch (c.below(5)) {
    case 0: return Make<NegativeOrthant>("NegativeOrthant", 2);
    case 1: return Make<ZeroCone>("ZeroCone", 0);
    case 2: return Make<IdentityCone>("IdentityCone", 1);
    case 3: return Make<Inequality>("Inequality", 2);
    default: return Make<Equality>("Equality", 0);
  }
}
double Elem(Ctx& c) {
  switch (c.below(10)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return c.one_of({1.0, -1.0, 2.0, -2.0});
    case 3: return c.one_of({5e-324, -5e-324, 1e-310, -1e-310});
    case 4: return c.one_of({1e-9, -1e-9, 1e-16, -1e-16});
    case 5: return c.one_of({1e9, -1e9, 1e150, -1e150});
    default: return c.real(-10, 10);
  }
}
VectorXd Point(Ctx& c, int n, bool inf) {
  VectorXd x(n);
  for (int i = 0; i < n; ++i) x(i) = inf && c.chance(1, 12) ? (c.chance(1, 2) ? INFINITY : -INFINITY) : Elem(c);
  return x;
}
// An output vector in some memory layout, with guard elements around it.
struct OutVec {
  VectorXd store;
  int off, n;
  double fill;
  OutVec(Ctx& c, int n_) : n(n_) {
    off = c.chance(1, 2) ? c.range(1, 3) : 0;
    fill = c.chance(1, 2) ? NAN : 7.25;
    store = VectorXd::Constant(off + n + (off ? 2 : 0), fill);
  }
  template <class F>
  VectorXd Run(F f) {
    f(store.segment(off, n));
    for (int i = 0; i < store.size(); ++i)
      if (i < off || i >= off + n) EXPECT(std::isnan(fill) ? std::isnan(store(i)) : store(i) == fill, "wrote outside the output vector at {}", i - off);
    return store.segment(off, n);
  }
};
struct OutMat {
  MatrixXd store;
  int r0, c0, n;
  double fill;
  OutMat(Ctx& c, int n_) : n(n_) {
    bool blk = c.chance(1, 2);
    r0 = blk ? c.range(0, 2) : 0;
    c0 = blk ? c.range(0, 2) : 0;
    fill = c.one_of({std::nan(""), 7.25, 1.0});
    store = MatrixXd::Constant(r0 + n + (blk ? 1 : 0), c0 + n + (blk ? 1 : 0), fill);
  }
  template <class F>
  MatrixXd Run(F f) {
    f(store.block(r0, c0, n, n));
    for (int i = 0; i < store.rows(); ++i)
      for (int j = 0; j < store.cols(); ++j)
        if (i < r0 || i >= r0 + n || j < c0 || j >= c0 + n)
          EXPECT(std::isnan(fill) ? std::isnan(store(i, j)) : store(i, j) == fill, "wrote outside the output block at {},{}", i - r0, j - c0);
    return store.block(r0, c0, n, n);
  }
};
bool InCone(int kind, double v) { return kind == 0 ? v == 0 : kind == 1 ? true : v <= 0; }
void Classify(Ctx& c, const Cone& k, const VectorXd& x) {
  bool in = false, out = false, bnd = false;
  for (int i = 0; i < x.size(); ++i) {
    (InCone(k.kind, x(i)) ? in : out) = true;
    if (x(i) == 0) bnd = true;
  }
  if (x.size() >= 2 && ((in && out) || bnd || k.kind == 1)) c.nontrivial();
  c.label(k.name);
  if (bnd) c.label("boundary");
  c.note("{} x={}", k.name, Str(x));
}
}  // namespace

PBT_CHECK(projection, 120000, 3000000) {
  Cone k = PickCone(c);
  int n = c.range(0, 12);
  VectorXd x = Point(c, n, true), y = Point(c, n, false);
  Classify(c, k, x);
  OutVec o(c, n);
  VectorXd p = o.Run([&](Eigen::Ref<VectorXd> r) { k.proj(x, r); });
  for (int i = 0; i < n; ++i) {
    EXPECT(InCone(k.kind, p(i)), "projection element {} = {} is outside the cone", i, p(i));
    if (InCone(k.kind, x(i))) EXPECT(p(i) == x(i), "member element {} moved from {} to {}", i, x(i), p(i));
    double ref = k.kind == 0 ? 0 : k.kind == 1 ? x(i) : (x(i) < 0 ? x(i) : 0);
    EXPECT(p(i) == ref, "element {}: projection {} is not the nearest point {} of {}", i, p(i), ref, x(i));
  }
  OutVec o2(c, n);
  VectorXd pp = o2.Run([&](Eigen::Ref<VectorXd> r) { k.proj(p, r); });
  for (int i = 0; i < n; ++i) EXPECT(pp(i) == p(i), "not idempotent at {}: {} then {}", i, p(i), pp(i));
  OutVec o3(c, n);
  VectorXd q = o3.Run([&](Eigen::Ref<VectorXd> r) { k.proj(y, r); });
  for (int i = 0; i < n; ++i)
    if (std::isfinite(x(i))) EXPECT(std::fabs(p(i) - q(i)) <= std::fabs(x(i) - y(i)), "expansive at {}: |{}-{}| > |{}-{}|", i, p(i), q(i), x(i), y(i));
  // nearest point: no member of the cone is closer (a member is the projection of any point)
  bool fin = x.allFinite() && x.lpNorm<Eigen::Infinity>() < 1e100 && y.lpNorm<Eigen::Infinity>() < 1e100;
  if (n && fin) {
    EXPECT((x - p).norm() <= (x - q).norm() * (1 + 1e-12), "another member of the cone is closer: {} < {}", (x - q).norm(), (x - p).norm());
  }
  // dual of the dual
  OutVec o4(c, n);
  VectorXd dd = o4.Run([&](Eigen::Ref<VectorXd> r) { k.dualdual(x, r); });
  for (int i = 0; i < n; ++i) EXPECT(dd(i) == p(i), "dual of the dual projects {} to {}, the cone to {}", x(i), dd(i), p(i));
}

// Moreau: x splits into its projection and the projection on the polar cone.  With the solver's
// sign convention the (negative) dual of the negative orthant is itself: x = P(x) - P_dual(-x); for
// the zero cone the dual is the whole space: x = P(x) + P_dual(x).
PBT_CHECK(moreau, 60000, 1500000) {
  Cone k = PickCone(c);
  int n = c.range(0, 12);
  VectorXd x = Point(c, n, false);
  Classify(c, k, x);
  OutVec o(c, n), o2(c, n);
  VectorXd p = o.Run([&](Eigen::Ref<VectorXd> r) { k.proj(x, r); });
  VectorXd mx = -x;
  VectorXd d = o2.Run([&](Eigen::Ref<VectorXd> r) { k.dual(mx, r); });
  for (int i = 0; i < n; ++i) EXPECT(p(i) - d(i) == x(i), "element {}: {} != {} - ({})", i, x(i), p(i), d(i));
  double ip = 0;
  for (int i = 0; i < n; ++i) {
    EXPECT(p(i) * d(i) == 0, "element {}: the parts {} and {} are not orthogonal", i, p(i), d(i));
    ip += p(i) * d(i);
  }
  // polarity: <member, -dual member> <= 0 for the decomposition of another point too
  VectorXd y = Point(c, n, false);
  OutVec o3(c, n);
  VectorXd dy = o3.Run([&](Eigen::Ref<VectorXd> r) { k.dual(y, r); });
  for (int i = 0; i < n; ++i) EXPECT(p(i) * dy(i) >= 0 || p(i) * dy(i) == 0, "cone element {} and dual element {} have a negative product", p(i), dy(i));
}

PBT_CHECK(jacobian, 120000, 3000000) {
  Cone k = PickCone(c);
  int n = c.range(0, 8);
  VectorXd x = Point(c, n, false);
  Classify(c, k, x);
  OutMat o(c, n);
  MatrixXd J = o.Run([&](Eigen::Ref<MatrixXd> r) { k.jac(x, r); });
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      if (i != j) {
        EXPECT(J(i, j) == 0, "off-diagonal entry ({},{}) is {} (output was pre-filled with {})", i, j, J(i, j), o.fill);
      } else {
        bool bnd = k.kind == 2 && x(i) == 0;
        double d = k.kind == 0 ? 0 : k.kind == 1 ? 1 : x(i) < 0 ? 1 : 0;
        if (bnd) EXPECT(J(i, i) >= 0 && J(i, i) <= 1, "entry {} at a boundary point is {}, outside [0,1]", i, J(i, i));
        else EXPECT(J(i, i) == d, "entry {} is {}, derivative of the projection at {} is {}", i, J(i, i), x(i), d);
      }
    }
  // derivative of the real projection: difference quotient along a random direction
  VectorXd z(n), v(n);
  for (int i = 0; i < n; ++i) {
    z(i) = (c.chance(1, 2) ? 1 : -1) * c.real(0.5, 3);
    v(i) = c.real(-1, 1);
  }
  MatrixXd Jz = OutMat(c, n).Run([&](Eigen::Ref<MatrixXd> r) { k.jac(z, r); });
  VectorXd a = OutVec(c, n).Run([&](Eigen::Ref<VectorXd> r) { k.proj(z + 1e-3 * v, r); });
  VectorXd b = OutVec(c, n).Run([&](Eigen::Ref<VectorXd> r) { k.proj(z - 1e-3 * v, r); });
  if (n) EXPECT(((a - b) / 2e-3 - Jz * v).lpNorm<Eigen::Infinity>() < 1e-9, "directional difference quotient disagrees with the Jacobian at {}", Str(z));
}

PBT_CHECK(hessian, 30000, 600000) {
  Cone k = PickCone(c);
  int n = c.range(0, 8);
  VectorXd x = Point(c, n, false), b = Point(c, n, false);
  Classify(c, k, x);
  MatrixXd H = OutMat(c, n).Run([&](Eigen::Ref<MatrixXd> r) { k.hess(x, b, r); });
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) EXPECT(H(i, j) == 0, "entry ({},{}) of the second-order term is {}", i, j, H(i, j));
}
