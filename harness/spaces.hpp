// Manifolds used by several harnesses: a generator of (nested) spaces and a
// leaf-by-leaf reference model of every manifold operation.
#pragma once
#include "num.hpp"
#include <proxsuite-nlp/fwd.hpp>
#include <proxsuite-nlp/manifold-base.hpp>
#include <proxsuite-nlp/modelling/spaces/cartesian-product.hpp>
#include <proxsuite-nlp/modelling/spaces/tangent-bundle.hpp>
#include <proxsuite-nlp/modelling/spaces/vector-space.hpp>
#include <proxsuite-nlp/third-party/polymorphic_cxx14.hpp>

namespace vp {
namespace nlp = proxsuite::nlp;
using Manifold = nlp::ManifoldAbstractTpl<double>;
using PManifold = nlp::polymorphic<Manifold>;
using VS = nlp::VectorSpaceTpl<double>;
using CProd = nlp::CartesianProductTpl<double>;
using CVRef = Eigen::Ref<const Vec>;
using VRef = Eigen::Ref<Vec>;
using MRef = Eigen::Ref<Mat>;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;

inline M3 skew3(const V3 &v) {
  M3 m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
inline Eigen::Quaterniond exp3(const V3 &v) {
  double t = v.norm();
  double a = t < 1e-4 ? 0.5 - t * t / 48. + t * t * t * t / 3840. : std::sin(t / 2) / t;
  return Eigen::Quaterniond(std::cos(t / 2), a * v[0], a * v[1], a * v[2]);
}
inline V3 log3(Eigen::Quaterniond q) {
  if (q.w() < 0)
    q.coeffs() *= -1;
  double s = q.vec().norm();
  double t = 2 * std::atan2(s, q.w());
  double a = s < 1e-4 ? 2. / q.w() * (1 - s * s / (3 * q.w() * q.w())) : t / s;
  return a * q.vec();
}
inline M3 Jr3(const V3 &v) {
  double t = v.norm();
  M3 S = skew3(v);
  double a, b;
  if (t < 1e-3) {
    a = 0.5 - t * t / 24.;
    b = 1. / 6. - t * t / 120.;
  } else {
    a = (1 - std::cos(t)) / (t * t);
    b = (t - std::sin(t)) / (t * t * t);
  }
  return M3::Identity() - a * S + b * S * S;
}

/// One irreducible factor of a space.
struct Leaf {
  /// W: the line with x (+) v = x + w(x) v, whose derivatives depend on the point
  enum K { R, SO2, SO3, W } k = R;
  static double w(double x) { return 1. + 0.25 * std::sin(x); }
  static double dw(double x) { return 0.25 * std::cos(x); }
  int n = 0;
  int nx() const { return k == R ? n : k == SO2 ? 2 : k == W ? 1 : 4; }
  int ndx() const { return k == R ? n : k == SO2 || k == W ? 1 : 3; }
  Vec neutral() const {
    Vec x = Vec::Zero(nx());
    if (k == SO2)
      x[0] = 1;
    if (k == SO3)
      x[3] = 1;
    return x;
  }
  static Eigen::Quaterniond q(const Vec &x) { return Eigen::Quaterniond(x[3], x[0], x[1], x[2]); }
  Vec integrate(const Vec &x, const Vec &v) const {
    if (k == R)
      return x + v;
    if (k == W)
      return x + w(x[0]) * v;
    Vec o(nx());
    if (k == SO2) {
      double c = std::cos(v[0]), s = std::sin(v[0]);
      o << x[0] * c - x[1] * s, x[0] * s + x[1] * c;
      return o;
    }
    Eigen::Quaterniond r = q(x) * exp3(v);
    r.normalize();
    o << r.x(), r.y(), r.z(), r.w();
    return o;
  }
  Vec difference(const Vec &a, const Vec &b) const {
    if (k == R)
      return b - a;
    if (k == W)
      return (b - a) / w(a[0]);
    Vec o(ndx());
    if (k == SO2) {
      o << std::atan2(a[0] * b[1] - a[1] * b[0], a[0] * b[0] + a[1] * b[1]);
      return o;
    }
    o = log3(q(a).conjugate() * q(b));
    return o;
  }
  Mat Jintegrate(const Vec &x, const Vec &v, int arg) const {
    if (k == W) {
      const double y = x[0] + w(x[0]) * v[0];
      return Mat::Constant(1, 1, (arg ? w(x[0]) : w(x[0]) * (1 + dw(x[0]) * v[0])) / w(y));
    }
    if (k != SO3)
      return Mat::Identity(ndx(), ndx());
    V3 w = v;
    if (arg == 0)
      return exp3(w).toRotationMatrix().transpose();
    return Jr3(w);
  }
  Mat Jdifference(const Vec &a, const Vec &b, int arg) const {
    if (k == W)
      return Mat::Constant(1, 1, arg ? w(b[0]) / w(a[0]) : -1 - (b[0] - a[0]) * dw(a[0]) / w(a[0]));
    if (k != SO3)
      return (arg == 0 ? -1. : 1.) * Mat::Identity(ndx(), ndx());
    V3 w = difference(a, b);
    M3 ji = Jr3(w).inverse();
    if (arg == 1)
      return ji;
    return -ji.transpose();
  }
  bool isNormalized(const Vec &x) const { return k == R || k == W || std::fabs(x.norm() - 1) < 1e-6; }
  Vec point(Src &s) const {
    Vec x(nx());
    if (k == R || k == W)
      return gvec(s, nx());
    if (k == SO2) {
      double t = s.real(0, 6.283185);
      x << std::cos(t), std::sin(t);
      return x;
    }
    V3 v(s.num(), s.num(), s.num());
    auto r = exp3(v);
    x << r.x(), r.y(), r.z(), r.w();
    return x;
  }
  /// a tangent vector which stays inside the injectivity radius
  Vec tangent(Src &s) const {
    Vec v = gvec(s, ndx());
    if (k == R)
      return v;
    double m = v.norm();
    if (m > 2.)
      v *= 2. / m;
    return v;
  }
};

/// Test doubles implementing the library's manifold interface for the two
/// non-Euclidean leaves (the library gets those from Pinocchio).
template <Leaf::K KIND> struct LeafManifold : Manifold {
  using Scalar = double;
  static constexpr int Options = Manifold::Options;
  Leaf l{KIND, 0};
  int nx() const override { return l.nx(); }
  int ndx() const override { return l.ndx(); }
  VectorXs neutral() const override { return l.neutral(); }
  VectorXs rand() const override {
    VectorXs v = VectorXs::Random(nx());
    return v / v.norm();
  }
  bool isNormalized(const ConstVectorRef &x) const override {
    return x.size() == nx() && l.isNormalized(x);
  }
  void JintegrateTransport(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J,
                           int arg) const override {
    Mat M = l.Jintegrate(x, v, arg) * J;
    J = M;
  }

protected:
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef out) const override {
    out = l.integrate(x, v);
  }
  void difference_impl(const ConstVectorRef &a, const ConstVectorRef &b, VectorRef out) const override {
    out = l.difference(a, b);
  }
  void Jintegrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    J = l.Jintegrate(x, v, arg);
  }
  void Jdifference_impl(const ConstVectorRef &a, const ConstVectorRef &b, MatrixRef J, int arg) const override {
    J = l.Jdifference(a, b, arg);
  }
};
using SO2M = LeafManifold<Leaf::SO2>;
using SO3M = LeafManifold<Leaf::SO3>;
using WarpedM = LeafManifold<Leaf::W>;

/// Forwards to any space, so that a bundle of an arbitrary space can be formed.
struct AnySpace : Manifold {
  using Scalar = double;
  static constexpr int Options = Manifold::Options;
  PManifold m;
  AnySpace(const PManifold &p) : m(p) {}
  int nx() const override { return m->nx(); }
  int ndx() const override { return m->ndx(); }
  VectorXs neutral() const override { return m->neutral(); }
  VectorXs rand() const override { return m->rand(); }
  bool isNormalized(const ConstVectorRef &x) const override { return m->isNormalized(x); }
  void JintegrateTransport(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J,
                           int arg) const override {
    m->JintegrateTransport(x, v, J, arg);
  }

protected:
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef out) const override {
    m->integrate(x, v, out);
  }
  void difference_impl(const ConstVectorRef &a, const ConstVectorRef &b, VectorRef out) const override {
    m->difference(a, b, out);
  }
  void Jintegrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    m->Jintegrate(x, v, J, arg);
  }
  void Jdifference_impl(const ConstVectorRef &a, const ConstVectorRef &b, MatrixRef J, int arg) const override {
    m->Jdifference(a, b, J, arg);
  }
  void interpolate_impl(const ConstVectorRef &a, const ConstVectorRef &b, const double &u,
                        VectorRef out) const override {
    m->interpolate(a, b, u, out);
  }
};

/// Reference model: a space is the ordered product of its leaves.
struct Model {
  std::vector<Leaf> l;
  std::string name;
  int nx() const {
    int r = 0;
    for (auto &q : l)
      r += q.nx();
    return r;
  }
  int ndx() const {
    int r = 0;
    for (auto &q : l)
      r += q.ndx();
    return r;
  }
  bool curved() const {
    for (auto &q : l)
      if (q.k == Leaf::SO3)
        return true;
    return false;
  }
  bool symmetric() const { // y (-) x = -(x (-) y)
    for (auto &q : l)
      if (q.k == Leaf::W)
        return false;
    return true;
  }
  template <class F> void each(F &&f) const {
    int a = 0, b = 0;
    for (auto &q : l) {
      f(q, a, b);
      a += q.nx();
      b += q.ndx();
    }
  }
  Vec neutral() const {
    Vec o(nx());
    each([&](const Leaf &q, int a, int) { o.segment(a, q.nx()) = q.neutral(); });
    return o;
  }
  Vec integrate(const Vec &x, const Vec &v) const {
    Vec o(nx());
    each([&](const Leaf &q, int a, int b) {
      o.segment(a, q.nx()) = q.integrate(x.segment(a, q.nx()), v.segment(b, q.ndx()));
    });
    return o;
  }
  Vec difference(const Vec &x, const Vec &y) const {
    Vec o(ndx());
    each([&](const Leaf &q, int a, int b) {
      o.segment(b, q.ndx()) = q.difference(x.segment(a, q.nx()), y.segment(a, q.nx()));
    });
    return o;
  }
  Vec interpolate(const Vec &x, const Vec &y, double u) const {
    Vec o(nx());
    each([&](const Leaf &q, int a, int) {
      Vec p = x.segment(a, q.nx()), r = y.segment(a, q.nx());
      o.segment(a, q.nx()) = q.integrate(p, u * q.difference(p, r));
    });
    return o;
  }
  Mat Jintegrate(const Vec &x, const Vec &v, int arg) const {
    Mat o = Mat::Zero(ndx(), ndx());
    each([&](const Leaf &q, int a, int b) {
      o.block(b, b, q.ndx(), q.ndx()) = q.Jintegrate(x.segment(a, q.nx()), v.segment(b, q.ndx()), arg);
    });
    return o;
  }
  Mat Jdifference(const Vec &x, const Vec &y, int arg) const {
    Mat o = Mat::Zero(ndx(), ndx());
    each([&](const Leaf &q, int a, int b) {
      o.block(b, b, q.ndx(), q.ndx()) = q.Jdifference(x.segment(a, q.nx()), y.segment(a, q.nx()), arg);
    });
    return o;
  }
  bool isNormalized(const Vec &x) const {
    bool r = true;
    each([&](const Leaf &q, int a, int) { r = r && q.isNormalized(x.segment(a, q.nx())); });
    return r;
  }
  Vec point(Src &s) const {
    Vec o(nx());
    each([&](const Leaf &q, int a, int) { o.segment(a, q.nx()) = q.point(s); });
    return o;
  }
  Vec tangent(Src &s) const {
    Vec o(ndx());
    each([&](const Leaf &q, int, int b) { o.segment(b, q.ndx()) = q.tangent(s); });
    return o;
  }
  void append(const Model &o) { l.insert(l.end(), o.l.begin(), o.l.end()); }
};

/// big: the largest dimension and number of factors of exceptional spaces
/// warped: with spaces whose derivatives depend on the point
inline PManifold gspace(Src &s, Model &m, int depth, int minn = 0, int maxn = 4, int big = 0, bool warped = false) {
  using namespace proxsuite::nlp;
  if (warped && s.below(5) == 0) {
    m.l.push_back({Leaf::W, 0});
    m.name += "W";
    return PManifold(WarpedM());
  }
  uint32_t k = depth > 0 ? s.below(7) : s.below(3);
  switch (k) {
  case 0: {
    int n = big ? s.tail(minn, maxn, big) : s.range(minn, maxn);
    if (n == 3 && s.flag()) {
      m.l.push_back({Leaf::R, 3});
      m.name += "R3f";
      return PManifold(VectorSpaceTpl<double, 3>());
    }
    m.l.push_back({Leaf::R, n});
    m.name += "R" + std::to_string(n);
    return PManifold(VS(n));
  }
  case 1:
    m.l.push_back({Leaf::SO2, 0});
    m.name += "SO2";
    return PManifold(SO2M());
  case 2:
    m.l.push_back({Leaf::SO3, 0});
    m.name += "SO3";
    return PManifold(SO3M());
  case 3:
  case 4: {
    int nc = big ? s.tail(1, 3, big / 2) : s.range(1, 3);
    CProd p;
    m.name += "(";
    for (int i = 0; i < nc; i++) {
      if (i)
        m.name += " x ";
      PManifold q = gspace(s, m, depth - 1, minn, maxn, nc > 3 ? 0 : big, warped);
      p.addComponent(q);
    }
    m.name += ")";
    return PManifold(p);
  }
  case 5: {
    int which = s.below(3);
    if (which == 0) {
      int n = big ? s.tail(minn, maxn, big) : s.range(minn, maxn);
      m.l.push_back({Leaf::R, n});
      m.l.push_back({Leaf::R, n});
      m.name += "T[R" + std::to_string(n) + "]";
      return PManifold(TangentBundleTpl<VS>(n));
    }
    if (which == 1) {
      m.l.push_back({Leaf::SO3, 0});
      m.l.push_back({Leaf::R, 3});
      m.name += "T[SO3]";
      return PManifold(TangentBundleTpl<SO3M>());
    }
    m.l.push_back({Leaf::SO3, 0});
    m.l.push_back({Leaf::R, 3});
    m.l.push_back({Leaf::R, 6});
    m.name += "T[T[SO3]]";
    return PManifold(TangentBundleTpl<TangentBundleTpl<SO3M>>());
  }
  default: {
    Model c;
    PManifold q = gspace(s, c, depth - 1, minn, maxn, big, warped);
    m.append(c);
    m.l.push_back({Leaf::R, c.ndx()});
    m.name += "T[" + c.name + "]";
    if (auto *cp = dynamic_cast<const CProd *>(&*q))
      return PManifold(TangentBundleTpl<CProd>(*cp));
    return PManifold(TangentBundleTpl<AnySpace>(AnySpace(q)));
  }
  }
}
} // namespace vp
