// Stand-in for the part of Pinocchio which the library's wrappers call (Pinocchio is not installed here): the groups
// SO(2), SO(3), SE(2), SE(3), R^n with Pinocchio's storage conventions and right-invariant derivatives, models which
// are sequences of such groups, SE3 transformations. Written from the definitions (matrix exponential, adjoint series).
#pragma once
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <cmath>
#include <vector>

namespace pinocchio {
enum ArgumentPosition { ARG0 = 0, ARG1 = 1, ARG2 = 2, ARG3 = 3, ARG4 = 4 };

namespace stub {
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using CV = Eigen::Ref<const V>;
/// Calls of the stub, so that a test can see which operation was delegated to.
inline long &calls() {
  static thread_local long n = 0;
  return n;
}
inline Eigen::Matrix3d hat(const Eigen::Vector3d &v) {
  Eigen::Matrix3d m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
/// One group: kind 0 = R^n, 1 = SO2, 2 = SO3, 3 = SE2, 4 = SE3.
struct Group {
  int kind = 0, n = 0;
  int nq() const { return kind == 0 ? n : kind == 1 ? 2 : kind == 3 ? 4 : kind == 2 ? 4 : 7; }
  int nv() const { return kind == 0 ? n : kind == 1 ? 1 : kind == 4 ? 6 : 3; }
  int dim() const { return kind == 1 || kind == 3 ? 2 : 3; }
  bool trans() const { return kind >= 3; }
  V neutral() const {
    V q = V::Zero(nq());
    if (kind == 1)
      q[0] = 1;
    if (kind == 3)
      q[2] = 1;
    if (kind == 2)
      q[3] = 1;
    if (kind == 4)
      q[6] = 1;
    return q;
  }
  V random() const {
    V q = V::Random(nq());
    if (kind)
      rot(q).normalize();
    return q;
  }
  Eigen::VectorBlock<V> rot(V &q) const { return q.tail(kind == 1 || kind == 3 ? 2 : 4); }
  bool isNormalized(const CV &q, double prec) const {
    if (kind == 0)
      return true;
    return std::fabs(q.tail(kind == 1 || kind == 3 ? 2 : 4).norm() - 1.) <= prec;
  }
  M rotation(const CV &q) const {
    if (dim() == 2) {
      double c = q[q.size() - 2], s = q[q.size() - 1];
      M r(2, 2);
      r << c, -s, s, c;
      return r;
    }
    long k = q.size() - 4;
    return Eigen::Quaterniond(q[k + 3], q[k], q[k + 1], q[k + 2]).toRotationMatrix();
  }
  /// ad of a tangent vector
  M ad(const V &v) const {
    M a = M::Zero(nv(), nv());
    if (kind == 2)
      a = hat(v);
    if (kind == 3) {
      a(0, 1) = -v[2], a(1, 0) = v[2];
      a(0, 2) = v[1], a(1, 2) = -v[0];
    }
    if (kind == 4) {
      a.topLeftCorner(3, 3) = hat(v.tail<3>());
      a.bottomRightCorner(3, 3) = hat(v.tail<3>());
      a.topRightCorner(3, 3) = hat(v.head<3>());
    }
    return a;
  }
  /// Adjoint of exp(-v)
  M adjExpNeg(const V &v) const {
    M a = -ad(v), t = M::Identity(nv(), nv()), r = t;
    for (int k = 1; k < 60; k++) {
      t = t * a / k;
      r += t;
    }
    return r;
  }
  /// right Jacobian of exp
  M Jr(const V &v) const {
    M a = -ad(v), t = M::Identity(nv(), nv()), r = t;
    for (int k = 1; k < 60; k++) {
      t = t * a / (k + 1);
      r += t;
    }
    return r;
  }
  /// V(w): the matrix which takes the linear part of a tangent vector to the translation of its exponential
  M Vmat(const V &w) const {
    M a = dim() == 2 ? M((M(2, 2) << 0, -w[0], w[0], 0).finished()) : M(hat(w.head<3>()));
    M t = M::Identity(dim(), dim()), r = t;
    for (int k = 1; k < 60; k++) {
      t = t * a / (k + 1);
      r += t;
    }
    return r;
  }
  V integrate(const CV &q, const CV &v) const {
    if (kind == 0)
      return q + v;
    V o(nq());
    if (dim() == 2) {
      double w = v[nv() - 1], c = q[nq() - 2], s = q[nq() - 1];
      o[nq() - 2] = c * std::cos(w) - s * std::sin(w);
      o[nq() - 1] = c * std::sin(w) + s * std::cos(w);
    } else {
      Eigen::Vector3d w = v.tail(3);
      double t = w.norm(), a = t < 1e-5 ? 0.5 - t * t / 48. : std::sin(t / 2) / t;
      long k = nq() - 4;
      Eigen::Quaterniond r = Eigen::Quaterniond(q[k + 3], q[k], q[k + 1], q[k + 2]) *
                             Eigen::Quaterniond(std::cos(t / 2), a * w[0], a * w[1], a * w[2]);
      r.normalize();
      o.tail(4) << r.x(), r.y(), r.z(), r.w();
    }
    if (trans())
      o.head(dim()) = q.head(dim()) + rotation(q) * (Vmat(v.tail(nv() - dim())) * v.head(dim()));
    return o;
  }
  V difference(const CV &a, const CV &b) const {
    if (kind == 0)
      return b - a;
    V o(nv());
    if (dim() == 2) {
      double c0 = a[nq() - 2], s0 = a[nq() - 1], c1 = b[nq() - 2], s1 = b[nq() - 1];
      o[nv() - 1] = std::atan2(c0 * s1 - s0 * c1, c0 * c1 + s0 * s1);
    } else {
      long k = nq() - 4;
      Eigen::Quaterniond r = Eigen::Quaterniond(a[k + 3], a[k], a[k + 1], a[k + 2]).conjugate() *
                             Eigen::Quaterniond(b[k + 3], b[k], b[k + 1], b[k + 2]);
      if (r.w() < 0)
        r.coeffs() *= -1;
      double s = r.vec().norm(), t = 2 * std::atan2(s, r.w());
      o.tail(3) = (s < 1e-5 ? 2. / r.w() * (1 - s * s / (3 * r.w() * r.w())) : t / s) * r.vec();
    }
    if (trans())
      o.head(dim()) = Vmat(o.tail(nv() - dim())).inverse() * (rotation(a).transpose() * (b.head(dim()) - a.head(dim())));
    return o;
  }
  M dIntegrate(const CV &, const CV &v, int arg) const {
    if (kind < 2)
      return M::Identity(nv(), nv());
    return arg == 0 ? adjExpNeg(v) : Jr(v);
  }
  M dDifference(const CV &a, const CV &b, int arg) const {
    if (kind < 2)
      return (arg == 0 ? -1. : 1.) * M::Identity(nv(), nv());
    V d = difference(a, b);
    M ji = Jr(d).inverse();
    return arg == 1 ? ji : M(-ji * adjExpNeg(d));
  }
};
template <class D> auto &out(const Eigen::MatrixBase<D> &m) {
  calls()++;
  return const_cast<D &>(m.derived());
}
} // namespace stub

template <class Derived> struct LieGroupBase {};

/// CRTP over Pinocchio's operation interface
template <class Derived, int Kind, typename _Scalar> struct GroupOperation : LieGroupBase<Derived> {
  using Scalar = _Scalar;
  static constexpr int Options = 0;
  stub::Group g{Kind, 0};
  using V = stub::V;
  using CV = stub::CV;
  int nq() const { return g.nq(); }
  int nv() const { return g.nv(); }
  V neutral() const { return g.neutral(); }
  V random() const { return g.random(); }
  bool isNormalized(const CV &q, const Scalar &prec = 1e-6) const { return g.isNormalized(q, prec); }
  template <class O> void integrate(const CV &q, const CV &v, const Eigen::MatrixBase<O> &o) const { stub::out(o) = g.integrate(q, v); }
  template <class O> void difference(const CV &a, const CV &b, const Eigen::MatrixBase<O> &o) const { stub::out(o) = g.difference(a, b); }
  template <class O> void dIntegrate_dq(const CV &q, const CV &v, const Eigen::MatrixBase<O> &o) const { stub::out(o) = g.dIntegrate(q, v, 0); }
  template <class O> void dIntegrate_dv(const CV &q, const CV &v, const Eigen::MatrixBase<O> &o) const { stub::out(o) = g.dIntegrate(q, v, 1); }
  template <class O> void dIntegrate(const CV &q, const CV &v, const Eigen::MatrixBase<O> &o, ArgumentPosition arg) const {
    stub::out(o) = g.dIntegrate(q, v, arg);
  }
  template <class O> void dDifference(const CV &a, const CV &b, const Eigen::MatrixBase<O> &o, ArgumentPosition arg) const {
    stub::out(o) = g.dDifference(a, b, arg);
  }
  template <ArgumentPosition A, class O> void dDifference(const CV &a, const CV &b, const Eigen::MatrixBase<O> &o) const {
    stub::out(o) = g.dDifference(a, b, A);
  }
  template <class O> void dIntegrateTransport(const CV &q, const CV &v, const Eigen::MatrixBase<O> &o, ArgumentPosition arg) const {
    stub::M r = g.dIntegrate(q, v, arg) * stub::M(o);
    stub::out(o) = r;
  }
  template <class O> void interpolate(const CV &a, const CV &b, const Scalar &u, const Eigen::MatrixBase<O> &o) const {
    V r = u == 0 ? V(a) : u == 1 ? V(b) : g.integrate(a, V(u * g.difference(a, b)));
    stub::out(o) = r;
  }
};
template <int D, typename Scalar, int Options = 0>
struct SpecialOrthogonalOperationTpl : GroupOperation<SpecialOrthogonalOperationTpl<D, Scalar, Options>, D == 2 ? 1 : 2, Scalar> {};
template <int D, typename Scalar, int Options = 0>
struct SpecialEuclideanOperationTpl : GroupOperation<SpecialEuclideanOperationTpl<D, Scalar, Options>, D == 2 ? 3 : 4, Scalar> {};
template <int N, typename Scalar, int Options = 0>
struct VectorSpaceOperationTpl : GroupOperation<VectorSpaceOperationTpl<N, Scalar, Options>, 0, Scalar> {
  VectorSpaceOperationTpl(int n = N < 0 ? 0 : N) { this->g.n = n; }
};

/// A model is a sequence of joints.
template <typename _Scalar, int _Options = 0> struct ModelTpl {
  using Scalar = _Scalar;
  int nq = 0, nv = 0;
  std::vector<stub::Group> joints;
  int tag = 0;
  void add(const stub::Group &g) {
    joints.push_back(g);
    nq += g.nq();
    nv += g.nv();
  }
  template <class F> void each(F &&f) const {
    int a = 0, b = 0;
    for (auto &j : joints) {
      f(j, a, b);
      a += j.nq();
      b += j.nv();
    }
  }
};
using Model = ModelTpl<double>;
#define PIN_T template <typename S, int O, class R>
template <typename S, int O> stub::V neutral(const ModelTpl<S, O> &m) {
  stub::V r(m.nq);
  m.each([&](const stub::Group &g, int a, int) { r.segment(a, g.nq()) = g.neutral(); });
  return r;
}
template <typename S, int O> stub::V randomConfiguration(const ModelTpl<S, O> &m) {
  stub::V r(m.nq);
  m.each([&](const stub::Group &g, int a, int) { r.segment(a, g.nq()) = g.random(); });
  return r;
}
template <typename S, int O> bool isNormalized(const ModelTpl<S, O> &m, const stub::CV &q, const S &prec = 1e-6) {
  bool ok = true;
  m.each([&](const stub::Group &g, int a, int) { ok = ok && g.isNormalized(q.segment(a, g.nq()), prec); });
  return ok;
}
PIN_T void integrate(const ModelTpl<S, O> &m, const stub::CV &q, const stub::CV &v, const Eigen::MatrixBase<R> &o) {
  stub::V r(m.nq);
  m.each([&](const stub::Group &g, int a, int b) { r.segment(a, g.nq()) = g.integrate(q.segment(a, g.nq()), v.segment(b, g.nv())); });
  stub::out(o) = r;
}
PIN_T void difference(const ModelTpl<S, O> &m, const stub::CV &p, const stub::CV &q, const Eigen::MatrixBase<R> &o) {
  stub::V r(m.nv);
  m.each([&](const stub::Group &g, int a, int b) { r.segment(b, g.nv()) = g.difference(p.segment(a, g.nq()), q.segment(a, g.nq())); });
  stub::out(o) = r;
}
PIN_T void interpolate(const ModelTpl<S, O> &m, const stub::CV &p, const stub::CV &q, const S &u, const Eigen::MatrixBase<R> &o) {
  stub::V r(m.nq);
  m.each([&](const stub::Group &g, int a, int) {
    stub::V x = p.segment(a, g.nq()), y = q.segment(a, g.nq());
    r.segment(a, g.nq()) = g.integrate(x, stub::V(u * g.difference(x, y)));
  });
  stub::out(o) = r;
}
PIN_T void dIntegrate(const ModelTpl<S, O> &m, const stub::CV &q, const stub::CV &v, const Eigen::MatrixBase<R> &o, ArgumentPosition arg) {
  stub::M r = stub::M::Zero(m.nv, m.nv);
  m.each([&](const stub::Group &g, int a, int b) {
    r.block(b, b, g.nv(), g.nv()) = g.dIntegrate(q.segment(a, g.nq()), v.segment(b, g.nv()), arg);
  });
  stub::out(o) = r;
}
PIN_T void dDifference(const ModelTpl<S, O> &m, const stub::CV &p, const stub::CV &q, const Eigen::MatrixBase<R> &o, ArgumentPosition arg) {
  stub::M r = stub::M::Zero(m.nv, m.nv);
  m.each([&](const stub::Group &g, int a, int b) {
    r.block(b, b, g.nv(), g.nv()) = g.dDifference(p.segment(a, g.nq()), q.segment(a, g.nq()), arg);
  });
  stub::out(o) = r;
}
PIN_T void dIntegrateTransport(const ModelTpl<S, O> &m, const stub::CV &q, const stub::CV &v, const Eigen::MatrixBase<R> &o,
                               ArgumentPosition arg) {
  stub::M r = o;
  m.each([&](const stub::Group &g, int a, int b) {
    r.middleRows(b, g.nv()) = g.dIntegrate(q.segment(a, g.nq()), v.segment(b, g.nv()), arg) * stub::M(o.middleRows(b, g.nv()));
  });
  stub::out(o) = r;
}
#undef PIN_T

template <typename Scalar, int Options = 0> struct SE3Tpl {
  using Vector3 = Eigen::Matrix<Scalar, 3, 1>;
  using Matrix3 = Eigen::Matrix<Scalar, 3, 3>;
  using Quaternion = Eigen::Quaternion<Scalar>;
  Matrix3 R;
  Vector3 p;
  template <class Q, class T> SE3Tpl(const Eigen::QuaternionBase<Q> &q, const Eigen::MatrixBase<T> &t) : R(q.matrix()), p(t) {}
  template <class T> Vector3 actOnEigenObject(const Eigen::MatrixBase<T> &v) const { return R * v + p; }
  template <class T> Vector3 act(const Eigen::MatrixBase<T> &v) const { return R * v + p; }
  template <class T> Vector3 actInv(const Eigen::MatrixBase<T> &v) const { return R.transpose() * (v - p); }
  const Matrix3 &rotation() const { return R; }
  const Vector3 &translation() const { return p; }
};
template <class T> Eigen::Matrix<typename T::Scalar, 3, 3> skew(const Eigen::MatrixBase<T> &v) {
  Eigen::Matrix<typename T::Scalar, 3, 3> m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
} // namespace pinocchio
