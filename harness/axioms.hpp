// Operations with guarded outputs and the manifold axioms, for any reference model of points and tangents.
#pragma once
#include "spaces.hpp"

namespace vp {
/// Output argument which is part of a larger, garbage-filled object.
struct OutVec {
  Vec store;
  int n;
  OutVec(int n) : store(Vec::Constant(n + 4, 7.25)), n(n) {}
  VRef ref() { return store.segment(2, n); }
  Vec get(Ctx &c, const std::string &who) {
    c.require((store.head(2).array() == 7.25).all() && (store.tail(2).array() == 7.25).all(),
              who + " wrote outside of its output");
    return store.segment(2, n);
  }
};
struct OutMat {
  Mat store;
  int r, k;
  OutMat(int r, int k) : store(Mat::Constant(r + 3, k + 3, -3.5)), r(r), k(k) {}
  MRef ref() { return store.block(1, 2, r, k); }
  Mat get(Ctx &c, const std::string &who) {
    Mat o = store.block(1, 2, r, k);
    store.block(1, 2, r, k).setConstant(-3.5);
    c.require((store.array() == -3.5).all(), who + " wrote outside of its output");
    return o;
  }
};

inline Vec Xint(Ctx &c, const Manifold &M, const Vec &x, const Vec &v) {
  OutVec o(M.nx());
  M.integrate(x, v, o.ref());
  Vec r = o.get(c, "integrate"), r2 = M.integrate(x, v);
  mclose(c, r, r2, 0., "integrate: in-place and allocating overloads");
  return r;
}
inline Vec Xdiff(Ctx &c, const Manifold &M, const Vec &x, const Vec &y) {
  OutVec o(M.ndx());
  M.difference(x, y, o.ref());
  Vec r = o.get(c, "difference"), r2 = M.difference(x, y);
  mclose(c, r, r2, 0., "difference: in-place and allocating overloads");
  return r;
}
inline Vec Xinterp(Ctx &c, const Manifold &M, const Vec &x, const Vec &y, double u) {
  OutVec o(M.nx());
  M.interpolate(x, y, u, o.ref());
  Vec r = o.get(c, "interpolate"), r2 = M.interpolate(x, y, u);
  mclose(c, r, r2, 0., "interpolate: in-place and allocating overloads");
  return r;
}
inline Mat XJint(Ctx &c, const Manifold &M, const Vec &x, const Vec &v, int arg) {
  OutMat o(M.ndx(), M.ndx());
  M.Jintegrate(x, v, o.ref(), arg);
  return o.get(c, "Jintegrate");
}
inline Mat XJdiff(Ctx &c, const Manifold &M, const Vec &x, const Vec &y, int arg) {
  OutMat o(M.ndx(), M.ndx());
  M.Jdifference(x, y, o.ref(), arg);
  return o.get(c, "Jdifference");
}

inline bool symmetric(const Model &m) { return m.symmetric(); }
template <class M_> bool symmetric(const M_ &) { return true; }

template <class M_> void axioms(Src &s, Ctx &c, const Manifold &M, const M_ &m) {
  const int nx = M.nx(), nv = M.ndx();
  c.note("space", m.name);
  c.require(nx == m.nx() && nv == m.ndx(), "dimensions of the space");
  Vec x = m.point(s), v = m.tangent(s), d = m.tangent(s);
  if (s.chance(1, 4)) // points which are close to each other
    v *= std::pow(10., -s.range(1, 10));
  c.note("x", show(x.transpose()));
  c.note("v", show(v.transpose()));
  const double tol = 1e-9 * (1 + nrm(x) + nrm(v));
  const Vec zero = Vec::Zero(nv);
  // integrate / difference
  Vec y = Xint(c, M, x, v);
  c.require(M.isNormalized(y), "x (+) v left the manifold");
  mclose(c, Xdiff(c, M, x, y), v, tol, "(x (+) v) (-) x = v");
  mclose(c, Xint(c, M, x, zero), x, tol, "x (+) 0 = x");
  mclose(c, Xdiff(c, M, x, x), zero, tol, "x (-) x = 0");
  mclose(c, M.difference(y, M.integrate(x, Xdiff(c, M, x, y))), zero, tol, "x (+) (y (-) x) = y");
  if (symmetric(m))
    mclose(c, Xdiff(c, M, y, x), -Xdiff(c, M, x, y), tol, "difference is antisymmetric");
  // interpolation
  double u = s.chance(1, 3) ? (s.flag() ? 1. : 0.) : s.real(-0.2, 1.2);
  Vec z = Xinterp(c, M, x, y, u);
  mclose(c, M.difference(x, z), u * M.difference(x, y), 3 * tol, "interpolate(x,y,u) (-) x = u (y (-) x)");
  // Jacobians
  Mat J0 = XJint(c, M, x, v, 0), J1 = XJint(c, M, x, v, 1);
  auto fi0 = [&](double t) { return Mat(M.difference(y, M.integrate(M.integrate(x, t * d), v))); };
  auto fi1 = [&](double t) { return Mat(M.difference(y, M.integrate(x, v + t * d))); };
  const double ft = 1e-7 * (1 + nrm(x) + nrm(v)) * (1 + nrm(d));
  if (nv) {
    mclose(c, J0 * d, fd_dir(fi0, 1e-2), ft, "Jintegrate with respect to the point");
    mclose(c, J1 * d, fd_dir(fi1, 1e-2), ft, "Jintegrate with respect to the velocity");
  }
  Mat D0 = XJdiff(c, M, x, y, 0), D1 = XJdiff(c, M, x, y, 1);
  auto fd0 = [&](double t) { return Mat(M.difference(M.integrate(x, t * d), y)); };
  auto fd1 = [&](double t) { return Mat(M.difference(x, M.integrate(y, t * d))); };
  if (nv) {
    mclose(c, D0 * d, fd_dir(fd0, 1e-2), 3 * ft, "Jdifference with respect to the first point");
    mclose(c, D1 * d, fd_dir(fd1, 1e-2), 3 * ft, "Jdifference with respect to the second point");
    // derivatives of (x (+) v) (-) x = v
    const double at = 1e-11 * (1 + nrm(x) + nrm(v)) * (1 + nrm(D0) + nrm(D1)) * (1 + nrm(J0) + nrm(J1));
    mclose(c, D1 * J1, Mat::Identity(nv, nv), at, "Jdifference(1) inverts Jintegrate(1)");
    mclose(c, D1 * J0, -D0, at, "Jdifference(0) is -Jdifference(1) Jintegrate(0)");
  }
  // transport = multiplication by the Jacobian
  int k = s.range(1, 3);
  Mat A = gmat(s, nv, k);
  for (int arg = 0; arg < 2; arg++) {
    OutMat o(nv, k);
    o.ref() = A;
    M.JintegrateTransport(x, v, o.ref(), arg);
    mclose(c, o.get(c, "JintegrateTransport"), (arg ? J1 : J0) * A, tol * (1 + nrm(A)),
           "JintegrateTransport is not multiplication by the Jacobian");
  }
  // neutral, random points, tangent space
  Vec e = M.neutral();
  c.require(e.size() == nx && e.allFinite() && M.isNormalized(e), "neutral element is not on the manifold");
  srand(s.word());
  Vec r = M.rand();
  c.require(r.size() == nx && r.allFinite() && M.isNormalized(r), "random point is not on the manifold");
  mclose(c, M.difference(r, M.integrate(r, zero)), zero, 1e-9, "random point (+) 0");
  auto T = M.tangentSpace();
  c.require(T.nx() == nv && T.ndx() == nv, "tangent space has the wrong dimension");
  if (nv)
    c.nontrivial();
}
} // namespace vp
