// Numerical helpers shared by the harnesses.
#pragma once
#include "pbt.hpp"
#include <Eigen/Cholesky>
#include <Eigen/Core>
#include <Eigen/Eigenvalues>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/QR>
#include <Eigen/SVD>

namespace vp {
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using IVec = Eigen::VectorXi;

inline double nrm(const Mat &a) { return a.size() ? a.cwiseAbs().maxCoeff() : 0.; }
inline bool finite(const Mat &a) { return a.allFinite(); }

inline Vec gvec(Src &s, int n) {
  Vec v(n);
  for (int i = 0; i < n; i++)
    v[i] = s.num();
  return v;
}
inline Mat gmat(Src &s, int r, int c) {
  Mat m(r, c);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++)
      m(i, j) = s.num();
  return m;
}
/// Entries expanded from one choice (for large matrices). Seed 0: all entries 1.
inline Mat gmat_seeded(Src &s, int r, int c) {
  uint64_t seed = s.word();
  Mat m(r, c);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++)
      m(i, j) = seed ? ((double)(splitmix(seed) >> 11) / 9007199254740992. - 0.5) * 4. : 1.;
  return m;
}
/// Random orthogonal matrix (Householder QR of a seeded matrix).
inline Mat gorth(Src &s, int n) {
  Mat m = gmat_seeded(s, n, n);
  if (n == 0)
    return m;
  Eigen::HouseholderQR<Mat> qr(m);
  Mat q = qr.householderQ() * Mat::Identity(n, n);
  return q;
}
/// Symmetric matrix with eigenvalues in [lo,hi]
inline Mat gspd(Src &s, int n, double lo, double hi) {
  Mat q = gorth(s, n);
  Vec d(n);
  for (int i = 0; i < n; i++)
    d[i] = s.logreal(lo, hi);
  Mat a = q * d.asDiagonal() * q.transpose();
  return 0.5 * (a + a.transpose());
}
template <class M> std::string show(const M &m, int maxn = 12) {
  std::ostringstream o;
  o.precision(9);
  if (m.rows() <= maxn && m.cols() <= maxn) {
    o << "[" << m.rows() << "x" << m.cols() << "] ";
    for (int i = 0; i < m.rows(); i++) {
      for (int j = 0; j < m.cols(); j++)
        o << m(i, j) << (j + 1 < m.cols() ? " " : "");
      o << (i + 1 < m.rows() ? " ; " : "");
    }
  } else
    o << "[" << m.rows() << "x" << m.cols() << "]";
  return o.str();
}
inline void mclose(Ctx &c, const Mat &a, const Mat &b, double tol, const std::string &m) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    std::ostringstream o;
    o << m << ": sizes differ, " << a.rows() << "x" << a.cols() << " vs " << b.rows() << "x"
      << b.cols();
    throw Violation(o.str());
  }
  for (int j = 0; j < a.cols(); j++)
    for (int i = 0; i < a.rows(); i++) {
      double x = a(i, j), y = b(i, j);
      if (x == y)
        continue; // covers equal infinities
      if (!(std::fabs(x - y) <= tol)) {
        std::ostringstream o;
        o.precision(17);
        o << m << ": entry (" << i << "," << j << ") " << x << " vs " << y << " (tolerance " << tol
          << ")";
        throw Violation(o.str());
      }
    }
}
/// Richardson-extrapolated central difference of a map t -> Mat at t = 0.
template <class F> Mat fd_dir(F &&f, double h = 1e-3) {
  Mat d1 = (f(h) - f(-h)) / (2 * h);
  Mat d2 = (f(h / 2) - f(-h / 2)) / h;
  return (4. * d2 - d1) / 3.;
}
} // namespace vp
