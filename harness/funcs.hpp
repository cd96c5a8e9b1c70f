// Smooth test functions with exact derivatives, shared by several harnesses.
#pragma once
#include "spaces.hpp"
#include <proxsuite-nlp/cost-function.hpp>
#include <proxsuite-nlp/cost-sum.hpp>
#include <proxsuite-nlp/function-base.hpp>
#include <proxsuite-nlp/function-ops.hpp>
#include <proxsuite-nlp/modelling/costs/quadratic-residual.hpp>
#include <proxsuite-nlp/modelling/costs/squared-distance.hpp>
#include <proxsuite-nlp/modelling/residuals/linear.hpp>
#include <proxsuite-nlp/modelling/residuals/state-residual.hpp>

namespace vp {
using Fn = nlp::C2FunctionTpl<double>;
using FnPtr = std::shared_ptr<Fn>;
using Cost = nlp::CostFunctionBaseTpl<double>;
using CostPtr = std::shared_ptr<Cost>;
using CostSum = nlp::CostSumTpl<double>;
using LinFn = nlp::LinearFunctionTpl<double>;
using DiffFn = nlp::ManifoldDifferenceToPoint<double>;
using LinDiffFn = nlp::LinearFunctionDifferenceToPoint<double>;
using QuadCost = nlp::QuadraticResidualCostTpl<double>;
using DistCost = nlp::QuadraticDistanceCostTpl<double>;

/// r_k(x) = c_k + b_k.x + 1/2 x.Q_k x + a_k sin(w_k.x)   on R^n
struct SmoothData {
  int n = 0, m = 0;
  std::vector<Mat> Q;
  Mat B, W;
  Vec c, a;
  Vec val(const Vec &x) const {
    Vec o = c + B * x;
    for (int k = 0; k < m; k++)
      o[k] += 0.5 * x.dot(Q[(size_t)k] * x) + a[k] * std::sin(W.row(k).dot(x));
    return o;
  }
  Mat jac(const Vec &x) const {
    Mat J = B;
    for (int k = 0; k < m; k++)
      J.row(k) += (Q[(size_t)k] * x).transpose() + a[k] * std::cos(W.row(k).dot(x)) * W.row(k);
    return J;
  }
  Mat hess(const Vec &x, int k) const {
    return Q[(size_t)k] - a[k] * std::sin(W.row(k).dot(x)) * W.row(k).transpose() * W.row(k);
  }
  Mat vhp(const Vec &x, const Vec &v) const {
    Mat H = Mat::Zero(n, n);
    for (int k = 0; k < m; k++)
      H += v[k] * hess(x, k);
    return H;
  }
};
inline SmoothData gsmooth(Src &s, int n, int m) {
  SmoothData d;
  d.n = n, d.m = m;
  bool quad = s.flag(), sine = s.flag();
  d.B = gmat(s, m, n);
  d.c = gvec(s, m);
  d.W = Mat::Zero(m, n);
  d.a = Vec::Zero(m);
  for (int k = 0; k < m; k++) {
    Mat q = Mat::Zero(n, n);
    if (quad) {
      q = gmat_seeded(s, n, n) / 4.;
      q = (q + q.transpose()).eval() / 2.;
    }
    d.Q.push_back(q);
  }
  if (sine) {
    d.W = gmat_seeded(s, m, n) / 4.;
    d.a = gvec(s, m);
  }
  return d;
}
struct SmoothFn : Fn {
  SmoothData d;
  mutable int ncall = 0, njac = 0, nvhp = 0;
  SmoothFn(const SmoothData &d) : Fn(d.n, d.n, d.m), d(d) {}
  VectorXs operator()(const ConstVectorRef &x) const override {
    ncall++;
    return d.val(x);
  }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    njac++;
    J = d.jac(x);
  }
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef H) const override {
    nvhp++;
    H = d.vhp(x, v);
  }
  using Fn::computeJacobian;
};
/// The same seen from a manifold:  g(x (-) x0)
struct SmoothOnManifold : Fn {
  SmoothData d;
  Model m;
  Vec x0;
  SmoothOnManifold(const SmoothData &d, const Model &m, const Vec &x0) : Fn(m.nx(), m.ndx(), d.m), d(d), m(m), x0(x0) {}
  VectorXs operator()(const ConstVectorRef &x) const override { return d.val(m.difference(x0, x)); }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    J = d.jac(m.difference(x0, x)) * m.Jdifference(x0, x, 1);
  }
  using Fn::computeJacobian;
};
struct SmoothCost : Cost {
  SmoothData d; // m == 1
  SmoothCost(const SmoothData &d) : Cost(d.n, d.n), d(d) {}
  double call(const ConstVectorRef &x) const override { return d.val(x)[0]; }
  void computeGradient(const ConstVectorRef &x, VectorRef o) const override { o = d.jac(x).row(0).transpose(); }
  void computeHessian(const ConstVectorRef &x, MatrixRef o) const override { o = d.hess(x, 0); }
  using Cost::computeGradient;
  using Cost::computeHessian;
};
} // namespace vp
