// C28: the templates with other floating-point scalars (float, long double).
//
// Inputs are quotients by three, which no narrower type represents, and the
// references are evaluated in long double from the same inputs: a value that
// passes through a narrower type, or a constant of one, is off by far more
// than the rounding errors which are allowed for the scalar.
#include "num.hpp"
#include <proxsuite-nlp/prox-solver.hpp>
#include <proxsuite-nlp/cost-sum.hpp>
#include <proxsuite-nlp/function-ops.hpp>
#include <proxsuite-nlp/helpers/history-callback.hpp>
#include <proxsuite-nlp/modelling/autodiff/finite-difference.hpp>
#include <proxsuite-nlp/modelling/constraints.hpp>
#include <proxsuite-nlp/modelling/constraints/constraint-set-product.hpp>
#include <proxsuite-nlp/modelling/costs/quadratic-residual.hpp>
#include <proxsuite-nlp/modelling/costs/squared-distance.hpp>
#include <proxsuite-nlp/modelling/residuals/linear.hpp>
#include <proxsuite-nlp/modelling/residuals/state-residual.hpp>
#include <proxsuite-nlp/modelling/spaces/cartesian-product.hpp>
#include <proxsuite-nlp/modelling/spaces/tangent-bundle.hpp>
#include <proxsuite-nlp/modelling/spaces/vector-space.hpp>

using namespace vp;
namespace nlp = proxsuite::nlp;
using R = long double; // of the references
using RV = Eigen::Matrix<R, Eigen::Dynamic, 1>;
using RM = Eigen::Matrix<R, Eigen::Dynamic, Eigen::Dynamic>;
template <class S> using V = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <class S> using M = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <class S> R eps() { return (R)std::numeric_limits<S>::epsilon(); }

template <class S> S gnum(Src &s) { return S(s.num()) / S(3); }
template <class S> V<S> gv(Src &s, int n) {
  V<S> v(n);
  for (int i = 0; i < n; i++)
    v[i] = gnum<S>(s);
  return v;
}
template <class S> M<S> gm(Src &s, int r, int c) {
  M<S> m(r, c);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++)
      m(i, j) = gnum<S>(s);
  return m;
}
template <class S> S glog(Src &s, double a, double b) { return S(s.logreal(a, b)) / S(3) * S(3.1L); }

/// |got - ref| <= k eps(S) (1 + scale)
template <class S> void near(Ctx &c, S got, R ref, R scale, const std::string &what, R k = 64) {
  R tol = k * eps<S>() * (1 + scale);
  if (!(fabsl((R)got - ref) <= tol)) {
    std::ostringstream o;
    o.precision(21);
    o << what << ": " << (R)got << " vs " << ref << " (tolerance " << tol << ")";
    c.fail(o.str());
  }
}
template <class S, class G, class RR>
void mnear(Ctx &c, const G &got, const RR &ref, R scale, const std::string &what, R k = 64) {
  c.require(got.rows() == ref.rows() && got.cols() == ref.cols(), what + ": sizes differ");
  for (int j = 0; j < got.cols(); j++)
    for (int i = 0; i < got.rows(); i++)
      near<S>(c, (S)got(i, j), (R)ref(i, j), scale, what, k);
}
template <class D> R nm(const Eigen::MatrixBase<D> &a) {
  R r = 0;
  for (int j = 0; j < a.cols(); j++)
    for (int i = 0; i < a.rows(); i++)
      r = std::max(r, fabsl((R)a(i, j)));
  return r;
}

// ---------------------------------------------------------------- functions
/// f(x) = A x + b + w |x|^2, element-wise derivatives known
template <class S> struct Quad : nlp::C2FunctionTpl<S> {
  using Base = nlp::C2FunctionTpl<S>;
  PROXSUITE_NLP_DYNAMIC_TYPEDEFS(S);
  M<S> A;
  V<S> b, w;
  Quad(const M<S> &A, const V<S> &b, const V<S> &w)
      : Base((int)A.cols(), (int)A.cols(), (int)A.rows()), A(A), b(b), w(w) {}
  VectorXs operator()(const ConstVectorRef &x) const override { return A * x + b + w * x.squaredNorm(); }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    J = A + S(2) * w * x.transpose();
  }
  void vectorHessianProduct(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef H) const override {
    H.setIdentity();
    H *= S(2) * w.dot(v);
  }
};

template <class S> void functions(Src &s, Ctx &c) {
  using Fn = nlp::C2FunctionTpl<S>;
  using Cost = nlp::CostFunctionBaseTpl<S>;
  int n = s.tail(1, 5, 12), m = s.tail(1, 4, 10);
  M<S> A = gm<S>(s, m, n);
  V<S> b = gv<S>(s, m), w = gv<S>(s, m), x = gv<S>(s, n);
  bool lin = s.flag();
  if (lin)
    w.setZero();
  std::shared_ptr<Fn> f;
  if (lin)
    f = std::make_shared<nlp::LinearFunctionTpl<S>>(A, b);
  else
    f = std::make_shared<Quad<S>>(A, b, w);
  // reference
  RM Ar = A.template cast<R>();
  RV br = b.template cast<R>(), wr = w.template cast<R>(), xr = x.template cast<R>();
  RV fr = Ar * xr + br + wr * xr.squaredNorm();
  RM Jr = Ar + 2 * wr * xr.transpose();
  R sx = 1 + nm(x), sc = n * (nm(A) * sx + nm(w) * sx * sx) + nm(b) + 1;
  mnear<S>(c, (*f)(x), fr, sc, "value");
  {
    M<S> J(m, n);
    J.setConstant(S(7));
    f->computeJacobian(x, J);
    mnear<S>(c, J, Jr, sc, "Jacobian");
  }
  // composition with a linear function
  {
    int p = s.range(1, 3);
    M<S> B = gm<S>(s, p, m);
    V<S> d = gv<S>(s, p);
    std::shared_ptr<Fn> g = std::make_shared<nlp::LinearFunctionTpl<S>>(B, d);
    auto h = nlp::compose<S>(g, f);
    RV hr = B.template cast<R>() * fr + d.template cast<R>();
    mnear<S>(c, (*h)(x), hr, m * nm(B) * sc + nm(d), "composition");
    M<S> J(p, n);
    J.setZero();
    h->computeJacobian(x, J);
    RM hJ = B.template cast<R>() * Jr;
    mnear<S>(c, J, hJ, m * nm(B) * sc, "Jacobian of a composition");
  }
  // quadratic cost 1/2 f'Wf + r'f + k
  M<S> W0 = gm<S>(s, m, m), W = W0 * W0.transpose();
  V<S> r = gv<S>(s, m);
  S k = gnum<S>(s);
  RM Wr = W.template cast<R>();
  RV rr = r.template cast<R>();
  R scw = (1 + m * nm(W)) * sc * sc * m + m * nm(r) * sc + fabsl((R)k);
  auto q = std::make_shared<nlp::QuadraticResidualCostTpl<S>>(f, W, r, k);
  q->gauss_newton_ = s.flag();
  R qr = fr.dot(Wr * fr) / 2 + rr.dot(fr) + (R)k;
  RV gr = Jr.transpose() * (Wr * fr + rr);
  // second derivatives of the residual, exact for linear ones
  RM Hr = Jr.transpose() * Wr * Jr;
  if (!lin)
    Hr += 2 * wr.dot(Wr * fr + rr) * RM::Identity(n, n);
  {
    near<S>(c, q->call(x), qr, scw, "quadratic cost");
    V<S> g(n);
    M<S> H(n, n);
    g.setConstant(S(3));
    H.setZero();
    q->computeGradient(x, g);
    q->computeHessian(x, H);
    mnear<S>(c, g, gr, scw, "gradient of a quadratic cost");
    RM HG = Jr.transpose() * Wr * Jr;
    // Gauss-Newton or exact, as the object says
    mnear<S>(c, H, q->gauss_newton_ ? HG : Hr, scw, "Hessian of a quadratic cost");
  }
  // squared distance and a weighted sum of both
  nlp::VectorSpaceTpl<S> vs(n);
  xyz::polymorphic<nlp::ManifoldAbstractTpl<S>> space(vs);
  V<S> tgt = gv<S>(s, n);
  M<S> D0 = gm<S>(s, n, n), D = D0 + D0.transpose();
  auto dist = std::make_shared<nlp::QuadraticDistanceCostTpl<S>>(space, tgt, D);
  RV e = xr - tgt.template cast<R>();
  RM Dr = D.template cast<R>();
  R dr = e.dot(Dr * e) / 2;
  R scd = n * n * (nm(D) + 1) * (sx + nm(tgt)) * (sx + nm(tgt));
  {
    near<S>(c, dist->call(x), dr, scd, "squared distance");
    V<S> g(n);
    g.setZero();
    dist->computeGradient(x, g);
    mnear<S>(c, g, (Dr * e).eval(), scd, "gradient of a squared distance");
    nlp::ManifoldDifferenceToPoint<S> diff(space, tgt);
    mnear<S>(c, diff(x), e, sx + nm(tgt), "difference to a point");
  }
  {
    S a1 = gnum<S>(s), a2 = gnum<S>(s), a3 = gnum<S>(s);
    std::shared_ptr<Cost> c1 = q, c2 = dist;
    nlp::CostSumTpl<S> sum(n, n);
    sum.addComponent(c1, a1);
    sum.addComponent(c2, a2);
    sum *= a3;
    R tot = fabsl((R)a3) * (fabsl((R)a1) * scw + fabsl((R)a2) * scd);
    R ref = (R)a3 * ((R)a1 * qr + (R)a2 * dr);
    near<S>(c, sum.call(x), ref, tot, "sum of costs");
    V<S> g(n);
    g.setConstant(S(5));
    sum.computeGradient(x, g);
    RV gref = (R)a3 * ((R)a1 * gr + (R)a2 * (Dr * e));
    mnear<S>(c, g, gref, tot, "gradient of a sum of costs");
    M<S> H(n, n);
    H.setConstant(S(5));
    sum.computeHessian(x, H);
    RM HG = q->gauss_newton_ ? (Jr.transpose() * Wr * Jr).eval() : Hr;
    RM Href = (R)a3 * ((R)a1 * HG + (R)a2 * Dr);
    mnear<S>(c, H, Href, tot, "Hessian of a sum of costs");
  }
  // central differences are exact for quadratic functions up to rounding
  {
    S h = S(1) / S(3);
    nlp::autodiff::finite_difference_wrapper<S, nlp::autodiff::TOC1> fd(vs, *f, h);
    M<S> J(m, n);
    J.setZero();
    fd.computeJacobian(x, J);
    mnear<S>(c, J, Jr, 10 * sc, "differences of a quadratic function");
  }
  if (!lin || n > 1)
    c.nontrivial();
  c.label(std::is_same<S, float>::value ? "float" : "long double");
}

// --------------------------------------------------------------------- sets
template <class S> void sets(Src &s, Ctx &c) {
  using Set = nlp::ConstraintSetTpl<S>;
  using PS = xyz::polymorphic<Set>;
  int nb = s.range(1, 3);
  bool product = nb > 1 || s.flag();
  std::vector<PS> comps;
  std::vector<Eigen::Index> sizes;
  std::vector<int> kinds;
  std::vector<V<S>> lo, up;
  for (int i = 0; i < nb; i++) {
    int k = s.range(0, 3), n = s.tail(1, 4, 12);
    kinds.push_back(k);
    sizes.push_back(n);
    V<S> l = gv<S>(s, n), u = l;
    for (int j = 0; j < n; j++)
      u[j] += std::abs(gnum<S>(s));
    lo.push_back(l);
    up.push_back(u);
    if (k == 0)
      comps.push_back(PS(nlp::EqualityConstraintTpl<S>()));
    else if (k == 1)
      comps.push_back(PS(nlp::NegativeOrthantTpl<S>()));
    else if (k == 2)
      comps.push_back(PS(nlp::BoxConstraintTpl<S>(l, u)));
    else
      comps.push_back(PS(nlp::NonsmoothPenaltyL1Tpl<S>()));
  }
  PS set = product ? PS(nlp::ConstraintSetProductTpl<S>(comps, sizes)) : comps[0];
  S mu = glog<S>(s, 1e-3, 10.);
  set->setProxParameter(mu);
  int n = 0;
  for (auto k : sizes)
    n += (int)k;
  V<S> z = gv<S>(s, n), p(n), nc(n);
  RV ref(n);
  Eigen::VectorXi act(n); // 1: the projection is constant there
  R pen = 0;
  for (int b = 0, o = 0; b < nb; o += (int)sizes[b], b++)
    for (int j = 0; j < sizes[b]; j++) {
      R v = z[o + j], q = 0;
      int a = 1;
      if (kinds[b] == 1) {
        q = std::min(v, (R)0);
        a = v > 0 ? 1 : 0;
      } else if (kinds[b] == 2) {
        R l = lo[b][j], u = up[b][j];
        q = std::max(std::min(v, u), l);
        a = v > u || v < l;
      } else if (kinds[b] == 3) {
        R t = fabsl(v) - (R)mu;
        q = t > 0 ? (v > 0 ? t : -t) : 0;
        a = t <= 0;
        pen += fabsl(q);
      }
      ref[o + j] = q;
      act[o + j] = a;
    }
  RV zr = z.template cast<R>();
  R sc = nm(z) + (R)mu;
  p.setConstant(S(9));
  nc.setConstant(S(9));
  set->projection(z, p);
  set->normalConeProjection(z, nc);
  mnear<S>(c, p, ref, sc, "projection", 8);
  mnear<S>(c, nc, (zr - ref).eval(), sc, "normal cone projection", 8);
  R env = pen + (zr - ref).squaredNorm() / (2 * (R)mu);
  V<S> buf(n);
  near<S>(c, set->computeMoreauEnvelope(z, buf), env, env + n * sc * sc / (R)mu, "Moreau envelope");
  near<S>(c, set->mu() * set->mu_inv(), 1, 1, "proximal parameter times its inverse", 4);
  M<S> J0 = gm<S>(s, n, 3), J1 = J0, J2 = J0;
  set->applyProjectionJacobian(z, J1);
  set->applyNormalConeProjectionJacobian(z, J2);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < 3; j++) {
      c.require(J1(i, j) == (act[i] ? S(0) : J0(i, j)), "Jacobian of the projection");
      c.require(J2(i, j) == (act[i] ? J0(i, j) : S(0)), "Jacobian of the normal cone projection");
    }
  c.nontrivial();
  c.label(std::is_same<S, float>::value ? "float" : "long double");
}

// ------------------------------------------------------------------- spaces
template <class S> void spaces(Src &s, Ctx &c) {
  using Man = nlp::ManifoldAbstractTpl<S>;
  using PM = xyz::polymorphic<Man>;
  using VS = nlp::VectorSpaceTpl<S>;
  using TB = nlp::TangentBundleTpl<VS>;
  int nb = s.range(1, 3), n = 0;
  std::vector<PM> comps;
  for (int i = 0; i < nb; i++) {
    int d = s.range(1, 4);
    bool tb = s.flag();
    comps.push_back(tb ? PM(TB(d)) : PM(VS(d)));
    n += tb ? 2 * d : d;
  }
  PM space = nb > 1 || s.flag() ? PM(nlp::CartesianProductTpl<S>(comps)) : comps[0];
  c.require(space->nx() == n && space->ndx() == n, "dimensions");
  V<S> x = gv<S>(s, n), v = gv<S>(s, n), y(n), d(n), z(n);
  S u = gnum<S>(s);
  y.setConstant(S(9)), d.setConstant(S(9)), z.setConstant(S(9));
  RV xr = x.template cast<R>(), vr = v.template cast<R>();
  space->integrate(x, v, y);
  R sc = nm(x) + nm(v);
  mnear<S>(c, y, (xr + vr).eval(), sc, "integrate", 8);
  RV yr = y.template cast<R>();
  space->difference(x, y, d);
  mnear<S>(c, d, (yr - xr).eval(), sc, "difference", 8);
  space->interpolate(x, y, u, z);
  mnear<S>(c, z, (xr + (R)u * (yr - xr)).eval(), sc * (1 + fabsl((R)u)), "interpolate", 16);
  for (int a = 0; a < 2; a++) {
    M<S> J(n, n), K(n, n), T = gm<S>(s, n, 2), T0 = T;
    J.setConstant(S(9)), K.setConstant(S(9));
    space->Jintegrate(x, v, J, a);
    space->Jdifference(x, y, K, a);
    RM I = RM::Identity(n, n), mI = (a ? 1 : -1) * I;
    mnear<S>(c, J, I, 0, "Jintegrate", 4);
    mnear<S>(c, K, mI, 0, "Jdifference", 4);
    space->JintegrateTransport(x, v, T, a);
    mnear<S>(c, T, T0, nm(T0), "JintegrateTransport", 8);
  }
  if (n > 1)
    c.nontrivial();
  c.label(std::is_same<S, float>::value ? "float" : "long double");
}

// ------------------------------------------------------------------- linalg
/// Quasi-definite matrices: every symmetric permutation has an LDLT factorisation.
template <class S> void linalg(Src &s, Ctx &c) {
  int np = s.tail(1, 5, 70), nd = s.tail(0, 4, 70), n = np + nd;
  std::vector<nlp::linalg::isize> prim{np}, dual;
  for (int left = nd; left > 0;) {
    int k = s.range(1, std::min(left, dual.size() >= 4 ? left : 30));
    if (dual.size() >= 4)
      k = left;
    dual.push_back(k);
    left -= k;
  }
  uint64_t seed = s.word();
  auto rnd = [&]() { return S((double)(splitmix(seed) >> 11) / 9007199254740992. - 0.5) / S(3); };
  M<S> A = M<S>::Zero(n, n);
  S off = S(2) / S(std::max(np, 1));
  for (int i = 0; i < np; i++) {
    for (int j = 0; j < i; j++)
      A(i, j) = A(j, i) = rnd() * off;
    A(i, i) = S(1) + std::abs(rnd());
  }
  S sj = S(1) / std::sqrt(S(std::max(np, 1)));
  for (int i = np; i < n; i++) {
    for (int j = 0; j < np; j++)
      A(i, j) = A(j, i) = rnd() * 3 * sj;
    A(i, i) = -S(1) - std::abs(rnd());
  }
  V<S> b(n);
  for (int i = 0; i < n; i++)
    b[i] = rnd();
  static const nlp::LDLTChoice ch[] = {nlp::LDLTChoice::DENSE, nlp::LDLTChoice::BUNCHKAUFMAN,
                                       nlp::LDLTChoice::BLOCKSPARSE, nlp::LDLTChoice::EIGEN};
  int k = s.range(0, 3);
  auto fac = nlp::allocate_ldlt_from_sizes<S>(prim, dual, ch[k]);
  V<S> x = b;
  Eigen::VectorXi sig(n);
  boost::apply_visitor([&](auto &&f) {
    f.compute(A);
    x = f.solve(b);
  }, fac);
  boost::apply_visitor(nlp::ComputeSignatureVisitor{sig}, fac);
  auto in = nlp::computeInertiaTuple(sig);
  c.require(in[0] == np && in[1] == nd && in[2] == 0, "inertia of a quasi-definite matrix");
  RM Ar = A.template cast<R>();
  RV res = Ar * x.template cast<R>() - b.template cast<R>();
  R bound = 40 * n * eps<S>() * (n * nm(A) * nm(x) + nm(b));
  std::ostringstream o;
  o << "residual " << nm(res) << " of a solve, expected " << bound;
  c.require(nm(res) <= bound, o.str());
  c.note("n", n), c.note("factorisation", k);
  if (n > 1)
    c.nontrivial();
  c.label(std::string(std::is_same<S, float>::value ? "float " : "long double ") + std::to_string(k));
}

// -------------------------------------------------------------- line search
template <class S> void search(Src &s, Ctx &c) {
  using LS = nlp::ArmijoLinesearch<S>;
  typename nlp::Linesearch<S>::Options opt;
  static const nlp::LSInterpolation it[] = {nlp::LSInterpolation::BISECTION, nlp::LSInterpolation::QUADRATIC,
                                            nlp::LSInterpolation::CUBIC};
  int k = s.range(0, 2);
  opt.interp_type = it[k];
  opt.contraction_min = S(s.real(0.05, 0.3)) / S(3);
  opt.contraction_max = S(s.real(1.5, 2.9)) / S(3);
  opt.armijo_c1 = S(1e-4) / S(3);
  // phi(a) = p0 - g a + h a^2 / 2
  S p0 = gnum<S>(s), g = S(s.logreal(0.1, 10.)) / S(3), h = g * S(s.logreal(0.5, 30.)) / S(3);
  int fails = s.range(0, 2);
  std::vector<std::pair<S, S>> ev;
  int count = 0;
  auto phi = [&](S a) {
    if (count++ < fails)
      throw std::runtime_error("fault");
    S v = p0 - g * a + h * a * a / 2;
    ev.push_back({a, v});
    return v;
  };
  LS ls(opt);
  S alpha = S(-1);
  S out = ls.run(phi, p0, -g, alpha);
  c.require(!ev.empty(), "no evaluation");
  c.require(ev.back().first == alpha && ev.back().second == out, "the step returned is not the last one evaluated");
  R first = 1;
  for (int i = 0; i < fails; i++)
    first /= 2;
  c.require(ev[0].first == S(first), "first step tried");
  c.require(out - p0 <= opt.armijo_c1 * alpha * (-g), "sufficient decrease");
  for (size_t i = 1; i < ev.size(); i++) {
    R prev = ev[i - 1].first, l = (R)opt.contraction_min * prev, u = (R)opt.contraction_max * prev;
    R min = (R)g / (R)h; // of the interpolant, exactly the function
    R want = k == 0 ? prev / 2 : std::max(l, std::min(u, min));
    // the cubic's leading coefficient is pure rounding: looser, relative to the cancellation
    R amp = std::max((R)1, fabsl((R)p0)) / ((R)h * prev * prev);
    R tol = (k == 2 && i > 1 ? sqrtl(eps<S>()) : k * 40 * eps<S>()) * (1 + amp) * 10 + 4 * eps<S>();
    if (k == 2 && i > 1)
      continue; // judged by C18
    near<S>(c, ev[i].first, want, 0, "step tried after a rejection", std::max((R)4, tol / eps<S>()));
    if (k)
      c.nontrivial();
  }
  c.label(std::is_same<S, float>::value ? "float" : "long double");
}

// ---------------------------------------------------------------------- QPs
template <class S> void qp(Src &s, Ctx &c) {
  const bool flt = std::is_same<S, float>::value;
  int n = s.tail(1, 5, 10), me = s.range(0, std::min(n - 1, 2)), mi = s.range(0, std::min(n - me, 3));
  // Q with eigenvalues in [1,4] up to the congruence, orthogonal-ish rows
  uint64_t seed = s.word();
  auto rnd = [&]() { return S((double)(splitmix(seed) >> 11) / 9007199254740992. - 0.5) / S(3); };
  M<S> G(n, n);
  for (int j = 0; j < n; j++)
    for (int i = 0; i < n; i++)
      G(i, j) = rnd();
  M<S> Q = G * G.transpose() / S(n) + M<S>::Identity(n, n) * (S(4) / S(3));
  M<S> A(me + mi, n);
  for (int i = 0; i < me + mi; i++)
    for (int j = 0; j < n; j++)
      A(i, j) = rnd() / S(n) + (i == j ? S(1) : S(0));
  V<S> xs(n), lam(me + mi), b(me + mi);
  for (int i = 0; i < n; i++)
    xs[i] = rnd() * 6;
  for (int i = 0; i < me; i++) {
    lam[i] = rnd() * 6;
    b[i] = -A.row(i).dot(xs);
  }
  for (int i = me; i < me + mi; i++) {
    bool on = s.flag();
    lam[i] = on ? S(1) + std::abs(rnd()) : S(0);
    b[i] = -A.row(i).dot(xs) - (on ? S(0) : S(1) + std::abs(rnd()));
  }
  V<S> q = -(Q * xs + A.transpose() * lam);
  xyz::polymorphic<nlp::ManifoldAbstractTpl<S>> space(nlp::VectorSpaceTpl<S>{n});
  auto id = std::make_shared<nlp::LinearFunctionTpl<S>>(M<S>(M<S>::Identity(n, n)), V<S>(V<S>::Zero(n)));
  auto cost = std::make_shared<nlp::QuadraticResidualCostTpl<S>>(id, Q, q, S(0));
  nlp::ProblemTpl<S> prob(space, cost);
  using CO = nlp::ConstraintObjectTpl<S>;
  using PS = xyz::polymorphic<nlp::ConstraintSetTpl<S>>;
  if (me)
    prob.addConstraint(CO(std::make_shared<nlp::LinearFunctionTpl<S>>(M<S>(A.topRows(me)), V<S>(b.head(me))),
                          PS(nlp::EqualityConstraintTpl<S>())));
  if (mi)
    prob.addConstraint(CO(std::make_shared<nlp::LinearFunctionTpl<S>>(M<S>(A.bottomRows(mi)), V<S>(b.tail(mi))),
                          PS(nlp::NegativeOrthantTpl<S>())));
  S tol = flt ? S(2e-4) : S(s.logreal(1e-15, 1e-12));
  static const nlp::LDLTChoice ch[] = {nlp::LDLTChoice::BUNCHKAUFMAN, nlp::LDLTChoice::DENSE,
                                       nlp::LDLTChoice::BLOCKSPARSE, nlp::LDLTChoice::EIGEN};
  S mu0 = S(s.logreal(1e-2, 1e-1));
  int ldlt = s.range(0, 3);
  nlp::ProxNLPSolverTpl<S> solver(prob, tol, mu0, S(0), nlp::QUIET, flt ? S(1e-2) : S(1e-4), S(0.1), S(0.9), S(1),
                                  S(1), ch[ldlt]);
  solver.kkt_system_ = nlp::KKT_PRIMAL_DUAL;
  solver.max_iters = 400;
  solver.inner_tol_min = tol / S(10);
  solver.kkt_tolerance_ = std::numeric_limits<S>::epsilon() * S(100);
  solver.ls_options.dphi_thresh = std::numeric_limits<S>::epsilon() * S(500);
  auto cb = std::make_shared<nlp::helpers::history_callback<S>>();
  solver.registerCallback(cb);
  solver.setup();
  V<S> x0 = gv<S>(s, n), l0 = V<S>::Zero(me + mi);
  auto flag = solver.solve(x0, l0);
  auto &res = *solver.results_;
  RV x = res.x_opt.template cast<R>(), l = res.data_lams_opt.template cast<R>();
  c.note("n, me, mi", std::to_string(n) + " " + std::to_string(me) + " " + std::to_string(mi));
  c.note("tol", (R)tol), c.note("iterations", res.num_iters), c.note("ldlt", ldlt);
  std::ostringstream o;
  o << "no success after " << res.num_iters << " iterations, residuals " << (R)res.prim_infeas << " and "
    << (R)res.dual_infeas << ", tolerance " << (R)tol;
  c.require(flag == nlp::SUCCESS, o.str());
  // residuals in the scalar's own accuracy
  RV dual = Q.template cast<R>() * x + q.template cast<R>() + A.template cast<R>().transpose() * l;
  RV cv = A.template cast<R>() * x + b.template cast<R>();
  R slack = 200 * n * eps<S>() * 4;
  o.str("");
  o << "stationarity " << nm(dual) << ", tolerance " << (R)tol;
  c.require(nm(dual) <= (R)tol + slack, o.str());
  R viol = 0;
  for (int i = 0; i < me + mi; i++)
    viol = std::max(viol, i < me ? fabsl(cv[i]) : std::max(cv[i], (R)0));
  o.str("");
  o << "constraint violation " << viol << ", tolerance " << (R)tol;
  c.require(viol <= (R)tol + slack, o.str());
  R err = nm((x - xs.template cast<R>()).eval()), lim = (flt ? 100 : 30) * ((R)tol + slack);
  o.str("");
  o << "distance " << err << " from the solution, expected at most " << lim;
  c.require(err <= lim, o.str());
  R val = xs.template cast<R>().dot(Q.template cast<R>() * xs.template cast<R>()) / 2 +
          q.template cast<R>().dot(xs.template cast<R>());
  near<S>(c, res.value, val, 1 + fabsl(val), "objective value", 64 + 10 * lim / eps<S>());
  c.require(cb->storage.xs.size() > 0 && cb->storage.xs.back() == res.x_opt, "history");
  if (me + mi > 0 && res.num_iters > 0)
    c.nontrivial();
  c.label(flt ? "float" : "long double");
}

// --------------------------------------------------------------- small ones
template <class S> void misc(Src &s, Ctx &c) {
  int n = s.tail(1, 5, 12);
  { // quasi-Newton: secant equation after each accepted update
    nlp::BFGSStrategy<S, nlp::BFGSType::InverseHessian> inv(n);
    nlp::BFGSStrategy<S, nlp::BFGSType::Hessian> hes(n);
    M<S> B0 = gm<S>(s, n, n), B = B0 * B0.transpose() + M<S>::Identity(n, n);
    M<S> H1 = M<S>::Identity(n, n), H2 = H1;
    V<S> x = gv<S>(s, n), g = B * x;
    inv.update(x, g, H1);
    hes.update(x, g, H2);
    for (int i = 0; i < 2; i++) {
      V<S> st = gv<S>(s, n);
      if (!(st.norm() > S(1e-2)))
        throw Discard{};
      V<S> xn = x + st, gn = B * xn;
      V<S> y = gn - g, sv = xn - x;
      M<S> P1 = H1, P2 = H2;
      inv.update(xn, gn, H1);
      hes.update(xn, gn, H2);
      // the update formulas in wide precision
      RV Y = y.template cast<R>(), X = sv.template cast<R>();
      R sy = X.dot(Y);
      RM I = RM::Identity(n, n), V1 = I - X * Y.transpose() / sy, V2 = I - Y * X.transpose() / sy;
      RM E1 = V1 * P1.template cast<R>() * V1.transpose() + X * X.transpose() / sy;
      RM E2 = V2 * P2.template cast<R>() * V2.transpose() + Y * Y.transpose() / sy;
      R a = 1 + nm(X) * nm(Y) * n / sy, sc = a * a * n * n * (1 + nm(P1) + nm(P2) + nm(X) * nm(X) / sy + nm(Y) * nm(Y) / sy);
      mnear<S>(c, H1, E1, sc, "inverse update");
      mnear<S>(c, H2, E2, sc, "direct update");
      x = xn, g = gn;
    }
  }
  { // norms and comparisons
    M<S> a = gm<S>(s, s.range(1, 4), s.range(1, 4));
    c.require((R)nlp::math::infty_norm(a) == nm(a), "norm");
    S big = std::numeric_limits<S>::max();
    M<S> z = a;
    z(0, 0) = big;
    c.require(!nlp::math::check_value(z) && !nlp::math::check_value(big), "the largest finite value is finite");
    z(0, 0) = big * S(2);
    c.require(nlp::math::check_value(z), "infinity is not finite");
    S v = S(1) + std::abs(gnum<S>(s));
    S e = std::numeric_limits<S>::epsilon();
    c.require(nlp::math::scalar_close(v, std::nextafter(v, big)), "neighbours are close");
    c.require(!nlp::math::scalar_close(v, v * (1 + 64 * e)), "distant values are not close");
    c.require(nlp::math::sign(-e) == S(-1) && nlp::math::sign(e) == S(1) && nlp::math::sign(S(0)) == S(0), "sign");
  }
  c.nontrivial();
  c.label(std::is_same<S, float>::value ? "float" : "long double");
}

// ---------------------------------------------- multipliers and merit function
/// One evaluation of the augmented Lagrangian terms, each step from the values
/// of the one before.
template <class S> void merit(Src &s, Ctx &c) {
  const int n = s.tail(1, 3, 6), nb = s.range(1, 3);
  using PS = xyz::polymorphic<nlp::ConstraintSetTpl<S>>;
  xyz::polymorphic<nlp::ManifoldAbstractTpl<S>> space(nlp::VectorSpaceTpl<S>{n});
  const V<S> goal = gv<S>(s, n);
  std::vector<nlp::ConstraintObjectTpl<S>> cs;
  struct Blk {
    int kind, nr;
    V<S> l, u;
  };
  std::vector<Blk> bs;
  int m = 0;
  for (int i = 0; i < nb; i++) {
    Blk b{s.range(0, 3), s.range(1, 3), {}, {}};
    b.l = gv<S>(s, b.nr), b.u = b.l;
    for (int j = 0; j < b.nr; j++)
      b.u[j] += std::abs(gnum<S>(s));
    PS set = b.kind == 0   ? PS(nlp::EqualityConstraintTpl<S>())
             : b.kind == 1 ? PS(nlp::NegativeOrthantTpl<S>())
             : b.kind == 2 ? PS(nlp::BoxConstraintTpl<S>(b.l, b.u))
                           : PS(nlp::NonsmoothPenaltyL1Tpl<S>());
    cs.emplace_back(std::make_shared<nlp::LinearFunctionTpl<S>>(gm<S>(s, b.nr, n), gv<S>(s, b.nr)), set);
    m += b.nr;
    bs.push_back(b);
  }
  nlp::ProblemTpl<S> prob(space, std::make_shared<nlp::QuadraticDistanceCostTpl<S>>(space, goal, M<S>::Identity(n, n)), cs);
  const S beta = S(1) / S(s.range(1, 5)) * (s.flag() ? S(1) : S(0.9L));
  nlp::ProxNLPSolverTpl<S> sv(prob, S(1e-4), S(0.1), S(0), nlp::QUIET);
  sv.pdal_beta_ = beta;
  sv.setup();
  auto &w = *sv.workspace_;
  auto &r = *sv.results_;
  const S mu = glog<S>(s, 1e-3, 10.), rho = s.flag() ? glog<S>(s, 1e-3, 10.) : S(0);
  const S unit = S(std::ldexp(1., s.range(0, 12)));
  V<S> x = gv<S>(s, n), lp = gv<S>(s, m) * unit, lam = gv<S>(s, m) * unit, tgt = gv<S>(s, n);
  c.note("mu", std::to_string((double)mu));
  sv.setPenalty(mu);
  sv.setProxParameter(rho);
  sv.prox_penalty.updateTarget(tgt);
  w.data_lams_prev = lp;
  r.data_lams_opt = lam;
  r.x_opt = x;
  prob.evaluate(x, w);
  prob.computeDerivatives(x, w);
  sv.computeMultipliers(lam, w);
  const R MU = mu, B = beta;
  R val = w.objective_value, vs = fabsl(val);
  int o = 0;
  for (auto &b : bs) {
    for (int j = 0; j < b.nr; j++, o++) {
      R z = w.data_shift_cstr_values[o], zp = w.data_shift_cstr_pdal[o];
      R sz = fabsl((R)w.data_cstr_values[o]) + MU * fabsl((R)lp[o]);
      R szp = fabsl(z) + MU * fabsl((R)lam[o]);
      auto nc = [&](R v) -> R {
        if (b.kind == 1)
          return std::max(v, (R)0);
        if (b.kind == 2)
          return v - std::max(std::min(v, (R)b.u[j]), (R)b.l[j]);
        if (b.kind == 3)
          return std::max(std::min(v, MU), -MU);
        return v;
      };
      near<S>(c, w.data_shift_cstr_values[o], (R)w.data_cstr_values[o] + MU * (R)lp[o], sz, "shifted constraint", 6);
      near<S>(c, w.data_shift_cstr_pdal[o], z - (1 - B) * MU * (R)lam[o], szp, "primal-dual shifted constraint", 6);
      R bz = b.kind == 2 ? fabsl((R)b.l[j]) + fabsl((R)b.u[j]) : 0;
      near<S>(c, w.data_lams_plus[o], nc(z) / MU, (fabsl(z) + bz) / MU, "first-order multiplier", 6);
      near<S>(c, w.data_lams_pdal[o], nc(zp) / MU / B, (fabsl(zp) + bz) / MU / B, "primal-dual multiplier", 6);
      R d = nc(zp), pr = zp - d;
      val += (d * d / (2 * MU) + (b.kind == 3 ? fabsl(pr) : 0)) / B;
      R ds = fabsl(zp) * (b.kind == 0 ? 0 : 1) + bz; // cancellation in z - proj(z)
      vs += (d * d / (2 * MU) + ds * fabsl(d) / MU + (b.kind == 3 ? fabsl(zp) : 0)) / B;
      val += (1 - B) * MU * (R)lam[o] * (R)lam[o] / 2;
      vs += MU * (R)lam[o] * (R)lam[o] / 2;
    }
  }
  near<S>(c, sv.merit_fun.evaluate(x, r.lams_opt, w), val, vs, "merit function", 8 + 2 * m);
  sv.merit_fun.computeGradient(r.lams_opt, w);
  for (int i = 0; i < n; i++) {
    R g = w.objective_gradient[i], gs = fabsl(g);
    for (int k = 0; k < m; k++) {
      R t = (R)w.data_jacobians(k, i) * (R)w.data_lams_pdal[k];
      g += t, gs += fabsl(t);
    }
    near<S>(c, w.merit_gradient[i], g, gs, "primal gradient of the merit function", 4 + 2 * m);
  }
  for (int k = 0; k < m; k++)
    near<S>(c, w.merit_dual_gradient[k], (1 - B) * MU * ((R)lam[k] - (R)w.data_lams_pdal[k]),
            MU * (fabsl((R)lam[k]) + fabsl((R)w.data_lams_pdal[k])), "dual gradient of the merit function", 6);
  RV dx = x.template cast<R>() - tgt.template cast<R>();
  R ds = nm(x) + nm(tgt);
  near<S>(c, sv.prox_penalty.call(x), (R)rho / 2 * dx.squaredNorm(), (R)rho * ds * ds * n, "value of the proximal term", 8);
  V<S> pg = V<S>::Constant(n, S(7));
  sv.prox_penalty.computeGradient(x, pg);
  mnear<S>(c, pg, ((R)rho * dx).eval(), (R)rho * ds, "gradient of the proximal term", 8);
  c.nontrivial();
  c.label(std::is_same<S, float>::value ? "float" : "long double");
}

#ifdef VP_NO_FLOAT
#define BOTH(name) \
  static void c28_##name(Src &s, Ctx &c) { name<long double>(s, c); }
#else
#define BOTH(name)                      \
  static void c28_##name(Src &s, Ctx &c) { \
    if (s.flag())                       \
      name<float>(s, c);                \
    else                                \
      name<long double>(s, c);          \
  }
#endif
BOTH(functions) BOTH(sets) BOTH(spaces) BOTH(linalg) BOTH(search) BOTH(qp) BOTH(misc) BOTH(merit)

int main(int argc, char **argv) {
  std::vector<Sub> subs = {
      {"C28", "functions", 300000, 3000000, c28_functions, "a nonlinear residual or more than one variable"},
      {"C28", "sets", 600000, 6000000, c28_sets, "every case"},
      {"C28", "spaces", 600000, 6000000, c28_spaces, "more than one dimension"},
      {"C28", "linalg", 200000, 2000000, c28_linalg, "more than one row"},
      {"C28", "search", 1500000, 15000000, c28_search, "a rejected step with interpolation"},
      {"C28", "qp", 120000, 1200000, c28_qp, "at least one constraint and one iteration"},
      {"C28", "misc", 300000, 3000000, c28_misc, "every case"},
      {"C28", "merit", 300000, 3000000, c28_merit, "every case"},
  };
  return engine_main(argc, argv, subs);
}
