// C15 costs and their derivatives; C16 algebra of cost sums; C17 composition
// of functions and finite differences
#include "funcs.hpp"
#include <proxsuite-nlp/modelling/autodiff/finite-difference.hpp>

using namespace vp;
using namespace proxsuite::nlp;

/// A residual together with its reference value / derivatives.
struct Residual {
  FnPtr f;
  Model m;
  PManifold sp;
  std::function<Vec(const Vec &)> val;
  std::function<Mat(const Vec &)> jac;
  std::function<Mat(const Vec &, const Vec &)> vhp; // as far as the function provides it
  bool exact_vhp = false;
  double scale = 1;
  Residual() : sp(VS(1)) {}
};

static Vec near_point(Src &s, const Model &m, const Vec &x0) { return m.integrate(x0, m.tangent(s)); }

static Residual gresidual(Src &s, Ctx &c, Vec &anchor) {
  Residual r;
  switch (s.below(5)) {
  case 0: { // Ax + b
    int n = s.tail(1, 5, 24), p = s.tail(1, 5, 24);
    Mat A = gmat(s, p, n);
    Vec b = gvec(s, p);
    bool withb = s.flag();
    if (!withb)
      b.setZero();
    r.m.l.push_back({Leaf::R, n});
    r.m.name = "R" + std::to_string(n);
    r.sp = PManifold(VS(n));
    r.f = withb ? std::make_shared<LinFn>(A, b) : std::make_shared<LinFn>(A);
    r.val = [=](const Vec &x) { return Vec(A * x + b); };
    r.jac = [=](const Vec &) { return A; };
    r.vhp = [=](const Vec &, const Vec &) { return Mat(Mat::Zero(n, n)); };
    r.exact_vhp = true;
    anchor = gvec(s, n);
    c.note("residual", "linear A=" + show(A) + " b=" + show(b.transpose()));
    break;
  }
  case 1: { // smooth on R^n
    int n = s.tail(1, 5, 16), p = s.tail(1, 4, 12);
    SmoothData d = gsmooth(s, n, p);
    r.m.l.push_back({Leaf::R, n});
    r.m.name = "R" + std::to_string(n);
    r.sp = PManifold(VS(n));
    r.f = std::make_shared<SmoothFn>(d);
    r.val = [=](const Vec &x) { return d.val(x); };
    r.jac = [=](const Vec &x) { return d.jac(x); };
    r.vhp = [=](const Vec &x, const Vec &v) { return d.vhp(x, v); };
    r.exact_vhp = true;
    anchor = gvec(s, n);
    c.note("residual", "smooth");
    break;
  }
  case 2: { // x (-) target
    r.sp = gspace(s, r.m, s.below(3), 1, 3, 16);
    Vec t = r.m.point(s);
    Model m = r.m;
    r.f = std::make_shared<DiffFn>(r.sp, t);
    r.val = [=](const Vec &x) { return m.difference(t, x); };
    r.jac = [=](const Vec &x) { return m.Jdifference(t, x, 1); };
    r.vhp = [=](const Vec &, const Vec &) { return Mat(Mat::Zero(m.ndx(), m.ndx())); };
    anchor = t;
    c.note("residual", "difference to a point on " + m.name);
    break;
  }
  case 3: { // A (x (-) target) + b
    r.sp = gspace(s, r.m, s.below(3), 1, 3, 16);
    Vec t = r.m.point(s);
    Model m = r.m;
    int p = s.tail(1, 4, 16);
    Mat A = gmat(s, p, m.ndx());
    Vec b = gvec(s, p);
    r.f = std::make_shared<LinDiffFn>(r.sp, t, A, b);
    r.val = [=](const Vec &x) { return Vec(A * m.difference(t, x) + b); };
    r.jac = [=](const Vec &x) { return Mat(A * m.Jdifference(t, x, 1)); };
    r.vhp = [=](const Vec &, const Vec &) { return Mat(Mat::Zero(m.ndx(), m.ndx())); };
    anchor = t;
    c.note("residual", "linear function of the difference on " + m.name);
    break;
  }
  default: { // g o (x (-) target)
    r.sp = gspace(s, r.m, s.below(3), 1, 3, 16);
    Vec t = r.m.point(s);
    Model m = r.m;
    SmoothData d = gsmooth(s, m.ndx(), s.tail(1, 4, 10));
    r.f = compose<double>(std::make_shared<SmoothFn>(d), std::make_shared<DiffFn>(r.sp, t));
    r.val = [=](const Vec &x) { return d.val(m.difference(t, x)); };
    r.jac = [=](const Vec &x) { return Mat(d.jac(m.difference(t, x)) * m.Jdifference(t, x, 1)); };
    anchor = t;
    c.note("residual", "composition on " + m.name);
  }
  }
  return r;
}

static void check_cost_api(Ctx &c, const Cost &cost, const Vec &x, double v, const Vec &g, const Mat &H, double tol,
                           int what, double w) {
  const int n = cost.ndx();
  c.require(cost.nr() == 1, "a cost has codimension one");
  switch (what) {
  case 0:
    c.close(cost.call(x), v, tol, "cost value");
    break;
  case 1: {
    Vec o = Vec::Constant(n, 44.);
    cost.computeGradient(x, VRef(o));
    mclose(c, o, g, tol, "cost gradient");
    break;
  }
  case 2: {
    Mat o = Mat::Constant(n, n, -5.);
    cost.computeHessian(x, MRef(o));
    mclose(c, o, H, tol, "cost Hessian");
    break;
  }
  case 3: {
    const Fn &f = cost;
    Vec o = f(x);
    c.require(o.size() == 1, "cost seen as a function has one output");
    c.close(o[0], v, tol, "cost value through the function interface");
    break;
  }
  case 4: {
    const Fn &f = cost;
    Mat J = f.computeJacobian(x);
    mclose(c, J, g.transpose(), tol, "cost gradient through the function interface");
    break;
  }
  case 5: {
    const Fn &f = cost;
    Mat o = Mat::Constant(n, n, -5.);
    f.vectorHessianProduct(x, Vec::Constant(1, w), o);
    mclose(c, o, w * H, tol * (1 + std::fabs(w)), "cost vector-Hessian product");
    break;
  }
  case 6:
    mclose(c, cost.computeGradient(x), g, tol, "cost gradient (allocated)");
    break;
  default:
    mclose(c, cost.computeHessian(x), H, tol, "cost Hessian (allocated)");
  }
}

static void c15_quadratic(Src &s, Ctx &c) {
  Vec anchor;
  Residual r = gresidual(s, c, anchor);
  const int p = r.f->nr(), n = r.f->ndx();
  c.require(r.f->nx() == r.m.nx() && n == r.m.ndx(), "dimensions of the residual");
  Mat Q = gmat(s, p, p);
  Q = (Q + Q.transpose()).eval() / 2.;
  Vec b = gvec(s, p);
  double c0 = s.num();
  std::shared_ptr<QuadCost> cost;
  switch (s.below(3)) {
  case 0:
    cost = std::make_shared<QuadCost>(r.f, Q, b, c0);
    break;
  case 1:
    b.setZero();
    cost = std::make_shared<QuadCost>(r.f, Q, c0);
    break;
  default:
    b.setZero(), c0 = 0.;
    cost = std::make_shared<QuadCost>(r.f, Q);
  }
  c.note("Q", show(Q));
  c.note("slope", show(b.transpose()));
  c.note("constant", c0);
  c.require(cost->nx() == r.m.nx() && cost->ndx() == n, "dimensions of the cost");
  bool gn = true;
  if (r.vhp && s.flag()) {
    cost->gauss_newton_ = gn = false;
    c.label("exact Hessian");
  }
  std::shared_ptr<QuadCost> other = s.chance(1, 4) ? std::make_shared<QuadCost>(*cost) : cost;
  // a history of evaluations at different points, in any order
  int ops = s.tail(1, 6, 30);
  std::string hist;
  Vec x = near_point(s, r.m, anchor);
  for (int k = 0; k < ops; k++) {
    if (k && s.flag())
      x = near_point(s, r.m, anchor);
    Vec e = r.val(x), we = Q * e + b;
    Mat J = r.jac(x);
    double v = 0.5 * e.dot(Q * e) + b.dot(e) + c0;
    Vec g = J.transpose() * we;
    Mat H = J.transpose() * Q * J;
    if (!gn)
      H += r.vhp(x, we);
    double sc = 1 + nrm(Q) + nrm(b) + std::fabs(c0);
    double mag = (1 + nrm(e)) * (1 + nrm(e)) * (1 + nrm(J)) * (1 + nrm(J)) * p * p;
    int what = s.below(8);
    hist += "cvghJVGH"[what];
    c.dump << "step " << k << ": op " << what << " at x = " << show(x.transpose()) << "\n";
    check_cost_api(c, s.flag() ? *cost : *other, x, v, g, H, 1e-11 * sc * mag, what, s.num());
    // the gradient is the derivative of the value
    if (n > 0 && k == 0 && s.chance(1, 4)) {
      Vec d = gvec(s, n);
      Vec gr(n);
      cost->computeGradient(x, VRef(gr));
      auto f = [&](double t) { return Mat::Constant(1, 1, cost->call(r.m.integrate(x, t * d))).eval(); };
      double fd = fd_dir(f, 1e-3)(0, 0);
      double dm = (1 + nrm(d)) * (1 + nrm(d));
      // the sine part has wave numbers of order one; magnitudes enter with the fifth power at most
      c.close(gr.dot(d), fd, 1e-6 * sc * mag * dm * dm * (1 + n), "gradient is not the derivative of the value");
    }
  }
  if (ops > 1)
    c.nontrivial();
}

static void c15_distance(Src &s, Ctx &c) {
  Model m;
  PManifold sp = gspace(s, m, s.below(3), 1, 3, 16);
  const int n = m.ndx();
  Vec t = m.point(s);
  Mat W = Mat::Identity(n, n);
  std::shared_ptr<DistCost> cost;
  switch (s.below(3)) {
  case 0: {
    W = gmat(s, n, n);
    W = (W + W.transpose()).eval();
    cost = std::make_shared<DistCost>(sp, t, W);
    break;
  }
  case 1:
    cost = std::make_shared<DistCost>(sp, t);
    break;
  default:
    t = m.neutral();
    cost = std::make_shared<DistCost>(sp);
  }
  c.note("space", m.name);
  c.note("W", show(W));
  int ops = s.tail(1, 6, 30);
  for (int k = 0; k < ops; k++) {
    if (s.chance(1, 3)) {
      if (s.flag()) // a nearby target
        t = m.integrate(t, s.logreal(1e-16, 1e-3) * m.tangent(s));
      else
        t = m.point(s);
      cost->updateTarget(t);
      c.dump << "updateTarget\n";
    }
    mclose(c, cost->getTarget(), t, 0., "target of a distance cost");
    Vec x = near_point(s, m, t);
    Vec e = m.difference(t, x);
    Mat J = m.Jdifference(t, x, 1);
    double mag = (1 + nrm(W)) * (1 + nrm(e)) * (1 + nrm(e)) * (1 + nrm(J)) * (1 + nrm(J)) * n * n;
    int what = s.below(8);
    c.dump << "op " << what << " x=" << show(x.transpose()) << "\n";
    check_cost_api(c, *cost, x, 0.5 * e.dot(W * e), J.transpose() * W * e, J.transpose() * W * J, 1e-11 * mag, what,
                   s.num());
  }
  c.nontrivial();
}

/// The units of the inputs and outputs, powers of two.
static Vec gunits(Src &s, int n) {
  Vec e(n);
  const bool uniform = s.flag();
  const int all = s.range(-60, 60);
  for (int i = 0; i < n; i++)
    e[i] = std::ldexp(1., uniform ? all : s.range(-60, 60));
  return e;
}
/// A smooth function with inputs in units E and outputs in units D.
struct UnitsFn : Fn {
  SmoothData d;
  Vec E, D;
  UnitsFn(const SmoothData &d, const Vec &E, const Vec &D) : Fn(d.n, d.n, d.m), d(d), E(E), D(D) {}
  Vec in(const ConstVectorRef &x) const { return x.cwiseQuotient(E); }
  Vec operator()(const ConstVectorRef &x) const override { return D.cwiseProduct(d.val(in(x))); }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    J = D.asDiagonal() * d.jac(in(x)) * E.cwiseInverse().asDiagonal();
  }
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef H) const override {
    H = E.cwiseInverse().asDiagonal() * d.vhp(in(x), D.cwiseProduct(v)) * E.cwiseInverse().asDiagonal();
  }
};

/// Costs of residuals and points in other units are the same costs.
static void c15_scales(Src &s, Ctx &c) {
  const int n = s.range(1, 5), p = s.range(1, 5);
  Vec E = gunits(s, n), Ei = E.cwiseInverse(), x = gvec(s, n);
  c.note("units of the point", show(E.transpose()));
  c.note("x", show(x.transpose()));
  CostPtr cost;
  double v, mag;
  Vec g;
  Mat H;
  if (s.flag()) {
    SmoothData d = gsmooth(s, n, p);
    if (s.flag()) {
      d.Q.assign((size_t)p, Mat::Zero(n, n));
      d.a.setZero();
    }
    Vec D = gunits(s, p), Di = D.cwiseInverse();
    c.note("units of the residual", show(D.transpose()));
    Mat Q = gmat(s, p, p);
    Q = (Q + Q.transpose()).eval() / 2.;
    Vec b = gvec(s, p);
    const double c0 = s.chance(1, 4) ? s.num() : 0.;
    FnPtr r;
    bool linear = d.a.isZero(0.);
    for (auto &q : d.Q)
      linear = linear && q.isZero(0.);
    if (linear)
      r = std::make_shared<LinFn>(Mat(D.asDiagonal() * d.B * Ei.asDiagonal()), Vec(D.cwiseProduct(d.c)));
    else
      r = std::make_shared<UnitsFn>(d, E, D);
    auto q = std::make_shared<QuadCost>(r, Mat(Di.asDiagonal() * Q * Di.asDiagonal()), Vec(Di.cwiseProduct(b)), c0);
    q->gauss_newton_ = s.flag();
    cost = q;
    Vec e = d.val(x), we = Q * e + b;
    Mat J = d.jac(x);
    v = 0.5 * e.dot(Q * e) + b.dot(e) + c0;
    g = J.transpose() * we;
    H = J.transpose() * Q * J;
    if (!q->gauss_newton_)
      H += d.vhp(x, we);
    mag = (1 + nrm(Q) + nrm(b) + std::fabs(c0)) * (1 + nrm(e)) * (1 + nrm(e)) * (1 + nrm(J)) * (1 + nrm(J)) * p * p *
          (1 + nrm(x)) * (1 + nrm(x));
    c.label(linear ? "linear residual" : "smooth residual");
  } else {
    Vec t = s.flag() ? gvec(s, n) : x + s.logreal(1e-9, 1) * gvec(s, n);
    Mat W = gmat(s, n, n);
    W = (W + W.transpose()).eval();
    auto q = std::make_shared<DistCost>(PManifold(VS(n)), Vec(E.cwiseProduct(x)), Mat(Ei.asDiagonal() * W * Ei.asDiagonal()));
    q->updateTarget(E.cwiseProduct(t));
    cost = q;
    Vec e = x - t;
    v = 0.5 * e.dot(W * e);
    g = W * e;
    H = W;
    mag = (1 + nrm(W)) * (1 + nrm(e)) * (1 + nrm(e)) * n * n;
    c.label("distance");
  }
  Vec xs = E.cwiseProduct(x), gs = Vec::Constant(n, 3.);
  Mat Hs = Mat::Constant(n, n, 3.);
  for (int k = s.range(1, 2); k--;) {
    c.close(cost->call(xs), v, 1e-11 * mag, "cost in other units");
    cost->computeGradient(xs, gs);
    mclose(c, E.cwiseProduct(gs), g, 1e-11 * mag, "gradient of a cost in other units");
    cost->computeHessian(xs, Hs);
    mclose(c, E.asDiagonal() * Hs * E.asDiagonal(), H, 1e-11 * mag, "Hessian of a cost in other units");
  }
  c.nontrivial();
}

/// A one-dimensional function used as a cost.
static void c15_downcast(Src &s, Ctx &c) {
  int n = s.tail(1, 6, 24), p = s.chance(1, 4) ? s.range(0, 3) : 1;
  SmoothData d = gsmooth(s, n, p);
  FnPtr f = std::make_shared<SmoothFn>(d);
  bool threw = false;
  CostPtr cost;
  try {
    cost = downcast_function_to_cost<double>(f);
  } catch (const std::runtime_error &) {
    threw = true;
  }
  c.note("nr", p);
  c.require(threw == (p != 1), "exactly the functions of codimension one can be cast to a cost");
  if (p != 1)
    return;
  c.require(cost->nx() == n && cost->ndx() == n, "dimensions of the cast cost");
  for (int k = 0; k < 8; k++) {
    Vec x = gvec(s, n);
    Mat J = d.jac(x);
    double tol = 1e-11 * (1 + nrm(x)) * (1 + nrm(x)) * (1 + nrm(J)) * n * n;
    check_cost_api(c, *cost, x, d.val(x)[0], J.row(0).transpose(), d.hess(x, 0), tol * (1 + std::fabs(d.val(x)[0])), k, s.num());
    // outputs that are segments of something larger
    Vec big = Vec::Constant(n + 4, 3.);
    cost->computeGradient(x, big.segment(2, n));
    mclose(c, big.segment(2, n), J.row(0).transpose(), tol, "gradient into a segment");
    c.require(big[1] == 3. && big[n + 2] == 3., "gradient wrote outside of its output");
  }
  c.nontrivial();
}

// ---------------------------------------------------------------- C16
struct Term {
  int i;
  double w;
};
struct SumModel {
  std::shared_ptr<CostSum> s;
  std::vector<Term> t;
  double scale() const {
    double r = 1;
    for (auto &q : t)
      r += std::fabs(q.w);
    return r;
  }
};

static void c16_sums(Src &s, Ctx &c) {
  const int n = s.tail(1, 4, 12);
  int nb = s.tail(1, 4, 10);
  std::vector<SmoothData> base;
  std::vector<CostPtr> bp;
  for (int i = 0; i < nb; i++) {
    base.push_back(gsmooth(s, n, 1));
    bp.push_back(std::make_shared<SmoothCost>(base.back()));
  }
  std::vector<SumModel> pool;
  auto check = [&](const SumModel &q, const std::string &how) {
    Vec x = gvec(s, n);
    c.require(q.s->nx() == n && q.s->ndx() == n, "dimensions of a sum");
    c.require(q.s->numComponents() == q.t.size() && q.s->weights_.size() == q.t.size(),
              "number of components after " + how);
    double v = 0;
    Vec g = Vec::Zero(n);
    Mat H = Mat::Zero(n, n);
    double mag = 1;
    for (size_t k = 0; k < q.t.size(); k++) {
      auto &t = q.t[k];
      c.close(q.s->weights_[k], t.w, 1e-14 * (1 + std::fabs(t.w)), "weight after " + how);
      auto &b = base[(size_t)t.i];
      v += t.w * b.val(x)[0];
      g += t.w * b.jac(x).row(0).transpose();
      H += t.w * b.hess(x, 0);
      mag += std::fabs(t.w) * (1 + std::fabs(b.val(x)[0]) + nrm(b.jac(x)) + nrm(b.hess(x, 0))) * (1 + nrm(x)) * (1 + nrm(x));
    }
    for (int what = 0; what < 8; what++)
      check_cost_api(c, *q.s, x, v, g, H, 1e-12 * mag, what, s.num());
    std::ostringstream o;
    o << *q.s;
    c.require(o.str().find("num_components=" + std::to_string(q.t.size()) + ",") != std::string::npos,
              "printed number of components");
  };
  int ops = s.tail(1, 12, 60);
  double wmax = 1;
  for (int k = 0; k < ops; k++) {
    int a = s.below((uint32_t)nb), b = s.below((uint32_t)nb);
    double w = s.num();
    std::string how;
    size_t pi = pool.empty() ? 0 : s.below((uint32_t)pool.size()), pj = pool.empty() ? 0 : s.below((uint32_t)pool.size());
    int op = pool.empty() ? s.below(3) : s.below(15);
    switch (op) {
    case 0:
      pool.push_back({bp[(size_t)a] + bp[(size_t)b], {{a, 1.}, {b, 1.}}});
      how = "c + c";
      break;
    case 1:
      pool.push_back({w * bp[(size_t)a], {{a, w}}});
      how = "w * c";
      break;
    case 2: {
      std::vector<CostPtr> comps{bp[(size_t)a], bp[(size_t)b]};
      std::vector<double> ws{w, 1.};
      pool.push_back({std::make_shared<CostSum>(n, n, comps, ws), {{a, w}, {b, 1.}}});
      how = "constructor";
      break;
    }
    case 3: {
      auto before = pool[pi].s;
      auto r = std::move(pool[pi].s) + bp[(size_t)a];
      pool[pi].s = r;
      pool[pi].t.push_back({a, 1.});
      how = "move(sum) + c";
      break;
    }
    case 4:
      pool[pi].s->addComponent(bp[(size_t)a], w);
      pool[pi].t.push_back({a, w});
      how = "addComponent(c, w)";
      break;
    case 5:
      pool[pi].s->addComponent(bp[(size_t)a]);
      pool[pi].t.push_back({a, 1.});
      how = "addComponent(c)";
      break;
    case 6:
      *pool[pi].s += bp[(size_t)a];
      pool[pi].t.push_back({a, 1.});
      how = "sum += c";
      break;
    case 7: {
      if (pool[pi].t.size() + pool[pj].t.size() > 40)
        break;
      *pool[pi].s += *pool[pj].s;
      auto cp = pool[pj].t;
      pool[pi].t.insert(pool[pi].t.end(), cp.begin(), cp.end());
      how = pi == pj ? "sum += itself" : "sum += sum";
      c.label(how);
      break;
    }
    case 8:
      *pool[pi].s *= w;
      for (auto &t : pool[pi].t)
        t.w = w * t.w;
      how = "sum *= w";
      break;
    case 9: {
      SumModel q{(*pool[pi].s) * w, pool[pi].t};
      for (auto &t : q.t)
        t.w = w * t.w;
      pool.push_back(q);
      how = "sum * w";
      break;
    }
    case 10: {
      SumModel q{w * (*pool[pi].s), pool[pi].t};
      for (auto &t : q.t)
        t.w = w * t.w;
      pool.push_back(q);
      how = "w * sum";
      break;
    }
    case 11: {
      SumModel q{-(*pool[pi].s), pool[pi].t};
      for (auto &t : q.t)
        t.w = -t.w;
      pool.push_back(q);
      how = "-sum";
      break;
    }
    case 12:
      *pool[pi].s = *pool[pj].s;
      pool[pi].t = std::vector<Term>(pool[pj].t);
      how = pi == pj ? "sum = itself" : "sum = sum";
      break;
    case 13:
      pool.push_back({std::make_shared<CostSum>(*pool[pi].s), pool[pi].t});
      if (pi != pj) { // the source of a move may be assigned again
        *pool[pj].s = std::move(*pool[pi].s);
        pool[pj].t = pool[pi].t;
        *pool[pi].s = *pool.back().s;
      }
      how = "copy, sum = move(sum), sum = copy";
      break;
    default: {
      pool.push_back({pool[pi].s->clone(), pool[pi].t});
      how = "clone";
    }
    }
    c.dump << how << " (sum " << pi << ", sum " << pj << ", cost " << a << ", w " << w << ")\n";
    for (auto &q : pool) // no operation may affect another sum
      c.require(q.s->numComponents() == q.t.size(), "component count of an unrelated sum after " + how);
  }
  for (auto &q : pool) {
    double m = q.scale();
    wmax = std::max(wmax, m);
    if (m > 1e12)
      throw Discard();
    check(q, "the history");
  }
  // sums nest: a sum used as a component
  if (s.chance(1, 3)) {
    auto &q = pool[s.below((uint32_t)pool.size())];
    CostPtr inner = q.s;
    double w = s.num();
    auto outer = w * inner;
    Vec x = gvec(s, n);
    double e = w * q.s->call(x);
    c.close(outer->call(x), e, 1e-12 * (1 + std::fabs(e)), "nested sum");
    const Cost &oc = *outer;
    mclose(c, oc.computeGradient(x), w * inner->computeGradient(x), 1e-10 * wmax * (1 + std::fabs(w)) * (1 + nrm(x)) * 100, "gradient of a nested sum");
  }
  if (ops > 2)
    c.nontrivial();
}

/// Weights and values which undo each other's scale.
static void c16_scales(Src &s, Ctx &c) {
  struct Scaled : Cost {
    SmoothData d;
    double f;
    Scaled(const SmoothData &d, double f) : Cost(d.n, d.n), d(d), f(f) {}
    double call(const ConstVectorRef &x) const override { return f * d.val(x)[0]; }
    void computeGradient(const ConstVectorRef &x, VectorRef g) const override { g = f * d.jac(x).row(0).transpose(); }
    void computeHessian(const ConstVectorRef &x, MatrixRef h) const override { h = f * d.hess(x, 0); }
  };
  const int n = s.range(1, 4), nb = s.range(1, 5);
  Vec x = gvec(s, n);
  double v = 0, mag = 1;
  Vec g = Vec::Zero(n);
  Mat H = Mat::Zero(n, n);
  auto sum = std::make_shared<CostSum>(n, n);
  for (int i = 0; i < nb; i++) {
    SmoothData d = gsmooth(s, n, 1);
    const double w = s.num();
    const int k = s.range(-120, 120);
    c.dump << "weight " << w << " * 2^" << k << "\n";
    CostPtr q = std::make_shared<Scaled>(d, std::ldexp(1., -k));
    if (s.flag())
      sum->addComponent(q, std::ldexp(w, k));
    else
      *sum += *(std::ldexp(w, k) * q);
    v += w * d.val(x)[0];
    g += w * d.jac(x).row(0).transpose();
    H += w * d.hess(x, 0);
    mag += std::fabs(w) * (1 + std::fabs(d.val(x)[0]) + nrm(d.jac(x)) + nrm(d.hess(x, 0))) * (1 + nrm(x)) * (1 + nrm(x));
  }
  for (int what = 0; what < 8; what++)
    check_cost_api(c, *sum, x, v, g, H, 1e-12 * mag, what, s.num());
  const double all = std::ldexp(1., s.range(-200, 200));
  auto r = all * *sum;
  c.close(r->call(x) / all, v, 1e-12 * mag, "value of a scaled sum");
  c.nontrivial();
}

static void c16_empty(Src &s, Ctx &c) {
  int n = s.tail(0, 5, 30);
  CostSum q(n, n);
  Vec x = gvec(s, n);
  Vec g = Vec::Constant(n, 3.);
  Mat H = Mat::Constant(n, n, 3.);
  q.computeGradient(x, g);
  q.computeHessian(x, H);
  c.require(q.call(x) == 0. && g.isZero(0.) && H.isZero(0.), "the empty sum is zero");
  c.nontrivial();
}

// ---------------------------------------------------------------- C17
static void c17_residuals(Src &s, Ctx &c) {
  Vec anchor;
  Residual r = gresidual(s, c, anchor);
  const int n = r.m.ndx(), p = r.f->nr();
  c.require(r.f->nx() == r.m.nx() && r.f->ndx() == n, "dimensions of a residual");
  for (int k = 0; k < 2; k++) {
    Vec x = near_point(s, r.m, anchor);
    Vec e = r.val(x);
    Mat J = r.jac(x);
    double tol = 1e-11 * (1 + nrm(e)) * (1 + nrm(J)) * (1 + nrm(x)) * (1 + n);
    mclose(c, (*r.f)(x), e, tol, "value of the residual");
    mclose(c, r.f->computeJacobian(x), J, tol, "Jacobian of the residual");
    Mat big = Mat::Constant(p + 2, n + 2, 6.);
    r.f->computeJacobian(x, big.block(1, 1, p, n));
    mclose(c, big.block(1, 1, p, n), J, tol, "Jacobian of the residual into a block");
    big.block(1, 1, p, n).setConstant(6.);
    c.require((big.array() == 6.).all(), "Jacobian wrote outside of its output");
    if (r.vhp) {
      Vec v = gvec(s, p);
      Mat H = Mat::Constant(n, n, 9.);
      r.f->vectorHessianProduct(x, v, H);
      mclose(c, H, r.vhp(x, v), tol * (1 + nrm(v)), "vector-Hessian product of the residual");
    }
  }
  if (n)
    c.nontrivial();
}

static void c17_compose(Src &s, Ctx &c) {
  // chain of 2..4 functions, associated arbitrarily
  int k = s.tail(2, 4, 9);
  std::vector<int> dims;
  for (int i = 0; i <= k; i++)
    dims.push_back(s.tail(1, 4, 10));
  std::vector<SmoothData> d; // d[0] applied first
  std::vector<FnPtr> f;
  for (int i = 0; i < k; i++) {
    d.push_back(gsmooth(s, dims[(size_t)i], dims[(size_t)i + 1]));
    d.back().c *= 0.1;
    d.back().B *= 0.25;
    f.push_back(std::make_shared<SmoothFn>(d.back()));
  }
  while (f.size() > 1) {
    size_t i = s.below((uint32_t)f.size() - 1);
    FnPtr g = compose<double>(f[i + 1], f[i]);
    f[i] = g;
    f.erase(f.begin() + (long)i + 1);
  }
  for (int rep = 0; rep < 2; rep++) {
    Vec x = gvec(s, dims[0]), y = x;
    Mat J = Mat::Identity(dims[0], dims[0]);
    double mag = 1 + nrm(x);
    for (auto &q : d) {
      Mat Jq = q.jac(y);
      J = Jq * J;
      y = q.val(y);
      mag *= (1 + nrm(Jq)) * (1 + nrm(y)) * 4;
    }
    if (!(mag < 1e8))
      throw Discard();
    c.note("dims", show(Eigen::Map<IVec>(dims.data(), (long)dims.size()).transpose()));
    c.require(f[0]->nx() == dims[0] && f[0]->ndx() == dims[0] && f[0]->nr() == dims.back(), "dimensions of a composition");
    mclose(c, (*f[0])(x), y, 1e-12 * mag, "value of a composition");
    mclose(c, f[0]->computeJacobian(x), J, 1e-11 * mag * mag, "chain rule");
  }
  // mismatched dimensions are rejected
  int a = s.range(1, 4), b = s.range(1, 4);
  bool threw = false;
  try {
    compose<double>(std::make_shared<LinFn>(Mat::Ones(2, a)), std::make_shared<LinFn>(Mat::Ones(b, 3)));
  } catch (const std::runtime_error &) {
    threw = true;
  }
  c.require(threw == (a != b), "composition must reject exactly the mismatched dimensions");
  c.nontrivial();
}

/// Functions of points in other units.
static void c17_scales(Src &s, Ctx &c) {
  const int k = s.range(1, 4);
  std::vector<int> dims;
  std::vector<Vec> U;
  for (int i = 0; i <= k; i++) {
    dims.push_back(s.range(1, 4));
    U.push_back(gunits(s, dims.back()));
    c.note("units", show(U.back().transpose()));
  }
  std::vector<SmoothData> d;
  std::vector<FnPtr> f;
  for (int i = 0; i < k; i++) {
    const Vec &E = U[(size_t)i], &D = U[(size_t)i + 1];
    d.push_back(gsmooth(s, dims[(size_t)i], dims[(size_t)i + 1]));
    SmoothData &q = d.back();
    q.c *= 0.1;
    q.B *= 0.25;
    switch (s.below(3)) {
    case 0: // A x + b
      q.Q.assign((size_t)q.m, Mat::Zero(q.n, q.n));
      q.a.setZero();
      f.push_back(std::make_shared<LinFn>(Mat(D.asDiagonal() * q.B * E.cwiseInverse().asDiagonal()), Vec(D.cwiseProduct(q.c))));
      break;
    case 1:
      if (q.n == q.m) { // x - t
        q.Q.assign((size_t)q.m, Mat::Zero(q.n, q.n));
        q.a.setZero();
        q.B.setIdentity();
        U[(size_t)i + 1] = E; // the same units
        f.push_back(std::make_shared<DiffFn>(PManifold(VS(q.n)), Vec(-E.cwiseProduct(q.c))));
        break;
      }
      // fall through
    default:
      f.push_back(std::make_shared<UnitsFn>(q, E, D));
    }
  }
  while (f.size() > 1) {
    size_t i = s.below((uint32_t)f.size() - 1);
    FnPtr g = compose<double>(f[i + 1], f[i]);
    f[i] = g;
    f.erase(f.begin() + (long)i + 1);
  }
  for (int rep = s.range(1, 2); rep--;) {
    Vec x = gvec(s, dims[0]), y = x;
    Mat J = Mat::Identity(dims[0], dims[0]);
    double mag = 1 + nrm(x);
    for (auto &q : d) {
      Mat Jq = q.jac(y);
      J = Jq * J;
      y = q.val(y);
      mag *= (1 + nrm(Jq)) * (1 + nrm(y)) * 4;
    }
    if (!(mag < 1e8))
      throw Discard();
    c.note("x", show(x.transpose()));
    const Vec &E = U[0], &D = U.back();
    Vec xs = E.cwiseProduct(x);
    mclose(c, (*f[0])(xs).cwiseQuotient(D), y, 1e-12 * mag, "value of a function in other units");
    Mat Js = Mat::Constant(dims.back(), dims[0], 4.);
    f[0]->computeJacobian(xs, Js);
    mclose(c, D.cwiseInverse().asDiagonal() * Js * E.asDiagonal(), J, 1e-11 * mag * mag, "Jacobian of a function in other units");
  }
  c.nontrivial();
}

static void c17_target(Src &s, Ctx &c) {
  Model m;
  PManifold sp = gspace(s, m, s.below(3), 1, 3, 16);
  Vec t = m.point(s);
  m.each([&](const Leaf &q, int a, int) {
    if (q.k != Leaf::R && s.chance(1, 3))
      t.segment(a, q.nx()) *= 3.;
  });
  bool threw = false;
  try {
    DiffFn f(sp, t);
    mclose(c, f.target_, t, 0., "stored target");
  } catch (const std::runtime_error &) {
    threw = true;
  }
  c.note("space", m.name);
  c.require(threw == !m.isNormalized(t), "exactly the points off the manifold are rejected as targets");
  if (threw)
    c.nontrivial();
}

static void c17_fd(Src &s, Ctx &c) {
  Model m;
  PManifold sp = gspace(s, m, s.below(2), 1, 3);
  const int n = m.ndx();
  Vec x0 = m.point(s);
  SmoothData d = gsmooth(s, n, s.range(1, 3));
  SmoothOnManifold f(d, m, x0);
  double eps = s.logreal(1e-6, 1e-3);
  using FD1 = autodiff::finite_difference_wrapper<double, autodiff::TOC1>;
  using FD2 = autodiff::finite_difference_wrapper<double, autodiff::TOC2>;
  FD1 f1(*sp, f, eps);
  FD2 f2(*sp, f, eps);
  c.note("space", m.name);
  c.note("eps", eps);
  c.require(f1.nx() == m.nx() && f1.ndx() == n && f1.nr() == d.m && f2.nx() == m.nx() && f2.ndx() == n && f2.nr() == d.m,
            "dimensions of a finite difference wrapper");
  for (int k = 0; k < 2; k++) {
    Vec v = m.tangent(s);
    if (v.norm() > 2)
      v *= 2 / v.norm();
    Vec x = m.integrate(x0, v);
    Vec val = f(x);
    Mat J = f.computeJacobian(x);
    mclose(c, f1(x), val, 0., "finite difference wrapper changes the value");
    mclose(c, f2(x), val, 0., "finite difference wrapper changes the value");
    mclose(c, f2.computeJacobian(x), J, 0., "second-order wrapper changes the Jacobian");
    double mag = 1 + nrm(val) + nrm(J) + nrm(d.a) + nrm(d.c) + nrm(d.B);
    for (auto &q : d.Q)
      mag += nrm(q);
    mag *= (1 + nrm(x0)) * n;
    mclose(c, f1.computeJacobian(x), J, mag * (200 * eps * eps + 1e-14 / eps), "finite difference Jacobian");
    // second derivatives: only where the Jacobian's columns live in one vector space
    Vec w = gvec(s, d.m);
    Mat H = Mat::Constant(n, n, 8.), Hr(n, n);
    f2.vectorHessianProduct(x, w, H);
    { // linear in the multipliers, however small or large
      const double u = std::ldexp(1., s.range(-80, 80));
      Mat Hu = Mat::Constant(n, n, -3.);
      f2.vectorHessianProduct(x, u * w, Hu);
      mclose(c, Mat(Hu / u), H, 1e-11 * nrm(H), "vector-Hessian product is not homogeneous in the multipliers");
    }
    for (int i = 0; i < n; i++) {
      auto g = [&](double t) {
        Vec e = Vec::Zero(n);
        e[i] = t;
        return Mat(f.computeJacobian(m.integrate(x, e)).transpose() * w);
      };
      Hr.col(i) = fd_dir(g, 1e-2);
    }
    mclose(c, H, Hr, (1 + nrm(w)) * d.m * mag * (400 * eps * eps + 1e-13 / eps + 1e-6), "finite difference vector-Hessian product");
    if (!m.curved()) {
      Mat He = d.vhp(m.difference(x0, x), w);
      mclose(c, H, He, (1 + nrm(w)) * d.m * mag * (400 * eps * eps + 1e-13 / eps), "vector-Hessian product on a flat space");
    }
    // a twice-differenced value function
    if (k == 0 && !m.curved() && s.chance(1, 2)) {
      double e2 = s.logreal(1e-3, 1e-2);
      FD1 a(*sp, f, e2);
      FD2 b(*sp, a, e2);
      Mat H2(n, n);
      b.vectorHessianProduct(x, w, H2);
      Mat He = d.vhp(m.difference(x0, x), w);
      mclose(c, H2, He, (1 + nrm(w)) * d.m * mag * (800 * e2 * e2 + 1e-13 / (e2 * e2)), "twice-differenced function");
    }
  }
  c.nontrivial();
}

int main(int argc, char **argv) {
  std::vector<Sub> subs = {
      {"C15", "quadratic", 300000, 4000000, c15_quadratic, "at least two evaluations in the history"},
      {"C15", "distance", 200000, 3000000, c15_distance, "every case"},
      {"C15", "scales", 60000, 600000, c15_scales, "every case"},
      {"C15", "downcast", 100000, 1000000, c15_downcast, "the function has codimension one"},
      {"C16", "sums", 200000, 3000000, c16_sums, "at least three operations"},
      {"C16", "scales", 40000, 400000, c16_scales, "every case"},
      {"C16", "empty", 5000, 20000, c16_empty, "every case"},
      {"C17", "residuals", 200000, 3000000, c17_residuals, "positive dimension"},
      {"C17", "compose", 200000, 3000000, c17_compose, "every case"},
      {"C17", "scales", 60000, 600000, c17_scales, "every case"},
      {"C17", "target", 50000, 500000, c17_target, "the target is off the manifold"},
      {"C17", "fd", 100000, 1000000, c17_fd, "every case"},
  };
  return engine_main(argc, argv, subs);
}
