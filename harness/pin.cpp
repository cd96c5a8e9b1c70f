// C27 wrappers of Pinocchio's groups, models and rigid transformations (against a stand-in of Pinocchio, see stubs/pinocchio)
#include "axioms.hpp"
#include "nlp.hpp"
#include <proxsuite-nlp/modelling/residuals/rigid-transform-point.hpp>
#include <proxsuite-nlp/modelling/residuals/state-residual.hpp>
#include <proxsuite-nlp/modelling/costs/squared-distance.hpp>
#include <proxsuite-nlp/modelling/autodiff/finite-difference.hpp>
#include <proxsuite-nlp/modelling/spaces/multibody.hpp>

using namespace vp;
using namespace proxsuite::nlp;
using G = pinocchio::stub::Group;
using PModel = pinocchio::ModelTpl<double>;
using Config = MultibodyConfiguration<double>;
using Phase = MultibodyPhaseSpace<double>;
using nlp::ConvergenceFlag;

/// Reference: a space is a sequence of groups.
struct PinModel {
  std::vector<G> g;
  std::string name;
  int nx() const {
    int r = 0;
    for (auto &q : g)
      r += q.nq();
    return r;
  }
  int ndx() const {
    int r = 0;
    for (auto &q : g)
      r += q.nv();
    return r;
  }
  template <class F> void each(F &&f) const {
    int a = 0, b = 0;
    for (auto &q : g) {
      f(q, a, b);
      a += q.nq();
      b += q.nv();
    }
  }
  void append(const PinModel &o) { g.insert(g.end(), o.g.begin(), o.g.end()); }
  Vec tangent(Src &s) const {
    Vec v(ndx());
    each([&](const G &q, int, int b) {
      Vec w = gvec(s, q.nv());
      int r = q.kind == 0 ? 0 : q.dim() == 2 ? 1 : 3;
      double m = r ? w.tail(r).norm() : 0;
      if (m > 2.)
        w.tail(r) *= 2. / m;
      v.segment(b, q.nv()) = w;
    });
    return v;
  }
  Vec point(Src &s) const {
    Vec x(nx());
    each([&](const G &q, int a, int) {
      Vec w = gvec(s, q.nv());
      Vec y = q.integrate(q.neutral(), w);
      x.segment(a, q.nq()) = y;
    });
    return x;
  }
  Vec integrate(const Vec &x, const Vec &v) const {
    Vec o(nx());
    each([&](const G &q, int a, int b) { o.segment(a, q.nq()) = q.integrate(x.segment(a, q.nq()), v.segment(b, q.nv())); });
    return o;
  }
  Vec difference(const Vec &x, const Vec &y) const {
    Vec o(ndx());
    each([&](const G &q, int a, int b) { o.segment(b, q.nv()) = q.difference(x.segment(a, q.nq()), y.segment(a, q.nq())); });
    return o;
  }
  Vec neutral() const {
    Vec o(nx());
    each([&](const G &q, int a, int) { o.segment(a, q.nq()) = q.neutral(); });
    return o;
  }
  Mat Jintegrate(const Vec &x, const Vec &v, int arg) const {
    Mat o = Mat::Zero(ndx(), ndx());
    each([&](const G &q, int a, int b) {
      o.block(b, b, q.nv(), q.nv()) = q.dIntegrate(x.segment(a, q.nq()), v.segment(b, q.nv()), arg);
    });
    return o;
  }
  Mat Jdifference(const Vec &x, const Vec &y, int arg) const {
    Mat o = Mat::Zero(ndx(), ndx());
    each([&](const G &q, int a, int b) {
      o.block(b, b, q.nv(), q.nv()) = q.dDifference(x.segment(a, q.nq()), y.segment(a, q.nq()), arg);
    });
    return o;
  }
  bool isNormalized(const Vec &x) const {
    bool r = true;
    each([&](const G &q, int a, int) { r = r && q.isNormalized(x.segment(a, q.nq()), 1e-6); });
    return r;
  }
};

static const char *const KN[] = {"R", "SO2", "SO3", "SE2", "SE3"};
static G ggroup(Src &s) {
  G g;
  g.kind = (int)s.below(5);
  if (g.kind == 0)
    g.n = s.range(0, 3);
  return g;
}
template <class LG> static PManifold wrap(Src &s, bool bundle, LG lg = LG()) {
  using W = PinocchioLieGroup<LG>;
  if (bundle)
    return PManifold(TangentBundleTpl<W>(W(lg)));
  switch (s.below(4)) {
  case 0:
    return PManifold(W(lg));
  case 1: {
    W a(std::move(lg)), b(a);
    return PManifold(b);
  }
  case 2: {
    const W a(lg);
    W b(a), d(std::move(b));
    return PManifold(d);
  }
  default: {
    W a(lg);
    LG back = a;
    return PManifold(W(back));
  }
  }
}
static PManifold gpin(Src &s, PinModel &m, int depth) {
  int k = (int)s.below(depth > 0 ? 5 : 4);
  switch (k) {
  case 0:
  case 1: { // a group, or its bundle
    G g = ggroup(s);
    bool b = k == 1;
    m.g.push_back(g);
    if (b) {
      G r;
      r.n = g.nv();
      m.g.push_back(r);
    }
    m.name += std::string(b ? "T" : "") + KN[g.kind] + (g.kind ? "" : std::to_string(g.n));
    switch (g.kind) {
    case 0: {
      using LG = pinocchio::VectorSpaceOperationTpl<-1, double>;
      if (!b && s.flag())
        return PManifold(PinocchioLieGroup<LG>(g.n));
      return wrap<LG>(s, b, LG(g.n));
    }
    case 1:
      return wrap<pinocchio::SpecialOrthogonalOperationTpl<2, double>>(s, b);
    case 2:
      return wrap<pinocchio::SpecialOrthogonalOperationTpl<3, double>>(s, b);
    case 3:
      return wrap<pinocchio::SpecialEuclideanOperationTpl<2, double>>(s, b);
    default:
      return wrap<pinocchio::SpecialEuclideanOperationTpl<3, double>>(s, b);
    }
  }
  case 2:
  case 3: { // a model, or its phase space
    auto pm = std::make_unique<PModel>();
    int n = s.range(0, 3);
    m.name += k == 2 ? "Q{" : "TQ{";
    for (int i = 0; i < n; i++) {
      G g = ggroup(s);
      pm->add(g);
      m.g.push_back(g);
      m.name += std::string(i ? "," : "") + KN[g.kind];
    }
    m.name += "}";
    if (k == 3) {
      G r;
      r.n = pm->nv;
      m.g.push_back(r);
    }
    PModel other; // for assignment over another space
    other.add(ggroup(s));
    PManifold out = PManifold(VS(0));
    if (k == 2) {
      Config a(*pm);
      if (s.flag()) {
        Config b(other);
        b = a;
        out = PManifold(b);
      } else if (s.flag()) {
        Config b(std::move(a));
        out = PManifold(b);
      } else
        out = PManifold(a);
    } else {
      Phase a(*pm);
      if (s.flag()) {
        Phase b(other);
        b = std::move(a);
        out = PManifold(b);
      } else
        out = PManifold(a);
    }
    // the space has a model of its own
    pm->joints.clear();
    pm->nq = pm->nv = -5;
    return out;
  }
  default: {
    int nc = s.range(1, 3);
    CProd p;
    m.name += "(";
    for (int i = 0; i < nc; i++) {
      m.name += i ? " x " : "";
      p.addComponent(gpin(s, m, depth - 1));
    }
    m.name += ")";
    return PManifold(p);
  }
  }
}
static bool big(const PinModel &m) {
  for (auto &g : m.g)
    if (g.kind >= 2)
      return true;
  return false;
}
static void c27_axioms(Src &s, Ctx &c) {
  PinModel m;
  PManifold M = gpin(s, m, 1);
  axioms(s, c, *M, m);
}
/// Each operation equals the operation of the group or model, argument by argument.
static void c27_delegation(Src &s, Ctx &c) {
  PinModel m;
  PManifold P = gpin(s, m, s.below(3));
  const Manifold &M = *P;
  c.note("space", m.name);
  c.require(M.nx() == m.nx() && M.ndx() == m.ndx(), "dimensions");
  Vec x = m.point(s), y = s.flag() ? m.point(s) : m.integrate(x, m.tangent(s)), v = m.tangent(s);
  c.note("x", show(x.transpose()));
  c.note("y", show(y.transpose()));
  c.note("v", show(v.transpose()));
  const double tol = 1e-12 * (1 + nrm(x) + nrm(y) + nrm(v)) * (1 + nrm(v));
  mclose(c, Xint(c, M, x, v), m.integrate(x, v), tol, "integrate");
  mclose(c, Xdiff(c, M, x, y), m.difference(x, y), 10 * tol, "difference");
  double u = s.chance(1, 4) ? (s.flag() ? 0. : 1.) : s.real(-0.5, 1.5);
  Vec z(m.nx());
  m.each([&](const G &g, int a, int) {
    Vec p = x.segment(a, g.nq()), q = y.segment(a, g.nq());
    z.segment(a, g.nq()) = g.integrate(p, Vec(u * g.difference(p, q)));
  });
  Vec zi = Xinterp(c, M, x, y, u);
  c.require(m.isNormalized(zi), "interpolate left the space");
  mclose(c, m.difference(z, zi), Vec::Zero(m.ndx()), 100 * tol * (1 + nrm(z)), "interpolate"); // up to the sign of quaternions
  for (int arg = 0; arg < 2; arg++) {
    Mat J = m.Jintegrate(x, v, arg);
    mclose(c, XJint(c, M, x, v, arg), J, tol * (1 + nrm(J)), "Jintegrate");
    Mat D = m.Jdifference(x, y, arg);
    mclose(c, XJdiff(c, M, x, y, arg), D, 1e-10 * (1 + nrm(D)), "Jdifference");
    int k = s.range(0, 3);
    Mat A = gmat(s, m.ndx(), k);
    OutMat o(m.ndx(), k);
    o.ref() = A;
    M.JintegrateTransport(x, v, o.ref(), arg);
    mclose(c, o.get(c, "JintegrateTransport"), J * A, 10 * tol * (1 + nrm(J)) * (1 + nrm(A)), "JintegrateTransport");
  }
  mclose(c, M.neutral(), m.neutral(), 0., "neutral");
  Vec w = x;
  m.each([&](const G &g, int a, int) {
    if (g.kind && s.chance(1, 3)) {
      int r = g.dim() == 2 ? 2 : 4;
      w.segment(a + g.nq() - r, r) *= s.flag() ? 2. : 0.;
    }
  });
  c.require(M.isNormalized(x), "isNormalized rejects a point of the space");
  c.require(M.isNormalized(w) == m.isNormalized(w), "isNormalized disagrees with the group");
  if (big(m))
    c.nontrivial();
}
/// Velocities far below the other numbers: nothing is negligible.
static void c27_scales(Src &s, Ctx &c) {
  PinModel m;
  PManifold P = gpin(s, m, s.below(3));
  const Manifold &M = *P;
  Vec x = s.flag() ? m.neutral() : m.point(s), v = m.tangent(s);
  const double unit = std::pow(10., -s.range(2, 30));
  v *= unit;
  if (s.flag())
    for (long i = 0; i < v.size(); i++)
      if (s.chance(1, 3))
        v[i] *= std::pow(10., -s.range(1, 20));
  c.note("space", m.name);
  c.note("x", show(x.transpose()));
  c.note("v", show(v.transpose()));
  auto same = [&](const Mat &a, const Mat &b, const char *what) {
    for (long j = 0; j < b.cols(); j++)
      for (long i = 0; i < b.rows(); i++)
        c.close(a(i, j), b(i, j), 1e-9 * std::fabs(b(i, j)) + 1e-300, what);
  };
  Vec y = m.integrate(x, v);
  same(Xint(c, M, x, v), y, "integrate with a small velocity");
  same(Xdiff(c, M, x, y), m.difference(x, y), "difference of close points");
  for (int arg = 0; arg < 2; arg++) {
    same(XJint(c, M, x, v, arg), m.Jintegrate(x, v, arg), "Jintegrate with a small velocity");
    same(XJdiff(c, M, x, y, arg), m.Jdifference(x, y, arg), "Jdifference of close points");
  }
  if (nrm(v) > 0)
    c.nontrivial();
}
/// Too short vectors are rejected without being read; models are available again.
static void c27_wrappers(Src &s, Ctx &c) {
  auto shorter = [&](auto &&W, int nq) {
    if (nq == 0)
      return;
    std::vector<double> buf((size_t)s.range(0, nq - 1)); // exactly sized: reading on is an error for the sanitizers
    Eigen::Map<Vec> x(buf.data(), (long)buf.size());
    c.require(!W.isNormalized(x), "isNormalized accepts a vector which is too short");
  };
  using SO2 = PinocchioLieGroup<pinocchio::SpecialOrthogonalOperationTpl<2, double>>;
  SO2 a;
  SOTpl<3, double> b;
  SETpl<2, double> d;
  SETpl<3, double> e;
  shorter(a, 2), shorter(b, 4), shorter(d, 4), shorter(e, 7);
  c.require(a.nx() == 2 && a.ndx() == 1 && b.nx() == 4 && b.ndx() == 3 && d.nx() == 4 && d.ndx() == 3 && e.nx() == 7 && e.ndx() == 6,
            "dimensions of the groups");
  PModel m;
  m.tag = s.range(1, 1000);
  int n = s.range(1, 4);
  for (int i = 0; i < n; i++)
    m.add(ggroup(s));
  Config q(m);
  Phase p(m);
  const int tag = m.tag;
  m.tag = -1;
  Config q2(q);
  PModel o;
  Phase p2(o);
  c.require(p2.nx() == 0 && p2.ndx() == 0, "phase space of an empty model");
  p2 = p;
  c.require(q.getModel().tag == tag && q2.getModel().tag == tag && p.getModel().tag == tag && p2.getModel().tag == tag,
            "the model of a space is not the one it was built from");
  c.require(p.getBaseSpace().getModel().tag == tag, "model of the configuration space of a phase space");
  c.require(q.nx() == m.nq && q.ndx() == m.nv && p2.nx() == m.nq + m.nv && p2.ndx() == 2 * m.nv, "dimensions of a model space");
  auto T = p.tangentSpace();
  c.require(T.nx() == 2 * m.nv, "tangent space of a phase space");
  c.nontrivial();
}
static const G SE3G = [] {
  G g;
  g.kind = 4;
  return g;
}();
using Action = RigidTransformationPointActionTpl<double>;
static void c27_point_action(Src &s, Ctx &c) {
  PinModel m;
  m.g.push_back(SE3G);
  V3 p(s.num(), s.num(), s.num());
  std::shared_ptr<Action> f = std::make_shared<Action>(p);
  if (s.flag())
    f = std::make_shared<Action>(Action(*f));
  c.require(f->nx() == 7 && f->ndx() == 6 && f->nr() == 3, "dimensions");
  c.require(f->space_.nx() == 7 && f->space_.ndx() == 6 && f->point_ == p, "members");
  c.require(M3(f->skew_point()) == skew3(p), "skew_point");
  int rounds = s.range(1, 3);
  for (int i = 0; i < rounds; i++) {
    Vec x = m.point(s), d = m.tangent(s);
    if (i && s.range(0, 2) == 0) { // the point is a public member
      p = V3(s.num(), s.num(), s.num());
      f->point_ = p;
      c.label("point written");
      c.require(M3(f->skew_point()) == skew3(p), "skew_point after the point was written");
    }
    c.note("x", show(x.transpose()));
    c.note("point", show(p.transpose()));
    Vec store = gvec(s, 12); // the point may be part of a larger vector
    int at = s.range(0, 5);
    store.segment(at, 7) = x;
    auto xr = store.segment(at, 7);
    Mat R = SE3G.rotation(x);
    const double tol = 1e-13 * (1 + nrm(x)) * (1 + nrm(Mat(p)));
    mclose(c, (*f)(xr), R * p + x.head(3), tol, "image of the point");
    OutMat o(3, 6);
    f->computeJacobian(xr, o.ref());
    Mat J = o.get(c, "computeJacobian");
    Mat ref(3, 6);
    ref << R, -R * skew3(p);
    mclose(c, J, ref, tol, "Jacobian");
    mclose(c, static_cast<const Fn &>(*f).computeJacobian(x), ref, tol, "Jacobian which is returned");
    auto g = [&](double t) { return Mat((*f)(m.integrate(x, t * d))); };
    mclose(c, J * d, fd_dir(g, 1e-2), 1e-7 * (1 + nrm(x)) * (1 + nrm(Mat(p))) * (1 + nrm(d)) * (1 + nrm(d)), "Jacobian against finite differences");
    // the finite-difference wrapper on the same group agrees
    autodiff::finite_difference_wrapper<double, autodiff::TOC1> w(f->space_, *f, 1e-4);
    mclose(c, w.computeJacobian(x), ref, 1e-6 * (1 + nrm(Mat(p))) * (1 + nrm(x)), "finite-difference wrapper");
    c.require(store.segment(at, 7) == x, "input was changed");
  }
  c.nontrivial();
}
/// Residuals and costs on the wrapped groups: values and derivatives.
static void c27_costs(Src &s, Ctx &c) {
  PinModel m;
  PManifold M = gpin(s, m, 1);
  c.note("space", m.name);
  Vec t = m.point(s), x = m.integrate(t, m.tangent(s)), d = m.tangent(s);
  c.note("target", show(t.transpose()));
  c.note("x", show(x.transpose()));
  const int n = m.ndx();
  ManifoldDifferenceToPoint<double> r(M, t);
  const double tol = 1e-10 * (1 + nrm(x) + nrm(t));
  mclose(c, r(x), m.difference(t, x), tol, "difference to a point");
  Mat J = r.computeJacobian(x);
  mclose(c, J, m.Jdifference(t, x, 1), tol * 10, "Jacobian of the difference to a point");
  Mat W = gmat(s, n, n);
  W = (W * W.transpose()).eval();
  QuadraticDistanceCostTpl<double> q(M, t, W);
  Vec e = m.difference(t, x);
  c.close(q.call(x), 0.5 * e.dot(W * e), tol * (1 + nrm(e)) * (1 + nrm(W)) * (n + 1), "squared distance");
  Vec g = Vec::Zero(n);
  q.computeGradient(x, g);
  mclose(c, g, J.transpose() * (W * e), tol * 10 * (1 + nrm(W)) * (1 + nrm(e)) * (1 + nrm(J)) * (n + 1), "gradient of the squared distance");
  Vec fdg(1);
  if (n) {
    auto f = [&](double h) { return Mat(Vec::Constant(1, q.call(m.integrate(x, h * d)))); };
    mclose(c, Mat(Vec::Constant(1, g.dot(d))), fd_dir(f, 1e-2),
           1e-6 * (1 + nrm(W)) * (1 + nrm(e)) * (1 + nrm(e)) * (1 + nrm(d)) * (1 + nrm(d)) * (1 + nrm(x)), "gradient against finite differences");
  }
  if (big(m))
    c.nontrivial();
}
/// Inverse kinematics of one body: move it little such that a point of it has a position in a set.
static void c27_solve(Src &s, Ctx &c) {
  PinModel m;
  m.g.push_back(SE3G);
  V3 p(s.real(-2, 2), s.real(-2, 2), s.real(-2, 2));
  auto f = std::make_shared<Action>(p);
  PManifold M = PManifold(SETpl<3, double>());
  Vec rest = SE3G.integrate(SE3G.neutral(), 0.4 * m.tangent(s)), start = m.integrate(rest, 0.2 * m.tangent(s));
  Mat W = Mat::Zero(6, 6);
  for (int i = 0; i < 6; i++)
    W(i, i) = s.real(0.5, 2);
  auto cost = std::make_shared<QuadraticDistanceCostTpl<double>>(M, rest, W);
  V3 goal = (*f)(rest);
  bool box = s.flag();
  Vec lo(3), hi(3);
  for (int i = 0; i < 3; i++) {
    double w = s.real(-1, 1);
    lo[i] = goal[i] + w, hi[i] = lo[i] + (box ? s.real(0, 1) : 0);
  }
  std::vector<nlp::ConstraintObjectTpl<double>> cs;
  if (box)
    cs.emplace_back(f, nlp::BoxConstraintTpl<double>(lo, hi));
  else {
    auto h = std::make_shared<Action>(p);
    // h(x) - goal as a linear function of the position
    auto lin = std::make_shared<nlp::LinearFunctionTpl<double>>(Mat(Mat::Identity(3, 3)), Vec(-lo));
    cs.emplace_back(nlp::compose<double>(lin, h), nlp::EqualityConstraintTpl<double>());
  }
  Problem pb(M, cost, cs);
  const double tol = s.logreal(1e-7, 1e-3);
  Solver sv(pb, tol, 0.01, 0., nlp::QUIET);
  sv.hess_approx = HessianApprox::GAUSS_NEWTON;
  sv.max_iters = 200;
  sv.setup();
  ConvergenceFlag fl = sv.solve(start, Vec(Vec::Zero(3)));
  c.note("flag", (int)fl);
  c.require(sv.results_->converged == fl, "flags differ");
  Vec x = sv.results_->x_opt;
  if (fl != ConvergenceFlag::SUCCESS) {
    c.label("not solved");
    return;
  }
  c.require(x.size() == 7 && std::fabs(x.tail(4).norm() - 1) < 1e-9, "the solution is not on the manifold");
  Vec y = SE3G.rotation(x) * p + x.head(3), l = sv.results_->data_lams_opt;
  for (int i = 0; i < 3; i++) {
    double viol = std::max({lo[i] - y[i], y[i] - hi[i], 0.});
    c.require(viol <= 1.001 * tol + 1e-12, "the goal is not reached at SUCCESS");
  }
  Mat R = SE3G.rotation(x), Jf(3, 6);
  Jf << R, -R * skew3(p);
  Vec e = m.difference(x, rest), st = m.Jdifference(x, rest, 0).transpose() * (W * e) + Jf.transpose() * l;
  c.require(nrm(st) <= 1.001 * tol + 1e-10, "not stationary at SUCCESS");
  c.label("solved");
  if (sv.results_->num_iters > 0)
    c.nontrivial();
}

int main(int argc, char **argv) {
  std::vector<Sub> subs = {
      {"C27", "axioms", 30000, 300000, c27_axioms, "the tangent space has a dimension"},
      {"C27", "delegation", 30000, 300000, c27_delegation, "a group with rotations in space or rigid motions"},
      {"C27", "scales", 40000, 400000, c27_scales, "the velocity is not zero"},
      {"C27", "wrappers", 10000, 60000, c27_wrappers, "every case"},
      {"C27", "point_action", 20000, 200000, c27_point_action, "every case"},
      {"C27", "costs", 15000, 150000, c27_costs, "a group with rotations in space or rigid motions"},
      {"C27", "solve", 2000, 30000, c27_solve, "SUCCESS after at least one iteration"},
  };
  return engine_main(argc, argv, subs);
}
