// Nonlinear programs with reference evaluations, and solver configurations.
#pragma once
#include "funcs.hpp"
#include "sets.hpp"
#include <proxsuite-nlp/prox-solver.hpp>

namespace vp {
using Problem = nlp::ProblemTpl<double>;
using Solver = nlp::ProxNLPSolverTpl<double>;
using Workspace = nlp::WorkspaceTpl<double>;
using Results = nlp::ResultsTpl<double>;
using CObj = nlp::ConstraintObjectTpl<double>;
using Callback = nlp::helpers::base_callback<double>;
using nlp::ConvergenceFlag;
using nlp::HessianApprox;
using nlp::LDLTChoice;
using nlp::MultiplierUpdateMode;

/// g(x (-) x0) as a cost on a manifold
struct SmoothCostM : Cost {
  SmoothData d;
  Model m;
  Vec x0;
  SmoothCostM(const SmoothData &d, const Model &m, const Vec &x0) : Cost(m.nx(), m.ndx()), d(d), m(m), x0(x0) {}
  double call(const ConstVectorRef &x) const override { return d.val(m.difference(x0, x))[0]; }
  void computeGradient(const ConstVectorRef &x, VectorRef o) const override {
    o = m.Jdifference(x0, x, 1).transpose() * d.jac(m.difference(x0, x)).row(0).transpose();
  }
  void computeHessian(const ConstVectorRef &x, MatrixRef o) const override {
    Mat J = m.Jdifference(x0, x, 1);
    o = J.transpose() * d.hess(m.difference(x0, x), 0) * J;
  }
  using Cost::computeGradient;
  using Cost::computeHessian;
};
/// evaluations can be made to fail
struct Fault {
  int mode = 0; // 0 off, 1 NaN value, 2 NaN derivative, 3 NaN hessian, 4 throw, 5 inf value
  long after = 0, calls = 0;
  bool hit(int m) {
    if (mode != m)
      return false;
    return calls++ >= after;
  }
};
struct FaultyCost : Cost {
  CostPtr in;
  std::shared_ptr<Fault> f;
  FaultyCost(CostPtr c, std::shared_ptr<Fault> f) : Cost(c->nx(), c->ndx()), in(c), f(f) {}
  double call(const ConstVectorRef &x) const override {
    if (f->hit(4))
      throw std::runtime_error("injected");
    double v = in->call(x);
    if (f->hit(1))
      return std::numeric_limits<double>::quiet_NaN();
    if (f->hit(5))
      return std::numeric_limits<double>::infinity();
    return v;
  }
  void computeGradient(const ConstVectorRef &x, VectorRef o) const override {
    in->computeGradient(x, o);
    if (f->hit(2))
      o[o.size() / 2] = std::numeric_limits<double>::quiet_NaN();
  }
  void computeHessian(const ConstVectorRef &x, MatrixRef o) const override {
    in->computeHessian(x, o);
    if (f->hit(3))
      o(0, 0) = std::numeric_limits<double>::quiet_NaN();
  }
  using Cost::computeGradient;
  using Cost::computeHessian;
};
struct FaultyFn : Fn {
  FnPtr in;
  std::shared_ptr<Fault> f;
  FaultyFn(FnPtr c, std::shared_ptr<Fault> f) : Fn(c->nx(), c->ndx(), c->nr()), in(c), f(f) {}
  VectorXs operator()(const ConstVectorRef &x) const override {
    if (f->hit(4))
      throw std::runtime_error("injected");
    VectorXs v = (*in)(x);
    if (f->hit(1))
      v[v.size() / 2] = std::numeric_limits<double>::quiet_NaN();
    if (f->hit(5))
      v[v.size() - 1] = std::numeric_limits<double>::infinity();
    return v;
  }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    in->computeJacobian(x, J);
    if (f->hit(2))
      J(0, 0) = std::numeric_limits<double>::quiet_NaN();
  }
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef H) const override {
    in->vectorHessianProduct(x, v, H);
    if (f->hit(3))
      H(0, 0) = std::numeric_limits<double>::quiet_NaN();
  }
  using Fn::computeJacobian;
};

/// A problem together with an independent evaluation of its data.
struct Prog {
  Model m;
  PManifold space = PManifold(VS(1));
  CostPtr cost;
  std::function<double(const Vec &)> f;
  std::function<Vec(const Vec &)> g;
  struct C {
    FnPtr fn;
    std::function<Vec(const Vec &)> val;
    std::function<Mat(const Vec &)> jac;
    RefSet set;
    PSet pset = PSet(Eq());
    int nr = 0;
  };
  std::vector<C> cs;
  int nc() const {
    int r = 0;
    for (auto &q : cs)
      r += q.nr;
    return r;
  }
  int ndx() const { return m.ndx(); }
  Vec c(const Vec &x) const {
    Vec o(nc());
    int a = 0;
    for (auto &q : cs) {
      o.segment(a, q.nr) = q.val(x);
      a += q.nr;
    }
    return o;
  }
  Mat J(const Vec &x) const {
    Mat o(nc(), ndx());
    int a = 0;
    for (auto &q : cs) {
      o.middleRows(a, q.nr) = q.jac(x);
      a += q.nr;
    }
    return o;
  }
  template <class F> Vec rows(F &&f) const {
    Vec o(nc());
    int a = 0;
    for (auto &q : cs)
      for (int i = 0; i < q.nr; i++, a++)
        o[a] = f(q.set, i, a);
    return o;
  }
  Vec proj(const Vec &z, double mu) const {
    return rows([&](const RefSet &s, int i, int a) {
      RefSet t = s;
      t.mu = mu;
      return t.proj(i, z[a]);
    });
  }
  /// 1 where the projection on the normal cone has derivative 1
  Vec active(const Vec &z, double mu) const {
    return rows([&](const RefSet &s, int i, int a) {
      RefSet t = s;
      t.mu = mu;
      return t.c[(size_t)i].k == KBOX ? (z[a] < t.c[(size_t)i].lo || z[a] > t.c[(size_t)i].hi ? 1. : 0.)
             : t.c[(size_t)i].k == KL1 ? (std::fabs(z[a]) <= mu ? 1. : 0.)
                                       : 1. - t.dproj(i, z[a]) - (t.c[(size_t)i].k == KNEG && z[a] == 0 ? 1. : 0.);
    });
  }
  /// distance to the closest kink of the projections
  double kink(const Vec &z, double mu) const {
    double r = 1e9;
    int a = 0;
    for (auto &q : cs) {
      RefSet t = q.set;
      t.mu = mu;
      for (int i = 0; i < q.nr; i++, a++)
        r = std::min(r, t.kink(i, z[a]));
    }
    return r;
  }
  bool has(Kind k) const {
    for (auto &q : cs)
      for (auto &w : q.set.c)
        if (w.k == k)
          return true;
    return false;
  }
  std::vector<CObj> objects() const {
    std::vector<CObj> v;
    for (auto &q : cs)
      v.emplace_back(q.fn, q.pset);
    return v;
  }
  std::shared_ptr<Problem> problem() const { return std::make_shared<Problem>(space, cost, objects()); }
};

/// Space of dimension at least one.
inline void gprog_space(Src &s, Prog &p, int maxn, bool curved) {
  if (curved) {
    p.space = gspace(s, p.m, 1, 1, 3, 8);
    if (p.m.ndx() > 14)
      throw Discard();
  } else {
    int n = s.chance(1, 30) ? s.range(maxn, 3 * maxn) : s.size(1, maxn);
    p.m.l.push_back({Leaf::R, n});
    p.m.name = "R" + std::to_string(n);
    p.space = PManifold(VS(n));
  }
}
/// Bounded-below cost: a distance plus (maybe) a smooth or quadratic term.
inline void gprog_cost(Src &s, Ctx &c, Prog &p) {
  const int n = p.ndx();
  Vec t = p.m.point(s);
  Model m = p.m;
  Mat W = s.flag() ? Mat(s.logreal(0.1, 10.) * Mat::Identity(n, n)) : gspd(s, n, 0.1, 10.);
  c.note("distance target", show(t.transpose()));
  c.note("distance weights", show(W));
  CostPtr dist = std::make_shared<DistCost>(p.space, t, W);
  auto fd = [m, t, W](const Vec &x) -> double {
    Vec d = m.difference(t, x);
    return 0.5 * d.dot(W * d);
  };
  auto gd = [m, t, W](const Vec &x) -> Vec {
    Vec d = m.difference(t, x);
    return m.Jdifference(t, x, 1).transpose() * (W * d);
  };
  int kind = s.below(4);
  if (kind == 0) {
    p.cost = dist, p.f = fd, p.g = gd;
    return;
  }
  CostPtr other;
  std::function<double(const Vec &)> fo;
  std::function<Vec(const Vec &)> go;
  if (kind == 1 || kind == 2) {
    SmoothData d = gsmooth(s, n, 1);
    double sc = s.real(0.05, 1.);
    d.Q[0] *= sc;
    d.B *= sc;
    d.a *= sc;
    Vec x0 = p.m.point(s);
    other = std::make_shared<SmoothCostM>(d, m, x0);
    fo = [m, d, x0](const Vec &x) { return d.val(m.difference(x0, x))[0]; };
    go = [m, d, x0](const Vec &x) -> Vec {
      return m.Jdifference(x0, x, 1).transpose() * d.jac(m.difference(x0, x)).row(0).transpose();
    };
    c.note("smooth term: B", show(d.B));
    c.note("smooth term: Q", show(d.Q[0]));
  } else {
    int r = s.tail(1, 3, 7);
    Mat A = gmat(s, r, n), Q = gspd(s, r, 0.1, 3.);
    Vec b = gvec(s, r), sl = gvec(s, r), x0 = p.m.point(s);
    double cc = s.num();
    auto lin = std::make_shared<LinDiffFn>(p.space, x0, A, b);
    other = std::make_shared<QuadCost>(lin, Q, sl, cc);
    fo = [=](const Vec &x) {
      Vec e = A * m.difference(x0, x) + b;
      return 0.5 * e.dot(Q * e) + sl.dot(e) + cc;
    };
    go = [=](const Vec &x) -> Vec {
      Vec e = A * m.difference(x0, x) + b;
      return m.Jdifference(x0, x, 1).transpose() * (A.transpose() * (Q * e + sl));
    };
    c.note("quadratic term: A", show(A));
  }
  double wd = s.real(0.5, 2.), wo = s.real(0.2, 1.);
  c.note("weights", std::to_string(wd) + " " + std::to_string(wo));
  if (s.flag()) {
    auto sum = std::make_shared<CostSum>(p.m.nx(), n);
    sum->addComponent(dist, wd);
    sum->addComponent(other, wo);
    p.cost = sum;
  } else {
    auto sum = wd * dist;
    *sum += *(wo * other);
    p.cost = sum;
  }
  p.f = [=](const Vec &x) { return wd * fd(x) + wo * fo(x); };
  p.g = [=](const Vec &x) -> Vec { return wd * gd(x) + wo * go(x); };
}
inline Prog::C gcstr(Src &s, Ctx &c, const Prog &p, const Vec &ref, bool l1) {
  const int n = p.ndx();
  Prog::C q;
  Model m = p.m;
  q.nr = s.tail(1, 3, 10);
  int kind = s.below(3);
  if (kind == 0 && m.l.size() == 1 && m.l[0].k == Leaf::R) {
    Mat A = gmat(s, q.nr, n);
    Vec b = gvec(s, q.nr);
    q.fn = std::make_shared<LinFn>(A, b);
    q.val = [=](const Vec &x) -> Vec { return A * x + b; };
    q.jac = [=](const Vec &) { return A; };
    c.note("constraint: linear A", show(A));
    c.note("constraint: linear b", show(b.transpose()));
  } else if (kind == 1) {
    Mat A = gmat(s, q.nr, n);
    Vec b = gvec(s, q.nr), x0 = p.m.point(s);
    q.fn = std::make_shared<LinDiffFn>(p.space, x0, A, b);
    q.val = [=](const Vec &x) -> Vec { return A * m.difference(x0, x) + b; };
    q.jac = [=](const Vec &x) -> Mat { return A * m.Jdifference(x0, x, 1); };
    c.note("constraint: linear in the difference, A", show(A));
    c.note("constraint: b", show(b.transpose()));
  } else {
    SmoothData d = gsmooth(s, n, q.nr);
    Vec x0 = p.m.point(s);
    if (m.l.size() == 1 && m.l[0].k == Leaf::R) {
      q.fn = std::make_shared<SmoothFn>(d);
      q.val = [=](const Vec &x) -> Vec { return d.val(x); };
      q.jac = [=](const Vec &x) { return d.jac(x); };
    } else {
      q.fn = std::make_shared<SmoothOnManifold>(d, m, x0);
      q.val = [=](const Vec &x) -> Vec { return d.val(m.difference(x0, x)); };
      q.jac = [=](const Vec &x) -> Mat { return d.jac(m.difference(x0, x)) * m.Jdifference(x0, x, 1); };
    }
    c.note("constraint: smooth, B", show(d.B));
  }
  // the set contains the value at ref most of the time
  Vec v = q.val(ref);
  int set = s.below(l1 ? 5 : 4);
  Vec lo(q.nr), hi(q.nr);
  for (int i = 0; i < q.nr; i++) {
    lo[i] = v[i] - std::fabs(s.num());
    hi[i] = v[i] + std::fabs(s.num());
    if (s.chance(1, 5))
      hi[i] = std::numeric_limits<double>::infinity();
    else if (s.chance(1, 5))
      lo[i] = -std::numeric_limits<double>::infinity();
  }
  switch (set) {
  case 0:
    q.pset = PSet(Neg());
    for (int i = 0; i < q.nr; i++)
      q.set.c.push_back({KNEG, 0, 0});
    break;
  case 1:
    q.pset = PSet(Eq());
    for (int i = 0; i < q.nr; i++)
      q.set.c.push_back({KEQ, 0, 0});
    break;
  case 2:
    q.pset = PSet(Box(lo, hi));
    for (int i = 0; i < q.nr; i++)
      q.set.c.push_back({KBOX, lo[i], hi[i]});
    break;
  case 3: { // product
    int k = s.range(0, q.nr);
    q.pset = PSet(Prod({PSet(Eq()), PSet(Box(lo.tail(q.nr - k), hi.tail(q.nr - k)))}, {k, q.nr - k}));
    for (int i = 0; i < q.nr; i++)
      if (i < k)
        q.set.c.push_back({KEQ, 0, 0});
      else
        q.set.c.push_back({KBOX, lo[i], hi[i]});
    break;
  }
  default:
    q.pset = PSet(L1());
    for (int i = 0; i < q.nr; i++)
      q.set.c.push_back({KL1, 0, 0});
  }
  c.note("constraint: set", q.set.str());
  return q;
}
inline Prog gprog(Src &s, Ctx &c, int maxn, bool curved, bool l1) {
  Prog p;
  gprog_space(s, p, maxn, curved);
  c.note("space", p.m.name);
  gprog_cost(s, c, p);
  Vec ref = p.m.point(s);
  int k = s.tail(0, 3, 10);
  for (int i = 0; i < k; i++)
    p.cs.push_back(gcstr(s, c, p, ref, l1));
  return p;
}

struct Cfg {
  double tol = 1e-6, mu = 1e-2, rho = 0, mulow = 1e-9;
  double pa = 0.1, pb = 0.9, da = 1., db = 1.;
  LDLTChoice ldlt = LDLTChoice::BUNCHKAUFMAN;
  HessianApprox hess = HessianApprox::GAUSS_NEWTON;
  nlp::KktSystem kkt = nlp::KKT_CLASSIC;
  MultiplierUpdateMode mul = MultiplierUpdateMode::NEWTON;
  Solver::LinesearchOptions ls;
  size_t max_iters = 100, max_al = 1000;
  double mu_factor = 0.01, rho_factor = 1., beta = 0.5;
  /// the block factorisation searches all permutations of the blocks, by design
  LDLTChoice choice(const Problem &q) const {
    return ldlt == LDLTChoice::BLOCKSPARSE && q.getNumConstraints() > 6 ? LDLTChoice::BUNCHKAUFMAN : ldlt;
  }
  std::unique_ptr<Solver> make(Problem &pb, bool setup = true) const {
    auto r = std::make_unique<Solver>(pb, tol, mu, rho, getenv("VP_VERBOSE") ? nlp::VERBOSE : nlp::QUIET, mulow, pa, this->pb, da, db, choice(pb), ls);
    apply(*r);
    if (setup)
      r->setup();
    return r;
  }
  void apply(Solver &r) const {
    r.hess_approx = hess;
    r.kkt_system_ = kkt;
    r.mul_update_mode = mul;
    r.max_iters = max_iters;
    r.max_al_iters = max_al;
    r.bcl_params.mu_update_factor = mu_factor;
    r.bcl_params.rho_update_factor = rho_factor;
    r.setDualPenalty(beta);
  }
  std::string str() const {
    std::ostringstream o;
    o << "tol " << tol << " mu " << mu << " rho " << rho << " mu_lower " << mulow << " bcl " << pa << " " << pb << " "
      << da << " " << db << " ldlt " << (int)ldlt << " hess " << (int)hess << " kkt " << (int)kkt << " mul "
      << (int)mul << " ls " << (int)ls.interp_type << " max " << max_iters << "/" << max_al << " factors "
      << mu_factor << " " << rho_factor << " beta " << beta;
    return o.str();
  }
};
inline LDLTChoice gldlt(Src &s) {
  static const LDLTChoice l[] = {LDLTChoice::BUNCHKAUFMAN, LDLTChoice::DENSE, LDLTChoice::BLOCKSPARSE,
                                 LDLTChoice::EIGEN};
  return l[s.below(4)];
}
inline Cfg gcfg(Src &s, const Prog &p, bool wild = true) {
  Cfg k;
  k.ldlt = gldlt(s);
  static const HessianApprox h[] = {HessianApprox::GAUSS_NEWTON, HessianApprox::EXACT, HessianApprox::IDENTITY,
                                    HessianApprox::BFGS};
  k.hess = h[s.below(p.m.nx() == p.m.ndx() ? 4 : 3)];
  k.kkt = s.flag() ? nlp::KKT_PRIMAL_DUAL : nlp::KKT_CLASSIC;
  static const MultiplierUpdateMode mm[] = {MultiplierUpdateMode::NEWTON, MultiplierUpdateMode::PRIMAL,
                                            MultiplierUpdateMode::PRIMAL_DUAL};
  k.mul = mm[s.below(3)];
  static const nlp::LSInterpolation it[] = {nlp::LSInterpolation::CUBIC, nlp::LSInterpolation::BISECTION,
                                            nlp::LSInterpolation::QUADRATIC};
  k.ls.interp_type = it[s.below(3)];
  if (wild && s.flag()) {
    k.tol = s.logreal(1e-8, 1e-2);
    k.mu = s.logreal(1e-4, 1.);
    if (s.flag())
      k.rho = s.logreal(1e-8, 1.);
    k.mulow = s.flag() ? s.logreal(1e-9, 1e-4) : 1e-9;
    if (k.mulow > k.mu)
      k.mulow = k.mu;
    if (s.chance(1, 4)) {
      k.pa = s.real(0.05, 0.9);
      k.pb = s.real(0.05, 0.9);
      k.da = s.real(0.2, 1.);
      k.db = s.real(0.2, 1.);
      k.mu_factor = s.real(0.01, 0.5);
      k.rho_factor = s.real(0.1, 1.);
    }
    if (s.chance(1, 3))
      k.beta = s.real(0.05, 0.95);
  }
  return k;
}
/// Residuals of the optimality conditions in terms of the problem data alone.
struct Kkt {
  double prim = 0, dual = 0;
  Vec viol;   // c - P_C(c + mu lam)
  Vec dres;   // grad f + J^T lam
};
inline Kkt kkt(const Prog &p, const Vec &x, const Vec &lam, double mu) {
  Kkt k;
  Vec cv = p.c(x);
  k.viol = cv - p.proj(cv + mu * lam, mu);
  k.dres = p.g(x) + p.J(x).transpose() * lam;
  k.prim = nrm(k.viol);
  k.dual = nrm(k.dres);
  if (k.viol.hasNaN() || k.dres.hasNaN())
    k.prim = std::numeric_limits<double>::quiet_NaN();
  return k;
}
} // namespace vp
