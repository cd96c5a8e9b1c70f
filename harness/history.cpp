// C03 termination, limits, misuse; C22 repeatability and invariances; C23 callbacks and histories
#include "nlp.hpp"
#include <malloc.h>
#include <proxsuite-nlp/helpers/history-callback.hpp>

using namespace vp;
using History = nlp::helpers::history_callback<double>;

static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool same(const Vec &a, const Vec &b) {
  if (a.size() != b.size())
    return false;
  for (long i = 0; i < a.size(); i++)
    if (!same(a[i], b[i]))
      return false;
  return true;
}
/// Everything which is observable from a callback.
struct Snap {
  Vec x, lam, viol, step, xtrial;
  double value, merit, prim, dual, mu, rho, alpha, dmerit;
  size_t num, al;
  std::vector<BVec> act;
  bool operator==(const Snap &o) const {
    return same(x, o.x) && same(lam, o.lam) && same(viol, o.viol) && same(step, o.step) && same(value, o.value) &&
           same(merit, o.merit) && same(prim, o.prim) && same(dual, o.dual) && same(mu, o.mu) && same(rho, o.rho) &&
           same(alpha, o.alpha) && same(dmerit, o.dmerit) && num == o.num && al == o.al && act == o.act;
  }
};
static Snap snap(const Results &r) {
  Snap q;
  q.x = r.x_opt, q.lam = r.data_lams_opt, q.viol = r.constraint_violations;
  q.value = r.value, q.merit = r.merit, q.prim = r.prim_infeas, q.dual = r.dual_infeas;
  q.mu = r.mu, q.rho = r.rho, q.num = r.num_iters, q.al = r.al_iters;
  q.act = r.active_set;
  q.alpha = q.dmerit = 0;
  return q;
}
struct Rec : Callback {
  std::vector<Snap> v;
  void call(const Workspace &w, const Results &r) override {
    Snap q = snap(r);
    q.step = w.pd_step, q.alpha = w.alpha_opt, q.dmerit = w.dmerit_dir, q.xtrial = w.x_trial;
    v.push_back(q);
  }
};
/// One call of solve().
struct Run {
  bool threw = false;
  int flag = -2;
  Snap end;
  std::vector<Snap> hist;
  bool operator==(const Run &o) const {
    if (threw != o.threw || flag != o.flag || hist.size() != o.hist.size() || !(threw || end == o.end))
      return false;
    for (size_t i = 0; i < hist.size(); i++) {
      Snap a = hist[i], b = o.hist[i];
      if (i + 1 == hist.size() && !threw && a.num == 0) { // no step was taken
        a.step = b.step, a.alpha = b.alpha, a.dmerit = b.dmerit;
      }
      if (!(a == b))
        return false;
    }
    return true;
  }
  std::string str() const {
    std::ostringstream o;
    o.precision(17);
    o << (threw ? "threw" : "flag ") << flag << " iterations " << end.num << "/" << end.al << " x "
      << end.x.transpose() << " lam " << end.lam.transpose() << " history " << hist.size();
    return o.str();
  }
};
static Run run(Solver &sv, const Vec &x0, const Vec &l0) {
  Run r;
  auto rec = std::make_shared<Rec>();
  sv.registerCallback(rec);
  try {
    r.flag = sv.solve(x0, l0);
  } catch (const std::exception &) {
    r.threw = true;
  }
  sv.callbacks_.pop_back();
  r.end = snap(*sv.results_);
  r.hist = rec->v;
  return r;
}
/// A new solver for a new problem, in memory with another content.
static Run fresh_run(const Prog &p, const Cfg &k, const Vec &x0, const Vec &l0) {
  static int fill = 0;
  fill = (fill + 0x3b) & 0xff;
  mallopt(M_PERTURB, fill | 1);
  auto pb = p.problem();
  auto sv = k.make(*pb);
  Run r = run(*sv, x0, l0);
  mallopt(M_PERTURB, 0x80);
  return r;
}
static Vec glam(Src &s, int n) { return s.flag() ? gvec(s, n) : Vec(Vec::Zero(n)); }

// ---------------------------------------------------------------- C03
static void c03_limits(Src &s, Ctx &c) {
  Prog p = gprog(s, c, 5, s.chance(1, 3), true);
  Cfg k = gcfg(s, p);
  k.max_iters = 25, k.max_al = 25;
  c.note("config", k.str());
  Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
  c.note("x0", show(x0.transpose()));
  Run full = fresh_run(p, k, x0, l0);
  Cfg q = k;
  q.max_iters = (size_t)s.range(0, 12);
  q.max_al = (size_t)(s.flag() ? s.range(0, 6) : 25);
  c.note("limits", std::to_string(q.max_iters) + " " + std::to_string(q.max_al));
  Run r = fresh_run(p, q, x0, l0);
  c.note("unlimited", full.str());
  c.note("limited", r.str());
  if (r.threw) {
    c.label("gave up with an error");
    c.require(full.threw && full.hist.size() >= r.hist.size(), "an error which depends on the limits");
    for (size_t i = 0; i < r.hist.size(); i++)
      c.require(r.hist[i] == full.hist[i], "iterates depend on the limits");
    return;
  }
  c.require(r.end.num <= q.max_iters, "more iterations than max_iters");
  c.require(r.end.al <= q.max_al, "more outer iterations than max_al_iters");
  switch (r.flag) {
  case (int)ConvergenceFlag::SUCCESS: {
    c.label("success");
    Kkt z = kkt(p, r.end.x, r.end.lam, r.end.mu);
    double sc = 1 + nrm(p.g(r.end.x)) + nrm(p.J(r.end.x)) * (1 + nrm(r.end.lam)) + nrm(r.end.x);
    c.require(z.prim <= q.tol + 1e-12 * sc && z.dual <= q.tol + 1e-12 * sc, "SUCCESS at a point which is not a solution");
    break;
  }
  case (int)ConvergenceFlag::MAX_ITERS_REACHED:
    c.label("iteration limit");
    c.require(r.end.num == q.max_iters && q.max_iters > 0, "iteration limit reported although it was not reached");
    break;
  case (int)ConvergenceFlag::UNINIT:
    c.label("outer limit");
    c.require(q.max_iters == 0 || r.end.al == q.max_al, "gave up before a limit was reached");
    break;
  default:
    c.fail("unknown flag");
  }
  c.require(r.hist.size() == r.end.num + 1, "number of recorded iterates");
  // limits truncate the sequence of iterates, they do not alter it
  for (size_t i = 0; i + 1 < r.hist.size(); i++) {
    c.require(i < full.hist.size(), "more iterates than without a limit");
    c.require(r.hist[i] == full.hist[i], "iterates depend on the limits");
  }
  if (r.end.num > 0)
    c.require(same(r.end.x, r.hist[r.hist.size() - 2].x), "the result is not the last iterate");
  else
    c.require(same(r.end.x, x0), "the result is not the initial guess");
  if (r.end.num > 0 && r.end.num < full.end.num)
    c.nontrivial();
}
/// Programs without any solution.
static void c03_hopeless(Src &s, Ctx &c) {
  Prog p;
  bool unbounded = s.chance(1, 3);
  Vec ref;
  if (unbounded) {
    int n = s.tail(1, 5, 14);
    p.m.l.push_back({Leaf::R, n});
    p.m.name = "R" + std::to_string(n);
    p.space = PManifold(VS(n));
    Vec g = gvec(s, n);
    if (g.norm() < 0.1)
      g[0] = 1;
    SmoothData d;
    d.n = n, d.m = 1;
    d.Q = {Mat::Zero(n, n)};
    d.B = g.transpose();
    d.c = d.a = Vec::Zero(1);
    d.W = Mat::Zero(1, n);
    if (s.flag()) { // concave
      d.Q[0] = -gspd(s, n, 0.1, 2.);
    }
    p.cost = std::make_shared<SmoothCost>(d);
    p.f = [=](const Vec &x) { return d.val(x)[0]; };
    p.g = [=](const Vec &x) -> Vec { return d.jac(x).row(0).transpose(); };
    c.note("linear part of the unbounded cost", show(g.transpose()));
    c.note("quadratic part", show(d.Q[0]));
    ref = p.m.point(s);
  } else {
    gprog_space(s, p, 5, s.chance(1, 3));
    gprog_cost(s, c, p);
    ref = p.m.point(s);
    int k = s.tail(0, 2, 9);
    for (int i = 0; i < k; i++)
      p.cs.push_back(gcstr(s, c, p, ref, false));
    // w(x) <= -gap and -w(x) <= -gap
    SmoothData d = gsmooth(s, p.ndx(), 1);
    double gap = s.real(0.05, 3.);
    int shape = s.below(3);
    for (int sg : {1, -1}) {
      SmoothData e = d;
      e.B *= sg, e.a *= sg, e.Q[0] *= sg, e.c *= sg;
      e.c[0] += gap;
      Model m = p.m;
      Vec o = ref;
      Prog::C q;
      q.nr = 1;
      q.fn = std::make_shared<SmoothOnManifold>(e, m, o);
      q.val = [=](const Vec &x) -> Vec { return e.val(m.difference(o, x)); };
      q.jac = [=](const Vec &x) -> Mat { return e.jac(m.difference(o, x)) * m.Jdifference(o, x, 1); };
      if (shape == 0)
        q.pset = PSet(Neg()), q.set.c = {{KNEG, 0, 0}};
      else if (shape == 1)
        q.pset = PSet(Eq()), q.set.c = {{KEQ, 0, 0}};
      else
        q.pset = PSet(Box(Vec::Constant(1, -50.), Vec::Zero(1))), q.set.c = {{KBOX, -50., 0.}};
      p.cs.push_back(q);
    }
    c.note("gap", gap);
  }
  Cfg k = gcfg(s, p);
  k.max_iters = 40, k.max_al = 40;
  c.note("config", k.str());
  Vec x0 = s.flag() ? ref : p.m.point(s);
  Run r = fresh_run(p, k, x0, glam(s, p.nc()));
  c.note("run", r.str());
  if (unbounded) {
    // a concave cost has a stationary point: the maximum is a legitimate answer of a Newton method
    if (!r.threw && r.flag == ConvergenceFlag::SUCCESS)
      c.require(nrm(p.g(r.end.x)) <= k.tol + 1e-11, "SUCCESS on an unbounded program away from stationary points");
  } else
    c.require(r.threw || r.flag != ConvergenceFlag::SUCCESS, "SUCCESS on an infeasible program");
  c.require(r.threw || r.end.num <= 40, "too many iterations");
  c.label(r.threw ? "error" : r.flag == ConvergenceFlag::SUCCESS ? "stationary" : "limit");
  c.nontrivial();
}
/// Evaluations which fail or return NaN or infinities.
static void c03_faults(Src &s, Ctx &c) {
  Prog p = gprog(s, c, 5, s.chance(1, 3), true);
  auto fault = std::make_shared<Fault>();
  Prog q = p;
  q.cost = std::make_shared<FaultyCost>(p.cost, fault);
  for (auto &w : q.cs)
    w.fn = std::make_shared<FaultyFn>(w.fn, fault);
  Cfg k = gcfg(s, p);
  if (k.hess == HessianApprox::BFGS)
    k.hess = HessianApprox::EXACT;
  k.max_iters = 30, k.max_al = 30;
  c.note("config", k.str());
  auto pb = q.problem();
  auto sv = k.make(*pb);
  int rounds = s.range(1, 3);
  bool any = false;
  for (int i = 0; i < rounds; i++) {
    Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
    fault->mode = s.range(1, 5);
    fault->after = s.range(0, 30);
    fault->calls = 0;
    Run r = run(*sv, x0, l0);
    bool happened = fault->calls > fault->after;
    any = any || (happened && r.threw);
    c.note("fault", std::to_string(fault->mode) + " after " + std::to_string(fault->after) + ": " + r.str());
    if (!r.threw && r.flag == ConvergenceFlag::SUCCESS) {
      c.label("success");
      c.require(r.end.x.allFinite() && r.end.lam.allFinite(), "SUCCESS with NaN after a failed evaluation");
      Kkt z = kkt(p, r.end.x, r.end.lam, r.end.mu);
      double sc = 1 + nrm(p.g(r.end.x)) + nrm(p.J(r.end.x)) * (1 + nrm(r.end.lam)) + nrm(r.end.x);
      c.require(z.prim <= k.tol + 1e-12 * sc && z.dual <= k.tol + 1e-12 * sc,
                "SUCCESS at a point which is not a solution after a failed evaluation");
    } else
      c.label(r.threw ? "error" : "limit");
    c.require(r.threw || r.end.num <= 30, "too many iterations");
    if (!r.threw)
      c.require(!std::isnan(r.end.x.sum()) || r.flag != ConvergenceFlag::SUCCESS, "NaN reported as a solution");
    if (fault->mode == 4 && happened && fault->after == 0)
      c.require(r.threw, "an exception of the very first evaluation is swallowed");
    // afterwards the solver works like a new one
    fault->mode = 0;
    Vec x1 = p.m.point(s), l1 = glam(s, p.nc());
    Run a = run(*sv, x1, l1), b = fresh_run(p, k, x1, l1);
    if (!(a == b)) {
      c.note("used solver", a.str());
      c.note("new solver", b.str());
      c.fail("a failed solve influences the next one");
    }
  }
  if (any)
    c.nontrivial();
}
static void c03_misuse(Src &s, Ctx &c) {
  Prog p = gprog(s, c, 5, true, true);
  Cfg k = gcfg(s, p);
  k.max_iters = 10;
  c.note("config", k.str());
  auto pb = p.problem();
  Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
  c.note("x0", show(x0.transpose()));
  switch (s.below(3)) {
  case 0: { // no setup
    c.label("no setup");
    auto sv = k.make(*pb, false);
    for (int i = 0; i < 2; i++) {
      bool thr = false;
      try {
        if (s.flag())
          sv->solve(x0, l0);
        else
          sv->solve(x0);
      } catch (const nlp::RuntimeError &) {
        thr = true;
      }
      c.require(thr, "solve() without setup() is not rejected");
    }
    sv->setup();
    Run a = run(*sv, x0, l0), b = fresh_run(p, k, x0, l0);
    c.require(a == b, "a rejected call influences the next one");
    c.nontrivial();
    break;
  }
  case 1: { // wrong number of multiplier blocks
    c.label("multiplier blocks");
    auto sv = k.make(*pb);
    int bad = s.range(0, (int)p.cs.size() + 2);
    std::vector<Vec> st;
    for (int i = 0; i < bad; i++)
      st.push_back(Vec::Zero(i < (int)p.cs.size() ? p.cs[(size_t)i].nr : 1));
    std::vector<nlp::math_types<double>::VectorRef> lams;
    for (auto &v : st)
      lams.push_back(v);
    bool thr = false;
    Run a;
    try {
      a.flag = sv->solve(x0, lams);
    } catch (const nlp::RuntimeError &) {
      thr = true;
    }
    if (bad == (int)p.cs.size())
      break; // this one is fine (it may fail for another reason)
    c.require(thr, "a wrong number of multiplier blocks is not rejected");
    a = run(*sv, x0, l0);
    Run b = fresh_run(p, k, x0, l0);
    c.require(a == b, "a rejected call influences the next one");
    c.nontrivial();
    break;
  }
  default: { // BFGS on a curved space
    c.label("BFGS");
    Cfg q = k;
    q.hess = HessianApprox::BFGS;
    bool thr = false;
    std::unique_ptr<Solver> sv = q.make(*pb, false);
    try {
      sv->setup();
    } catch (const std::runtime_error &) {
      thr = true;
    }
    c.require(thr == (p.m.nx() != p.m.ndx()), "BFGS has to be rejected on curved spaces, and there only");
    if (thr) {
      k.hess = HessianApprox::GAUSS_NEWTON;
      k.apply(*sv);
      sv->setup();
      Run a = run(*sv, x0, l0), b = fresh_run(p, k, x0, l0);
      c.require(a == b, "a rejected configuration influences the next one");
      c.nontrivial();
    }
  }
  }
}

// ---------------------------------------------------------------- C22
/// A history of solves on one or two solvers which share a problem.
static void c22_history(Src &s, Ctx &c) {
  Prog p = gprog(s, c, 5, s.chance(1, 3), true);
  auto fault = std::make_shared<Fault>();
  Prog q = p;
  q.cost = std::make_shared<FaultyCost>(p.cost, fault);
  for (auto &w : q.cs)
    w.fn = std::make_shared<FaultyFn>(w.fn, fault);
  auto pb = q.problem();
  int ns = s.range(1, 2);
  std::vector<Cfg> k;
  std::vector<std::unique_ptr<Solver>> sv;
  for (int i = 0; i < ns; i++) {
    k.push_back(gcfg(s, p));
    k.back().max_iters = (size_t)s.range(1, 25);
    c.note("config", k.back().str());
    sv.push_back(k.back().make(*pb));
  }
  int ops = s.tail(2, 7, 20), solves = 0;
  for (int o = 0; o < ops; o++) {
    size_t i = s.below((uint32_t)ns);
    Solver &S = *sv[i];
    Cfg &K = k[i];
    switch (s.below(6)) {
    case 0: { // another configuration of the same solver
      Cfg n = gcfg(s, p);
      n.max_iters = (size_t)s.range(1, 25);
      c.note("op", "reconfigure " + n.str());
      K = n;
      K.apply(S);
      S.mu_init_ = K.mu, S.rho_init_ = K.rho, S.mu_lower_ = K.mulow, S.target_tol = K.tol;
      S.bcl_params.prim_alpha = K.pa, S.bcl_params.prim_beta = K.pb;
      S.bcl_params.dual_alpha = K.da, S.bcl_params.dual_beta = K.db;
      S.ldlt_choice_ = K.choice(S.problem()), S.ls_options = K.ls;
      S.setup();
      break;
    }
    case 1: { // a solve which fails or is cut short
      fault->mode = s.range(1, 5), fault->after = s.range(0, 20), fault->calls = 0;
      Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
      c.note("op", "solve with fault " + std::to_string(fault->mode));
      run(S, x0, l0);
      fault->mode = 0;
      if (K.hess == HessianApprox::BFGS)
        S.setup();
      break;
    }
    case 2: { // public state in between
      c.note("op", "set penalties");
      S.setPenalty(s.logreal(1e-6, 1.));
      S.setProxParameter(s.logreal(1e-6, 1.));
      S.updateToleranceSuccess();
      break;
    }
    default: {
      Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
      if (K.hess == HessianApprox::BFGS && solves > 0)
        S.setup();
      c.note("op", "solve with solver " + std::to_string(i) + " from " + show(x0.transpose()));
      Run a = run(S, x0, l0), b = fresh_run(p, K, x0, l0);
      solves++;
      if (!(a == b)) {
        c.note("this solver", a.str());
        c.note("new solver", b.str());
        c.fail("the result of solve() depends on what was done before");
      }
      if (!a.threw && a.end.num > 0 && solves > 1)
        c.nontrivial();
    }
    }
  }
}
/// Observing a solve does not influence it.
struct Counter : Callback {
  int n = 0;
  void call(const Workspace &, const Results &) override { n++; }
};
static void c22_observers(Src &s, Ctx &c) {
  Prog p = gprog(s, c, 5, s.chance(1, 3), true);
  Cfg k = gcfg(s, p);
  k.max_iters = (size_t)s.range(1, 30);
  c.note("config", k.str());
  Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
  auto pb = p.problem(), pb2 = p.problem();
  auto a = k.make(*pb), b = k.make(*pb2);
  b->verbose = s.flag() ? nlp::VERBOSE : nlp::VERYVERBOSE;
  int nc = s.tail(0, 3, 12);
  for (int i = 0; i < nc; i++)
    b->registerCallback(s.flag() ? std::shared_ptr<Callback>(std::make_shared<Counter>())
                                 : std::shared_ptr<Callback>(std::make_shared<History>(s.flag(), s.flag(), s.flag())));
  Run u = run(*a, x0, l0);
  Run v;
  int how = s.below(2);
  if (how == 0) {
    v = run(*b, x0, l0);
  } else { // the same multipliers by block
    std::vector<Vec> st;
    int o = 0;
    for (auto &w : p.cs) {
      st.push_back(l0.segment(o, w.nr));
      o += w.nr;
    }
    std::vector<nlp::math_types<double>::VectorRef> lams;
    for (auto &z : st)
      lams.push_back(z);
    auto rec = std::make_shared<Rec>();
    b->registerCallback(rec);
    try {
      v.flag = b->solve(x0, lams);
    } catch (const std::exception &) {
      v.threw = true;
    }
    v.end = snap(*b->results_);
    v.hist = rec->v;
  }
  c.note("plain", u.str());
  c.note("observed", v.str());
  c.require(u == v, how ? "multipliers by block are not equivalent to stacked ones" : "observing changes the result");
  if (!u.threw && u.end.num > 0 && !p.cs.empty())
    c.nontrivial();
}
/// Solving equivalent formulations: some iterations have to agree up to rounding.
static double spread(const Run &r, size_t i) {
  // how well the step is determined
  double n = 0;
  if (i < r.hist.size())
    n = r.hist[i].step.norm();
  return n;
}
/// Compares iterates while the comparison is meaningful.
static int compare(Ctx &c, const Prog &p, const Cfg &k, const Run &u, const Run &v, const std::function<Vec(const Vec &)> &lam,
                   int upto, const std::string &what) {
  int done = 0;
  size_t n = std::min({u.hist.size(), v.hist.size(), (size_t)upto});
  for (size_t i = 0; i < n; i++) {
    const Snap &a = u.hist[i], &b = v.hist[i];
    if (i > 0 && k.hess == HessianApprox::BFGS)
      break;
    if (!a.x.allFinite() || !a.lam.allFinite() || !b.x.allFinite())
      break;
    double big = 1 + a.x.norm() + a.lam.norm() + spread(u, i);
    if (big > 1e4 || !(a.alpha > 1e-3) || a.mu < 1e-5)
      break;
    // the line search is discontinuous: close decisions are ambiguous
    double gain = i ? std::fabs(a.merit - u.hist[i - 1].merit) : 1.;
    if (gain < 1e-7 * (1 + std::fabs(a.merit)) || std::fabs(a.dmerit) < 1e-7)
      break;
    if (p.kink(p.c(a.x) + a.mu * a.lam, a.mu) < 1e-6 || std::max(a.prim, a.dual) < 1e-6)
      break;
    // (which may also have happened in the line search, or when an outer iteration was ended)
    if (a.al != b.al || !(std::fabs(a.alpha - b.alpha) <= 1e-6 * a.alpha)) {
      c.label("ambiguous decision");
      break;
    }
    double tol = 1e-7 * big * std::pow(10., (double)i);
    if (a.num != b.num || !(nrm(Mat(a.x - b.x)) <= tol) || !(nrm(Mat(a.lam - lam(b.lam))) <= 100 * tol)) {
      c.note("iterate", i);
      c.note("distance", nrm(Mat(a.x - b.x)));
      c.note("distance of multipliers", nrm(Mat(a.lam - lam(b.lam))));
      c.note("step lengths", std::to_string(a.alpha) + " " + std::to_string(b.alpha));
      c.note("first x", show(a.x.transpose()));
      c.note("second x", show(b.x.transpose()));
      c.note("first lam", show(a.lam.transpose()));
      c.note("second lam", show(lam(b.lam).transpose()));
      c.fail(what);
    }
    done++;
  }
  return done;
}
/// Condition number of the first KKT matrix: a poor one makes comparisons meaningless.
static bool well_posed(const Prog &p, const Cfg &k, const Vec &x0, const Vec &l0) {
  auto pb = p.problem();
  Cfg q = k;
  q.max_iters = 1;
  auto sv = q.make(*pb);
  Run r = run(*sv, x0, l0);
  if (r.threw || r.end.num < 1)
    return false;
  Mat K = sv->workspace_->kkt_matrix;
  Eigen::JacobiSVD<Mat> svd(K);
  if (svd.singularValues().minCoeff() < 1e-5 * (1 + svd.singularValues().maxCoeff()))
    return false;
  // was it regularised?
  Eigen::SelfAdjointEigenSolver<Mat> es(K);
  int pos = 0;
  for (long i = 0; i < K.rows(); i++)
    pos += es.eigenvalues()[i] > 0;
  if (pos != p.ndx())
    return false;
  return p.kink(p.c(x0) + k.mu * l0, k.mu) > 1e-6 && p.kink(p.c(x0) + (1 - k.beta) * k.mu * l0, k.mu) > 1e-6;
}
static void c22_ldlt(Src &s, Ctx &c) {
  Prog p = gprog(s, c, 6, s.chance(1, 3), true);
  Cfg k = gcfg(s, p);
  k.max_iters = 4;
  k.mu = std::max(k.mu, 1e-3);
  c.note("config", k.str());
  Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
  if (!well_posed(p, k, x0, l0))
    throw Discard();
  Run u = fresh_run(p, k, x0, l0);
  int n = 0;
  for (auto l : {LDLTChoice::BUNCHKAUFMAN, LDLTChoice::DENSE, LDLTChoice::BLOCKSPARSE, LDLTChoice::EIGEN}) {
    Cfg q = k;
    q.ldlt = l;
    Run v = fresh_run(p, q, x0, l0);
    c.note("other factorisation", (int)l);
    n += compare(c, p, k, u, v, [](const Vec &z) { return z; }, 1, "iterates depend on the choice of the factorisation");
  }
  if (n > 0)
    c.nontrivial();
}
static void c22_forms(Src &s, Ctx &c) {
  Prog p = gprog(s, c, 5, s.chance(1, 3), true);
  if (p.cs.empty())
    throw Discard();
  Cfg k = gcfg(s, p);
  k.max_iters = 4;
  k.mu = std::max(k.mu, 1e-3);
  c.note("config", k.str());
  Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
  if (!well_posed(p, k, x0, l0))
    throw Discard();
  Run u = fresh_run(p, k, x0, l0);
  Prog q = p;
  Vec lq = l0;
  std::function<Vec(const Vec &)> back = [](const Vec &z) { return z; };
  std::string what;
  switch (s.below(4)) {
  case 0: { // permutation of the constraints
    what = "the order of the constraints matters";
    std::vector<int> perm;
    for (size_t i = 0; i < p.cs.size(); i++)
      perm.insert(perm.begin() + (long)s.below((uint32_t)i + 1), (int)i);
    q.cs.clear();
    std::vector<int> idx;
    std::vector<int> start;
    int o = 0;
    for (auto &w : p.cs) {
      start.push_back(o);
      o += w.nr;
    }
    for (int i : perm) {
      q.cs.push_back(p.cs[(size_t)i]);
      for (int r = 0; r < p.cs[(size_t)i].nr; r++)
        idx.push_back(start[(size_t)i] + r);
    }
    for (size_t i = 0; i < idx.size(); i++)
      lq[(long)i] = l0[idx[i]];
    back = [idx](const Vec &z) {
      Vec o(z.size());
      for (size_t i = 0; i < idx.size(); i++)
        o[idx[i]] = z[(long)i];
      return o;
    };
    break;
  }
  case 1: { // all constraints as one, over a product set
    what = "stacking constraints over a product of sets matters";
    std::vector<PSet> sets;
    std::vector<Eigen::Index> sz;
    RefSet rs;
    std::vector<FnPtr> fns;
    int nr = 0;
    for (auto &w : p.cs) {
      sets.push_back(w.pset);
      sz.push_back(w.nr);
      nr += w.nr;
      fns.push_back(w.fn);
      rs.c.insert(rs.c.end(), w.set.c.begin(), w.set.c.end());
    }
    struct Stack : Fn {
      std::vector<FnPtr> f;
      Stack(const std::vector<FnPtr> &f, int nx, int ndx, int nr) : Fn(nx, ndx, nr), f(f) {}
      VectorXs operator()(const ConstVectorRef &x) const override {
        VectorXs o(nr());
        int a = 0;
        for (auto &g : f) {
          o.segment(a, g->nr()) = (*g)(x);
          a += g->nr();
        }
        return o;
      }
      void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
        int a = 0;
        for (auto &g : f) {
          g->computeJacobian(x, J.middleRows(a, g->nr()));
          a += g->nr();
        }
      }
      void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef H) const override {
        H.setZero();
        Mat t(H.rows(), H.cols());
        int a = 0;
        for (auto &g : f) {
          t.setZero();
          Vec w = v.segment(a, g->nr());
          g->vectorHessianProduct(x, w, t);
          H += t;
          a += g->nr();
        }
      }
      using Fn::computeJacobian;
    };
    Prog::C w;
    w.nr = nr;
    w.set = rs;
    w.fn = std::make_shared<Stack>(fns, p.m.nx(), p.ndx(), nr);
    w.pset = PSet(Prod(sets, sz));
    Prog pc = p;
    w.val = [pc](const Vec &x) { return pc.c(x); };
    w.jac = [pc](const Vec &x) { return pc.J(x); };
    q.cs = {w};
    // a product asks for second-order terms or not as a whole
    if (p.has(KL1) || k.hess == HessianApprox::GAUSS_NEWTON)
      throw Discard();
    break;
  }
  case 2: { // other sets for the same constraint
    what = "equivalent sets are not treated alike";
    for (auto &w : q.cs) {
      bool neg = true, eq = true;
      for (auto &e : w.set.c) {
        neg = neg && e.k == KNEG;
        eq = eq && e.k == KEQ;
      }
      const double inf = std::numeric_limits<double>::infinity();
      if (neg)
        w.pset = PSet(Box(Vec::Constant(w.nr, -inf), Vec::Zero(w.nr)));
      else if (eq) {
        w.pset = PSet(Box(Vec::Zero(w.nr), Vec::Zero(w.nr)));
        for (auto &e : w.set.c)
          e = {KBOX, 0, 0};
      }
      else
        w.pset = PSet(Prod({w.pset}, {w.nr}));
    }
    if (p.has(KL1) || k.hess == HessianApprox::GAUSS_NEWTON)
      throw Discard();
    break;
  }
  default: { // c + d in C + d: translated boxes
    what = "translating a constraint together with its set matters";
    for (auto &w : q.cs) {
      bool ok = true;
      for (auto &e : w.set.c)
        ok = ok && e.k == KBOX;
      if (!ok)
        continue;
      Vec d = gvec(s, w.nr), lo(w.nr), hi(w.nr);
      struct Shift : Fn {
        FnPtr f;
        Vec d;
        Shift(FnPtr f, const Vec &d) : Fn(f->nx(), f->ndx(), f->nr()), f(f), d(d) {}
        VectorXs operator()(const ConstVectorRef &x) const override { return (*f)(x) + d; }
        void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override { f->computeJacobian(x, J); }
        void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef H) const override {
          f->vectorHessianProduct(x, v, H);
        }
        using Fn::computeJacobian;
      };
      for (int i = 0; i < w.nr; i++) {
        lo[i] = w.set.c[(size_t)i].lo + d[i];
        hi[i] = w.set.c[(size_t)i].hi + d[i];
      }
      w.fn = std::make_shared<Shift>(w.fn, d);
      w.pset = PSet(Box(lo, hi));
    }
  }
  }
  Run v = fresh_run(q, k, x0, lq);
  c.note("original", u.str());
  c.note("other", v.str());
  if (q.cs.size() == p.cs.size() && !well_posed(q, k, x0, lq))
    throw Discard();
  if (compare(c, what[0] == 'e' ? q : p, k, u, v, back, 1, what) > 0)
    c.nontrivial();
  c.label(what);
}

// ---------------------------------------------------------------- C23
struct Named : Callback {
  int id;
  std::vector<int> *log;
  Named(int id, std::vector<int> *log) : id(id), log(log) {}
  void call(const Workspace &, const Results &) override { log->push_back(id); }
};
static void c23_history(Src &s, Ctx &c) {
  Prog p = gprog(s, c, 5, s.chance(1, 3), true);
  auto pb = p.problem();
  Cfg k = gcfg(s, p);
  k.max_iters = (size_t)s.range(1, 30);
  c.note("config", k.str());
  mallopt(M_PERTURB, s.range(1, 255));
  auto sv = k.make(*pb);
  std::vector<int> log;
  std::vector<std::shared_ptr<Named>> pool;
  for (int i = 0; i < 4; i++)
    pool.push_back(std::make_shared<Named>(i, &log));
  std::vector<int> expect;
  struct H {
    std::shared_ptr<History> h;
    bool pd, val, res, on;
    std::vector<Snap> ref;
  };
  std::vector<H> hs;
  auto rec = std::make_shared<Rec>();
  sv->registerCallback(rec);
  int ops = s.tail(2, 8, 24), solves = 0;
  for (int o = 0; o < ops; o++)
    switch (s.below(4)) {
    case 0: {
      int i = s.below(4);
      sv->registerCallback(pool[(size_t)i]);
      expect.push_back(i);
      c.note("op", "register " + std::to_string(i));
      break;
    }
    case 1: {
      H h;
      bool def = s.flag();
      h.pd = def || s.flag(), h.val = def || s.flag(), h.res = def || s.flag(), h.on = true;
      h.h = def ? std::make_shared<History>() : std::make_shared<History>(h.pd, h.val, h.res);
      sv->registerCallback(h.h);
      hs.push_back(h);
      c.note("op", "register a history");
      break;
    }
    case 2: {
      if (s.flag()) {
        sv->clearCallbacks();
        expect.clear();
        for (auto &h : hs)
          h.on = false;
        sv->registerCallback(rec);
        c.note("op", "clear");
        break;
      }
    }
    // fallthrough
    default: {
      Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
      if (k.hess == HessianApprox::BFGS)
        sv->setup();
      rec->v.clear();
      log.clear();
      c.note("op", "solve");
      int flag = -2;
      bool threw = false;
      try {
        flag = sv->solve(x0, l0);
      } catch (const std::exception &) {
        threw = true;
      }
      const Results &r = *sv->results_;
      size_t n = rec->v.size();
      if (!threw)
        c.require(n == r.num_iters + 1, "one call per iteration and one at the end");
      c.require(log.size() == n * expect.size(), "number of calls of the callbacks");
      for (size_t i = 0; i < log.size(); i++)
        c.require(log[i] == expect[i % expect.size()], "order of the callbacks");
      for (auto &h : hs)
        if (h.on)
          h.ref.insert(h.ref.end(), rec->v.begin(), rec->v.end());
      // the recorded sequence is what the solver did
      const double eps = 1e-12;
      size_t steps = threw ? n : n - 1;
      for (size_t i = 0; i < steps; i++) {
        const Snap &a = rec->v[i];
        Vec x = i ? rec->v[i - 1].x : x0;
        if (!a.step.allFinite() || a.step.norm() > 1e3)
          break;
        Vec dx = a.alpha * a.step.head(p.ndx());
        Vec y = p.m.integrate(x, dx);
        c.require(nrm(Mat(y - a.x)) <= eps * (1 + nrm(x) + nrm(dx)) * 10, "iterate is not the step applied to the previous one");
        c.require(a.num == i, "iteration number");
        c.require(a.alpha > 0 && a.alpha <= 1, "step length outside of (0, 1]");
        c.require(same(a.xtrial, a.x), "trial point differs from the accepted one");
        c.require(p.m.isNormalized(a.x), "iterate is not on the manifold");
        if (i && rec->v[i - 1].al == a.al) {
          Vec l = rec->v[i - 1].lam + a.alpha * a.step.tail(p.nc());
          c.require(nrm(Mat(l - a.lam)) <= eps * (1 + nrm(l)) * 10, "multiplier step");
        } else if (i == 0 && p.nc()) {
          Vec l = l0 + a.alpha * a.step.tail(p.nc());
          if (a.al == 0)
            c.require(nrm(Mat(l - a.lam)) <= eps * (1 + nrm(l)) * 10, "multiplier step");
        }
        // sufficient decrease of the merit function
        if (i && rec->v[i - 1].al == a.al && a.alpha > 0.012 && std::fabs(a.dmerit) >= k.ls.dphi_thresh) {
          double m0 = rec->v[i - 1].merit;
          c.require(a.merit <= m0 + k.ls.armijo_c1 * a.alpha * a.dmerit + 1e-9 * (1 + std::fabs(m0)),
                    "merit function does not decrease sufficiently");
          c.label("decrease checked");
        }
      }
      if (!threw) {
        Snap e = snap(r), &l = rec->v.back();
        c.require(same(l.x, e.x) && same(l.lam, e.lam) && same(l.value, e.value) && same(l.prim, e.prim) &&
                      same(l.dual, e.dual) && l.num == e.num && l.al == e.al && same(l.mu, e.mu) && same(l.merit, e.merit),
                  "the last recorded entry differs from the results");
        c.require(flag == (int)r.converged, "flag");
      }
      for (auto &h : hs) {
        const auto &st = h.h->storage;
        size_t m = h.ref.size();
        c.require(st.xs.size() == (h.pd ? m : 0) && st.lams.size() == (h.pd ? m : 0) &&
                      st.values.size() == (h.val ? m : 0) && st.prim_infeas.size() == (h.res ? m : 0) &&
                      st.dual_infeas.size() == (h.res ? m : 0) && st.alphas.size() == m && st.dmerit_dir.size() == m &&
                      st.ls_alphas.size() == m && st.ls_values.size() == m,
                  "lengths of the stored history");
        for (size_t i = 0; i < m; i++) {
          const Snap &a = h.ref[i];
          if (h.pd)
            c.require(same(Vec(st.xs[i]), a.x) && same(Vec(st.lams[i]), a.lam), "stored variables");
          if (h.val)
            c.require(same(st.values[i], a.value), "stored value");
          if (h.res)
            c.require(same(st.prim_infeas[i], a.prim) && same(st.dual_infeas[i], a.dual), "stored residuals");
          c.require(st.alphas[i] >= 0 && st.alphas[i] <= 1, "recorded step length outside of [0, 1]");
          c.require(same(st.alphas[i], a.alpha) && same(st.dmerit_dir[i], a.dmerit), "stored step length");
        }
      }
      solves++;
      if (steps > 1 && !hs.empty())
        c.nontrivial();
    }
    }
}

int main(int argc, char **argv) {
  std::vector<Sub> subs = {
      {"C03", "limits", 60000, 800000, c03_limits, "the limit cut a longer run after at least one iteration"},
      {"C03", "hopeless", 40000, 400000, c03_hopeless, "every case"},
      {"C03", "faults", 30000, 400000, c03_faults, "an injected fault made solve() throw"},
      {"C03", "misuse", 60000, 400000, c03_misuse, "a misuse which has to be rejected"},
      {"C22", "history", 30000, 400000, c22_history, "a repeated solve with at least one iteration"},
      {"C22", "observers", 30000, 400000, c22_observers, "a constrained solve with at least one iteration"},
      {"C22", "ldlt", 30000, 400000, c22_ldlt, "at least one iterate could be compared for each factorisation"},
      {"C22", "forms", 60000, 400000, c22_forms, "at least one iterate could be compared"},
      {"C23", "history", 40000, 400000, c23_history, "a history was stored over more than one iteration"},
  };
  return engine_main(argc, argv, subs);
}
