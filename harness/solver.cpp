// C01 soundness of SUCCESS; C02 convex programs; C03 termination, limits, misuse
#include "nlp.hpp"

using namespace vp;

static Vec glam(Src &s, int n) {
  switch (s.below(3)) {
  case 0:
    return Vec();
  case 1:
    return Vec::Zero(n);
  default:
    return gvec(s, n);
  }
}

/// What a solve which reports SUCCESS has to deliver.
static void check_success(Ctx &c, const Prog &p, const Solver &sv, double tol) {
  const Results &r = *sv.results_;
  const Vec x = r.x_opt, lam = r.data_lams_opt;
  c.note("x_opt", show(x.transpose()));
  c.note("lams_opt", show(lam.transpose()));
  c.note("mu", r.mu);
  c.require(x.size() == p.m.nx() && lam.size() == p.nc(), "sizes of the reported solution");
  c.require(x.allFinite() && lam.allFinite(), "SUCCESS with a solution which is not finite");
  c.require(p.m.isNormalized(x), "SUCCESS with a point which is not on the manifold");
  Kkt k = kkt(p, x, lam, r.mu);
  Mat J = p.J(x);
  double sc = 1 + nrm(p.g(x)) + nrm(J) * (1 + nrm(lam)) + nrm(x);
  double eps = 1e-12 * sc;
  c.note("recomputed primal residual", k.prim);
  c.note("recomputed dual residual", k.dual);
  c.require(k.prim <= tol + eps, "SUCCESS although the constraints / complementarity are not satisfied");
  c.require(k.dual <= tol + eps, "SUCCESS although the point is not stationary");
  c.close(r.prim_infeas, k.prim, eps, "reported primal infeasibility");
  c.close(r.dual_infeas, k.dual, eps, "reported dual infeasibility");
  c.require(r.constraint_violations.size() == (long)p.cs.size() && r.lams_opt.size() == p.cs.size() &&
                r.active_set.size() == p.cs.size(),
            "per-constraint results have the wrong size");
  int a = 0;
  for (size_t i = 0; i < p.cs.size(); i++) {
    int nr = p.cs[i].nr;
    c.close(r.constraint_violations[(long)i], nrm(Mat(k.viol.segment(a, nr))), eps, "reported constraint violation");
    c.require(r.lams_opt[i].size() == nr && Vec(r.lams_opt[i]) == Vec(lam.segment(a, nr)),
              "multipliers by constraint differ from the stacked ones");
    c.require(r.active_set[i].size() == nr, "size of the active set");
    a += nr;
  }
  double f = p.f(x);
  c.close(r.value, f, 1e-11 * (1 + std::fabs(f) + sc), "reported objective value");
}

static void note_result(Ctx &c, const Solver &sv, ConvergenceFlag f) {
  c.note("flag", (int)f);
  c.note("iterations", std::to_string(sv.results_->num_iters) + " / " + std::to_string(sv.results_->al_iters));
}

static void soundness(Src &s, Ctx &c, bool curved) {
  Prog p = gprog(s, c, 6, curved, true);
  Cfg k = gcfg(s, p);
  k.max_iters = 60;
  k.max_al = 60;
  c.note("config", k.str());
  auto pb = p.problem();
  auto sv = k.make(*pb);
  Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
  c.note("x0", show(x0.transpose()));
  c.note("lams0", show(l0.transpose()));
  ConvergenceFlag f;
  try {
    f = sv->solve(x0, l0);
  } catch (const nlp::RuntimeError &e) {
    c.label("gave up with an error");
    return;
  }
  note_result(c, *sv, f);
  c.require(f == sv->results_->converged, "returned flag differs from the reported one");
  if (f == ConvergenceFlag::SUCCESS) {
    check_success(c, p, *sv, k.tol);
    if (sv->results_->num_iters > 0 && !p.cs.empty())
      c.nontrivial();
    c.label("success");
    if (p.has(KL1))
      c.label("success with an l1 penalty");
  } else
    c.label(f == ConvergenceFlag::MAX_ITERS_REACHED ? "iteration limit" : "outer limit");
}
static void c01_euclidean(Src &s, Ctx &c) { soundness(s, c, false); }
static void c01_manifold(Src &s, Ctx &c) { soundness(s, c, true); }

// ---------------------------------------------------------------- C02
/// A strictly convex program with a solution which is known by construction.
struct Qp {
  Prog p;
  Vec xs, ls;
  double strong = 0; // modulus of strong convexity
  Mat H;
};
static Qp gqp(Src &s, Ctx &c, int maxn) {
  Qp q;
  Prog &p = q.p;
  const int n = s.chance(1, 24) ? s.range(maxn, 3 * maxn) : s.size(1, maxn);
  p.m.l.push_back({Leaf::R, n});
  p.m.name = "R" + std::to_string(n);
  p.space = PManifold(VS(n));
  q.H = gspd(s, n, 0.1, 10.);
  q.strong = Eigen::SelfAdjointEigenSolver<Mat>(q.H).eigenvalues().minCoeff();
  q.xs = gvec(s, n);
  const Vec xs = q.xs;
  int k = s.tail(0, 4, 10), left = n; // active rows so far leave some freedom
  Vec grad = Vec::Zero(n);
  std::vector<double> lam;
  for (int i = 0; i < k; i++) {
    Prog::C w;
    w.nr = s.tail(1, 3, 8);
    Mat A = gmat(s, w.nr, n);
    for (int r = 0; r < w.nr; r++)
      if (A.row(r).norm() > 0.1)
        A.row(r) *= s.real(0.5, 2.) / A.row(r).norm();
      else
        A.row(r) = Vec::Unit(n, r % n).transpose();
    Vec v = A * xs, b(w.nr);
    int kind = s.below(3);
    Vec lo(w.nr), hi(w.nr);
    for (int r = 0; r < w.nr; r++) {
      bool act = left > 0 && s.chance(1, 2);
      double l = 0, slack = s.real(0.05, 2.);
      switch (kind) {
      case 0: // A x - A xs - slack <= 0
        b[r] = -v[r] - (act ? 0. : slack);
        l = act ? s.real(0.1, 3.) : 0.;
        w.set.c.push_back({KNEG, 0, 0});
        break;
      case 1: {
        b[r] = s.num();
        bool up = s.flag();
        double val = v[r] + b[r], wd = s.real(0.1, 3.);
        if (!act)
          lo[r] = val - slack, hi[r] = val + wd;
        else if (up)
          hi[r] = val, lo[r] = val - wd, l = s.real(0.1, 3.);
        else
          lo[r] = val, hi[r] = val + wd, l = -s.real(0.1, 3.);
        if (s.chance(1, 4)) {
          if (!act || !up)
            hi[r] = std::numeric_limits<double>::infinity();
          else
            lo[r] = -std::numeric_limits<double>::infinity();
        }
        w.set.c.push_back({KBOX, lo[r], hi[r]});
        break;
      }
      default:
        if (left <= 0) { // no room for another equation: a wide box instead
          b[r] = -v[r];
          w.set.c.push_back({KBOX, -slack, slack});
        } else {
          act = true;
          b[r] = -v[r];
          l = s.real(-3., 3.);
          w.set.c.push_back({KEQ, 0, 0});
        }
      }
      if (act)
        left--;
      lam.push_back(l);
      grad += l * A.row(r).transpose();
    }
    if (kind == 0)
      w.pset = PSet(Neg());
    else if (kind == 1)
      w.pset = PSet(Box(lo, hi));
    else {
      std::vector<PSet> comps;
      std::vector<Eigen::Index> sz;
      bool alleq = true;
      for (int r = 0; r < w.nr; r++)
        alleq = alleq && w.set.c[(size_t)r].k == KEQ;
      for (int r = 0; r < w.nr; r++) {
        auto &q = w.set.c[(size_t)r];
        comps.push_back(q.k == KEQ ? PSet(Eq()) : PSet(Box(Vec::Constant(1, q.lo), Vec::Constant(1, q.hi))));
        sz.push_back(1);
      }
      w.pset = alleq ? PSet(Eq()) : PSet(Prod(comps, sz));
    }
    w.fn = std::make_shared<LinFn>(A, b);
    w.val = [A, b](const Vec &x) -> Vec { return A * x + b; };
    w.jac = [A](const Vec &) { return A; };
    c.note("A", show(A));
    c.note("b", show(b.transpose()));
    c.note("set", w.set.str());
    p.cs.push_back(w);
  }
  q.ls = Eigen::Map<Vec>(lam.data(), (long)lam.size());
  // H (x - xs) + (-sum l A) at xs
  const Vec g0 = -grad;
  const Mat H = q.H;
  c.note("H", show(H));
  c.note("gradient at the solution", show(g0.transpose()));
  c.note("solution", show(xs.transpose()));
  c.note("multipliers", show(q.ls.transpose()));
  p.f = [=](const Vec &x) { return 0.5 * (x - xs).dot(H * (x - xs)) + g0.dot(x); };
  p.g = [=](const Vec &x) -> Vec { return H * (x - xs) + g0; };
  switch (s.below(3)) {
  case 0: { // 1/2 r' H r + g0' r with r = x - xs
    auto r = std::make_shared<LinFn>(Mat::Identity(n, n), -xs);
    p.cost = std::make_shared<QuadCost>(r, H, g0, g0.dot(xs));
    break;
  }
  case 1: {
    SmoothData d;
    d.n = n, d.m = 1;
    d.Q = {H};
    d.B = (g0 - H * xs).transpose();
    d.c = Vec::Constant(1, 0.5 * xs.dot(H * xs));
    d.a = Vec::Zero(1);
    d.W = Mat::Zero(1, n);
    p.cost = std::make_shared<SmoothCost>(d);
    break;
  }
  default: {
    CostPtr a = std::make_shared<DistCost>(p.space, xs, H);
    SmoothData d;
    d.n = n, d.m = 1;
    d.Q = {Mat::Zero(n, n)};
    d.B = g0.transpose() / 2.;
    d.c = d.a = Vec::Zero(1);
    d.W = Mat::Zero(1, n);
    CostPtr b = std::make_shared<SmoothCost>(d);
    auto sum = 1. * a;
    *sum += *(2. * b);
    p.cost = sum;
  }
  }
  return q;
}
static bool has_inequality(const Prog &p) { return p.has(KNEG) || p.has(KBOX) || p.has(KL1); }
static Cfg gqpcfg(Src &s) {
  Cfg k;
  k.ldlt = gldlt(s);
  k.kkt = s.flag() ? nlp::KKT_CLASSIC : nlp::KKT_PRIMAL_DUAL;
  if (s.flag())
    k.hess = HessianApprox::EXACT;
  static const MultiplierUpdateMode mm[] = {MultiplierUpdateMode::NEWTON, MultiplierUpdateMode::PRIMAL,
                                            MultiplierUpdateMode::PRIMAL_DUAL};
  k.mul = mm[s.below(3)];
  static const nlp::LSInterpolation it[] = {nlp::LSInterpolation::CUBIC, nlp::LSInterpolation::BISECTION,
                                            nlp::LSInterpolation::QUADRATIC};
  k.ls.interp_type = it[s.below(3)];
  k.tol = s.logreal(1e-7, 1e-3);
  k.mu = s.logreal(1e-3, 0.5);
  if (s.flag())
    k.rho = s.logreal(1e-8, 1e-2);
  k.max_iters = 500;
  return k;
}
/// Distance to the solution which the residuals allow.
static void check_optimum(Ctx &c, const Qp &q, const Solver &sv) {
  const Prog &p = q.p;
  const Vec x = sv.results_->x_opt, lam = sv.results_->data_lams_opt;
  double mu = sv.results_->mu;
  Vec cv = p.c(x), pr = p.proj(cv + mu * lam, mu), nn = (cv + mu * lam - pr) / mu, d = pr - cv;
  Mat J = p.J(x);
  Vec e = p.g(x) + J.transpose() * nn;
  // strong convexity: m |dx|^2 <= <e, dx> + <nn - ls, d>
  double A = e.norm(), B = std::fabs((nn - q.ls).dot(d));
  double bound = (A + std::sqrt(A * A + 4 * q.strong * B)) / (2 * q.strong);
  double err = (x - q.xs).norm();
  c.note("distance to the solution", err);
  c.note("distance allowed by the residuals", bound);
  c.require(err <= 1.01 * bound + 1e-9 * (1 + q.xs.norm() + q.ls.norm()), "not the solution of the convex program");
}
static void solve_qp(Src &s, Ctx &c, const Qp &q, Cfg k, int &it, ConvergenceFlag &f) {
  const Prog &p = q.p;
  c.note("config", k.str());
  auto pb = p.problem();
  auto sv = k.make(*pb);
  Vec x0 = gvec(s, p.ndx()), l0 = glam(s, p.nc());
  c.note("x0", show(x0.transpose()));
  c.note("lams0", show(l0.transpose()));
  f = sv->solve(x0, l0);
  note_result(c, *sv, f);
  it = (int)sv->results_->num_iters;
  if (f == ConvergenceFlag::SUCCESS) {
    check_success(c, p, *sv, k.tol);
    check_optimum(c, q, *sv);
  }
}
static void c02_qp(Src &s, Ctx &c) {
  Qp q = gqp(s, c, 8);
  Cfg k = gqpcfg(s);
  if (has_inequality(q.p))
    k.kkt = nlp::KKT_PRIMAL_DUAL;
  int it;
  ConvergenceFlag f;
  solve_qp(s, c, q, k, it, f);
  c.require(f == ConvergenceFlag::SUCCESS, "strictly convex program not solved");
  c.label(k.kkt == nlp::KKT_CLASSIC ? "classic KKT system" : "primal-dual KKT system");
  if (it > 0 && !q.p.cs.empty())
    c.nontrivial();
  int b = 1;
  while (b < it)
    b *= 3;
  c.label("iterations <= " + std::to_string(b));
  c.require(it <= 250, "too many iterations for a strictly convex program");
}
/// With a penalty which may not decrease, the constraints are met through the multipliers alone: the method of
/// multipliers contracts by mu / (mu + s), s >= 1 the least eigenvalue of J H^-1 J', faster than the tolerances shrink.
static bool c02_equality(Src &s, Ctx &c, bool fixed) {
  const int n = s.chance(1, 24) ? s.range(9, 24) : s.size(1, 8), m = s.range(1, n);
  Prog p;
  p.m.l.push_back({Leaf::R, n});
  p.m.name = "R" + std::to_string(n);
  p.space = PManifold(VS(n));
  // the objective, and with it the multipliers, in units of its own
  const double unit = fixed ? 1. : std::ldexp(1., s.range(0, 20));
  const Mat H = unit * gspd(s, n, 0.3, 1.);
  Mat J = gorth(s, n).topRows(m);
  for (int i = 0; i < m; i++)
    J.row(i) *= s.real(1., 2.);
  const Vec xs = gvec(s, n), ls = unit * gvec(s, m), g0 = -J.transpose() * ls;
  auto r = std::make_shared<LinFn>(Mat::Identity(n, n), -xs);
  p.cost = std::make_shared<QuadCost>(r, H, g0, g0.dot(xs));
  p.f = [=](const Vec &x) { return 0.5 * (x - xs).dot(H * (x - xs)) + g0.dot(x); };
  p.g = [=](const Vec &x) -> Vec { return H * (x - xs) + g0; };
  c.note("H", show(H));
  c.note("J", show(J));
  c.note("solution", show(xs.transpose()));
  c.note("multipliers", show(ls.transpose()));
  for (int at = 0; at < m;) {
    Prog::C w;
    w.nr = s.range(1, m - at);
    const Mat A = J.middleRows(at, w.nr);
    const Vec b = -A * xs;
    w.pset = PSet(Eq());
    for (int i = 0; i < w.nr; i++)
      w.set.c.push_back({KEQ, 0, 0});
    w.fn = std::make_shared<LinFn>(A, b);
    w.val = [A, b](const Vec &x) -> Vec { return A * x + b; };
    w.jac = [A](const Vec &) { return A; };
    p.cs.push_back(w);
    at += w.nr;
  }
  Cfg k = gqpcfg(s);
  if (fixed) {
    k.mu = s.logreal(1e-4, 1e-2);
    k.mulow = k.mu;
    k.tol = s.logreal(1e-8, 1e-4);
  } else {
    k.mu = s.logreal(1e-3, 1e-1);
    k.tol = std::max(1e-6, unit * 1e-9) * s.logreal(1., 100.); // above the rounding errors of the residuals
  }
  c.note("config", k.str());
  auto pb = p.problem();
  auto sv = k.make(*pb);
  Vec x0 = gvec(s, n), l0 = ls;
  if (fixed || s.flag())
    for (int i = 0; i < m; i++)
      l0[i] += s.real(-2., 2.);
  else
    l0 = glam(s, m);
  c.note("x0", show(x0.transpose()));
  c.note("lams0", show(l0.transpose()));
  ConvergenceFlag f = sv->solve(x0, l0);
  note_result(c, *sv, f);
  if (!fixed && f != ConvergenceFlag::SUCCESS)
    return false;
  c.require(f == ConvergenceFlag::SUCCESS, "equality constrained program not solved with a fixed penalty");
  check_success(c, p, *sv, k.tol);
  if (!fixed)
    return true;
  c.require(sv->results_->num_iters <= 100, "too many iterations with a fixed penalty");
  c.label("outer iterations " + std::to_string(sv->results_->al_iters));
  if (sv->results_->al_iters > 1)
    c.nontrivial();
  return true;
}
static void c02_fixed_penalty(Src &s, Ctx &c) { c02_equality(s, c, true); }
/// Programs with multipliers of any magnitude up to 1e7. Rounding errors of the merit function may stop a few.
static void c02_large_multipliers(Src &s, Ctx &c) {
  const int N = 40;
  int bad = 0;
  for (int i = 0; i < N; i++) {
    Ctx cc;
    try {
      bad += !c02_equality(s, cc, false);
    } catch (const Violation &) {
      c.dump << cc.dump.str();
      throw;
    }
  }
  c.note("programs not solved", bad);
  c.require(bad <= 3, "too many programs with large multipliers are not solved");
  c.nontrivial();
  c.label("not solved: " + std::to_string(bad) + " of " + std::to_string(N));
}
/// The default system of equations has no global convergence guarantee when there are inequalities,
/// but it solves nearly all programs.
static void c02_default(Src &s, Ctx &c) {
  const int N = 60;
  int bad = 0;
  for (int i = 0; i < N; i++) {
    Ctx cc;
    Qp q = gqp(s, cc, 5);
    Cfg k = gqpcfg(s);
    k.kkt = nlp::KKT_CLASSIC;
    k.max_iters = 100;
    int it;
    ConvergenceFlag f;
    try {
      solve_qp(s, cc, q, k, it, f);
    } catch (const Violation &) {
      c.dump << cc.dump.str();
      throw;
    }
    bad += f != ConvergenceFlag::SUCCESS;
  }
  c.note("programs not solved", bad);
  c.require(bad <= N / 6, "the default configuration fails on too many convex programs");
  c.nontrivial();
  c.label("not solved: " + std::to_string(bad) + " of " + std::to_string(N));
}
static Prog::C linear_set(const Mat &A, const Vec &b, PSet ps, std::vector<Coord> co) {
  Prog::C w;
  w.nr = (int)b.size();
  w.fn = std::make_shared<LinFn>(A, b);
  w.val = [A, b](const Vec &x) -> Vec { return A * x + b; };
  w.jac = [A](const Vec &) { return A; };
  w.pset = ps;
  w.set.c = co;
  return w;
}
/// Recorded finding: the default (classic) system can stall
/// (its step is not a descent direction of the merit function).
static void c02_classic_cycle(Src &, Ctx &c) {
  Prog p;
  p.m.l.push_back({Leaf::R, 2});
  p.space = PManifold(VS(2));
  Mat H = 0.1 * Mat::Identity(2, 2), A(3, 2);
  Vec xs(2), g0(2), b(3);
  xs << 0, -20;
  g0 << 0.05, -0.1;
  A << -0.350625668, -0.356457067, 0, 1, -0.5, 0;
  b << -7.17914134, 20, 0;
  p.cs.push_back(linear_set(A, b, PSet(Neg()), {{KNEG, 0, 0}, {KNEG, 0, 0}, {KNEG, 0, 0}}));
  p.cost = std::make_shared<QuadCost>(std::make_shared<LinFn>(Mat::Identity(2, 2), -xs), H, g0, 0.);
  Cfg k;
  k.tol = 1e-7, k.mu = 1e-3, k.hess = HessianApprox::EXACT, k.ldlt = LDLTChoice::DENSE;
  k.ls.interp_type = nlp::LSInterpolation::QUADRATIC;
  k.max_iters = 500;
  auto pb = p.problem();
  auto sv = k.make(*pb);
  Vec x0 = Vec::Zero(2);
  ConvergenceFlag f = sv->solve(x0);
  c.nontrivial();
  c.require(f == ConvergenceFlag::SUCCESS, "stalls on a convex program");
}

/// Closest point on a manifold, with constraints which hold at the target.
/// Away from its solution the problem is not convex (with several conflicting constraints the iterates may even be
/// driven across the cut locus), so with constraints single failures are counted only.
static bool closest_point(Src &s, Ctx &c, bool constrained) {
  Prog p;
  gprog_space(s, p, 6, true);
  const int n = p.ndx();
  const Model m = p.m;
  c.note("space", m.name);
  Vec t = m.point(s);
  Mat W = gspd(s, n, 0.2, 5.);
  p.cost = std::make_shared<DistCost>(p.space, t, W);
  p.f = [=](const Vec &x) {
    Vec d = m.difference(t, x);
    return 0.5 * d.dot(W * d);
  };
  p.g = [=](const Vec &x) -> Vec { return m.Jdifference(t, x, 1).transpose() * (W * m.difference(t, x)); };
  c.note("target", show(t.transpose()));
  c.note("weights", show(W));
  int k = constrained ? s.range(1, 3) : 0;
  for (int i = 0; i < k; i++) {
    Prog::C q;
    q.nr = s.range(1, 2);
    Mat A = gmat(s, q.nr, n);
    Vec v = 0.3 * m.tangent(s);
    Vec x1 = m.integrate(t, v); // reference point of the constraint
    Vec at = A * m.difference(x1, t), b(q.nr), lo(q.nr), hi(q.nr);
    int kind = s.below(3);
    for (int r = 0; r < q.nr; r++) {
      double slack = s.flag() ? 0. : s.real(0.05, 1.);
      b[r] = kind == 2 ? -at[r] : kind == 0 ? -at[r] - slack : s.num();
      lo[r] = at[r] + b[r] - slack;
      hi[r] = at[r] + b[r] + s.real(0.1, 1.);
      q.set.c.push_back({kind == 0 ? KNEG : kind == 1 ? KBOX : KEQ, lo[r], hi[r]});
    }
    q.pset = kind == 0 ? PSet(Neg()) : kind == 1 ? PSet(Box(lo, hi)) : PSet(Eq());
    q.fn = std::make_shared<LinDiffFn>(p.space, x1, A, b);
    q.val = [=](const Vec &x) -> Vec { return A * m.difference(x1, x) + b; };
    q.jac = [=](const Vec &x) -> Mat { return A * m.Jdifference(x1, x, 1); };
    c.note("A", show(A));
    c.note("b", show(b.transpose()));
    c.note("set", q.set.str());
    p.cs.push_back(q);
  }
  Cfg cf = gqpcfg(s);
  cf.hess = HessianApprox::GAUSS_NEWTON;
  if (!p.cs.empty())
    cf.kkt = nlp::KKT_PRIMAL_DUAL;
  c.note("config", cf.str());
  Vec v = 0.25 * m.tangent(s), x0 = m.integrate(t, v);
  c.note("x0", show(x0.transpose()));
  auto pb = p.problem();
  auto sv = cf.make(*pb);
  ConvergenceFlag f = sv->solve(x0, Vec::Zero(p.nc()));
  note_result(c, *sv, f);
  if (f != ConvergenceFlag::SUCCESS)
    return false;
  check_success(c, p, *sv, cf.tol);
  int b = 1;
  while (b < (int)sv->results_->num_iters)
    b *= 3;
  c.label("iterations <= " + std::to_string(b));
  Vec d = m.difference(t, sv->results_->x_opt);
  c.note("distance to the target", d.norm());
  if (p.cs.empty())
    c.require(0.2 * d.norm() <= 3 * cf.tol * std::sqrt(n) + 1e-12, "not the target");
  if (p.m.curved())
    c.nontrivial();
  return true;
}
static void c02_manifold(Src &s, Ctx &c) {
  c.require(closest_point(s, c, false), "closest point problem not solved");
}
static void c02_manifold_constrained(Src &s, Ctx &c) {
  const int N = 25;
  int bad = 0;
  for (int i = 0; i < N; i++) {
    Ctx cc;
    try {
      bad += !closest_point(s, cc, true);
    } catch (const Violation &) {
      c.dump << cc.dump.str();
      throw;
    }
  }
  c.nontrivial();
  c.note("programs not solved", bad);
  c.label("not solved: " + std::to_string(bad) + " of " + std::to_string(N));
  c.require(bad <= N / 6, "too many constrained closest point problems are not solved");
}

int main(int argc, char **argv) {
  std::vector<Sub> subs = {
      {"C01", "euclidean", 30000, 400000, c01_euclidean, "SUCCESS after at least one iteration on a constrained problem"},
      {"C01", "manifold", 15000, 200000, c01_manifold, "SUCCESS after at least one iteration on a constrained problem"},
      {"C02", "qp", 30000, 400000, c02_qp,
       "a constrained program which needs at least one iteration"},
      {"C02", "fixed_penalty", 5000, 60000, c02_fixed_penalty, "more than one outer iteration"},
      {"C02", "large_multipliers", 1000, 10000, c02_large_multipliers, "every batch of 40 programs"},
      {"C02", "default", 500, 10000, c02_default, "every batch of 60 programs"},
      {"C02", "manifold", 15000, 200000, c02_manifold, "the space is curved"},
      {"C02", "manifold_constrained", 1000, 16000, c02_manifold_constrained, "every batch of 25 programs"},
      {"C02", "classic_stall", 1, 1, c02_classic_cycle, "the recorded program"},
  };
  return engine_main(argc, argv, subs);
}
