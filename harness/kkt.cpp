// C04 schedule of penalties and tolerances; C05 merit function and multiplier estimates;
// C06 Newton systems; C21 layout of problems, workspaces and results
#include "nlp.hpp"
#include <malloc.h>

using namespace vp;
using VRefV = std::vector<nlp::math_types<double>::VectorRef>;

static Vec glam(Src &s, int n) { return s.flag() ? gvec(s, n) : Vec(Vec::Zero(n)); }

/// A set which asks for second-order terms.
struct EqGN : Eq {
  bool disableGaussNewton() const override { return false; }
};
/// Reference values of everything which depends on (x, lam; lam_prev, mu, rho, target).
struct Ref {
  const Prog &p;
  double mu, rho, b; // b: weight of the dual term
  Vec lp, target;
  double f;
  Vec c, g, zs, zp, lplus, lpdal, as, ap;
  Mat J;
  Vec x, lam;
  Vec proxg;
  double prox;
  Ref(const Prog &p, const Vec &x, const Vec &lam, const Vec &lp, double mu, double rho, const Vec &target,
      double b)
      : p(p), mu(mu), rho(rho), b(b), lp(lp), target(target), x(x), lam(lam) {
    f = p.f(x), c = p.c(x), g = p.g(x), J = p.J(x);
    zs = c + mu * lp;
    zp = zs - (1 - b) * mu * lam;
    lplus = (zs - p.proj(zs, mu)) / mu;
    lpdal = (zp - p.proj(zp, mu)) / (b * mu);
    as = p.active(zs, mu), ap = p.active(zp, mu);
    Vec d = p.m.difference(target, x);
    prox = 0.5 * rho * d.squaredNorm();
    proxg = rho * p.m.Jdifference(target, x, 1).transpose() * d;
  }
  double kink() const { return std::min(p.kink(zs, mu), p.kink(zp, mu)); }
  double merit() const {
    double r = f + prox + (1 - b) * mu / 2. * lam.squaredNorm();
    Vec pr = p.proj(zp, mu);
    r += (zp - pr).squaredNorm() / (2 * b * mu);
    int a = 0;
    for (auto &q : p.cs)
      for (int i = 0; i < q.nr; i++, a++)
        r += q.set.g(i, pr[a]) / b;
    return r;
  }
  Vec merit_gx() const { return g + J.transpose() * lpdal + proxg; }
  Vec merit_gl() const { return (1 - b) * mu * (lam - lpdal); }
  /// optimality conditions of the subproblem
  Vec residual(nlp::KktSystem k) const {
    Vec o(p.ndx() + p.nc());
    o.head(p.ndx()) = g + J.transpose() * lam + proxg;
    o.tail(p.nc()) = k == nlp::KKT_CLASSIC ? Vec(mu * (lplus - lam)) : Vec(b * mu * (lpdal - lam));
    return o;
  }
  double scale() const { return 1 + std::fabs(f) + nrm(g) + nrm(J) * (1 + nrm(lam) + nrm(lpdal) + nrm(lplus)) + nrm(proxg) + nrm(c); }
  /// Hessian of the subproblem as chosen by the options (BFGS: given)
  Mat hessian(const Cfg &k, const Mat &given) const {
    const int n = p.ndx();
    Mat H(n, n);
    if (k.hess == HessianApprox::BFGS)
      H = given;
    else if (k.hess == HessianApprox::IDENTITY)
      H = Mat::Identity(n, n);
    else {
      p.cost->computeHessian(x, H);
      int a = 0;
      for (auto &q : p.cs) {
        if (k.hess == HessianApprox::EXACT || dynamic_cast<const EqGN *>(&*q.pset) /* not for the library's sets */) {
          Mat t = Mat::Zero(n, n);
          Vec v = lpdal.segment(a, q.nr);
          q.fn->vectorHessianProduct(x, v, t);
          H += t;
        }
        a += q.nr;
      }
    }
    if (rho > 0) {
      Mat D = p.m.Jdifference(target, x, 1);
      H += rho * D.transpose() * D;
    }
    return H;
  }
  Mat kkt(const Cfg &k, const Mat &given) const {
    const int n = p.ndx(), m = p.nc();
    const Vec &a = k.kkt == nlp::KKT_CLASSIC ? as : ap;
    Mat K = Mat::Zero(n + m, n + m);
    K.topLeftCorner(n, n) = hessian(k, given);
    K.bottomLeftCorner(m, n) = a.asDiagonal() * J;
    K.topRightCorner(n, m) = K.bottomLeftCorner(m, n).transpose();
    for (int i = 0; i < m; i++)
      K(n + i, n + i) = k.kkt == nlp::KKT_CLASSIC ? -mu : -mu * (b + (1 - b) * a[i]);
    return K;
  }
};

static void drive(const Prog &p, Problem &pb, Solver &sv, const Vec &x, const Vec &lam, const Vec &lp, double mu,
                  double rho, const Vec &target) {
  Workspace &w = *sv.workspace_;
  sv.setPenalty(mu);
  sv.setProxParameter(rho);
  sv.prox_penalty.updateTarget(target);
  w.data_lams_prev = lp;
  sv.results_->x_opt = x;
  sv.results_->data_lams_opt = lam;
  pb.evaluate(x, w);
  sv.computeMultipliers(lam, w);
}


// ---------------------------------------------------------------- C05
static Prog gpt(Src &s, Ctx &c, int maxn = 6) {
  Prog p = gprog(s, c, maxn, s.chance(1, 3), true);
  for (auto &q : p.cs) {
    bool eq = true;
    for (auto &e : q.set.c)
      eq = eq && e.k == KEQ;
    if (eq && s.chance(1, 4)) {
      q.pset = PSet(EqGN());
      c.note("set with second-order terms", q.set.str());
    }
  }
  return p;
}
static void c05_point(Src &s, Ctx &c) {
  Prog p = gpt(s, c);
  Cfg k = gcfg(s, p);
  auto pb = p.problem();
  auto sv = k.make(*pb);
  Workspace &w = *sv->workspace_;
  int rounds = s.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    Vec x = p.m.point(s), lam = glam(s, p.nc()), lp = glam(s, p.nc()), t = p.m.point(s);
    double mu = s.logreal(1e-4, 2.), rho = s.flag() ? s.logreal(1e-4, 2.) : 0.;
    c.note("x", show(x.transpose()));
    c.note("lam", show(lam.transpose()));
    c.note("lam_prev", show(lp.transpose()));
    c.note("mu rho", std::to_string(mu) + " " + std::to_string(rho));
    drive(p, *pb, *sv, x, lam, lp, mu, rho, t);
    Ref q(p, x, lam, lp, mu, rho, t, k.beta);
    double eps = 1e-11 * q.scale(), epl = eps / mu;
    mclose(c, w.data_cstr_values, q.c, eps, "constraint values");
    mclose(c, w.data_shift_cstr_values, q.zs, eps, "shifted constraints c + mu lam_prev");
    mclose(c, w.data_shift_cstr_pdal, q.zp, eps, "shifted constraints c + mu (lam_prev - (1 - beta) lam)");
    mclose(c, w.data_lams_plus, q.lplus, epl, "first-order multipliers");
    mclose(c, w.data_lams_pdal, q.lpdal, epl, "primal-dual multipliers");
    if (q.kink() > 1e-9) {
      mclose(c, w.data_lams_plus_reproj, (1 - q.as.array()).matrix().cwiseProduct(q.lplus), epl, "projected first-order multipliers");
      mclose(c, w.data_lams_pdal_reproj, (1 - q.ap.array()).matrix().cwiseProduct(q.lpdal), epl, "projected primal-dual multipliers");
    }
    double m = sv->merit_fun.evaluate(x, sv->results_->lams_opt, w) + sv->prox_penalty.call(x);
    c.close(m, q.merit(), 1e-10 * (1 + std::fabs(q.merit()) + q.scale() + 1 / mu * q.zp.squaredNorm()), "value of the merit function");
    k.kkt = s.flag() ? nlp::KKT_PRIMAL_DUAL : nlp::KKT_CLASSIC;
    k.apply(*sv);
    if (s.flag() && k.hess != HessianApprox::BFGS)
      sv->computeProblemDerivatives(x, w, boost::mpl::true_());
    else
      sv->computeProblemDerivatives(x, w, boost::mpl::false_());
    mclose(c, w.objective_gradient, q.g, eps, "objective gradient");
    mclose(c, w.data_jacobians, q.J, eps, "Jacobians");
    if (q.kink() > 1e-9)
      mclose(c, w.data_jacobians_proj, Mat((k.kkt == nlp::KKT_CLASSIC ? q.as : q.ap).asDiagonal() * q.J), eps,
             "projected Jacobians");
    sv->merit_fun.computeGradient(sv->results_->lams_opt, w);
    if (s.chance(1, 3)) {
      // the product of Jacobians and multipliers does not depend on their units
      const Mat J0 = w.data_jacobians;
      const Vec l0 = w.data_lams_pdal, g0 = w.merit_gradient;
      const double u = std::ldexp(1., s.range(-100, 100));
      w.data_jacobians *= u;
      w.data_lams_pdal /= u;
      sv->merit_fun.computeGradient(sv->results_->lams_opt, w);
      mclose(c, w.merit_gradient, g0, 1e-12 * epl, "primal gradient of the merit function with multipliers in another unit");
      w.data_jacobians = J0;
      w.data_lams_pdal = l0;
      sv->merit_fun.computeGradient(sv->results_->lams_opt, w);
    }
    Vec gx = w.merit_gradient + q.proxg, gl = w.merit_dual_gradient;
    mclose(c, gx, q.merit_gx(), epl * 10, "primal gradient of the merit function");
    mclose(c, gl, q.merit_gl(), epl, "dual gradient of the merit function");
    // the derivative of the value, through the library's own evaluations
    Vec dx = p.m.tangent(s), dl = gvec(s, p.nc());
    if (dx.norm() > 1)
      dx /= dx.norm();
    if (dl.norm() > 1)
      dl /= dl.norm();
    const double h = 1e-5;
    double kd = std::min(q.kink(), 1.);
    if (kd > 10 * h * (1 + nrm(q.J) + mu) && q.scale() < 300 && mu > 1e-3) {
      auto val = [&](double tt) {
        Vec xx = p.m.integrate(x, tt * dx), ll = lam + tt * dl;
        drive(p, *pb, *sv, xx, ll, lp, mu, rho, t);
        return sv->merit_fun.evaluate(xx, sv->results_->lams_opt, w) + sv->prox_penalty.call(xx);
      };
      // the reference itself is smooth around the point (no cut locus of a manifold close by)
      auto refv = [&](double tt) { return Ref(p, p.m.integrate(x, tt * dx), lam + tt * dl, lp, mu, rho, t, k.beta).merit(); };
      double r1 = (refv(h) - refv(-h)) / (2 * h), r2 = (refv(2 * h) - refv(-2 * h)) / (4 * h);
      double fd = (8 * (val(h) - val(-h)) - (val(2 * h) - val(-2 * h))) / (12 * h);
      double an = gx.dot(dx) + gl.dot(dl);
      double sc = 1 + std::fabs(q.merit()) + q.scale() + q.zp.squaredNorm() / mu;
      const double ft = 1e-9 * sc / mu + 1e-6 * sc;
      if (std::fabs(r1 - r2) < 0.3 * ft) {
        c.close(fd, an, ft, "gradient of the merit function is not the derivative of its value");
        c.label("finite differences");
        if (!p.cs.empty())
          c.nontrivial();
      }
    }
    // primal residuals
    drive(p, *pb, *sv, x, lam, lp, mu, rho, t);
    sv->computePrimalResiduals(w, *sv->results_);
    Kkt kk = kkt(p, x, lam, mu);
    int a = 0;
    for (size_t i = 0; i < p.cs.size(); i++) {
      c.close(sv->results_->constraint_violations[(long)i], nrm(Mat(kk.viol.segment(a, p.cs[i].nr))), eps, "constraint violation");
      a += p.cs[i].nr;
    }
    c.close(sv->results_->prim_infeas, kk.prim, eps, "primal infeasibility");
    // accepting multipliers
    drive(p, *pb, *sv, x, lam, lp, mu, rho, t);
    sv->mul_update_mode = s.flag() ? MultiplierUpdateMode::NEWTON : s.flag() ? MultiplierUpdateMode::PRIMAL : MultiplierUpdateMode::PRIMAL_DUAL;
    sv->acceptMultipliers(*sv->results_, w);
    const Vec &want = sv->mul_update_mode == MultiplierUpdateMode::NEWTON ? lam : sv->mul_update_mode == MultiplierUpdateMode::PRIMAL ? q.lplus : q.lpdal;
    mclose(c, w.data_lams_prev, want, epl, "accepted multipliers");
    mclose(c, sv->results_->data_lams_opt, want, epl, "returned multipliers");
  }
}
/// Observes every iteration of a solve.
struct Watch : Callback {
  std::function<void(const Workspace &, const Results &)> f;
  void call(const Workspace &w, const Results &r) override { f(w, r); }
};
static void c05_solve(Src &s, Ctx &c) {
  Prog p = gpt(s, c, 5);
  Cfg k = gcfg(s, p);
  k.max_iters = (size_t)s.range(1, 30), k.max_al = 30;
  c.note("config", k.str());
  auto pb = p.problem();
  auto sv = k.make(*pb);
  Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
  c.note("x0", show(x0.transpose()));
  c.note("lams0", show(l0.transpose()));
  Vec xpre = x0;
  size_t seen = 0;
  auto w = std::make_shared<Watch>();
  Vec last_lp, last_tgt; // of the subproblem of the last iteration
  size_t last_al = 0;
  w->f = [&](const Workspace &ws, const Results &r) {
    if (r.converged == ConvergenceFlag::SUCCESS && seen > 0 && r.al_iters == last_al) {
      // the merit value which is returned is the one of the last subproblem at the solution
      Ref q(p, r.x_opt, r.data_lams_opt, last_lp, r.mu, r.rho, last_tgt, k.beta);
      double sc = 1 + std::fabs(q.merit()) + q.scale() + q.zp.squaredNorm() / r.mu;
      if (sc < 1e8) {
        c.close(r.merit, q.merit(), 1e-10 * sc, "merit value of the solution");
        c.close(r.value, q.f, 1e-10 * q.scale(), "objective value of the solution");
        c.label("solution");
      }
    }
    if (r.converged != ConvergenceFlag::UNINIT || r.al_iters >= k.max_al)
      return; // the call at the end of the solve
    seen++;
    last_al = r.al_iters, last_lp = ws.data_lams_prev, last_tgt = ws.x_prev;
    const double mu = r.mu, rho = r.rho;
    Vec x = r.x_opt, lam = r.data_lams_opt, lp = ws.data_lams_prev, tgt = ws.x_prev;
    if (!x.allFinite() || !lam.allFinite())
      return;
    c.require(Vec(sv->prox_penalty.getTarget()) == tgt, "target of the proximal term");
    Ref q(p, x, lam, lp, mu, rho, tgt, k.beta);
    double sc = 1 + std::fabs(q.merit()) + q.scale() + q.zp.squaredNorm() / mu;
    if (sc < 1e8) {
      c.note("iteration", r.num_iters);
      c.close(r.merit, q.merit(), 1e-10 * sc, "reported merit is not the merit function of the iterate");
      Vec st = ws.pd_step, lpre = lam - ws.alpha_opt * st.tail(p.nc());
      Ref o(p, xpre, lpre, lp, mu, rho, tgt, k.beta);
      double d = o.merit_gx().dot(st.head(p.ndx())) + o.merit_gl().dot(st.tail(p.nc()));
      double so = (1 + o.scale() + (q.scale() + nrm(st)) ) / mu * (1 + st.norm()) * (1 + std::sqrt((double)st.size()));
      c.close(ws.dmerit_dir, d, 1e-10 * so, "directional derivative of the merit function");
      c.close(r.value, o.f, 1e-10 * o.scale(), "reported objective value");
      // the accepted step: sufficient decrease of the merit function, unless the search was exhausted
      const auto &lo = sv->ls_options;
      const double al = ws.alpha_opt, tol = 1e-9 * (sc + so + 1 + std::fabs(o.merit()));
      const double last = std::pow(std::max(0.5, lo.contraction_max), (double)lo.max_num_steps);
      c.require(al > 0 && al <= 1, "step length outside of (0, 1]");
      if (std::fabs(d) > 2 * lo.dphi_thresh + tol && tol < 1e3) {
        if (al > std::max(lo.alpha_min, last) * (1 + 1e-9)) {
          c.require(q.merit() <= o.merit() + lo.armijo_c1 * al * d + tol, "the accepted step does not decrease the merit function sufficiently");
          c.label("sufficient decrease");
        }
        if (al < 1) {
          Ref full(p, p.m.integrate(xpre, Vec(st.head(p.ndx()))), lpre + st.tail(p.nc()), lp, mu, rho, tgt, k.beta);
          const double mf = full.merit();
          c.require(!(mf < o.merit() + lo.armijo_c1 * d - tol - 1e-9 * (full.scale() + full.zp.squaredNorm() / mu)), "shortened step although the full one decreases the merit function sufficiently");
          c.label("shortened step");
        }
      }
      if (rho > 0 && p.nc())
        c.nontrivial();
    }
    xpre = x;
  };
  sv->registerCallback(w);
  try {
    sv->solve(x0, l0);
  } catch (const nlp::RuntimeError &) {
    c.label("error");
  }
  c.label("iterations " + std::to_string(std::min<size_t>(seen, 5)));
}

// ---------------------------------------------------------------- C06
static int npos(const Mat &K, bool &clear) {
  Eigen::SelfAdjointEigenSolver<Mat> es(K);
  const Vec e = es.eigenvalues();
  double sc = std::max(1e-300, e.cwiseAbs().maxCoeff());
  clear = e.cwiseAbs().minCoeff() > 1e-7 * sc;
  int n = 0;
  for (long i = 0; i < e.size(); i++)
    n += e[i] > 0;
  return n;
}
/// The classification of an inertia, and a step exactly when it is right.
static void c06_inertia(Src &s, Ctx &c) {
  const int n = s.tail(0, 4, 30), m = s.tail(0, 4, 30);
  std::vector<int> v;
  for (int i = 0; i < n + m; i++)
    v.push_back(i < n ? 1 : -1);
  const int wrong = s.range(0, 3);
  for (int i = 0; i < wrong && n + m > 0; i++)
    v[s.below((uint32_t)(n + m))] = s.range(-1, 1);
  if (s.chance(1, 6)) // the signature of a system of another size
    for (int i = s.range(1, 3); i-- > 0;)
      v.push_back(s.flag() ? 1 : -1);
  for (int i = (int)v.size(); i-- > 1;)
    std::swap(v[(size_t)i], v[s.below((uint32_t)i + 1)]);
  Eigen::VectorXi sg = Eigen::Map<Eigen::VectorXi>(v.data(), (long)v.size());
  int pos = 0, neg = 0, zer = 0;
  for (int q : v)
    pos += q > 0, neg += q < 0, zer += q == 0;
  c.note("signature", show(sg.transpose()));
  nlp::InertiaFlag f = nlp::checkInertia(n, m, sg);
  nlp::InertiaFlag want = zer ? nlp::INERTIA_HAS_ZEROS : pos == n && neg == m ? nlp::INERTIA_OK : nlp::INERTIA_BAD;
  c.require(f == want, "classification of an inertia: " + std::to_string((int)f) + " instead of " + std::to_string((int)want));
  if (n + m > 1)
    c.nontrivial();
}
static void c06_newton(Src &s, Ctx &c) {
  Prog p = gpt(s, c, 5);
  Cfg k = gcfg(s, p);
  k.max_iters = (size_t)s.range(1, 12), k.max_al = 12;
  c.note("config", k.str());
  auto pb = p.problem();
  auto sv = k.make(*pb);
  Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
  c.note("x0", show(x0.transpose()));
  c.note("lams0", show(l0.transpose()));
  Vec xpre = x0;
  size_t seen = 0, al = 0;
  double dlast = 0; // last successful regularisation in this outer iteration
  bool dknown = true;
  auto w = std::make_shared<Watch>();
  const int n = p.ndx(), m = p.nc();
  w->f = [&](const Workspace &ws, const Results &r) {
    if (r.converged != ConvergenceFlag::UNINIT || r.al_iters >= k.max_al)
      return; // the call at the end of the solve
    if (seen == 0 || r.al_iters != al)
      dlast = 0, dknown = true;
    al = r.al_iters;
    seen++;
    Vec x = r.x_opt, lam = r.data_lams_opt, st = ws.pd_step;
    Vec pre = xpre;
    xpre = x;
    if (!x.allFinite() || !lam.allFinite() || !(ws.alpha_opt > 1e-3))
      return void(dknown = false);
    Vec lpre = lam - ws.alpha_opt * st.tail(m);
    Ref q(p, pre, lpre, ws.data_lams_prev, r.mu, r.rho, ws.x_prev, k.beta);
    if (q.kink() < 1e-9 * q.scale())
      return void(dknown = false);
    // active sets
    int a = 0;
    for (size_t i = 0; i < p.cs.size(); i++)
      for (int j = 0; j < p.cs[i].nr; j++, a++)
        c.require(r.active_set[i][j] == (q.as[a] > 0.5), "active set");
    Mat K = q.kkt(k, ws.objective_hessian);
    c.note("iteration", r.num_iters);
    double ksc = 1 + nrm(K);
    mclose(c, ws.kkt_matrix, K, 1e-10 * (ksc + q.scale() / (k.hess == HessianApprox::EXACT ? r.mu : 1.)), "KKT matrix");
    // which regularisation makes the inertia right
    bool clear;
    double delta = 0;
    Mat R = K;
    int steps = 0;
    while (true) {
      R = K;
      R.diagonal().head(n).array() += delta;
      int np = npos(R, clear);
      if (!clear)
        return void(dknown = false);
      if (np == n)
        break;
      if (delta == 0 && !dknown)
        return;
      if (delta == 0)
        delta = dlast == 0 ? sv->DELTA_NONZERO_INIT : std::max(sv->DELTA_MIN, sv->del_dec_k * dlast);
      else
        delta *= dlast == 0 ? sv->del_inc_big : sv->del_inc_k;
      steps++;
      if (delta > sv->DELTA_MAX)
        return void(dknown = false);
    }
    double dl = dlast;
    (void)dl;
    dlast = delta, dknown = true;
    c.note("regularisation", delta);
    int pos = 0, neg = 0;
    for (long i = 0; i < ws.signature.size(); i++)
      pos += ws.signature[i] == 1, neg += ws.signature[i] == -1;
    c.require(pos == n && neg == m, "the factorised matrix does not have the inertia which a descent direction needs");
    Eigen::JacobiSVD<Mat> svd(R);
    double cond = svd.singularValues().maxCoeff() / svd.singularValues().minCoeff();
    if (!(cond < 1e8))
      return;
    // semismooth Newton equations
    const Vec &act = k.kkt == nlp::KKT_CLASSIC ? q.as : q.ap;
    Vec res = q.residual(k.kkt);
    Vec D(n + m);
    Mat H = K.topLeftCorner(n, n);
    D.head(n) = H * st.head(n) + q.J.transpose() * st.tail(m);
    for (int i = 0; i < m; i++) {
      double jd = q.J.row(i).dot(st.head(n));
      D[n + i] = k.kkt == nlp::KKT_CLASSIC ? act[i] * jd - r.mu * st[n + i]
                                          : act[i] * jd - r.mu * (q.b + (1 - q.b) * act[i]) * st[n + i];
    }
    double tol = (1e-11 + 1e-15 * cond) * (q.scale() + ksc * (1 + st.norm()) * (1 + nrm(q.J))) * (1 + 1. / r.mu) ;
    if (delta == 0) {
      mclose(c, D, -res, tol, "the step does not solve the Newton equations of the subproblem");
      c.label("Newton step");
      if (m)
        c.nontrivial();
    } else {
      // (K + delta) solved, then refined with K; the symmetrised right-hand side
      Vec rhs = res;
      for (int i = 0; i < m; i++)
        if (act[i] < 0.5) {
          double dlam = (k.kkt == nlp::KKT_CLASSIC ? q.lplus : q.lpdal)[i] - lpre[i];
          rhs.head(n) += q.J.row(i).transpose() * dlam;
        }
      Eigen::FullPivLU<Mat> lu(R);
      Vec y = lu.solve(-rhs);
      for (size_t i = 0; i < sv->max_refinement_steps_; i++) {
        Vec e = -rhs - K * y;
        if (nrm(Mat(e)) < sv->kkt_tolerance_)
          break;
        y += lu.solve(e);
      }
      // the refinement may diverge: errors grow alike
      double grow = 1 + nrm(Mat(y)) ;
      if (grow < 1e4) {
        mclose(c, st, y, 1e-6 * (1e-3 + cond * 1e-6) * grow * (1 + q.scale()), "the step does not solve the regularised Newton system");
        c.label("regularised step");
        c.nontrivial();
      }
    }
  };
  sv->registerCallback(w);
  std::string err;
  try {
    sv->solve(x0, l0);
  } catch (const nlp::RuntimeError &e) {
    err = e.what();
    c.label("error");
  }
  if (!err.empty() && seen == 0) { // no step at all: the first system has to be a hopeless one
    Ref q(p, x0, l0, l0, k.mu, k.rho, x0, k.beta);
    bool clear;
    const Mat &H = sv->workspace_->objective_hessian;
    if (H.allFinite() && q.scale() < 1e6) {
      Mat K = q.kkt(k, H);
      Eigen::JacobiSVD<Mat> svd(K);
      const double cond = svd.singularValues().maxCoeff() / svd.singularValues().minCoeff();
      if (q.kink() > 1e-9 * q.scale() && npos(K, clear) == n && clear && cond < 1e6)
        c.require(false, "a regular Newton system with the right inertia is not solved: " + err);
    }
  }
}

// ---------------------------------------------------------------- C04
/// The public operations of the schedule against a model.
static void c04_model(Src &s, Ctx &c) {
  Prog p;
  gprog_space(s, p, 3, false);
  gprog_cost(s, c, p);
  Vec ref = p.m.point(s);
  p.cs.push_back(gcstr(s, c, p, ref, true));
  if (s.flag())
    p.cs.push_back(gcstr(s, c, p, ref, true));
  Cfg k = gcfg(s, p);
  auto pb = p.problem();
  auto sv = k.make(*pb);
  sv->mu_upper_ = s.flag() ? 1. : s.logreal(0.5, 10.);
  sv->inner_tol0 = s.flag() ? 1. : s.logreal(0.1, 10.);
  sv->prim_tol0 = s.flag() ? 1. : s.logreal(0.1, 10.);
  sv->inner_tol_min = s.flag() ? 1e-9 : s.logreal(1e-9, 1e-3);
  c.note("config", k.str());
  double mu = k.mu, it = sv->inner_tol_, pt = sv->prim_tol_, rho = k.rho;
  sv->setPenalty(mu);
  sv->setProxParameter(rho);
  int ops = s.range(1, 25);
  auto floors = [&]() {
    it = std::max(it, sv->inner_tol_min);
    pt = std::max(pt, k.tol);
  };
  int kinds = 0;
  for (int o = 0; o < ops; o++) {
    int op = s.below(6);
    kinds |= 1 << op;
    switch (op) {
    case 0:
      c.note("op", "updatePenalty");
      sv->updatePenalty();
      mu = mu == k.mulow ? k.mu : std::max(mu * k.mu_factor, k.mulow);
      break;
    case 1:
      c.note("op", "failure");
      sv->updateToleranceFailure();
      pt = sv->prim_tol0 * std::pow(mu, k.pa);
      it = sv->inner_tol0 * std::pow(mu, k.da);
      floors();
      break;
    case 2:
      c.note("op", "success");
      sv->updateToleranceSuccess();
      pt *= std::pow(mu / sv->mu_upper_, k.pb);
      it *= std::pow(mu / sv->mu_upper_, k.db);
      floors();
      break;
    case 3:
      mu = s.flag() ? k.mulow : s.logreal(1e-9, 2.);
      c.note("op", "setPenalty " + std::to_string(mu));
      sv->setPenalty(mu);
      break;
    case 4:
      rho = s.flag() ? 0. : s.logreal(1e-8, 10.);
      c.note("op", "setProxParameter " + std::to_string(rho));
      sv->setProxParameter(rho);
      break;
    default: { // what the parameters mean
      Vec x = p.m.point(s), t = p.m.point(s), lam = gvec(s, p.nc()), lp = gvec(s, p.nc());
      Workspace &w = *sv->workspace_;
      w.data_lams_prev = lp;
      pb->evaluate(x, w);
      sv->computeMultipliers(lam, w);
      Ref q(p, x, lam, lp, mu, rho, t, k.beta);
      mclose(c, w.data_lams_plus, q.lplus, 1e-11 * q.scale() / mu, "multipliers for the current penalty parameter");
      sv->prox_penalty.updateTarget(t);
      c.close(sv->prox_penalty.call(x), q.prox, 1e-11 * (1 + q.prox), "proximal term for the current parameter");
    }
    }
    c.close(sv->inner_tol_, it, 1e-12 * it, "subproblem tolerance");
    c.close(sv->prim_tol_, pt, 1e-12 * pt, "primal tolerance");
    c.require(sv->inner_tol_ >= sv->inner_tol_min && sv->prim_tol_ >= sv->target_tol, "tolerance below its floor");
    for (auto &q : pb->constraints_) {
      c.close(q.set_->mu(), mu, 1e-13 * mu, "penalty parameter of a constraint set");
      c.close(q.set_->mu_inv(), 1 / mu, 1e-12 / mu, "inverse penalty parameter of a constraint set");
    }
    mclose(c, sv->prox_penalty.weights_, Mat(rho * Mat::Identity(p.ndx(), p.ndx())), 1e-13 * rho, "weights of the proximal term");
  }
  if (__builtin_popcount((unsigned)kinds) > 3)
    c.nontrivial();
}
/// The outer loop, one outer iteration at a time: solves which differ in max_al_iters only.
static void c04_outer(Src &s, Ctx &c) {
  Prog p = gprog(s, c, 4, s.chance(1, 4), true);
  Cfg k = gcfg(s, p);
  k.max_iters = 60;
  if (s.chance(1, 3)) // reach the lower bound of the penalty parameter
    k.mulow = s.logreal(k.mu * 1e-4, k.mu);
  c.note("config", k.str());
  Vec x0 = p.m.point(s), l0 = glam(s, p.nc());
  c.note("x0", show(x0.transpose()));
  c.note("lams0", show(l0.transpose()));
  double mu = k.mu, rho = k.rho, pt = std::max(std::pow(mu, k.pa), k.tol), it = std::max(std::pow(mu, k.da), 1e-9);
  Vec lp = l0, tgt = x0, lopt = l0;
  int good = 0, bad = 0;
  for (int al = 1; al <= 8; al++) {
    Cfg q = k;
    q.max_al = (size_t)al;
    auto pb = p.problem();
    auto sv = q.make(*pb);
    // the last point of the inner loop, before multipliers are accepted
    Vec lend = lopt;
    auto w = std::make_shared<Watch>();
    size_t calls = 0;
    w->f = [&](const Workspace &ws, const Results &r) {
      calls++;
      if (r.converged == ConvergenceFlag::UNINIT && r.al_iters == (size_t)al - 1)
        lend = r.data_lams_opt;
    };
    sv->registerCallback(w);
    ConvergenceFlag f;
    try {
      f = sv->solve(x0, l0);
    } catch (const nlp::RuntimeError &) {
      break;
    }
    const Results &r = *sv->results_;
    const Workspace &ws = *sv->workspace_;
    c.note("outer iteration", al);
    c.note("flag", (int)f);
    if (f == ConvergenceFlag::MAX_ITERS_REACHED)
      break;
    c.close(r.mu, mu, 1e-12 * mu, "penalty parameter of the outer iteration");
    c.close(r.rho, rho, 1e-12 * rho, "proximal parameter of the outer iteration");
    c.require(r.mu <= std::max(k.mu, k.mulow) * (1 + 1e-12) && r.mu >= k.mulow * (1 - 1e-12), "penalty parameter outside of its bounds");
    if (f == ConvergenceFlag::SUCCESS)
      break;
    c.require(r.al_iters == (size_t)al, "number of outer iterations");
    Vec x = r.x_opt;
    if (!x.allFinite() || nrm(Mat(lend)) > 1e6)
      break;
    Ref e(p, x, lend, lp, mu, rho, tgt, k.beta);
    double eps = 1e-11 * e.scale();
    // the subproblem was solved to its tolerance
    Vec res = e.residual(k.kkt);
    c.require(nrm(Mat(res)) <= it + eps, "subproblem left although its tolerance is not met");
    Kkt kk = kkt(p, x, lend, mu);
    c.close(r.prim_infeas, kk.prim, eps, "primal infeasibility");
    c.close(r.dual_infeas, kk.dual, eps, "dual infeasibility");
    if (std::fabs(kk.prim - pt) < 1e-9 * (1 + pt))
      break;
    c.require(Vec(ws.x_prev) == x && Vec(sv->prox_penalty.getTarget()) == x, "the proximal term is not centred at the new iterate");
    if (kk.prim < pt) {
      good++;
      const Vec &want = k.mul == MultiplierUpdateMode::NEWTON ? lend : k.mul == MultiplierUpdateMode::PRIMAL ? e.lplus : e.lpdal;
      mclose(c, ws.data_lams_prev, want, eps / mu, "multipliers after a successful outer iteration");
      lp = lopt = ws.data_lams_prev;
      c.require(Vec(r.data_lams_opt) == lp, "returned multipliers after a successful outer iteration");
      pt = std::max(pt * std::pow(mu, k.pb), k.tol);
      it = std::max(it * std::pow(mu, k.db), 1e-9);
    } else {
      bad++;
      c.require(Vec(ws.data_lams_prev) == lp, "multipliers changed after a failed outer iteration");
      lopt = r.data_lams_opt;
      c.require(lopt == lend, "iterate of the multipliers changed after a failed outer iteration");
      mu = mu == k.mulow ? k.mu : std::max(mu * k.mu_factor, k.mulow);
      pt = std::max(std::pow(mu, k.pa), k.tol);
      it = std::max(std::pow(mu, k.da), 1e-9);
    }
    rho *= k.rho_factor;
    tgt = x;
    c.close(sv->prim_tol_, pt, 1e-11 * pt, "primal tolerance after an outer iteration");
    c.close(sv->inner_tol_, it, 1e-11 * it, "subproblem tolerance after an outer iteration");
    for (auto &q : pb->constraints_)
      c.close(q.set_->mu(), mu, 1e-12 * mu, "penalty parameter after an outer iteration");
    mclose(c, sv->prox_penalty.weights_, Mat(rho * Mat::Identity(p.ndx(), p.ndx())), 1e-12 * rho, "proximal weights after an outer iteration");
  }
  c.label("successful " + std::to_string(std::min(good, 3)) + " failed " + std::to_string(std::min(bad, 3)));
  if (good && bad)
    c.nontrivial();
}

// ---------------------------------------------------------------- C21
struct CountFn : SmoothFn {
  mutable Vec lastv, lastx;
  CountFn(const SmoothData &d) : SmoothFn(d) {}
  VectorXs operator()(const ConstVectorRef &x) const override {
    lastx = x;
    return SmoothFn::operator()(x);
  }
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef H) const override {
    lastv = v;
    SmoothFn::vectorHessianProduct(x, v, H);
  }
};
static void c21_layout(Src &s, Ctx &c) {
  const int n = s.tail(1, 6, 20);
  VS space(n);
  auto newfn = [&](int nr) { return std::make_shared<CountFn>(gsmooth(s, n, nr)); };
  std::vector<std::shared_ptr<CountFn>> fns;
  std::vector<PSet> sets;
  std::vector<bool> second;
  auto grow = [&]() {
    // one function may serve several constraints (with the same set or another one)
    if (!fns.empty() && s.chance(1, 5)) {
      size_t i = s.below((uint32_t)fns.size());
      fns.push_back(fns[i]);
      if (s.flag()) {
        sets.push_back(sets[i]);
        second.push_back(second[i]);
        return;
      }
    } else {
      fns.push_back(newfn(s.below(5)));
    }
    int nr = fns.back()->nr();
    switch (s.below(5)) {
    case 4:
      sets.push_back(PSet(EqGN()));
      break;
    case 0:
      sets.push_back(PSet(Eq()));
      break;
    case 1:
      sets.push_back(PSet(Neg()));
      break;
    case 2:
      sets.push_back(PSet(Box(Vec::Constant(nr, -1.), Vec::Constant(nr, 1.))));
      break;
    default:
      sets.push_back(PSet(L1()));
    }
    second.push_back(dynamic_cast<const EqGN *>(&*sets.back()) != nullptr);
  };
  int k0 = s.tail(0, 4, 14), k1 = s.tail(0, 3, 14);
  std::vector<CObj> v;
  for (int i = 0; i < k0; i++) {
    grow();
    v.emplace_back(fns.back(), sets.back());
  }
  auto cost = std::make_shared<SmoothCost>(gsmooth(s, n, 1));
  Problem pb(space, cost, v);
  Problem early(pb);
  for (int i = 0; i < k1; i++) {
    grow();
    CObj o(fns.back(), sets.back());
    if (s.flag())
      pb.addConstraint(o);
    else
      pb.addConstraint(CObj(fns.back(), sets.back()));
  }
  c.note("constraints", std::to_string(k0) + " + " + std::to_string(k1));
  // indices
  auto check_index = [&](Problem &q, int nc) {
    int o = 0;
    c.require(q.getNumConstraints() == (size_t)nc, "number of constraints");
    c.require((int)q.getIndices().size() == nc, "number of indices");
    for (int i = 0; i < nc; i++) {
      c.require(q.getConstraintDim((size_t)i) == fns[(size_t)i]->nr(), "dimension of a constraint");
      c.require(q.getIndex((size_t)i) == o && q.getIndices()[(size_t)i] == o, "index of a constraint");
      c.require(q.getConstraint((size_t)i).func_ == fns[(size_t)i] && q.getConstraint((size_t)i).nr() == fns[(size_t)i]->nr(), "constraint object");
      o += fns[(size_t)i]->nr();
    }
    c.require(q.getTotalConstraintDim() == o, "total dimension");
    c.require(q.nx() == n && q.ndx() == n, "dimensions of the space");
    return o;
  };
  check_index(early, k0);
  const int nc = k0 + k1;
  const int m = check_index(pb, nc);
  Vec y = gvec(s, m);
  {
    Vec z = y;
    int o = 0;
    for (int i = 0; i < nc; i++) {
      int nr = fns[(size_t)i]->nr();
      c.require(Vec(pb.getConstSegment(z, (size_t)i)) == Vec(y.segment(o, nr)), "getConstSegment");
      pb.getSegment(z, (size_t)i).setConstant(i + 1.);
      o += nr;
    }
    o = 0;
    for (int i = 0; i < nc; i++)
      for (int j = 0; j < fns[(size_t)i]->nr(); j++)
        c.require(z[o++] == i + 1., "getSegment");
  }
  mallopt(M_PERTURB, s.range(1, 255));
  static const LDLTChoice ch[] = {LDLTChoice::BUNCHKAUFMAN, LDLTChoice::DENSE, LDLTChoice::BLOCKSPARSE, LDLTChoice::EIGEN};
  auto wp = std::make_unique<Workspace>(pb, ch[s.below(nc > 6 ? 2 : 4)]);
  auto rp = std::make_unique<Results>(pb);
  Workspace &w = *wp;
  Results &r = *rp;
  c.require(w.nx == n && w.ndx == n && w.numdual == m && w.numblocks == (size_t)nc, "dimensions of the workspace");
  c.require(w.kkt_matrix.rows() == n + m && w.kkt_matrix.cols() == n + m && w.kkt_rhs.size() == n + m &&
                w.kkt_rhs_corr.size() == n + m && w.kkt_err.size() == n + m && w.pd_step.size() == n + m && w.signature.size() == n + m,
            "sizes of the KKT system");
  c.require(w.data_jacobians.rows() == m && w.data_jacobians.cols() == n && w.data_hessians.rows() == nc * n &&
                w.data_hessians.cols() == n && w.objective_hessian.rows() == n && w.objective_gradient.size() == n,
            "sizes of the derivatives");
  // a new workspace and new results are zero
  for (const Vec *z : {&w.kkt_rhs, &w.kkt_rhs_corr, &w.pd_step, &w.x_prev, &w.x_trial, &w.data_lams_prev, &w.data_lams_trial, &w.prox_grad,
                       &w.dual_residual, &w.data_cstr_values, &w.objective_gradient, &w.merit_gradient, &w.merit_dual_gradient,
                       &w.data_shift_cstr_values, &w.data_lams_plus, &w.data_lams_plus_reproj, &w.data_lams_pdal,
                       &w.data_lams_pdal_reproj, &w.data_shift_cstr_pdal, &w.tmp_dx_scaled, &r.data_lams_opt, &r.constraint_violations})
    c.require(*z == Vec::Zero(z->size()), "a new workspace is not zero");
  for (const Mat *z : {&w.kkt_matrix, &w.prox_hess, &w.objective_hessian, &w.data_jacobians, &w.data_hessians, &w.data_jacobians_proj})
    c.require(*z == Mat::Zero(z->rows(), z->cols()), "a new workspace is not zero");
  c.require(r.x_opt == Vec::Zero(n) && r.num_iters == 0 && r.al_iters == 0, "new results");
  c.require(r.converged == nlp::ConvergenceFlag::UNINIT, "results claim an outcome before any solve");
  c.require(r.merit == 0. && r.value == 0. && r.prim_infeas == 0. && r.dual_infeas == 0. && r.mu == 0. && r.rho == 0.,
            "numbers of new results");
  for (auto &a : r.active_set)
    c.require(!a.any(), "active set of new results");
  // views by constraint alias the stacked data
  struct Pair {
    Vec *d;
    VRefV *v;
    const char *nm;
  };
  Pair ps[] = {{&w.data_lams_prev, &w.lams_prev, "lams_prev"},
               {&w.data_lams_trial, &w.lams_trial, "lams_trial"},
               {&w.data_cstr_values, &w.cstr_values, "cstr_values"},
               {&w.data_shift_cstr_values, &w.shift_cstr_values, "shift_cstr_values"},
               {&w.data_lams_plus, &w.lams_plus, "lams_plus"},
               {&w.data_lams_plus_reproj, &w.lams_plus_reproj, "lams_plus_reproj"},
               {&w.data_lams_pdal, &w.lams_pdal, "lams_pdal"},
               {&w.data_lams_pdal_reproj, &w.lams_pdal_reproj, "lams_pdal_reproj"},
               {&w.data_shift_cstr_pdal, &w.shift_cstr_pdal, "shift_cstr_pdal"},
               {&r.data_lams_opt, &r.lams_opt, "lams_opt"}};
  for (auto &q : ps) {
    c.require(q.d->size() == m && q.v->size() == (size_t)nc, std::string("sizes of ") + q.nm);
    int o = 0;
    for (int i = 0; i < nc; i++) {
      int nr = fns[(size_t)i]->nr();
      auto &z = (*q.v)[(size_t)i];
      c.require(z.size() == nr && (nr == 0 || z.data() == q.d->data() + o), std::string("view by constraint of ") + q.nm);
      o += nr;
    }
  }
  // no two of them share memory
  std::set<const double *> mem;
  int nz = 0;
  for (auto &q : ps)
    if (m) {
      mem.insert(q.d->data());
      nz++;
    }
  c.require((int)mem.size() == nz, "buffers share memory");
  if (m) {
    w.pd_step = Vec::LinSpaced(n + m, 1., n + m);
    c.require(Vec(w.prim_step) == Vec(w.pd_step.head(n)) && Vec(w.dual_step) == Vec(w.pd_step.tail(m)), "primal and dual parts of the step");
  }
  c.require(r.active_set.size() == (size_t)nc && r.constraint_violations.size() == nc, "sizes of the results");
  for (int i = 0; i < nc; i++)
    c.require(r.active_set[(size_t)i].size() == fns[(size_t)i]->nr(), "size of an active set");
  // evaluations end up where they belong
  int rounds = s.range(1, 2);
  for (int t = 0; t < rounds; t++) {
    Vec x = gvec(s, n);
    const double eps = 1e-12 * (1 + x.squaredNorm()) * 20;
    pb.evaluate(x, w);
    c.close(w.objective_value, cost->d.val(x)[0], eps, "objective value");
    int o = 0;
    for (int i = 0; i < nc; i++) {
      int nr = fns[(size_t)i]->nr();
      mclose(c, w.data_cstr_values.segment(o, nr), fns[(size_t)i]->d.val(x), eps, "constraint value");
      o += nr;
    }
    const Vec pdal = gvec(s, m);
    w.data_lams_pdal = pdal; // a copy: moving would detach the views
    pb.computeDerivatives(x, w);
    mclose(c, w.objective_gradient, cost->d.jac(x).row(0).transpose(), eps, "objective gradient");
    o = 0;
    for (int i = 0; i < nc; i++) {
      int nr = fns[(size_t)i]->nr();
      mclose(c, w.data_jacobians.middleRows(o, nr), fns[(size_t)i]->d.jac(x), eps, "constraint Jacobian");
      mclose(c, w.cstr_jacobians[(size_t)i], fns[(size_t)i]->d.jac(x), eps, "view of a constraint Jacobian");
      o += nr;
    }
    bool all = s.flag();
    const Mat before = gmat(s, nc * n, n);
    w.data_hessians = before;
    for (auto &f : fns)
      f->nvhp = 0;
    pb.computeHessians(x, w, all);
    mclose(c, w.objective_hessian, cost->d.hess(x, 0), eps, "objective Hessian");
    o = 0;
    for (int i = 0; i < nc; i++) {
      auto &f = *fns[(size_t)i];
      int nr = f.nr();
      Mat got = w.data_hessians.middleRows(i * n, n);
      if (all || second[(size_t)i]) {
        Vec lam = w.data_lams_pdal.segment(o, nr);
        mclose(c, got, f.d.vhp(x, lam), eps * (1 + nrm(Mat(lam))), "vector-Hessian product of a constraint");
        mclose(c, w.cstr_vector_hessian_prod[(size_t)i], got, 0, "view of a vector-Hessian product");
      } else {
        mclose(c, got, before.middleRows(i * n, n), 0, "vector-Hessian product which was not asked for");
      }
      o += nr;
    }
    for (int i = 0; i < nc; i++) {
      w.data_jacobians_proj.setRandom();
      c.require(Mat(w.cstr_jacobians_proj[(size_t)i]) == Mat(w.data_jacobians_proj.middleRows(pb.getIndex((size_t)i), fns[(size_t)i]->nr())),
                "view of a projected Jacobian");
    }
  }
  check_index(early, k0);
  if (nc > 1 && m > nc)
    c.nontrivial();
}

int main(int argc, char **argv) {
  std::vector<Sub> subs = {
      {"C04", "model", 100000, 1000000, c04_model, "a history with more than three kinds of operations"},
      {"C04", "outer", 30000, 400000, c04_outer, "outer iterations of both outcomes"},
      {"C05", "point", 60000, 600000, c05_point, "a constrained point where the finite-difference comparison applies"},
      {"C05", "solve", 40000, 400000, c05_solve, "iterations with constraints and a proximal term"},
      {"C06", "inertia", 40000, 400000, c06_inertia, "more than one entry"},
      {"C06", "newton", 60000, 600000, c06_newton, "a step of a constrained or regularised system was compared"},
      {"C21", "layout", 100000, 1000000, c21_layout, "several constraints with more rows than constraints"},
  };
  return engine_main(argc, argv, subs);
}
