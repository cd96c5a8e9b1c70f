// C18 Armijo line search; C19 BFGS updates
#include "num.hpp"
#include <proxsuite-nlp/fwd.hpp>
#include <proxsuite-nlp/bfgs-strategy.hpp>
#include <proxsuite-nlp/linesearch-armijo.hpp>

using namespace vp;
using namespace proxsuite::nlp;
using LS = ArmijoLinesearch<double>;
using Opts = Linesearch<double>::Options;
using Poly = PolynomialTpl<double>;

static Opts gopts(Src &s, Ctx &c) {
  Opts o;
  static const LSInterpolation it[] = {LSInterpolation::BISECTION, LSInterpolation::QUADRATIC, LSInterpolation::CUBIC};
  o.interp_type = it[s.below(3)];
  if (s.flag()) {
    o.armijo_c1 = s.logreal(1e-5, 0.49);
    o.contraction_min = s.real(0.05, 0.6);
    o.contraction_max = o.contraction_min + (0.9 - o.contraction_min) * s.unit();
    o.alpha_min = s.logreal(1e-10, 1e-2);
    o.max_num_steps = (size_t)s.range(0, 40);
  }
  c.dump << "interpolation " << (int)o.interp_type << " c1 " << o.armijo_c1 << " contraction [" << o.contraction_min
         << "," << o.contraction_max << "] alpha_min " << o.alpha_min << " max steps " << o.max_num_steps << "\n";
  return o;
}

struct Trial {
  double a, v;
  bool threw;
};
/// A merit function on the ray, recording where it was evaluated.
struct Ray {
  std::vector<double> co; // polynomial coefficients, increasing degree
  double w = 0, p = 0, amp = 0; // + amp * sin(w a + p)
  double amax = 1e9;            // evaluations beyond throw
  double nan_from = 1e9;        // evaluations beyond are NaN
  double hole_lo = 1, hole_hi = 0; // evaluations inside throw
  double val(double a) const {
    double r = 0;
    for (size_t i = co.size(); i-- > 0;)
      r = r * a + co[i];
    return r + amp * std::sin(w * a + p);
  }
  double slope0() const { return (co.size() > 1 ? co[1] : 0.) + amp * w * std::cos(p); }
  /// bound on |phi''| over [0,1]
  double curv() const {
    double r = std::fabs(amp) * w * w;
    for (size_t i = 2; i < co.size(); i++)
      r += std::fabs(co[i]) * (double)(i * (i - 1));
    return r;
  }
};
static Ray gray(Src &s, Ctx &c) {
  Ray r;
  int deg = s.range(1, 5);
  for (int i = 0; i <= deg; i++)
    r.co.push_back(s.num() * (i >= 2 && s.chance(1, 3) ? 50. : 1.));
  if (s.chance(1, 4)) {
    r.amp = s.num();
    r.w = s.real(1, 30);
    r.p = s.real(0, 6.3);
  }
  c.dump << "phi: polynomial";
  for (double x : r.co)
    c.dump << " " << x;
  c.dump << " + " << r.amp << " sin(" << r.w << " a + " << r.p << ")\n";
  return r;
}

/// What any call of run() has to satisfy.
static double run_ls(Ctx &c, LS &ls, const Opts &o, const Ray &r, double dphi0, std::vector<Trial> &tr, double &ret,
                     bool &threw) {
  tr.clear();
  auto f = [&](double a) -> double {
    if (tr.size() > 2000)
      throw Violation("line search does not terminate");
    if (a > r.amax || (a >= r.hole_lo && a <= r.hole_hi)) {
      tr.push_back({a, 0., true});
      throw std::runtime_error("outside of the domain");
    }
    double v = a >= r.nan_from ? std::numeric_limits<double>::quiet_NaN() : r.val(a);
    tr.push_back({a, v, false});
    return v;
  };
  double alpha = 123.;
  threw = false;
  try {
    ret = ls.run(f, r.val(0), dphi0, alpha);
  } catch (const Violation &) {
    throw;
  } catch (const std::runtime_error &) {
    threw = true;
  }
  c.dump << "trials:";
  for (auto &t : tr)
    c.dump << " " << t.a << (t.threw ? "!" : "") << "->" << t.v;
  c.dump << "\nreturned alpha " << alpha << " phi " << ret << (threw ? " (threw)" : "") << "\n";
  c.require(!tr.empty() && tr[0].a == 1., "the full step is tried first");
  for (size_t k = 0; k < tr.size(); k++)
    c.require(tr[k].a >= o.alpha_min && tr[k].a <= 1., "trial step outside of [alpha_min, 1]");
  for (size_t k = 1; k < tr.size(); k++)
    c.require(tr[k].a <= std::max(o.alpha_min, 0.9001 * tr[k - 1].a), "trial steps have to contract");
  c.require(tr.size() <= o.max_num_steps + 2 + (size_t)std::ceil(std::log2(1 / o.alpha_min)), "too many evaluations");
  size_t first = 0; // the first step which can be evaluated
  while (first < tr.size() && tr[first].threw)
    first++;
  c.require(tr.size() <= first + 1 + o.max_num_steps, "more steps than max_num_steps");
  if (threw) {
    for (auto &t : tr)
      c.require(t.threw, "line search gave up although a step could be evaluated");
    return alpha;
  }
  bool known = false;
  for (auto &t : tr)
    known = known || (!t.threw && t.a == alpha && (t.v == ret || (std::isnan(t.v) && std::isnan(ret))));
  c.require(known, "returned step and value are not one of the evaluated pairs");
  return alpha;
}

static void c18_armijo(Src &s, Ctx &c) {
  Opts o = gopts(s, c);
  LS ls(o);
  int rounds = s.range(1, 2); // the object is reusable
  for (int k = 0; k < rounds; k++) {
    Ray r = gray(s, c);
    double phi0 = r.val(0), d0 = r.slope0();
    if (s.chance(1, 10))
      d0 = 0.;
    std::vector<Trial> tr;
    double ret = 0;
    bool threw;
    double a = run_ls(c, ls, o, r, d0, tr, ret, threw);
    c.require(!threw, "line search threw");
    if (s.flag()) {
      // a merit function in other units, by a power of two, is searched by the same steps
      const double f = std::ldexp(1., s.range(-100, 100));
      Opts os = o;
      os.dphi_thresh *= f;
      Ray rs = r;
      for (double &q : rs.co)
        q *= f;
      rs.amp *= f;
      LS lss(os);
      std::vector<Trial> trs;
      double rets = 0;
      double as = run_ls(c, lss, os, rs, f * d0, trs, rets, threw);
      c.require(!threw && trs.size() == tr.size(), "number of trial steps of a merit function in other units");
      for (size_t i = 0; i < tr.size(); i++)
        c.close(trs[i].a, tr[i].a, 1e-9 * tr[i].a, "trial steps of a merit function in other units");
      c.close(as, a, 1e-9 * a, "step of a merit function in other units");
      c.require(rets == f * ret || std::fabs(as - a) > 0, "value of a merit function in other units");
    }
    if (std::fabs(d0) < o.dphi_thresh) {
      c.require(a == 1. && tr.size() == 1, "flat directions take the full step");
      continue;
    }
    auto ok = [&](double x, double v) { return v - phi0 <= o.armijo_c1 * x * d0; };
    // the first trial with sufficient decrease is the one that is taken
    for (size_t i = 0; i + 1 < tr.size(); i++)
      c.require(!ok(tr[i].a, tr[i].v), "a step with sufficient decrease was passed over");
    c.require(a == tr.back().a, "the last trial is the step that is taken");
    bool good = ok(a, ret);
    size_t steps = tr.size() - 1;
    c.require(good || a <= o.alpha_min || steps >= o.max_num_steps,
              "returned without sufficient decrease before exhausting the limits");
    // descent direction of a smooth function: sufficient decrease once the step is small enough
    if (d0 < 0) {
      double safe = 2 * (1 - o.armijo_c1) * -d0 / (r.curv() + 1e-300);
      double round = 1e-13 * (std::fabs(phi0) + r.curv() + std::fabs(d0));
      if (a < std::min(1., safe) && round < 0.01 * o.armijo_c1 * a * -d0 && round < 0.01 * a * a * r.curv())
        c.require(good, "no sufficient decrease although the step is below the curvature bound");
      if (steps > 0)
        c.nontrivial();
      if (good)
        c.label("sufficient decrease");
      else
        c.label("limits reached");
    } else
      c.label("ascent direction");
    // step size rules
    for (size_t i = 1; i < tr.size(); i++) {
      double prev = tr[i - 1].a, cur = tr[i].a;
      if (cur <= o.alpha_min)
        continue;
      if (o.interp_type == LSInterpolation::BISECTION)
        c.close(cur, 0.5 * prev, 1e-15, "bisection halves the step");
      else
        c.require(cur >= o.contraction_min * prev * (1 - 1e-12) && cur <= o.contraction_max * prev * (1 + 1e-12),
                  "trial step outside of the safeguard interval");
    }
  }
}

/// With quadratic / cubic interpolation the trial is the minimiser of the interpolant.
static void c18_interpolation(Src &s, Ctx &c) {
  Opts o = gopts(s, c);
  o.armijo_c1 = s.real(0.3, 1.5); // reject often: what counts are the trials
  o.max_num_steps = 6;
  o.alpha_min = 1e-10;
  Ray r;
  bool cubic = o.interp_type == LSInterpolation::CUBIC;
  if (o.interp_type == LSInterpolation::BISECTION)
    return;
  r = gray(s, c);
  double d0 = -std::fabs(r.slope0());
  if (!(d0 < -1e-3))
    return;
  LS ls(o);
  std::vector<Trial> tr;
  double ret;
  bool threw;
  run_ls(c, ls, o, r, d0, tr, ret, threw);
  const double phi0 = r.val(0);
  for (size_t i = 1; i < tr.size(); i++) {
    double a0 = tr[i - 1].a, lo = o.contraction_min * a0, hi = o.contraction_max * a0;
    double c3 = 0, c2;
    double y0 = tr[i - 1].v - phi0 - d0 * a0;
    double noise = 1e-15 * (std::fabs(phi0) + std::fabs(tr[i - 1].v) + std::fabs(d0) * a0);
    if (i == 1 || !cubic)
      c2 = y0 / (a0 * a0);
    else {
      double a1 = tr[i - 2].a;
      double y1 = tr[i - 2].v - phi0 - d0 * a1;
      noise += 1e-15 * (std::fabs(phi0) + std::fabs(tr[i - 2].v) + std::fabs(d0) * a1);
      double q0 = y0 / (a0 * a0), q1 = y1 / (a1 * a1);
      c3 = (q0 - q1) / (a0 - a1);
      c2 = q0 - c3 * a0;
    }
    auto val = [&](double t) { return ((c3 * t + c2) * t + d0) * t; };
    // relative size of perturbations of the coefficients
    double pert = 100 * noise / (a0 * a0) / std::max(1e-300, 1 - o.contraction_max);
    double t = tr[i].a;
    double disc = c2 * c2 - 3 * c3 * d0;
    bool stationary = false, ill = false;
    double m = 0;
    double big = std::fabs(c2) + std::fabs(c3) * a0 + std::fabs(d0) / a0;
    if (pert > 1e-7 * big)
      continue; // rounding dominates the interpolation data
    if (c3 == 0 || std::fabs(c3) * a0 < 1e-5 * big) {
      if (cubic && i > 1)
        ill = true; // nearly quadratic: the cubic formula cancels
      else if (c2 > 0)
        stationary = true, m = -d0 / (2 * c2);
    } else if (disc > 1e-6 * big * big)
      stationary = true, m = (-c2 + std::sqrt(disc)) / (3 * c3);
    else if (disc > -1e-6 * big * big)
      ill = true;
    if (ill)
      continue;
    double tol = 1e-5 * a0;
    if (stationary && m > lo + tol && m < hi - tol) {
      c.close(t, m, tol, "trial step is not the minimiser of the interpolant");
      c.nontrivial();
      c.label(c3 != 0 ? "cubic minimiser" : "quadratic minimiser");
    } else if (!stationary || m < lo - tol || m > hi + tol) {
      bool el = std::fabs(t - lo) < tol, eh = std::fabs(t - hi) < tol;
      c.require(el || eh, "trial step is neither a minimiser nor an end of the safeguard interval");
      double dv = val(lo) - val(hi);
      bool real_disc = c3 == 0 || disc > 0;
      if (real_disc && std::fabs(dv) > 1e-5 * big * a0 * a0)
        c.require(dv < 0 ? el : eh, "the worse end of the safeguard interval was chosen");
      c.label("safeguarded");
    }
  }
}

/// Evaluations which throw or return NaN.
static void c18_faults(Src &s, Ctx &c) {
  Opts o = gopts(s, c);
  Ray r = gray(s, c);
  switch (s.below(4)) {
  case 0:
    r.amax = s.logreal(1e-7, 1.5);
    c.note("throws beyond", r.amax);
    break;
  case 1:
    r.nan_from = s.logreal(1e-5, 1.2);
    c.note("NaN from", r.nan_from);
    break;
  case 2:
    r.hole_hi = s.logreal(1e-4, 1.);
    r.hole_lo = r.hole_hi * s.unit();
    c.note("throws from", r.hole_lo);
    c.note("throws to", r.hole_hi);
    break;
  default:
    r.amax = s.logreal(1e-3, 1.5);
    r.hole_hi = r.amax * s.unit();
    r.hole_lo = r.hole_hi * s.unit();
    c.note("throws beyond", r.amax);
    c.note("throws from", r.hole_lo);
    c.note("throws to", r.hole_hi);
  }
  double phi0 = r.val(0), d0 = r.slope0();
  if (d0 == 0)
    return;
  LS ls(o);
  std::vector<Trial> tr;
  double ret = 0;
  bool threw;
  double a = run_ls(c, ls, o, r, d0, tr, ret, threw);
  bool fault = false;
  for (auto &t : tr)
    fault = fault || t.threw || std::isnan(t.v);
  if (fault)
    c.nontrivial();
  if (threw) {
    c.require(tr.back().a == o.alpha_min, "gave up before the smallest step was tried");
    c.label("gave up");
    return;
  }
  auto ok = [&](double x, double v) { return v - phi0 <= o.armijo_c1 * x * d0; };
  bool any = false;
  for (auto &t : tr)
    if (!t.threw && ok(t.a, t.v))
      any = true;
  c.require(!any || ok(a, ret), "a step with sufficient decrease was evaluated but not taken");
  if (!ok(a, ret))
    c.require(tr.back().a <= o.alpha_min || tr.size() > o.max_num_steps,
              "returned without sufficient decrease before exhausting the limits");
  else
    c.label("sufficient decrease");
}

static void c18_polynomial(Src &s, Ctx &c) {
  int n = s.tail(1, 8, 24);
  Vec co = gvec(s, n);
  Poly p(co);
  c.note("coefficients", show(co.transpose()));
  c.require(p.degree() == n - 1, "degree of a polynomial");
  double x = s.num(), v = 0, d = 0, mag = 0;
  for (int i = 0; i < n; i++) {
    int e = n - 1 - i;
    v += co[i] * std::pow(x, e);
    mag += std::fabs(co[i]) * std::pow(std::max(1., std::fabs(x)), e) * (e + 1);
    if (e > 0)
      d += co[i] * e * std::pow(x, e - 1);
  }
  c.close(p.evaluate(x), v, 1e-13 * (1 + mag) * n, "value of a polynomial");
  c.close(p.derivative().evaluate(x), d, 1e-13 * (1 + mag) * n, "derivative of a polynomial");
  const double f = std::ldexp(1., s.range(-200, 200));
  c.close(Poly(f * co).evaluate(x) / f, v, 1e-13 * (1 + mag) * n, "value of a scaled polynomial");
  c.close(Poly(f * co).derivative().evaluate(x) / f, d, 1e-13 * (1 + mag) * n, "derivative of a scaled polynomial");
  c.require(p.derivative().degree() == std::max(0, n - 2), "degree of the derivative");
  if (n > 1)
    c.nontrivial();
}

// ---------------------------------------------------------------- C19
template <BFGSType TYPE> static void bfgs_history(Src &s, Ctx &c) {
  const int n = s.chance(1, 24) ? s.range(7, 24) : s.size(1, 6);
  BFGSStrategy<double, TYPE> b(n);
  c.require(b.isValid(), "a sized strategy is valid");
  Mat H = s.flag() ? Mat(Mat::Identity(n, n)) : gspd(s, n, 0.1, 10.);
  Mat ref = H;
  Vec xp, gp;
  bool init = false;
  if (s.flag()) {
    xp = gvec(s, n), gp = gvec(s, n);
    b.init(xp, gp);
    init = true;
  }
  c.require(b.is_init == init, "is_init");
  int mode = s.below(3);
  Mat A = gspd(s, n, 0.2, 5.);
  Vec q = gvec(s, n);
  // short and long steps: the formula knows no scale
  const double scale = s.chance(1, 3) ? s.logreal(1e-12, 1e6) : 1.;
  int steps = s.tail(1, 10, 60), real_updates = 0;
  double cond = 1;
  for (int k = 0; k < steps; k++) {
    Vec x, g;
    if (mode == 0) { // gradients of a convex quadratic
      x = scale * gvec(s, n);
      g = A * x + scale * q;
    } else { // arbitrary pairs: curvature of either sign
      x = scale * gvec(s, n), g = scale * gvec(s, n);
    }
    if (init && s.chance(1, 8)) { // a short step
      x = xp + 1e-8 * scale * gvec(s, n);
      g = gp + A * (x - xp);
    }
    if (init && s.chance(1, 8))
      x = xp; // no step at all
    if (init && s.chance(1, 8))
      g = gp;
    if (init && s.chance(1, 8)) { // negative curvature
      g = gp - (x - xp);
    }
    c.dump << "x = " << show(x.transpose()) << "  g = " << show(g.transpose()) << "\n";
    Mat before = H;
    b.update(x, g, H);
    c.require(b.is_init, "is_init after an update");
    if (!init) {
      mclose(c, H, before, 0., "the first call only records the point");
      init = true;
      xp = x, gp = g;
      continue;
    }
    Vec d = x - xp, y = g - gp;
    xp = x, gp = g;
    double dy = d.dot(y);
    if (std::fabs(dy) < 1e-13 * d.norm() * y.norm() && dy != 0.)
      throw Discard(); // sign of the curvature below rounding
    if (!(dy > 0)) {
      mclose(c, H, before, 0., "update has to be skipped without positive curvature");
      c.require(!b.is_psd, "skipped update reported as positive definite");
      c.label("skipped");
      continue;
    }
    c.require(b.is_psd, "update with positive curvature not reported as positive definite");
    real_updates++;
    const Vec &p = TYPE == BFGSType::Hessian ? d : y, &r = TYPE == BFGSType::Hessian ? y : d;
    // maps p to r
    double rho = 1. / dy;
    Mat V = Mat::Identity(n, n) - rho * r * p.transpose();
    ref = V * before * V.transpose() + rho * r * r.transpose();
    double amp = 1 + nrm(V) * nrm(V) * n * n;
    double sc = nrm(before) * amp + rho * r.squaredNorm() + 1;
    if (!(sc < 1e9))
      throw Discard();
    mclose(c, H, ref, 1e-12 * sc * n, "quasi-Newton update formula");
    mclose(c, H, H.transpose(), 1e-12 * sc * n, "update lost symmetry");
    mclose(c, H * p, r, 1e-11 * sc * (nrm(p) + nrm(r)) * n, "secant equation");
    cond *= amp;
    if (cond < 1e6) {
      using LM = Eigen::Matrix<long double, -1, -1>;
      using LV = Eigen::Matrix<long double, -1, 1>;
      // the smallest eigenvalue of the exact update of the given matrix
      LV pl = p.cast<long double>(), rl = r.cast<long double>();
      const long double rhol = 1 / pl.dot(rl);
      LM Vl = LM::Identity(n, n) - rhol * rl * pl.transpose();
      LM Hl = Vl * ((before + before.transpose()) / 2).cast<long double>() * Vl.transpose() + rhol * rl * rl.transpose();
      Eigen::SelfAdjointEigenSolver<LM> el((Hl + Hl.transpose()) / 2);
      Eigen::SelfAdjointEigenSolver<Mat> es((H + H.transpose()) / 2);
      if (el.eigenvalues().minCoeff() > 1e-13L * sc) {
        c.require(es.eigenvalues().minCoeff() > 0, "update lost positive definiteness");
        c.label("definiteness checked");
      }
    }
    H = s.flag() ? H : (H + H.transpose()).eval() / 2;
    ref = H;
    if (s.chance(1, 5)) { // copies are independent
      auto b2 = b;
      Mat H2 = H;
      Vec x2 = gvec(s, n), g2 = gvec(s, n);
      b2.update(x2, g2, H2);
      c.require(b.is_psd && b.is_init, "a copy changed the original");
      if (s.flag()) { // an assigned strategy goes on like the original
        BFGSStrategy<double, TYPE> b3(s.range(1, n));
        b3 = b;
        Mat H3 = H;
        auto b4 = b;
        Mat H4 = H;
        b3.update(x2, g2, H3), b4.update(x2, g2, H4);
        mclose(c, H3, H4, 0., "an assigned strategy computes another update");
        c.require(b3.is_psd == b4.is_psd && b3.isValid(), "flags of an assigned strategy");
      }
    }
    if (s.chance(1, 8)) { // restart
      xp = gvec(s, n), gp = gvec(s, n);
      b.init(xp, gp);
    }
  }
  if (real_updates > 1)
    c.nontrivial();
}
static void c19_history(Src &s, Ctx &c) {
  if (s.flag())
    bfgs_history<BFGSType::Hessian>(s, c);
  else
    bfgs_history<BFGSType::InverseHessian>(s, c);
}
/// On a quadratic, n steps along conjugate directions recover its Hessian exactly.
template <BFGSType TYPE> static void bfgs_conjugate(Src &s, Ctx &c) {
  const int n = s.chance(1, 24) ? s.range(7, 24) : s.size(1, 6);
  Mat A = gspd(s, n, 0.3, 3.);
  Vec q = gvec(s, n);
  Mat D = gorth(s, n); // A-orthogonalise
  for (int j = 0; j < n; j++) {
    Vec v = D.col(j);
    for (int i = 0; i < j; i++)
      v -= D.col(i).dot(A * v) / D.col(i).dot(A * D.col(i)) * D.col(i);
    D.col(j) = v / v.norm();
  }
  BFGSStrategy<double, TYPE> b(n);
  Mat H = gspd(s, n, 0.3, 3.);
  Vec x = gvec(s, n);
  b.update(x, A * x + q, H);
  for (int j = 0; j < n; j++) {
    x += s.logreal(0.1, 2.) * D.col(j);
    b.update(x, A * x + q, H);
    // hereditary: all earlier secant equations still hold
    for (int i = 0; i <= j; i++) {
      Vec p = TYPE == BFGSType::Hessian ? Vec(D.col(i)) : Vec(A * D.col(i));
      Vec r = TYPE == BFGSType::Hessian ? Vec(A * D.col(i)) : Vec(D.col(i));
      mclose(c, H * p, r, 1e-6, "earlier secant equations along conjugate directions");
    }
  }
  Mat T = TYPE == BFGSType::Hessian ? A : Mat(A.inverse());
  mclose(c, H, T, 1e-5, "quasi-Newton matrix after n conjugate steps");
  if (n > 1)
    c.nontrivial();
}
static void c19_conjugate(Src &s, Ctx &c) {
  if (s.flag())
    bfgs_conjugate<BFGSType::Hessian>(s, c);
  else
    bfgs_conjugate<BFGSType::InverseHessian>(s, c);
}
static void c19_invalid(Src &s, Ctx &c) {
  int n = s.range(1, 4);
  BFGSStrategy<double, BFGSType::Hessian> b;
  c.require(!b.isValid() && !b.is_init, "a default-constructed strategy is not valid");
  Mat H = Mat::Identity(n, n);
  Vec x = gvec(s, n);
  bool t1 = false, t2 = false;
  try {
    b.init(x, x);
  } catch (const std::runtime_error &) {
    t1 = true;
  }
  try {
    b.update(x, x, H);
  } catch (const std::runtime_error &) {
    t2 = true;
  }
  c.require(t1 && t2 && H == Mat(Mat::Identity(n, n)), "an invalid strategy has to be rejected");
  BFGSStrategy<double, BFGSType::Hessian> v(n);
  b = std::move(v);
  b.update(x, x, H);
  c.require(b.isValid() && b.is_init, "a strategy becomes usable by assignment");
  c.nontrivial();
}

int main(int argc, char **argv) {
  std::vector<Sub> subs = {
      {"C18", "armijo", 400000, 5000000, c18_armijo, "a descent direction whose full step is rejected"},
      {"C18", "interpolation", 400000, 5000000, c18_interpolation, "a trial inside the safeguard interval"},
      {"C18", "faults", 400000, 5000000, c18_faults, "an evaluation threw or was NaN"},
      {"C18", "polynomial", 100000, 1000000, c18_polynomial, "degree at least one"},
      {"C19", "history", 300000, 4000000, c19_history, "at least two curvature updates"},
      {"C19", "conjugate", 100000, 1000000, c19_conjugate, "dimension at least two"},
      {"C19", "invalid", 20000, 100000, c19_invalid, "every case"},
  };
  return engine_main(argc, argv, subs);
}
