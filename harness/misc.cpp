// C24 progress log and printed summaries; C25 independence of objects; C26 numeric guards and error reporting
#include "nlp.hpp"
#include <atomic>
#include <boost/core/demangle.hpp>
#include <proxsuite-nlp/fmt-hessian-approx.hpp>
#include <proxsuite-nlp/linalg/block-ldlt.hpp>
#include <proxsuite-nlp/linalg/bunchkaufman.hpp>
#include <proxsuite-nlp/linalg/dense.hpp>
#include <proxsuite-nlp/linalg/gemmt.hpp>
#include <proxsuite-nlp/modelling/autodiff/finite-difference.hpp>
#include <proxsuite-nlp/version.hpp>
#include <sys/syscall.h>
#include <thread>

using namespace vp;
namespace la = nlp::linalg;

// ---------------------------------------------------------------- C24
/// What a piece of code writes to the standard output.
template <class F> static std::string captured(F &&f) {
  fflush(stdout);
  int keep = dup(1);
  int fd = (int)syscall(SYS_memfd_create, "out", 0u);
  if (keep < 0 || fd < 0)
    throw Discard();
  dup2(fd, 1);
  auto restore = [&]() {
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
  };
  try {
    f();
  } catch (...) {
    restore();
    close(fd);
    throw;
  }
  restore();
  std::string r;
  lseek(fd, 0, SEEK_SET);
  char buf[4096];
  for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;)
    r.append(buf, (size_t)n);
  close(fd);
  return r;
}
/// Without terminal colours.
static std::string plain(const std::string &t) {
  std::string o;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] == '\x1b') {
      while (i < t.size() && t[i] != 'm')
        i++;
      continue;
    }
    o += t[i];
  }
  return o;
}
static std::vector<std::string> split(const std::string &t, const std::string &sep) {
  std::vector<std::string> v;
  size_t a = 0;
  for (;;) {
    size_t b = t.find(sep, a);
    v.push_back(t.substr(a, b == std::string::npos ? b : b - a));
    if (b == std::string::npos)
      return v;
    a = b + sep.size();
  }
}
static std::string trim(const std::string &t) {
  size_t a = t.find_first_not_of(" \t\r"), b = t.find_last_not_of(" \t\r");
  return a == std::string::npos ? "" : t.substr(a, b - a + 1);
}
static double number(Ctx &c, const std::string &t, const std::string &who) {
  char *e = nullptr;
  std::string q = trim(t);
  double v = strtod(q.c_str(), &e);
  c.require(!q.empty() && *e == 0, who + " is not a number: '" + t + "'");
  return v;
}
/// The text shows this value, with at least `digits` correct significant digits.
static void shows(Ctx &c, const std::string &text, double v, int digits, const std::string &who) {
  double t = number(c, text, who);
  if (std::isnan(v) || std::isinf(v)) {
    c.require(std::isnan(v) ? std::isnan(t) : t == v, who + " does not show " + std::to_string(v) + ": " + text);
    return;
  }
  c.close(t, v, 0.51 * std::pow(10., 1 - digits) * std::fabs(v) + 1e-307, who);
}
static const char *KEYS[] = {"iter", "step_size", "inner_crit", "prim_err", "dual_err",
                             "xreg", "dphi0",     "merit",      "dM",       "al_iter"};
static std::vector<std::string> columns(Ctx &c, const std::string &line, const std::string &sep) {
  auto v = split(line, sep);
  c.require(v.size() == 10, "a row of the log does not have one column per key: " + line);
  return v;
}
static void check_header(Ctx &c, const std::string &line, const std::string &sep) {
  auto v = columns(c, line, sep);
  for (int i = 0; i < 10; i++)
    c.require(trim(v[(size_t)i]) == KEYS[i], "heading of the log: " + line);
}
static void check_row(Ctx &c, const std::string &line, const std::string &sep, const nlp::LogRecord &r,
                      const nlp::BaseLogger &l) {
  auto v = columns(c, line, sep);
  for (size_t i = 0; i < 10; i++) {
    size_t w = i == 0 ? l.COL_WIDTH_0 : l.COL_WIDTH;
    c.require(v[i].size() >= w, "a column of the log is narrower than its width: " + line);
    c.require(v[i].size() == w || trim(v[i]).size() + 1 >= v[i].size(), "a column of the log is wider than needed: " + line);
  }
  c.require(number(c, v[0], "iter") == (double)r.iter, "iteration in the log: " + line);
  c.require(number(c, v[9], "al_iter") == (double)r.al_iter, "outer iteration in the log: " + line);
  const double x[] = {r.step_size, r.inner_crit, r.prim_err, r.dual_err, r.xreg, r.dphi0, r.merit, r.dM};
  for (int i = 0; i < 8; i++)
    shows(c, v[(size_t)i + 1], x[i], i == 7 ? 3 : 4, std::string("log column ") + KEYS[i + 1]);
}
static double anyval(Src &s) {
  switch (s.below(8)) {
  case 0:
    return 0.;
  case 1:
    return -s.logreal(1e-300, 1e300);
  case 2:
    return s.logreal(1e-300, 1e300);
  case 3:
    return std::numeric_limits<double>::quiet_NaN();
  case 4:
    return s.flag() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
  case 5:
    return s.range(-5000, 5000);
  default:
    return s.num();
  }
}
static void c24_logger(Src &s, Ctx &c) {
  nlp::BaseLogger l;
  if (s.chance(1, 3)) {
    l.COL_WIDTH = (unsigned)s.range(8, 16);
    l.COL_WIDTH_0 = (unsigned)s.range(4, 8);
  }
  l.active = !s.chance(1, 5);
  int n = s.range(1, 4);
  std::vector<nlp::LogRecord> r;
  for (int i = 0; i < n; i++) {
    nlp::LogRecord q;
    q.iter = s.flag() ? (size_t)s.range(1, 60) : (size_t)(s.range(0, 40) * 25);
    q.step_size = anyval(s), q.inner_crit = anyval(s), q.prim_err = anyval(s), q.dual_err = anyval(s);
    q.xreg = anyval(s), q.dphi0 = anyval(s), q.merit = anyval(s), q.dM = anyval(s);
    q.al_iter = (size_t)s.range(0, 2000);
    r.push_back(q);
  }
  bool first = s.flag();
  std::string out = plain(captured([&]() {
    if (first)
      l.start();
    for (auto &q : r)
      l.log(q);
  }));
  c.note("output", out);
  if (!l.active) {
    c.require(out.empty(), "an inactive logger prints");
    c.label("inactive");
    return;
  }
  auto lines = split(out, "\n");
  c.require(lines.back().empty(), "the log does not end with a line break");
  lines.pop_back();
  size_t at = 0;
  auto next = [&]() {
    c.require(at < lines.size(), "lines are missing in the log");
    return lines[at++];
  };
  if (first)
    check_header(c, next(), l.join_str);
  for (auto &q : r) {
    if (q.iter % 25 == 0)
      check_header(c, next(), l.join_str);
    check_row(c, next(), l.join_str, q, l);
  }
  c.require(at == lines.size(), "more lines in the log than records");
  c.nontrivial();
}
struct LogRec : Callback {
  std::vector<nlp::LogRecord> v;
  void call(const Workspace &w, const Results &r) override {
    nlp::LogRecord q;
    q.iter = r.num_iters + 1;
    q.step_size = w.alpha_opt, q.prim_err = r.prim_infeas, q.dual_err = r.dual_infeas;
    q.dphi0 = w.dmerit_dir, q.merit = r.merit, q.al_iter = r.al_iters + 1;
    q.inner_crit = q.xreg = q.dM = 0;
    v.push_back(q);
  }
};
/// One row per iteration, with the numbers a callback sees; nothing else of the log when quiet.
static void c24_solver_log(Src &s, Ctx &c) {
  Prog p = gprog(s, c, 4, s.chance(1, 4), true);
  Cfg k = gcfg(s, p);
  k.max_iters = s.chance(1, 6) ? 60 : 12, k.max_al = 12;
  auto pb = p.problem();
  auto sv = k.make(*pb);
  auto rec = std::make_shared<LogRec>();
  sv->registerCallback(rec);
  int rounds = s.range(1, 3);
  for (int i = 0; i < rounds; i++) {
    bool verbose = s.chance(2, 3);
    sv->verbose = verbose ? (s.flag() ? nlp::VERBOSE : nlp::VERYVERBOSE) : nlp::QUIET;
    c.note("verbose", verbose);
    Vec x0 = p.m.point(s), l0 = Vec::Zero(p.nc());
    rec->v.clear();
    bool threw = false;
    ConvergenceFlag f = ConvergenceFlag::UNINIT;
    std::string out = plain(captured([&]() {
      try {
        f = sv->solve(x0, l0);
      } catch (const nlp::RuntimeError &) {
        threw = true;
      }
    }));
    c.note("output", out);
    if (threw) {
      c.label("gave up with an error");
      return;
    }
    std::vector<std::string> rows;
    for (auto &l : split(out, "\n"))
      if (split(l, sv->logger.join_str).size() > 1)
        rows.push_back(l);
    if (!verbose) {
      c.require(rows.empty(), "a quiet solver prints its log");
      c.label("quiet");
      continue;
    }
    c.require(!rec->v.empty(), "no callback");
    const size_t n = sv->results_->num_iters;
    c.require(rec->v.size() == n + 1, "number of callbacks");
    size_t at = 0;
    auto next = [&]() {
      c.require(at < rows.size(), "rows are missing in the solver's log");
      return rows[at++];
    };
    check_header(c, next(), sv->logger.join_str);
    double sum = 0;
    for (size_t j = 0; j < n; j++) {
      const auto &q = rec->v[j];
      if ((j + 1) % 25 == 0)
        check_header(c, next(), sv->logger.join_str);
      auto v = columns(c, next(), sv->logger.join_str);
      c.require(number(c, v[0], "iter") == (double)(j + 1), "iterations in the log are not consecutive");
      shows(c, v[1], q.step_size, 4, "log column step_size");
      shows(c, v[3], q.prim_err, 4, "log column prim_err");
      shows(c, v[4], q.dual_err, 4, "log column dual_err");
      shows(c, v[6], q.dphi0, 4, "log column dphi0");
      shows(c, v[7], q.merit, 4, "log column merit");
      c.require(number(c, v[2], "inner_crit") >= 0 && number(c, v[5], "xreg") >= 0, "negative criterion in the log");
      c.require(number(c, v[9], "al_iter") == (double)q.al_iter, "outer iteration in the log");
      double dm = number(c, v[8], "dM"), m = number(c, v[7], "merit");
      // the change of the merit function: previous value (not logged) plus change is this value
      if (j > 0 && rec->v[j - 1].al_iter == q.al_iter)
        c.close(dm, q.merit - rec->v[j - 1].merit,
                1e-2 * std::fabs(dm) + 1e-8 * (1 + std::fabs(q.merit) + std::fabs(rec->v[j - 1].merit)), "log column dM");
      sum += m;
    }
    c.require(at == rows.size(), "more rows in the solver's log than iterations");
    bool says = out.find("uccessfully converged") != std::string::npos, lim = out.find("ax number of iterations") != std::string::npos;
    c.require(says == (f == ConvergenceFlag::SUCCESS), "the closing message claims another outcome");
    c.require(lim == (f == ConvergenceFlag::MAX_ITERS_REACHED), "the closing message claims another limit");
    if (n > 0)
      c.nontrivial();
    if (n >= 25)
      c.label("more than one heading");
  }
}
static std::string field(Ctx &c, const std::string &t, const std::string &name) {
  size_t a = t.find(name + ":");
  c.require(a != std::string::npos, "printed results lack " + name);
  a += name.size() + 1;
  size_t b = t.find('\n', a);
  std::string r = trim(t.substr(a, b - a));
  if (!r.empty() && r.back() == ',')
    r.pop_back();
  return r;
}
static void c24_results(Src &s, Ctx &c) {
  Prog p = gprog(s, c, 4, s.chance(1, 4), true);
  Cfg k = gcfg(s, p);
  k.max_iters = (size_t)s.range(0, 12), k.max_al = 12;
  auto pb = p.problem();
  auto sv = k.make(*pb);
  try {
    sv->solve(p.m.point(s), Vec(Vec::Zero(p.nc())));
  } catch (const nlp::RuntimeError &) {
    c.label("gave up with an error");
    return;
  }
  const Results &r = *sv->results_;
  std::ostringstream o;
  o << r;
  const std::string t = o.str();
  c.note("text", t);
  c.require(fmt::format("{}", r) == t, "fmt and stream output of the results differ");
  c.require(number(c, field(c, t, "convergence"), "convergence") == (double)(int)r.converged, "printed flag");
  c.require(number(c, field(c, t, "num_iters"), "num_iters") == (double)r.num_iters, "printed iterations");
  shows(c, field(c, t, "merit"), r.merit, 4, "printed merit");
  shows(c, field(c, t, "value"), r.value, 4, "printed value");
  shows(c, field(c, t, "mu"), r.mu, 4, "printed mu");
  shows(c, field(c, t, "rho"), r.rho, 4, "printed rho");
  shows(c, field(c, t, "dual_infeas"), r.dual_infeas, 4, "printed dual infeasibility");
  shows(c, field(c, t, "prim_infeas"), r.prim_infeas, 4, "printed primal infeasibility");
  std::istringstream is(field(c, t, "cstr_values"));
  std::string w;
  int n = 0;
  while (is >> w) {
    c.require(n < r.constraint_violations.size(), "more printed violations than constraints");
    shows(c, w, r.constraint_violations[n++], 5, "printed violation");
  }
  c.require(n == r.constraint_violations.size(), "fewer printed violations than constraints");
  for (size_t i = 0; i < r.active_set.size(); i++) {
    std::istringstream as(field(c, t, "activeSet[" + std::to_string(i) + "]"));
    int j = 0;
    while (as >> w) {
      c.require(j < r.active_set[i].size(), "printed active set is too long");
      c.require(number(c, w, "active set") == (r.active_set[i][j] ? 1. : 0.), "printed active set");
      j++;
    }
    c.require(j == r.active_set[i].size(), "printed active set is too short");
  }
  c.require(t.find("activeSet[" + std::to_string(r.active_set.size()) + "]") == std::string::npos, "too many printed active sets");
  if (r.num_iters > 0)
    c.nontrivial();
}
static void c24_objects(Src &s, Ctx &c) {
  switch (s.below(4)) {
  case 0: { // CostSum
    const int n = 2, k = s.range(0, 5);
    CostSum sum(n, n);
    std::vector<double> w;
    for (int i = 0; i < k; i++) {
      w.push_back(s.flag() ? s.range(-9, 9) : s.num());
      sum.addComponent(std::make_shared<SmoothCost>(gsmooth(s, n, 1)), w.back());
    }
    std::ostringstream o;
    o << sum;
    c.note("text", o.str());
    std::string t = o.str();
    auto a = t.find("num_components="), b = t.find("weights=(");
    c.require(a != std::string::npos && b != std::string::npos, "printed CostSum lacks its components or weights");
    c.require(atoi(t.c_str() + a + 15) == k, "printed number of components");
    std::string ws = t.substr(b + 9, t.find(')', b) - b - 9);
    auto v = ws.empty() ? std::vector<std::string>() : split(ws, ",");
    c.require((int)v.size() == k, "printed number of weights");
    for (int i = 0; i < k; i++)
      shows(c, v[(size_t)i], w[(size_t)i], 5, "printed weight");
    if (k > 1)
      c.nontrivial();
    break;
  }
  case 1: { // line search options
    Solver::LinesearchOptions o;
    o.armijo_c1 = s.logreal(1e-6, 1e-1), o.contraction_min = s.real(0.01, 0.5), o.contraction_max = s.real(0.5, 0.99);
    std::ostringstream q;
    q << o;
    c.note("text", q.str());
    auto get = [&](const std::string &n) {
      size_t a = q.str().find(n + " = ");
      c.require(a != std::string::npos, "printed options lack " + n);
      a += n.size() + 3;
      size_t b = q.str().find_first_of(",}", a);
      return q.str().substr(a, b - a);
    };
    shows(c, get("armijo_c1"), o.armijo_c1, 4, "printed armijo_c1");
    shows(c, get("contraction_min"), o.contraction_min, 4, "printed contraction_min");
    shows(c, get("contraction_max"), o.contraction_max, 4, "printed contraction_max");
    c.nontrivial();
    break;
  }
  case 2: {
    struct {
      HessianApprox h;
      const char *n;
    } v[] = {{HessianApprox::EXACT, "EXACT"}, {HessianApprox::GAUSS_NEWTON, "GAUSS_NEWTON"}, {HessianApprox::BFGS, "BFGS"}, {HessianApprox::IDENTITY, "IDENTITY"}};
    auto &q = v[s.below(4)];
    c.require(fmt::format("{}", q.h) == q.n, "name of a Hessian approximation");
    c.nontrivial();
    break;
  }
  default: { // Eigen types through fmt
    int r = s.range(1, 4), k = s.range(1, 4);
    Mat m = gmat(s, r, k);
    std::ostringstream o;
    o << m;
    c.require(fmt::format("{}", m) == o.str(), "a matrix printed with fmt differs from the stream output");
    Vec v = m.col(0);
    std::ostringstream ov;
    ov << v.transpose();
    c.require(fmt::format("{}", v.transpose()) == ov.str(), "a row printed with fmt differs from the stream output");
    std::string d = s.flag() ? "." : "::";
    c.require(nlp::printVersion(d) == std::to_string(PROXSUITE_NLP_MAJOR_VERSION) + d + std::to_string(PROXSUITE_NLP_MINOR_VERSION) + d +
                                         std::to_string(PROXSUITE_NLP_PATCH_VERSION),
              "version text");
    if (r * k > 1)
      c.nontrivial();
  }
  }
}

// ---------------------------------------------------------------- C25
static bool same(const Vec &a, const Vec &b) {
  if (a.size() != b.size())
    return false;
  for (long i = 0; i < a.size(); i++)
    if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))))
      return false;
  return true;
}
/// A reproducible job on objects of its own; run() yields everything it computed.
struct Job {
  virtual ~Job() = default;
  virtual Vec run() = 0;
};
struct Out {
  std::vector<double> v;
  void add(double x) { v.push_back(x); }
  template <class M> void add(const Eigen::MatrixBase<M> &m) {
    for (long j = 0; j < m.cols(); j++)
      for (long i = 0; i < m.rows(); i++)
        v.push_back((double)m(i, j));
  }
  Vec vec() const { return Eigen::Map<const Vec>(v.data(), (long)v.size()); }
};
/// Solver jobs: the hooks run at every evaluation and every iteration.
struct HookCost : Cost {
  CostPtr in;
  std::function<void()> *h;
  HookCost(CostPtr c, std::function<void()> *h) : Cost(c->nx(), c->ndx()), in(c), h(h) {}
  double call(const ConstVectorRef &x) const override {
    double v = in->call(x);
    (*h)();
    return v;
  }
  void computeGradient(const ConstVectorRef &x, VectorRef o) const override {
    in->computeGradient(x, o);
    (*h)();
  }
  void computeHessian(const ConstVectorRef &x, MatrixRef o) const override {
    in->computeHessian(x, o);
    (*h)();
  }
  using Cost::computeGradient;
  using Cost::computeHessian;
};
struct HookFn : Fn {
  FnPtr in;
  std::function<void()> *h;
  HookFn(FnPtr c, std::function<void()> *h) : Fn(c->nx(), c->ndx(), c->nr()), in(c), h(h) {}
  VectorXs operator()(const ConstVectorRef &x) const override {
    VectorXs v = (*in)(x);
    (*h)();
    return v;
  }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override {
    in->computeJacobian(x, J);
    (*h)();
  }
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef H) const override {
    in->vectorHessianProduct(x, v, H);
    (*h)();
  }
  using Fn::computeJacobian;
};
/// A set whose operations do work of their own; with `whole` it also passes the Jacobian products on, otherwise it
/// inherits those of the base class.
struct HookSet : Set {
  PSet in;
  std::function<void()> *h;
  bool whole;
  HookSet(const PSet &c, std::function<void()> *h, bool whole) : in(c), h(h), whole(whole) {}
  bool disableGaussNewton() const override { return in->disableGaussNewton(); }
  double evaluate(const ConstVectorRef &z) const override {
    double v = in->evaluate(z);
    (*h)();
    return v;
  }
  void projection(const ConstVectorRef &z, VectorRef o) const override {
    in->projection(z, o);
    (*h)();
  }
  void normalConeProjection(const ConstVectorRef &z, VectorRef o) const override {
    in->normalConeProjection(z, o);
    (*h)();
  }
  void applyProjectionJacobian(const ConstVectorRef &z, MatrixRef J) const override {
    whole ? in->applyProjectionJacobian(z, J) : Set::applyProjectionJacobian(z, J);
    (*h)();
  }
  void applyNormalConeProjectionJacobian(const ConstVectorRef &z, MatrixRef J) const override {
    whole ? in->applyNormalConeProjectionJacobian(z, J) : Set::applyNormalConeProjectionJacobian(z, J);
    (*h)();
  }
  void setProxParameter(const double mu) const override {
    Set::setProxParameter(mu);
    in->setProxParameter(mu);
    (*h)();
  }
  void computeActiveSet(const ConstVectorRef &z, Eigen::Ref<ActiveType> o) const override {
    in->computeActiveSet(z, o);
    (*h)();
  }
};
/// The same for spaces.
struct HookSpace : Manifold {
  PManifold in;
  std::function<void()> *h;
  HookSpace(const PManifold &c, std::function<void()> *h) : in(c), h(h) {}
  int nx() const override { return in->nx(); }
  int ndx() const override { return in->ndx(); }
  VectorXs neutral() const override {
    VectorXs v = in->neutral();
    (*h)();
    return v;
  }
  VectorXs rand() const override { return in->rand(); }
  bool isNormalized(const ConstVectorRef &x) const override { return in->isNormalized(x); }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef o) const override {
    in->integrate(x, v, o);
    (*h)();
  }
  void Jintegrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    in->Jintegrate(x, v, J, arg);
    (*h)();
  }
  void JintegrateTransport(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    in->JintegrateTransport(x, v, J, arg);
    (*h)();
  }
  void difference_impl(const ConstVectorRef &x, const ConstVectorRef &y, VectorRef o) const override {
    in->difference(x, y, o);
    (*h)();
  }
  void Jdifference_impl(const ConstVectorRef &x, const ConstVectorRef &y, MatrixRef J, int arg) const override {
    in->Jdifference(x, y, J, arg);
    (*h)();
  }
  void interpolate_impl(const ConstVectorRef &x, const ConstVectorRef &y, const double &u, VectorRef o) const override {
    in->interpolate(x, y, u, o);
    (*h)();
  }
};
struct SolveJob : Job {
  std::function<void()> hook = []() {}, cbhook = []() {};
  Prog p;
  Cfg k;
  Vec x0;
  struct CB : Callback {
    std::function<void()> *h;
    Out *o;
    void call(const Workspace &w, const Results &r) override {
      o->add(r.x_opt);
      o->add(r.data_lams_opt);
      o->add(r.merit);
      o->add(w.alpha_opt);
      (*h)();
    }
  };
  SolveJob(Src &s, Ctx &c, int maxn, size_t iters) {
    p = gprog(s, c, maxn, s.chance(1, 2), true);
    k = gcfg(s, p);
    k.max_iters = iters, k.max_al = iters;
    c.note("config", k.str());
    x0 = p.m.point(s);
    p.cost = std::make_shared<HookCost>(p.cost, &hook);
    for (auto &q : p.cs)
      q.fn = std::make_shared<HookFn>(q.fn, &hook);
    const bool hooked = s.flag(); // sets and space which do work as well
    if (hooked) {
      for (auto &q : p.cs)
        q.pset = PSet(HookSet(q.pset, &hook, s.flag()));
      p.space = PManifold(HookSpace(p.space, &hook));
    }
    c.label(hooked ? "hooks in sets and space" : "hooks in functions only");
  }
  Vec run() override {
    Out o;
    auto pb = p.problem();
    auto sv = k.make(*pb);
    auto cb = std::make_shared<CB>();
    cb->h = &cbhook, cb->o = &o;
    sv->registerCallback(cb);
    try {
      o.add((int)sv->solve(x0, Vec(Vec::Zero(p.nc()))));
    } catch (const nlp::RuntimeError &) {
      o.add(-7.);
    }
    const Results &r = *sv->results_;
    if (o.v.back() != -7.) {
      o.add(r.x_opt), o.add(r.data_lams_opt), o.add(r.value), o.add(r.merit), o.add(r.prim_infeas), o.add(r.dual_infeas);
      o.add((double)r.num_iters), o.add((double)r.al_iters), o.add(r.mu), o.add(r.rho);
    }
    return o.vec();
  }
};
/// Jobs on the parts: factorisations, spaces, sets, functions, finite differences, line searches, BFGS.
struct PartsJob : Job {
  std::function<void()> hook = []() {};
  SmoothData sd, cd;
  Vec u;
  int n;
  Mat a, b, g;
  Vec x, dx, z, lo, hi;
  Model m;
  PManifold space = PManifold(VS(1));
  FnPtr fn;
  PartsJob(Src &s, Ctx &c) {
    n = s.range(2, 10);
    a = gspd(s, n, 0.5, 4.);
    int n1 = s.range(1, n - 1);
    for (int i = n1; i < n; i++)
      for (int j = n1; j < n; j++)
        a(i, j) = i == j ? -1. - i : 0.;
    b = gmat_seeded(s, n, 3);
    g = gmat_seeded(s, n, n);
    Prog p;
    gprog_space(s, p, 6, true);
    m = p.m;
    space = p.space;
    c.note("space", m.name);
    x = m.point(s), dx = 0.3 * m.tangent(s);
    z = gvec(s, 6);
    lo = Vec::Constant(3, -1.), hi = Vec::Constant(3, 1.);
    if (s.flag())
      space = PManifold(HookSpace(space, &hook));
    fn = std::make_shared<HookFn>(std::make_shared<DiffFn>(space, m.point(s)), &hook);
    sd = gsmooth(s, n, 2), cd = gsmooth(s, n, 1);
    u = gvec(s, n);
  }
  Vec run() override {
    Out o;
    {
      la::DenseLDLT<double> f(n);
      f.compute(a);
      o.add(f.solve(b));
      Eigen::BunchKaufman<Mat> k(n);
      k.compute(a);
      o.add(k.solve(b));
      std::vector<la::isize> lens{(la::isize)(n / 2), (la::isize)(n - n / 2)};
      std::vector<la::BlockKind> kd(4, la::Dense);
      la::BlockLDLT<double> q(n, la::SymbolicBlockMatrix(kd.data(), lens.data(), 2, 2));
      q.findSparsifyingPermutation();
      q.compute(a);
      o.add(q.solve(b));
      Eigen::VectorXi sg(n);
      nlp::ComputeSignatureVisitor{sg}(k);
      o.add(sg);
    }
    {
      const auto &sp = *space;
      Vec y(sp.nx()), d(sp.ndx());
      sp.integrate(x, dx, y);
      sp.difference(x, y, d);
      o.add(y), o.add(d);
      Mat J(sp.ndx(), sp.ndx());
      for (int arg = 0; arg < 2; arg++) {
        J.setZero();
        sp.Jintegrate(x, dx, J, arg);
        o.add(J);
        Mat T = J;
        sp.JintegrateTransport(x, dx, T, arg);
        o.add(T);
        J.setZero();
        sp.Jdifference(x, y, J, arg);
        o.add(J);
      }
      sp.interpolate(x, y, 0.3, d.size() ? y : y);
      o.add(y);
      { // a product and a tangent bundle of this space
        nlp::CartesianProductTpl<double> two(space, space);
        nlp::TangentBundleTpl<HookSpace> tb(HookSpace(space, &hook));
        for (int w = 0; w < 2; w++) {
          const Manifold &q = w ? (const Manifold &)tb : two;
          Vec X(q.nx()), V(q.ndx()), Y(q.nx()), D(q.ndx());
          X << x, (w ? dx : y), V << dx, 0.5 * dx;
          q.integrate(X, V, Y);
          q.difference(X, Y, D);
          o.add(Y), o.add(D);
          Mat K = Mat::Zero(q.ndx(), q.ndx());
          for (int arg = 0; arg < 2; arg++) {
            q.Jintegrate(X, V, K, arg);
            o.add(K);
            Mat T = K;
            q.JintegrateTransport(X, V, T, arg);
            o.add(T);
            q.Jdifference(X, Y, K, arg);
            o.add(K);
          }
          Vec Z(q.nx());
          q.interpolate(X, Y, 0.4, Z);
          o.add(Z), o.add(q.neutral());
        }
      }
      Mat F(fn->nr(), sp.ndx());
      F.setZero();
      fn->computeJacobian(x, F);
      o.add((*fn)(x));
      o.add(F);
      Vec w = Vec::Constant(fn->nr(), 0.7);
      Mat H = Mat::Zero(sp.ndx(), sp.ndx());
      nlp::autodiff::finite_difference_wrapper<double, nlp::autodiff::TOC1> fd(sp, *fn, 1e-4);
      o.add(fd(x));
      fd.computeJacobian(x, F);
      o.add(F);
      QuadCost qc(fn, Mat::Identity(fn->nr(), fn->nr()), Vec::Ones(fn->nr()), 1.);
      Vec gr = Vec::Zero(sp.ndx());
      o.add(qc.call(x));
      qc.computeGradient(x, gr);
      qc.computeHessian(x, H);
      o.add(gr), o.add(H);
      nlp::autodiff::finite_difference_wrapper<double, nlp::autodiff::TOC2> fd2(sp, *fn, 1e-4);
      fd2.vectorHessianProduct(x, w, H);
      o.add(H);
      // a composition
      auto lin = std::make_shared<HookFn>(std::make_shared<LinFn>(Mat(Mat::Ones(2, fn->nr()))), &hook);
      auto comp = nlp::compose<double>(lin, fn);
      Mat C(2, sp.ndx());
      comp->computeJacobian(x, C);
      o.add((*comp)(x)), o.add(C);
    }
    { // sums of sums, with functions which do work of their own
      auto leaf = std::make_shared<HookCost>(std::make_shared<SmoothCost>(cd), &hook);
      auto in = 2. * CostPtr(leaf);
      auto sum = CostPtr(leaf) + CostPtr(in);
      Vec gr = Vec::Zero(n);
      Mat H = Mat::Zero(n, n);
      o.add(sum->call(u));
      sum->computeGradient(u, VRef(gr));
      sum->computeHessian(u, MRef(H));
      o.add(gr), o.add(H);
      const Cost &base = *sum;
      o.add(base.computeGradient(u)), o.add(base.computeHessian(u));
      auto f = std::make_shared<HookFn>(std::make_shared<SmoothFn>(sd), &hook);
      QuadCost q(f, Mat::Identity(2, 2), Vec::Ones(2), 0.);
      q.gauss_newton_ = false;
      o.add(q.call(u));
      q.computeGradient(u, VRef(gr));
      q.computeHessian(u, MRef(H));
      o.add(gr), o.add(H);
    }
    { // a line search
      const Vec d = -cd.jac(u).row(0).transpose();
      Solver::LinesearchOptions lo;
      auto phi = [&](double al) {
        double v = cd.val(u + al * d)[0];
        hook();
        return v;
      };
      double al = 1.;
      o.add(nlp::ArmijoLinesearch<double>(lo).run(phi, phi(0.), -d.squaredNorm(), al));
      o.add(al);
    }
    {
      nlp::BFGSStrategy<double> bf(n);
      Mat H = Mat::Identity(n, n);
      Vec y = u;
      for (int i = 0; i < 4; i++) {
        bf.update(y, cd.jac(y).row(0).transpose(), H);
        hook();
        o.add(H);
        y += 0.3 * g.col(i % n);
      }
    }
    {
      PSet s1{HookSet(PSet(Box(lo, hi)), &hook, true)}, s2{HookSet(PSet(L1()), &hook, false)};
      Prod pr({s1, s2}, {3, 3});
      pr.setProxParameter(0.3);
      Vec q(6);
      pr.projection(z, q);
      o.add(q);
      pr.normalConeProjection(z, q);
      o.add(q);
      Mat J = Mat::Ones(6, 2);
      pr.applyProjectionJacobian(z, J);
      o.add(J);
      J.setOnes();
      pr.applyNormalConeProjectionJacobian(z, J);
      o.add(J);
      Set::ActiveType act(6);
      pr.computeActiveSet(z, act);
      o.add(act);
      o.add(pr.evaluateMoreauEnvelope(z, q));
      o.add(pr.computeMoreauEnvelope(z, q));
      o.add(q);
    }
    return o.vec();
  }
};
/// Work which happens in the middle of a computation (in a function or in a callback) has no influence on it.
static void c25_nested(Src &s, Ctx &c) {
  std::unique_ptr<SolveJob> so;
  std::unique_ptr<PartsJob> po;
  if (s.chance(1, 3))
    po.reset(new PartsJob(s, c));
  else
    so.reset(new SolveJob(s, c, 4, 8));
  Job &outer = so ? (Job &)*so : (Job &)*po;
  std::unique_ptr<Job> in;
  bool solve = s.flag();
  if (solve)
    in.reset(new SolveJob(s, c, 4, 4));
  else
    in.reset(new PartsJob(s, c));
  Vec ref_out = outer.run(), ref_in = in->run();
  int evals = 0, bad = 0;
  bool at_cb = so && s.flag();
  int every = at_cb ? 1 : s.chance(1, 3) ? s.range(5, 20) : s.range(1, 4), cap = solve ? 40 : 80;
  auto h = [&]() {
    if (evals < cap && evals++ % every == 0)
      bad += !same(in->run(), ref_in);
  };
  (at_cb ? so->cbhook : so ? so->hook : po->hook) = h;
  Vec got = outer.run();
  c.note("alone", show(ref_out.transpose(), 400));
  c.note("with work in between", show(got.transpose(), 400));
  c.require(bad == 0, "work inside of a function or callback of a solver gives another result");
  c.require(same(got, ref_out), "a solve depends on work which its functions or callbacks do");
  c.label(std::string(solve ? "a solve" : "parts") + " inside of " + (so ? "a solve" : "parts"));
  c.label(at_cb ? "in the callback" : "in the functions");
  if (evals > 2)
    c.nontrivial();
}
static void c25_threads(Src &s, Ctx &c) {
  const int nt = s.range(2, 4);
  const bool parts = s.flag(); // small jobs, many times
  const int reps = parts ? s.range(10, 40) : s.range(2, 5);
  std::vector<std::unique_ptr<Job>> js;
  for (int i = 0; i < nt; i++)
    if (parts || s.chance(1, 3))
      js.emplace_back(new PartsJob(s, c));
    else
      js.emplace_back(new SolveJob(s, c, 5, 12));
  std::vector<Vec> ref;
  for (auto &j : js)
    ref.push_back(j->run());
  std::atomic<int> ready{0}, bad{0};
  std::vector<std::thread> th;
  for (int i = 0; i < nt; i++)
    th.emplace_back([&, i]() {
      ready++;
      while (ready < nt)
        std::this_thread::yield();
      for (int r = 0; r < reps; r++) {
        try {
          if (!same(js[(size_t)i]->run(), ref[(size_t)i]))
            bad++;
        } catch (...) {
          bad++;
        }
      }
    });
  for (auto &t : th)
    t.join();
  c.require(bad == 0, "objects which share nothing disturb each other in different threads");
  c.nontrivial();
  c.label(std::to_string(nt) + " threads");
}

// ---------------------------------------------------------------- C26
static void c26_math(Src &s, Ctx &c) {
  int r = s.tail(0, 5, 40), k = s.tail(0, 3, 12);
  const bool extreme = s.chance(1, 8), mixed = s.flag(); // sums, products and squares of the entries overflow
  Mat m(r, k);
  double big = 0;
  bool nonfinite = false;
  for (int j = 0; j < k; j++)
    for (int i = 0; i < r; i++) {
      m(i, j) = extreme ? (mixed && s.flag() ? -1 : 1) * s.real(0.5e308, 1.7e308) : s.chance(1, 12) ? anyval(s) : s.num();
      nonfinite = nonfinite || !std::isfinite(m(i, j));
      big = std::max(big, std::fabs(m(i, j)));
    }
  c.note("m", show(m));
  c.require(nlp::math::check_value(m) == nonfinite, "check_value of a matrix");
  if (r > 0 && k > 0) {
    c.require(nlp::math::check_value(m.col(0)) == !m.col(0).allFinite(), "check_value of a column");
    Mat t = m.transpose();
    c.require(nlp::math::check_value(t) == nonfinite, "check_value of a transposed matrix");
  }
  if (!nonfinite) {
    c.require(nlp::math::infty_norm(m) == big, "infinity norm of a matrix");
    c.require(nlp::math::infty_norm(2. * m) == 2. * big, "infinity norm of an expression");
    std::vector<Vec> v;
    double vb = 0;
    int nv = s.range(0, 4);
    for (int i = 0; i < nv; i++) {
      v.push_back(gvec(s, s.range(0, 3)));
      vb = std::max(vb, nrm(v.back()));
    }
    c.require(nlp::math::infty_norm(v) == vb, "infinity norm of a list of vectors");
  }
  double a = anyval(s), b = s.chance(1, 3) ? a * (1 + s.real(-3e-16, 3e-16)) : s.chance(1, 3) ? a * s.real(-2., 3.) : anyval(s);
  c.require(nlp::math::check_value(a) == !std::isfinite(a), "check_value of a number");
  c.require(nlp::math::check_scalar(a) == !std::isfinite(a), "check_scalar of a number");
  const double tiny = (s.flag() ? 1 : -1) * std::pow(10., -s.range(0, 323)); // denormals included
  c.require(nlp::math::sign(tiny) == (tiny > 0 ? 1. : tiny < 0 ? -1. : 0.), "sign of a small number");
  const float tinyf = (s.flag() ? 1.f : -1.f) * (float)std::pow(10., -s.range(0, 44));
  c.require(nlp::math::sign(tinyf) == (tinyf > 0 ? 1.f : tinyf < 0 ? -1.f : 0.f), "sign of a small number in single precision");
  if (!std::isnan(a))
    c.require(nlp::math::sign(a) == (a > 0 ? 1. : a < 0 ? -1. : 0.), "sign");
  int ia = s.range(-3, 3);
  c.require(nlp::math::sign(ia) == (ia > 0) - (ia < 0), "sign of an integer");
  if (std::isfinite(a) && std::isfinite(b) && std::fabs(a) < 1e300 && std::fabs(b) < 1e300) {
    double prec = s.chance(1, 3) ? s.real(0.05, 2.5) : s.logreal(1e-14, 1e-1);
    double q = std::fabs(a - b) / (1 + std::max(std::fabs(a), std::fabs(b)));
    c.require(nlp::math::scalar_close(a, b, prec) == nlp::math::scalar_close(b, a, prec), "scalar_close is not symmetric");
    if (q < 0.99 * prec)
      c.require(nlp::math::scalar_close(a, b, prec), "scalar_close rejects close numbers");
    if (q > 1.01 * prec)
      c.require(!nlp::math::scalar_close(a, b, prec), "scalar_close accepts distant numbers");
  }
  if (std::isfinite(a))
    c.require(nlp::math::scalar_close(a, a), "a number is not close to itself");
  if (r * k > 1)
    c.nontrivial();
}
template <class F> static std::string error_of(F &&f) {
  try {
    f();
  } catch (const nlp::RuntimeError &e) {
    return std::string("E:") + e.what();
  }
  return "";
}
static void guard_dim(const Vec &v, int n) { PROXSUITE_NLP_DIM_CHECK(v, n); }
static void guard_nan(const Mat &v) { PROXSUITE_NLP_RAISE_IF_NAN(v); }
static void guard_nan_name(const Mat &v, const std::string &n) { PROXSUITE_NLP_RAISE_IF_NAN_NAME(v, n); }
static void guard_nan_scalar(double v) { PROXSUITE_NLP_RAISE_IF_NAN_NAME(v, "scalar"); }
static void guard_msg(const std::string &n) { PROXSUITE_NLP_RUNTIME_ERROR(n); }
static void c26_guards(Src &s, Ctx &c) {
  int n = s.range(0, 5), e = s.range(0, 5);
  Vec v = gvec(s, n);
  std::string t = error_of([&]() { guard_dim(v, e); });
  c.note("message", t);
  c.require((n != e) == !t.empty(), "the dimension guard");
  if (!t.empty()) {
    c.require(t.find("expected " + std::to_string(e)) != std::string::npos, "the error does not state the expected dimension");
    c.require(t.find("got " + std::to_string(n)) != std::string::npos, "the error does not state the actual dimension");
    c.require(t.find("misc.cpp") != std::string::npos, "the error does not state where it was raised");
  }
  Mat m = gmat(s, n, e);
  if (s.chance(1, 8)) // finite, but not the sum of the entries
    for (int i = 0; i < n * e; i++)
      m.data()[i] = (s.flag() ? -1 : 1) * s.real(0.5e308, 1.7e308);
  bool bad = false;
  if (n * e > 0 && s.flag()) {
    static const double q[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(),
                               -std::numeric_limits<double>::infinity()};
    m((int)s.below((uint32_t)n), (int)s.below((uint32_t)e)) = q[s.below(3)];
    bad = true;
  }
  c.require(bad == !error_of([&]() { guard_nan(m); }).empty(), "the guard against NaN");
  t = error_of([&]() { guard_nan_name(m, "some_name"); });
  c.require(bad == !t.empty(), "the named guard against NaN");
  if (bad)
    c.require(t.find("some_name") != std::string::npos, "the error does not name the value");
  double a = anyval(s);
  c.require(std::isfinite(a) == error_of([&]() { guard_nan_scalar(a); }).empty(), "the guard for numbers");
  std::string msg = "text " + std::to_string(s.below(1000)) + (s.flag() ? " with {braces}" : "");
  t = error_of([&]() { guard_msg(msg); });
  c.require(t.find(msg) != std::string::npos, "the error text is lost");
  if (n > 0 && e > 0)
    c.nontrivial();
}

int main(int argc, char **argv) {
  std::vector<Sub> subs = {
      {"C24", "logger", 20000, 300000, c24_logger, "an active logger"},
      {"C24", "solver_log", 8000, 80000, c24_solver_log, "a verbose solve with at least one iteration"},
      {"C24", "results", 10000, 100000, c24_results, "at least one iteration"},
      {"C24", "objects", 20000, 200000, c24_objects, "more than one number"},
      {"C25", "nested", 4000, 60000, c25_nested, "work was done inside of the outer solve at least three times"},
      {"C25", "threads", 1500, 20000, c25_threads, "every case", true},
      {"C26", "math", 100000, 1000000, c26_math, "more than one entry"},
      {"C26", "guards", 60000, 600000, c26_guards, "non-empty values"},
  };
  return engine_main(argc, argv, subs);
}
