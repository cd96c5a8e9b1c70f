// C11 projections and normal cones of constraint sets; C12 products of sets
#include "sets.hpp"

using namespace vp;
using namespace proxsuite::nlp;
static double gz(Src &s, const RefSet &m, int i) {
  // near and exactly on the kinks as well
  if (s.chance(1, 5)) {
    const Coord &q = m.c[(size_t)i];
    double k = q.k == KBOX ? (s.flag() ? q.lo : q.hi) : q.k == KL1 ? (s.flag() ? m.mu : -m.mu) : 0.;
    if (std::isfinite(k)) {
      if (s.flag())
        return k;
      // beside a kink, by the smallest and by larger amounts
      return k + (s.flag() ? 1 : -1) * std::pow(10., -s.range(1, k == 0 ? 300 : 15)) * (k == 0 ? 1. : std::fabs(k));
    }
  }
  return s.num();
}

static void check_set(Src &s, Ctx &c, const Set &set, RefSet &m, const std::string &who) {
  const int n = m.n();
  Vec z(n), zl(n);
  for (int i = 0; i < n; i++)
    z[i] = gz(s, m, i);
  c.note("set", m.str());
  c.note("mu", m.mu);
  c.note("z", show(z.transpose()));
  {
    Set &me = const_cast<Set &>(set);
    const Box other(Vec::Constant(n, -3.5), Vec::Constant(n, 77.25)); // no other set of the checks has these bounds
    c.require((me == set) && !(me == other), who + " operator==");
  }
  set.setProxParameter(m.mu);
  c.require(set.mu() == m.mu, who + " mu() is not the proximal parameter");
  c.close(set.mu_inv(), 1. / m.mu, 1e-12 / m.mu, who + " mu_inv() is not 1/mu");
  const double sc = 1 + nrm(z) + m.mu;
  Vec p = Vec::Constant(n, 123.), nc = Vec::Constant(n, -77.), ref(n);
  set.projection(z, p);
  set.normalConeProjection(z, nc);
  for (int i = 0; i < n; i++)
    ref[i] = m.proj(i, z[i]);
  for (int i = 0; i < n; i++) {
    c.close(p[i], ref[i], m.ulps(i, z[i]), who + " projection");
    c.close(nc[i], z[i] - ref[i], m.ulps(i, z[i]), who + " normal cone projection");
  }
  {
    // in place, as the solver uses it for the residuals
    Vec w = z;
    set.projection(w, w);
    mclose(c, w, p, 1e-15 * sc, who + " projection in place");
  }
  mclose(c, p + nc, z, 1e-13 * sc, who + " Moreau decomposition z = P(z) + N(z)");
  // optimality against sampled points: the prox objective is minimal at p
  Vec y(n);
  for (int i = 0; i < n; i++)
    y[i] = m.point(i, s.num());
  double gp = 0, gy = 0;
  for (int i = 0; i < n; i++) {
    gp += m.g(i, p[i]);
    gy += m.g(i, y[i]);
  }
  double op = gp + (z - p).squaredNorm() / (2 * m.mu), oy = gy + (z - y).squaredNorm() / (2 * m.mu);
  c.require(op <= oy + 1e-9 * (1 + std::fabs(oy)), who + " projection is not the proximal minimiser");
  // indicator / penalty value and envelope
  c.close(set.evaluate(p), gp, 1e-12 * (1 + gp), who + " evaluate");
  Vec zo = Vec::Constant(n, 9.);
  double env = set.computeMoreauEnvelope(z, zo);
  mclose(c, zo, z - ref, 1e-13 * sc, who + " computeMoreauEnvelope output");
  c.close(env, op, 1e-10 * (1 + std::fabs(op)), who + " Moreau envelope");
  c.close(set.evaluateMoreauEnvelope(z, nc), op, 1e-10 * (1 + std::fabs(op)),
          who + " evaluateMoreauEnvelope");
  // active set and generalised Jacobians
  BVec act = BVec::Constant(n, false), act2 = BVec::Constant(n, true);
  set.computeActiveSet(z, act);
  set.computeActiveSet(z, act2);
  c.require(act == act2, who + " computeActiveSet does not set every entry");
  int nx = s.range(1, 3);
  Mat J = gmat(s, n, nx), PJ = J, NJ = J;
  set.applyProjectionJacobian(z, PJ);
  set.applyNormalConeProjectionJacobian(z, NJ);
  mclose(c, PJ + NJ, J, 0., who + " projection and normal cone Jacobians do not sum to J");
  bool kinky = false;
  for (int i = 0; i < n; i++) {
    if (m.kink(i, z[i]) > m.ulps(i, z[i])) {
      double d = m.dproj(i, z[i]);
      mclose(c, PJ.row(i), d * J.row(i), 0., who + " projection Jacobian");
      mclose(c, NJ.row(i), (1 - d) * J.row(i), 0., who + " normal cone Jacobian");
      c.require(act[i] == (d == 0.), who + " active set");
    } else {
      kinky = true;
      // at a kink either one-sided derivative is a valid choice, applied to the whole row
      bool z0 = PJ.row(i).isZero(0.), z1 = NJ.row(i).isZero(0.);
      c.require(z0 || z1, who + " Jacobian row at a kink is not a 0/1 selection");
      c.require(J.row(i).isZero(0.) || act[i] == z0, who + " active set and Jacobian disagree at a kink");
    }
  }
  if (kinky)
    c.label("kink");
  // nonexpansive; idempotent for sets
  for (int i = 0; i < n; i++)
    zl[i] = gz(s, m, i);
  Vec pl(n), pp(n), np(n);
  set.projection(zl, pl);
  c.require((p - pl).norm() <= (z - zl).norm() * (1 + 1e-12) + 1e-12 * sc, who + " projection is expansive");
  bool has_l1 = false;
  for (auto &q : m.c)
    has_l1 |= q.k == KL1;
  if (!has_l1) {
    set.projection(p, pp);
    mclose(c, pp, p, 0., who + " projection is not idempotent");
    set.normalConeProjection(p, np);
    mclose(c, np, Vec::Zero(n), 0., who + " normal cone projection of a feasible point");
  }
  c.require(set.mu() == m.mu, who + " proximal parameter changed by an evaluation");
}

/// Copies, moves and assignments of the concrete class yield the same set with the same parameter.
template <class T> static bool copies_of(Src &s, Ctx &c, const Set &set, T other, const RefSet &m) {
  const T *p = dynamic_cast<const T *>(&set);
  if (!p)
    return false;
  other.setProxParameter(s.logreal(1e-3, 10.));
  T *t = &other;
  std::unique_ptr<T> own;
  const int how = s.below(5);
  if (how == 0)
    other = *p;
  else if (how == 1) {
    T tmp(*p);
    other = std::move(tmp);
  } else if (how == 2)
    t = (own = std::make_unique<T>(*p)).get();
  else if (how == 3) {
    T tmp(*p);
    t = (own = std::make_unique<T>(std::move(tmp))).get();
  } else {
    other = *p;
    const T &alias = other;
    other = alias;
  }
  const std::string who = how < 2 ? "assigned set" : how < 4 ? "copied set" : "self-assigned set";
  c.require(t->mu() == set.mu() && t->mu_inv() == set.mu_inv(), who + " has another proximal parameter");
  const int n = m.n();
  Vec z(n), a(n), b(n);
  for (int i = 0; i < n; i++)
    z[i] = gz(s, m, i);
  set.projection(z, a), t->projection(z, b);
  mclose(c, b, a, 0., who + " projection");
  const double ea = set.computeMoreauEnvelope(z, a), eb = t->computeMoreauEnvelope(z, b);
  mclose(c, b, a, 0., who + " normal cone projection");
  c.require(ea == eb || (std::isnan(ea) && std::isnan(eb)), who + " envelope");
  // independence: the parameter of the copy is its own
  const double mu = set.mu();
  t->setProxParameter(3 * mu + 1);
  c.require(set.mu() == mu, "changing a copy changed the original");
  set.projection(z, b);
  if (n)
    set.normalConeProjection(z, a);
  mclose(c, a + b, z, 1e-12 * (1 + nrm(z)), "changing a copy changed the original");
  return true;
}
static void any_copies(Src &s, Ctx &c, const Set &set, const RefSet &m) {
  const bool ok = copies_of<Eq>(s, c, set, Eq(), m) || copies_of<Neg>(s, c, set, Neg(), m) || copies_of<L1>(s, c, set, L1(), m) ||
                  copies_of<Box>(s, c, set, Box(Vec::Constant(2, -1.), Vec::Constant(2, 1.)), m) ||
                  copies_of<Prod>(s, c, set, Prod({PSet(Neg()), PSet(L1())}, {1, 2}), m);
  if (ok)
    c.label("copied, moved or assigned");
}
static void c11_single(Src &s, Ctx &c) {
  RefSet m;
  int n = s.chance(1, 24) ? s.range(9, 48) : s.size(1, 8);
  PSet set = gset(s, n, m);
  int rounds = s.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    m.mu = s.chance(1, 4) ? 1. : s.logreal(1e-4, 10.);
    check_set(s, c, *set, m, "set");
    if (s.chance(1, 4)) { // a copy carries the parameter along and is independent
      PSet cp(set);
      c.require(cp->mu() == m.mu, "copied set lost its proximal parameter");
      RefSet m2 = m;
      m2.mu = m.mu * 2;
      check_set(s, c, *cp, m2, "copied set");
      c.require(set->mu() == m.mu, "changing a copy changed the original");
    }
    if (s.chance(1, 4))
      any_copies(s, c, *set, m);
  }
  c.label(std::string("kind ") + std::to_string(m.c[0].k));
  bool in = false, out = false;
  (void)in;
  (void)out;
  c.nontrivial();
}

/// N(z) is in the normal cone: <N, y - P> <= 0 for y in the set.
static void c11_cone(Src &s, Ctx &c) {
  RefSet m;
  int n = s.chance(1, 24) ? s.range(9, 48) : s.size(1, 8);
  PSet set = gset(s, n, m);
  m.mu = s.logreal(1e-3, 10.);
  set->setProxParameter(m.mu);
  Vec z(n), y(n), p(n), nc(n);
  for (int i = 0; i < n; i++) {
    z[i] = gz(s, m, i);
    y[i] = m.point(i, s.num());
  }
  c.note("set", m.str());
  c.note("z", show(z.transpose()));
  set->projection(z, p);
  set->normalConeProjection(z, nc);
  double gp = 0, gy = 0;
  for (int i = 0; i < n; i++) {
    gp += m.g(i, p[i]);
    gy += m.g(i, y[i]);
  }
  // subgradient inequality  g(y) >= g(p) + <N/mu, y-p>
  c.require(gy + 1e-9 * (1 + gy + gp) >= gp + nc.dot(y - p) / m.mu - 1e-9 * nc.norm() * (y - p).norm() / m.mu,
            "normal cone projection is not a (sub)gradient at the projection");
  // the gradient of the envelope is N(z)/mu
  Vec d = gvec(s, n);
  double dist = 1e9;
  for (int i = 0; i < n; i++)
    if (d[i] != 0)
      dist = std::min(dist, m.kink(i, z[i]) / std::fabs(d[i]));
  double h = std::min(1e-3, 0.3 * dist);
  if (h > 1e-6) {
    auto f = [&](double t) {
      Vec w(n);
      return Mat::Constant(1, 1, set->computeMoreauEnvelope(z + t * d, w)).eval();
    };
    double fd = ((f(h) - f(-h)) / (2 * h))(0, 0);
    double an = nc.dot(d) / m.mu;
    double mag = (std::fabs(f(0)(0, 0)) + z.squaredNorm() / m.mu + 1) * 1e-14 / h + 1e-6 * (1 + std::fabs(an));
    c.close(fd, an, mag * 10, "gradient of the Moreau envelope is not N(z)/mu");
    c.nontrivial();
  }
}

static void c12_product(Src &s, Ctx &c) {
  RefSet m;
  int n = 0;
  PSet set = gprod(s, m, n, 2);
  const Prod *pr = dynamic_cast<const Prod *>(&*set);
  c.require(pr != nullptr, "product lost its dynamic type");
  c.require(pr->components().size() == pr->blockSizes().size(), "component and block counts differ");
  int rounds = s.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    m.mu = s.chance(1, 4) ? 1. : s.logreal(1e-4, 10.);
    check_set(s, c, *set, m, "product set");
    // block by block against the components themselves
    Vec z(n), p(n), nc(n);
    for (int i = 0; i < n; i++)
      z[i] = gz(s, m, i);
    BVec act(n);
    set->projection(z, p);
    set->normalConeProjection(z, nc);
    set->computeActiveSet(z, act);
    int off = 0;
    for (size_t k = 0; k < pr->components().size(); k++) {
      int sz = (int)pr->blockSizes()[k];
      const Set &q = *pr->components()[k];
      c.require(sz == 0 || q.mu() == m.mu, "proximal parameter did not reach a component of the product");
      Vec zb = z.segment(off, sz), pb(sz), nb(sz);
      BVec ab(sz);
      q.projection(zb, pb);
      q.normalConeProjection(zb, nb);
      q.computeActiveSet(zb, ab);
      mclose(c, p.segment(off, sz), pb, 0., "product projection differs from its component");
      mclose(c, nc.segment(off, sz), nb, 0., "product normal cone projection differs from its component");
      c.require((act.segment(off, sz) == ab), "product active set differs from its component");
      off += sz;
    }
    if (s.chance(1, 4)) {
      PSet cp(set);
      RefSet m2 = m;
      m2.mu = 3 * m.mu;
      check_set(s, c, *cp, m2, "copied product set");
      Vec p2(n);
      set->projection(z, p2);
      mclose(c, p2, p, 0., "using a copy of a product changed the original");
    }
    if (s.chance(1, 4))
      any_copies(s, c, *set, m);
  }
  if (pr->components().size() > 1 && n > 1)
    c.nontrivial();
}

static void c12_mismatch(Src &s, Ctx &c) {
  int a = s.tail(0, 4, 12), b = s.tail(0, 4, 12);
  std::vector<PSet> comps;
  std::vector<Eigen::Index> sizes;
  RefSet m;
  for (int i = 0; i < a; i++)
    comps.push_back(gset(s, 1, m));
  for (int i = 0; i < b; i++)
    sizes.push_back(s.tail(0, 3, 20));
  c.note("components", a);
  c.note("block sizes", b);
  bool threw = false;
  try {
    Prod p(comps, sizes);
    c.require(p.components().size() == (size_t)a && p.blockSizes() == sizes, "product lost components");
  } catch (const std::runtime_error &) {
    threw = true;
  }
  c.require(threw == (a != b), "product constructor must reject exactly the mismatched counts");
  c.nontrivial();
}

int main(int argc, char **argv) {
  std::vector<Sub> subs = {
      {"C11", "single", 400000, 4000000, c11_single, "every case (at least one coordinate)"},
      {"C11", "cone", 400000, 4000000, c11_cone, "the point is away from the kinks, so the envelope gradient is compared"},
      {"C12", "product", 400000, 4000000, c12_product, "at least two components and two coordinates"},
      {"C12", "mismatch", 20000, 20000, c12_mismatch, "every case"},
  };
  return engine_main(argc, argv, subs);
}
