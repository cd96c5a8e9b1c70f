// C13 manifold axioms; C14 products and tangent bundles act leaf by leaf
#include "axioms.hpp"

using namespace vp;
using namespace proxsuite::nlp;

static void c13_axioms(Src &s, Ctx &c) {
  Model m;
  PManifold M = gspace(s, m, s.below(3), 0, 4, 20, true);
  axioms(s, c, *M, m);
  if (m.curved())
    c.label("non-commutative");
  if (s.chance(1, 6)) {
    PManifold M2(M);
    axioms(s, c, *M2, m);
  }
}

static void c13_vector_space(Src &s, Ctx &c) {
  int n = s.chance(1, 24) ? s.range(13, 90) : s.size(0, 12);
  VS M(n);
  c.require(M.nx() == n && M.ndx() == n && M.neutral() == Vec(Vec::Zero(n)), "vector space dimensions");
  Vec x = gvec(s, n), v = gvec(s, n);
  if (s.flag()) // coordinates in different units
    for (int i = 0; i < n; i++) {
      const double u = std::ldexp(1., s.range(-80, 80));
      x[i] *= u;
      v[i] *= u;
    }
  mclose(c, Xint(c, M, x, v), x + v, 0., "vector space integrate");
  {
    const double u = s.num();
    Vec w = Xinterp(c, M, x, v, u);
    for (int i = 0; i < n; i++)
      c.close(w[i], (1 - u) * x[i] + u * v[i], 1e-14 * (1 + std::fabs(u)) * (std::fabs(x[i]) + std::fabs(v[i])),
              "vector space interpolate");
  }
  mclose(c, Xdiff(c, M, x, v), v - x, 0., "vector space difference");
  mclose(c, XJint(c, M, x, v, 0), Mat::Identity(n, n), 0., "vector space Jintegrate 0");
  mclose(c, XJint(c, M, x, v, 1), Mat::Identity(n, n), 0., "vector space Jintegrate 1");
  mclose(c, XJdiff(c, M, x, v, 0), -Mat::Identity(n, n), 0., "vector space Jdifference 0");
  mclose(c, XJdiff(c, M, x, v, 1), Mat::Identity(n, n), 0., "vector space Jdifference 1");
  int bad = s.flag() ? 2 + (int)s.below(5) : -1 - (int)s.below(5);
  bool threw = false;
  try {
    Mat J(n, n);
    M.Jdifference(x, v, J, bad);
  } catch (const std::runtime_error &) {
    threw = true;
  }
  c.require(threw, "vector space Jdifference accepts an invalid argument index");
  if (n > 0)
    c.nontrivial();
}

static void against_model(Src &s, Ctx &c, const Manifold &M, const Model &m) {
  c.note("space", m.name);
  c.require(M.nx() == m.nx() && M.ndx() == m.ndx(), "dimensions are not those of the factors");
  const int nv = m.ndx();
  Vec x = m.point(s), to = m.tangent(s), v = m.tangent(s);
  if (s.chance(1, 4)) { // points which are close to each other
    const double small = std::pow(10., -s.range(1, 10));
    to *= small, v *= small;
  }
  Vec y = m.integrate(x, to);
  const double tol = 1e-11 * (1 + nrm(x) + nrm(v) + nrm(y));
  mclose(c, Xint(c, M, x, v), m.integrate(x, v), tol, "integrate differs from its factors");
  mclose(c, Xdiff(c, M, x, y), m.difference(x, y), tol, "difference differs from its factors");
  {
    // flat coordinates in units of their own
    Vec xu = x, yu = y, vu = v;
    Vec ux = Vec::Zero(x.size()), uv = Vec::Zero(nv);
    m.each([&](const Leaf &q, int a, int b) {
      if (q.k == Leaf::R)
        for (int i = 0; i < q.nx(); i++) {
          ux[a + i] = uv[b + i] = std::ldexp(1., s.range(-80, 20));
          xu[a + i] *= ux[a + i];
          yu[a + i] *= ux[a + i];
          vu[b + i] *= ux[a + i];
        }
    });
    Vec zi = Xint(c, M, xu, vu), zd = Xdiff(c, M, xu, yu), wi = m.integrate(xu, vu), wd = m.difference(xu, yu);
    for (int i = 0; i < zi.size(); i++)
      c.close(zi[i], wi[i], ux[i] > 0 ? tol * ux[i] : tol, "integrate with coordinates in different units");
    for (int i = 0; i < nv; i++)
      c.close(zd[i], wd[i], uv[i] > 0 ? tol * uv[i] : tol, "difference with coordinates in different units");
  }
  double u = s.real(0, 1);
  mclose(c, M.difference(m.interpolate(x, y, u), Xinterp(c, M, x, y, u)), Vec::Zero(nv), 10 * tol,
         "interpolate differs from its factors");
  for (int arg = 0; arg < 2; arg++) {
    mclose(c, XJint(c, M, x, v, arg), m.Jintegrate(x, v, arg), tol, "Jintegrate differs from its factors");
    mclose(c, XJdiff(c, M, x, y, arg), m.Jdifference(x, y, arg), tol, "Jdifference differs from its factors");
    int k = s.range(0, 3);
    Mat A = gmat(s, nv, k);
    OutMat o(nv, k);
    o.ref() = A;
    M.JintegrateTransport(x, v, o.ref(), arg);
    mclose(c, o.get(c, "JintegrateTransport"), m.Jintegrate(x, v, arg) * A, tol * (1 + nrm(A)),
           "JintegrateTransport differs from its factors");
  }
  mclose(c, M.neutral(), m.neutral(), 0., "neutral differs from its factors");
  // a point is normalised iff each factor is
  Vec w = x;
  m.each([&](const Leaf &q, int a, int) {
    if (q.k != Leaf::R && s.chance(1, 3))
      w.segment(a, q.nx()) *= s.flag() ? 2. : 0.;
  });
  c.require(M.isNormalized(x), "isNormalized rejects a point of the product");
  c.require(M.isNormalized(w) == m.isNormalized(w), "isNormalized disagrees with the factors");
  if (!m.isNormalized(w))
    c.label("denormalised");
}

static void c14_composition(Src &s, Ctx &c) {
  Model m;
  PManifold M = gspace(s, m, 1 + s.below(3), 0, 4, 20, true);
  against_model(s, c, *M, m);
  if (m.l.size() > 1)
    c.nontrivial();
  if (m.name[0] == 'T')
    c.label("bundle");
}

/// Builds products in all the ways the API offers; components, splits, merges.
static void c14_product(Src &s, Ctx &c) {
  struct Item {
    PManifold sp;
    Model m;
  };
  auto item = [&]() {
    Model m;
    PManifold p = gspace(s, m, s.chance(1, 4) ? 1 : 0, 0, 4, 12, true);
    return Item{p, m};
  };
  CProd P;
  std::vector<Model> ms; // one model per component
  auto add = [&](const Model &m) { ms.push_back(m); };
  std::string how;
  // the dimensions follow every addition, also when they were asked for before
  auto sizes = [&](const CProd &p, const std::vector<Model> &q) {
    int x = 0, v = 0;
    for (auto &m : q)
      x += m.nx(), v += m.ndx();
    c.require(p.nx() == x && p.ndx() == v && p.numComponents() == q.size() && p.neutral().size() == x,
              "dimensions of a product while it grows");
  };
  const bool early = s.flag();
  Item a = item(), b = item();
  switch (s.below(5)) {
  case 0:
    P = CProd(a.sp, b.sp);
    add(a.m), add(b.m), how = "ctor(a,b)";
    break;
  case 1:
    P = CProd(std::vector<PManifold>{a.sp, b.sp});
    add(a.m), add(b.m), how = "ctor(vector)";
    break;
  case 2:
    P = CProd{a.sp, b.sp, a.sp};
    add(a.m), add(b.m), add(a.m), how = "ctor{a,b,a}";
    break;
  case 3:
    P = a.sp * b.sp;
    add(a.m), add(b.m), how = "a*b";
    break;
  default:
    P.addComponent(a.sp);
    add(a.m);
    if (early)
      sizes(P, ms);
    P.addComponent(SO2M());
    {
      Model so;
      so.l.push_back({Leaf::SO2, 0});
      so.name = "SO2";
      add(so);
    }
    how = "addComponent";
  }
  int ops = s.tail(0, 3, 9);
  for (int i = 0; i < ops; i++) {
    Item q = item();
    std::vector<Model> other;
    CProd Q;
    int nq = s.tail(0, 2, 7);
    for (int j = 0; j < nq; j++) {
      Item r = item();
      Q.addComponent(r.sp);
      other.push_back(r.m);
      if (early)
        sizes(Q, other);
    }
    if (early)
      sizes(P, ms);
    const CProd before(P);
    const std::vector<Model> before_ms = ms;
    switch (s.below(10)) {
    case 0:
      P = P * q.sp;
      add(q.m), how += " | P*q";
      break;
    case 1:
      P = q.sp * P;
      ms.insert(ms.begin(), q.m), how += " | q*P";
      break;
    case 2:
      P = P * Q;
      for (auto &m : other)
        add(m);
      how += " | P*Q";
      break;
    case 3:
      P = Q * P;
      ms.insert(ms.begin(), other.begin(), other.end());
      how += " | Q*P";
      break;
    case 4:
      P.addComponent(Q);
      for (auto &m : other)
        add(m);
      how += " | P.add(Q)";
      break;
    case 5:
      P.addComponent(q.sp);
      add(q.m), how += " | P.add(q)";
      break;
    case 6: // assignment; the source stays what it was
      P = Q;
      ms = other;
      P.addComponent(q.sp);
      add(q.m), how += " | P = Q, P.add(q)";
      c.require(Q.numComponents() == other.size(), "assigning a product and appending to it changed the source");
      break;
    case 7:
      P = std::move(Q);
      ms = other;
      P.addComponent(q.sp);
      add(q.m), how += " | P = move(Q), P.add(q)";
      break;
    case 8: {
      const CProd &alias = P;
      P = alias;
      how += " | P = P";
      break;
    }
    default:
      if (P.numComponents() > 16)
        break;
      P.addComponent(P);
      {
        auto cp = ms;
        ms.insert(ms.end(), cp.begin(), cp.end());
      }
      how += " | P.add(P)";
    }
    c.require(before.numComponents() == before_ms.size(), "operating on a product changed an earlier copy of it");
    for (size_t j = 0; j < before_ms.size(); j++)
      c.require(before.getComponent(j).nx() == before_ms[j].nx() && before.getComponent(j).ndx() == before_ms[j].ndx(),
                "operating on a product changed an earlier copy of it");
    if (s.chance(1, 6)) {
      Model bm;
      for (auto &k : before_ms)
        bm.append(k);
      against_model(s, c, before, bm);
    }
  }
  Model m;
  for (auto &q : ms) {
    m.append(q);
    m.name += q.name + " . ";
  }
  c.note("history", how);
  c.note("space", m.name);
  c.require(P.numComponents() == ms.size(), "number of components: " + std::to_string(P.numComponents()) +
                                                " vs " + std::to_string(ms.size()));
  for (size_t i = 0; i < ms.size(); i++)
    c.require(P.getComponent(i).nx() == ms[i].nx() && P.getComponent(i).ndx() == ms[i].ndx(),
              "component order of the product");
  against_model(s, c, P, m);
  // splits are views on consecutive segments; merge is their inverse
  Vec x = m.point(s), v = m.tangent(s);
  const Vec x0 = x, v0 = v;
  auto cs = P.split(CVRef(x0));
  auto cv = P.split_vector(CVRef(v0));
  auto ws = P.split(VRef(x));
  auto wv = P.split_vector(VRef(v));
  c.require(cs.size() == ms.size() && ws.size() == ms.size() && cv.size() == ms.size() && wv.size() == ms.size(),
            "split has one entry per component");
  int ox = 0, ov = 0;
  std::vector<Vec> xs, vs;
  for (size_t i = 0; i < ms.size(); i++) {
    mclose(c, cs[i], x0.segment(ox, ms[i].nx()), 0., "split of a point");
    mclose(c, cv[i], v0.segment(ov, ms[i].ndx()), 0., "split of a tangent vector");
    mclose(c, ws[i], x0.segment(ox, ms[i].nx()), 0., "writable split of a point");
    mclose(c, wv[i], v0.segment(ov, ms[i].ndx()), 0., "writable split of a tangent vector");
    xs.push_back(cs[i]);
    vs.push_back(cv[i]);
    ox += ms[i].nx();
    ov += ms[i].ndx();
  }
  mclose(c, P.merge(xs), x0, 0., "merge(split(x)) = x");
  mclose(c, P.merge_vector(vs), v0, 0., "merge_vector(split_vector(v)) = v");
  size_t k = s.below((uint32_t)ms.size());
  ws[k].setConstant(31.);
  wv[k].setConstant(-8.);
  Vec ex = x0, ev = v0;
  ox = ov = 0;
  for (size_t i = 0; i < k; i++)
    ox += ms[i].nx(), ov += ms[i].ndx();
  ex.segment(ox, ms[k].nx()).setConstant(31.);
  ev.segment(ov, ms[k].ndx()).setConstant(-8.);
  mclose(c, x, ex, 0., "writing through split");
  mclose(c, v, ev, 0., "writing through split_vector");
  // wrong sizes are rejected
  int bad = s.flag() ? m.nx() + 1 + (int)s.below(3) : m.nx() - 1 - (int)s.below(3);
  if (bad >= 0) {
    bool t1 = false, t2 = false;
    Vec w = Vec::Zero(bad), w2 = Vec::Zero(m.ndx() + 1 + bad);
    try {
      P.split(CVRef(w));
    } catch (const std::runtime_error &) {
      t1 = true;
    }
    try {
      P.split_vector(CVRef(w2));
    } catch (const std::runtime_error &) {
      t2 = true;
    }
    c.require(t1 && t2, "split accepts a vector of the wrong size");
  }
  if (ms.size() > 1)
    c.nontrivial();
}

/// A space which leaves everything it may to the base class.
struct Plain : Manifold {
  using Scalar = double;
  static constexpr int Options = Manifold::Options;
  PManifold m;
  int extra; // unused coordinates of the representation
  Plain(const PManifold &p, int e) : m(p), extra(e) {}
  int nx() const override { return m->nx() + extra; }
  int ndx() const override { return m->ndx(); }
  void JintegrateTransport(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    m->JintegrateTransport(x.head(m->nx()), v, J, arg);
  }

protected:
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef out) const override {
    m->integrate(x.head(m->nx()), v, out.head(m->nx()));
    out.tail(extra) = x.tail(extra);
  }
  void difference_impl(const ConstVectorRef &a, const ConstVectorRef &b, VectorRef out) const override {
    m->difference(a.head(m->nx()), b.head(m->nx()), out);
  }
  void Jintegrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef J, int arg) const override {
    m->Jintegrate(x.head(m->nx()), v, J, arg);
  }
  void Jdifference_impl(const ConstVectorRef &a, const ConstVectorRef &b, MatrixRef J, int arg) const override {
    m->Jdifference(a.head(m->nx()), b.head(m->nx()), J, arg);
  }
};

/// What the base class offers to spaces which do not define it: neutral and random points, interpolation, validity.
static void c13_defaults(Src &s, Ctx &c) {
  Model m;
  PManifold q = gspace(s, m, s.below(2), 0, 4, 20, true);
  const int e = s.range(0, 3), n = m.nx();
  PManifold M(Plain(q, e));
  c.note("space", m.name + " with " + std::to_string(e) + " unused coordinates");
  c.require(M->nx() == n + e && M->ndx() == m.ndx(), "dimensions");
  mclose(c, M->neutral(), Vec::Zero(n + e), 0., "default neutral point");
  srand(s.word());
  Vec r = M->rand();
  c.require(r.size() == n + e && r.allFinite() && M->isNormalized(r), "default random point");
  auto T = M->tangentSpace();
  c.require(T.nx() == m.ndx() && T.ndx() == m.ndx(), "tangent space");
  auto pt = [&](const Vec &x, const Vec &w) {
    Vec o(n + e);
    o << x, w;
    return o;
  };
  Vec w = gvec(s, e), w2 = gvec(s, e);
  Vec x = m.point(s), y = m.integrate(x, m.tangent(s));
  const double u = s.chance(1, 3) ? (s.flag() ? 1. : 0.) : s.real(-0.2, 1.2);
  const double tol = 1e-11 * (1 + nrm(x) + nrm(y));
  mclose(c, Xinterp(c, *M, pt(x, w), pt(y, w2), u), pt(m.interpolate(x, y, u), w), tol, "default interpolation");
  mclose(c, Xint(c, *M, pt(x, w), m.tangent(s) * 0.), pt(x, w), tol, "integrate by zero");
  // as a factor and as a base
  TangentBundleTpl<AnySpace> B{AnySpace(M)};
  c.require(B.nx() == n + e + m.ndx() && B.ndx() == 2 * m.ndx(), "bundle of a space with the defaults");
  CProd P(M, q);
  srand(s.word());
  Vec rp = P.rand(), rb = B.rand();
  c.require(rp.size() == 2 * n + e && rp.allFinite() && rb.size() == n + e + m.ndx() && rb.allFinite(), "random points of composites");
  Vec ref(2 * n + e);
  ref << Vec::Zero(n + e), m.neutral();
  mclose(c, P.neutral(), ref, 0., "neutral point of the product");
  if (e)
    c.nontrivial();
}

/// The parts of a point, of a velocity and of a matrix which belong to the base of a bundle.
template <class B> static void bundle_parts(Src &s, Ctx &c, const B &T, int nq, int nv) {
  c.require(T.nx() == nq + nv && T.ndx() == 2 * nv && T.getBaseSpace().nx() == nq && T.getBaseSpace().ndx() == nv, "dimensions of a bundle");
  Vec x = gvec(s, nq + nv), v = gvec(s, 2 * nv);
  Mat J = gmat(s, 2 * nv, 2 * nv);
  const Vec x0 = x, v0 = v;
  const Mat J0 = J;
  mclose(c, Vec(T.getBasePoint(x)), x0.head(nq), 0., "getBasePoint");
  mclose(c, Vec(T.getBaseTangent(v)), v0.head(nv), 0., "getBaseTangent");
  mclose(c, Mat(T.getBaseJacobian(J)), J0.topLeftCorner(nv, nv), 0., "getBaseJacobian");
  c.require(T.getBasePoint(x).data() == x.data() || nq == 0, "getBasePoint is a view");
  if (s.flag()) {
    VRef xr = x, vr = v;
    MRef Jr = J;
    T.getBasePointWrite(xr).setConstant(31.);
    T.getTangentHeadWrite(vr).setConstant(-7.);
    T.getBaseJacobian(Jr).setConstant(4.);
  } else {
    T.getBasePointWrite(x).setConstant(31.);
    T.getTangentHeadWrite(v).setConstant(-7.);
    T.getBaseJacobian(J).setConstant(4.);
  }
  Vec ex = x0, ev = v0;
  Mat eJ = J0;
  ex.head(nq).setConstant(31.);
  ev.head(nv).setConstant(-7.);
  eJ.topLeftCorner(nv, nv).setConstant(4.);
  mclose(c, x, ex, 0., "getBasePointWrite");
  mclose(c, v, ev, 0., "getTangentHeadWrite");
  mclose(c, J, eJ, 0., "writing through getBaseJacobian");
}
static void c14_bundle_parts(Src &s, Ctx &c) {
  Model m;
  PManifold q = gspace(s, m, s.below(2), 0, 4, 20, true);
  c.note("base", m.name);
  switch (s.below(4)) {
  case 0:
    bundle_parts(s, c, TangentBundleTpl<SO3M>(), 4, 3);
    break;
  case 1: {
    const int n = s.range(0, 5);
    TangentBundleTpl<VS> T(n), U(s.range(0, 5));
    const int how = s.below(4);
    if (how == 0)
      U = T;
    else if (how == 1)
      U = std::move(T);
    bundle_parts(s, c, how < 2 ? U : how == 2 ? TangentBundleTpl<VS>(T) : T, n, n);
    VS a(n), b(s.range(0, 5));
    b = a;
    c.require(b.nx() == n && b.ndx() == n && VS(b).nx() == n, "assigned vector space");
    break;
  }
  case 2:
    bundle_parts(s, c, TangentBundleTpl<TangentBundleTpl<AnySpace>>(TangentBundleTpl<AnySpace>(AnySpace(q))), m.nx() + m.ndx(), 2 * m.ndx());
    break;
  default:
    bundle_parts(s, c, TangentBundleTpl<AnySpace>(AnySpace(q)), m.nx(), m.ndx());
  }
  if (m.nx() != m.ndx())
    c.nontrivial();
}

int main(int argc, char **argv) {
  std::vector<Sub> subs = {
      {"C13", "axioms", 150000, 3000000, c13_axioms, "the space has a positive dimension"},
      {"C13", "vector_space", 100000, 1000000, c13_vector_space, "the space has a positive dimension"},
      {"C13", "defaults", 60000, 600000, c13_defaults, "the representation has coordinates which the tangent space has not"},
      {"C14", "composition", 200000, 3000000, c14_composition, "the space has at least two factors"},
      {"C14", "product", 200000, 3000000, c14_product, "the product has at least two components"},
      {"C14", "bundle_parts", 60000, 600000, c14_bundle_parts, "points and velocities of the generated base differ in size"},
  };
  return engine_main(argc, argv, subs);
}
