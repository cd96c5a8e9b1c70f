// Constraint sets with a coordinate-wise reference model.
#pragma once
#include "num.hpp"
#include <proxsuite-nlp/fwd.hpp>
#include <proxsuite-nlp/constraint-set.hpp>
#include <proxsuite-nlp/modelling/constraints.hpp>
#include <proxsuite-nlp/modelling/constraints/constraint-set-product.hpp>
#include <proxsuite-nlp/third-party/polymorphic_cxx14.hpp>

namespace vp {
using Set = proxsuite::nlp::ConstraintSetTpl<double>;
using PSet = proxsuite::nlp::polymorphic<Set>;
using Eq = proxsuite::nlp::EqualityConstraintTpl<double>;
using Neg = proxsuite::nlp::NegativeOrthantTpl<double>;
using Box = proxsuite::nlp::BoxConstraintTpl<double>;
using L1 = proxsuite::nlp::NonsmoothPenaltyL1Tpl<double>;
using Prod = proxsuite::nlp::ConstraintSetProductTpl<double>;
using BVec = Eigen::Matrix<bool, Eigen::Dynamic, 1>;

enum Kind { KEQ, KNEG, KBOX, KL1 };
/// Reference model of one coordinate of a set.
struct Coord {
  Kind k;
  double lo = 0, hi = 0;
};
struct RefSet {
  std::vector<Coord> c;
  double mu = 1.;
  int n() const { return (int)c.size(); }
  double proj(int i, double z) const {
    const Coord &q = c[(size_t)i];
    switch (q.k) {
    case KEQ:
      return 0.;
    case KNEG:
      return z < 0 ? z : 0.;
    case KBOX:
      return z < q.lo ? q.lo : z > q.hi ? q.hi : z;
    default:
      return z > mu ? z - mu : z < -mu ? z + mu : 0.;
    }
  }
  /// distance of z to the closest kink of the projection
  double kink(int i, double z) const {
    const Coord &q = c[(size_t)i];
    switch (q.k) {
    case KEQ:
      return 1e9;
    case KNEG:
      return std::fabs(z);
    case KBOX:
      return std::min(std::fabs(z - q.lo), std::fabs(z - q.hi));
    default:
      return std::min(std::fabs(z - mu), std::fabs(z + mu));
    }
  }
  /// rounding errors which an evaluation close to the kinks may have
  double ulps(int i, double z) const {
    const Coord &q = c[(size_t)i];
    double b = q.k == KBOX ? std::fabs(std::fabs(z - q.lo) < std::fabs(z - q.hi) ? q.lo : q.hi) : q.k == KL1 ? mu : 0.;
    return 1e-15 * (std::fabs(z) + (std::isfinite(b) ? b : 0.));
  }
  double dproj(int i, double z) const {
    const Coord &q = c[(size_t)i];
    switch (q.k) {
    case KEQ:
      return 0.;
    case KNEG:
      return z < 0;
    case KBOX:
      return z > q.lo && z < q.hi;
    default:
      return std::fabs(z) > mu;
    }
  }
  double g(int i, double y) const { return c[(size_t)i].k == KL1 ? std::fabs(y) : 0.; }
  /// a point of the domain of g
  double point(int i, double r) const {
    const Coord &q = c[(size_t)i];
    switch (q.k) {
    case KEQ:
      return 0.;
    case KNEG:
      return -std::fabs(r);
    case KBOX:
      return std::max(q.lo, std::min(q.hi, r));
    default:
      return r;
    }
  }
  std::string str() const {
    std::ostringstream o;
    for (auto &q : c) {
      static const char *nm[] = {"eq", "neg", "box", "l1"};
      o << nm[q.k];
      if (q.k == KBOX)
        o << "[" << q.lo << "," << q.hi << "]";
      o << " ";
    }
    return o.str();
  }
};

inline PSet gset(Src &s, int n, RefSet &m) {
  Kind k = (Kind)s.below(4);
  switch (k) {
  case KBOX: {
    Vec lo(n), hi(n);
    for (int i = 0; i < n; i++) {
      double a = s.num(), w = s.chance(1, 5) ? 0. : std::fabs(s.num());
      lo[i] = a;
      hi[i] = a + w;
      if (s.chance(1, 6))
        lo[i] = -std::numeric_limits<double>::infinity();
      if (s.chance(1, 6))
        hi[i] = std::numeric_limits<double>::infinity();
      m.c.push_back({KBOX, lo[i], hi[i]});
    }
    return PSet(Box(lo, hi));
  }
  default:
    for (int i = 0; i < n; i++)
      m.c.push_back({k, 0, 0});
    if (k == KEQ)
      return PSet(Eq());
    if (k == KNEG)
      return PSet(Neg());
    return PSet(L1());
  }
}

/// Product, possibly nested.
inline PSet gprod(Src &s, RefSet &m, int &n, int depth) {
  int nc = s.tail(1, 4, 14);
  std::vector<PSet> comps;
  std::vector<Eigen::Index> sizes;
  n = 0;
  for (int i = 0; i < nc; i++) {
    int sz;
    if (depth > 0 && s.chance(1, 5)) {
      PSet p = gprod(s, m, sz, depth - 1);
      comps.push_back(p);
    } else {
      sz = s.tail(0, 4, 30);
      comps.push_back(gset(s, sz, m));
    }
    sizes.push_back(sz);
    n += sz;
  }
  return PSet(Prod(comps, sizes));
}

} // namespace vp
