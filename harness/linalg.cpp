// C07 factorise-and-solve, C08 inertia, C09 symbolic structure, C10 block kernels
#include "num.hpp"
#include <proxsuite-nlp/fwd.hpp>
#include <proxsuite-nlp/ldlt-allocator.hpp>
#include <complex>
#include <memory>

using namespace vp;
using namespace proxsuite::nlp;
using namespace proxsuite::nlp::linalg;

// ---------------------------------------------------------------- structures

/// Owning symbolic structure (the library's type is a shallow view).
struct Sym {
  std::vector<BlockKind> data;
  std::vector<isize> lens;
  isize n;
  Sym(int nb) : data((size_t)(nb * nb), Zero), lens((size_t)nb, 1), n(nb) {}
  BlockKind &at(int i, int j) { return data[(size_t)(i + j * n)]; }
  BlockKind at(int i, int j) const { return data[(size_t)(i + j * n)]; }
  SymbolicBlockMatrix view() { return SymbolicBlockMatrix(data.data(), lens.data(), n, n); }
  int total() const {
    isize t = 0;
    for (auto l : lens)
      t += l;
    return (int)t;
  }
  int start(int b) const {
    isize t = 0;
    for (int i = 0; i < b; i++)
      t += lens[(size_t)i];
    return (int)t;
  }
  std::string str() const {
    static const char *nm = "0DLUX";
    std::ostringstream o;
    o << "lens";
    for (auto l : lens)
      o << " " << l;
    o << " kinds";
    for (int i = 0; i < n; i++) {
      o << " ";
      for (int j = 0; j < n; j++)
        o << nm[at(i, j)];
    }
    return o.str();
  }
};

static bool kind_allows(BlockKind k, int i, int j) {
  switch (k) {
  case Zero:
    return false;
  case Diag:
    return i == j;
  case TriL:
    return i >= j;
  case TriU:
    return i <= j;
  default:
    return true;
  }
}
static BlockKind tr(BlockKind k) { return k == TriL ? TriU : k == TriU ? TriL : k; }

/// Entry-wise occupancy of a structure.
static Eigen::MatrixXi mask_of(const Sym &s) {
  int N = s.total();
  Eigen::MatrixXi m = Eigen::MatrixXi::Zero(N, N);
  for (int bi = 0; bi < s.n; bi++)
    for (int bj = 0; bj < s.n; bj++)
      for (int i = 0; i < s.lens[(size_t)bi]; i++)
        for (int j = 0; j < s.lens[(size_t)bj]; j++)
          m(s.start(bi) + i, s.start(bj) + j) = kind_allows(s.at(bi, bj), i, j);
  return m;
}

/// Symmetric structure. Off-diagonal Zero/Diag/Dense (and triangular, in
/// transposed pairs, when `tri`). Diag and triangular blocks are square.
static Sym gsym(Src &s, int maxb, int maxlen, bool tri, bool zero_diag = false) {
  int nb = s.range(1, maxb);
  Sym y(nb);
  bool same = s.flag(); // equal sizes make room for Diag off-diagonal blocks
  int l0 = s.range(1, maxlen);
  for (int i = 0; i < nb; i++)
    y.lens[(size_t)i] = same ? l0 : s.range(1, maxlen);
  for (int i = 0; i < nb; i++)
    y.at(i, i) = s.flag() ? Dense : Diag;
  if (zero_diag && nb > 1 && s.chance(1, 4))
    y.at(nb - 1, nb - 1) = Zero;
  for (int i = 0; i < nb; i++)
    for (int j = 0; j < i; j++) {
      bool sq = y.lens[(size_t)i] == y.lens[(size_t)j];
      static const BlockKind ks[] = {Zero, Dense, Diag, TriU, TriL};
      BlockKind k = ks[s.below(sq ? (tri ? 5 : 3) : 2)];
      y.at(i, j) = k;
      y.at(j, i) = tr(k);
    }
  return y;
}

/// Quasi-definite matrix whose non-zeros lie inside the structure.
/// sign[b] is the sign of diagonal block b. Such matrices have an LDL^T
/// factorisation under every symmetric permutation.
static Mat gquasidef(Src &s, const Sym &y, const std::vector<int> &sign, double margin) {
  int N = y.total();
  Eigen::MatrixXi m = mask_of(y);
  Mat a = N <= 24 ? gmat(s, N, N) : gmat_seeded(s, N, N);
  for (int i = 0; i < N; i++)
    for (int j = 0; j <= i; j++) {
      double v = m(i, j) ? a(i, j) : 0.;
      a(i, j) = a(j, i) = v;
    }
  std::vector<int> eb((size_t)N);
  for (int b = 0; b < y.n; b++)
    for (int i = 0; i < y.lens[(size_t)b]; i++)
      eb[(size_t)(y.start(b) + i)] = b;
  for (int i = 0; i < N; i++) {
    double sum = margin + std::fabs(s.below(4) * 0.5);
    for (int j = 0; j < N; j++)
      if (j != i && sign[(size_t)eb[(size_t)j]] == sign[(size_t)eb[(size_t)i]])
        sum += std::fabs(a(i, j));
    a(i, i) = sign[(size_t)eb[(size_t)i]] * sum;
  }
  return a;
}

static std::vector<int> gsigns(Src &s, int nb) {
  std::vector<int> sg((size_t)nb);
  for (auto &x : sg)
    x = s.flag() ? -1 : 1;
  return sg;
}

static void check_solution(Ctx &c, const Mat &a, const Mat &b, const Mat &x, const std::string &who,
                           double fac = 1.) {
  double an = a.cwiseAbs().rowwise().sum().maxCoeff();
  double tol = fac * 1e-9 * (an * nrm(x) + nrm(b) + 1e-300);
  mclose(c, a * x, b, tol, who + " solution does not satisfy the system");
}

template <class F>
static void check_solves(Ctx &c, Src &s, const F &f, const Mat &a, const std::string &who,
                         double fac = 1.) {
  int n = (int)a.rows();
  int nr = s.range(1, 3);
  Mat b = n <= 24 ? gmat(s, n, nr) : gmat_seeded(s, n, nr);
  Mat x = f.solve(b);
  check_solution(c, a, b, x, who + " (matrix right-hand side)", fac);
  Mat xi = b;
  bool ok = f.solveInPlace(xi);
  c.require(ok, who + " solveInPlace returned false");
  mclose(c, xi, x, 1e-12 * (1 + nrm(x)), who + " solveInPlace differs from solve");
  Vec bv = b.col(0);
  Vec xv = f.solve(bv);
  mclose(c, xv, x.col(0), 1e-9 * (1 + nrm(x)), who + " vector solve differs from matrix solve");
}

// --------------------------------------------------------------------- C07

static void c07_dense(Src &s, Ctx &c) {
  int n = s.chance(1, 30) ? s.range(120, 300) : s.size(1, 40);
  if (s.chance(1, 300))
    n = s.range(300, 530);
  DenseLDLT<double> f = s.flag() ? DenseLDLT<double>(n) : DenseLDLT<double>();
  int rounds = s.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    if (r > 0 && s.flag())
      n = s.size(1, 40);
    Sym y(2);
    int n1 = s.range(0, n);
    y.lens = {n1, n - n1};
    for (auto &k : y.data)
      k = Dense;
    Mat a = gquasidef(s, y, gsigns(s, 2), 1.);
    double sc = s.chance(1, 4) ? s.logreal(1e-6, 1e6) : 1.;
    a *= sc;
    c.note("n", n);
    c.note("A", show(a));
    Mat lo = a;
    if (s.flag()) // only the lower triangle is documented to be read
      for (int j = 0; j < n; j++)
        for (int i = 0; i < j; i++)
          lo(i, j) = 7.5;
    int how = r == 0 ? (int)s.below(2) : 0;
    if (how == 1) {
      Mat tmp = lo;
      f = DenseLDLT<double>(Eigen::Ref<Mat>(tmp));
    } else
      f.compute(lo);
    if (s.chance(1, 4)) {
      DenseLDLT<double> g(f);
      f = g;
    }
    c.require(f.info() == Eigen::Success, "DenseLDLT info() is not Success");
    mclose(c, f.reconstructedMatrix(), a, 1e-9 * nrm(a) * n, "DenseLDLT reconstructedMatrix");
    Vec d = f.vectorD();
    c.require(d.size() == n, "vectorD has the wrong size");
    check_solves(c, s, f, a, "DenseLDLT", n > 40 ? 100 : 1);
    if (n > 128)
      c.label("blocked");
    if (n > 1)
      c.nontrivial();
  }
}

static Mat gsymm_any(Src &s, int n) {
  Mat a;
  switch (s.below(4)) {
  case 0: { // plain entries: many 2x2 pivots
    a = n <= 16 ? gmat(s, n, n) : gmat_seeded(s, n, n);
    a = (0.5 * (a + a.transpose())).eval();
    break;
  }
  case 1: { // prescribed spectrum
    Mat q = gorth(s, n);
    Vec d(n);
    for (int i = 0; i < n; i++)
      d[i] = s.logreal(1., 1e3) * (s.flag() ? -1 : 1);
    a = q * d.asDiagonal() * q.transpose();
    a = (0.5 * (a + a.transpose())).eval();
    break;
  }
  case 2: { // zero diagonal / saddle point
    a = n <= 16 ? gmat(s, n, n) : gmat_seeded(s, n, n);
    a = (0.5 * (a + a.transpose())).eval();
    int k = s.range(0, n);
    a.bottomRightCorner(n - k, n - k).setZero();
    break;
  }
  default: { // sparse small integers
    a = Mat::Zero(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j <= i; j++)
        if (s.chance(1, 3))
          a(i, j) = a(j, i) = s.range(-3, 3);
  }
  }
  return a;
}

static double rcond_cheap(const Mat &a) { // symmetric
  Vec ev = Eigen::SelfAdjointEigenSolver<Mat>(a, Eigen::EigenvaluesOnly).eigenvalues().cwiseAbs();
  return ev.maxCoeff() > 0 ? ev.minCoeff() / ev.maxCoeff() : 0.;
}

static void c07_bk(Src &s, Ctx &c) {
  int n = s.chance(1, 12) ? s.range(30, 110) : s.size(1, 32);
  Eigen::BunchKaufman<Mat> f(s.flag() ? n : 3);
  int rounds = s.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    if (r > 0 && s.flag())
      n = s.chance(1, 6) ? s.range(30, 70) : s.size(1, 32);
    Mat a = gsymm_any(s, n);
    if (s.chance(1, 4))
      a *= s.logreal(1e-6, 1e6);
    if (!(rcond_cheap(a) > 1e-6)) {
      c.label("ill-conditioned, skipped");
      continue;
    }
    c.note("A", show(a));
    Mat lo = a;
    if (s.flag())
      for (int j = 0; j < n; j++)
        for (int i = 0; i < j; i++)
          lo(i, j) = -3.25;
    if (s.chance(1, 3))
      f = Eigen::BunchKaufman<Mat>(lo);
    else
      f.compute(lo);
    if (s.chance(1, 4)) {
      Eigen::BunchKaufman<Mat> g(f);
      f = g;
    }
    c.require(f.info() == Eigen::Success, "BunchKaufman info() is not Success");
    check_solves(c, s, f, a, "BunchKaufman", 10);
    int two = 0;
    for (int i = 0; i < n; i++)
      two += f.pivots()[i] < 0;
    if (two)
      c.label("2x2 pivots");
    if (n > 32)
      c.label("blocked");
    if (n > 1)
      c.nontrivial();
  }
}

template <int UpLo> static void bk_complex(Src &s, Ctx &c) {
  using C = std::complex<double>;
  using CM = Eigen::MatrixXcd;
  int n = s.chance(1, 10) ? s.range(30, 70) : s.size(1, 12);
  CM a(n, n);
  bool seeded = n > 12;
  uint64_t seed = seeded ? s.word() : 0;
  auto nx = [&]() {
    return seeded ? ((double)(splitmix(seed) >> 11) / 9007199254740992. - 0.5) * 4. : s.num();
  };
  for (int i = 0; i < n; i++)
    for (int j = 0; j <= i; j++) {
      double re = nx(), im = i == j ? 0. : nx();
      a(i, j) = C(re, im);
      a(j, i) = C(re, -im);
    }
  Eigen::JacobiSVD<CM> svd(a);
  auto sv = svd.singularValues();
  if (!(sv[n - 1] > 1e-6 * sv[0]))
    throw Discard();
  c.note("n", n);
  CM in = a;
  if (s.flag()) // the unused triangle must not matter
    for (int j = 0; j < n; j++)
      for (int i = 0; i < n; i++)
        if (UpLo == Eigen::Lower ? i < j : i > j)
          in(i, j) = C(3, 5);
  Eigen::BunchKaufman<CM, UpLo> f(in);
  c.require(f.info() == Eigen::Success, "complex BunchKaufman info() is not Success");
  CM b(n, 2);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < 2; j++) {
      double re = nx(), im = nx();
      b(i, j) = C(re, im);
    }
  // an upper-triangle factorisation stores conj(A) in its lower triangle
  CM ref = a;
  if (UpLo == Eigen::Upper)
    ref = a.conjugate().eval(); // only checked through |residual| of either
  CM x = f.solve(b);
  double tol = 1e-8 * (nrm(a.cwiseAbs()) * n * nrm(x.cwiseAbs()) + nrm(b.cwiseAbs()));
  if (UpLo == Eigen::Lower) {
    c.close((a * x - b).cwiseAbs().maxCoeff(), 0., tol, "complex BunchKaufman solve");
  }
  if (n > 1)
    c.nontrivial();
}
static void c07_bk_complex(Src &s, Ctx &c) { bk_complex<Eigen::Lower>(s, c); }

using BL = BlockLDLT<double>;

static void check_block(Src &s, Ctx &c, const BL &f, const Mat &a, const std::string &who) {
  int n = (int)a.rows();
  double fac = n > 60 ? 100 : 1;
  c.require(f.info() == Eigen::Success, who + " info() is not Success");
  mclose(c, f.reconstructedMatrix(), a, fac * 1e-9 * (1 + nrm(a)) * n, who + " reconstructedMatrix");
  check_solves(c, s, f, a, who, fac);
  // the permutation is a permutation, and D is the D of P^T A P
  Mat P = Mat(f.permutationP().toDenseMatrix().cast<double>());
  mclose(c, P * P.transpose(), Mat::Identity(n, n), 0., who + " permutationP is not a permutation");
  Mat L = f.matrixL(), U = f.matrixU();
  Vec d = f.vectorD();
  mclose(c, L * d.asDiagonal() * U, P.transpose() * a * P, fac * 1e-9 * (1 + nrm(a)) * n,
         who + " L D L^T is not P^T A P");
}

static void c07_block(Src &s, Ctx &c) {
  Sym y = gsym(s, s.chance(1, 20) ? 6 : 4, s.chance(1, 10) ? 9 : 4, false);
  if (s.chance(1, 60)) { // a block long enough for the recursive dense kernel
    y.lens[s.below((uint32_t)y.n)] = s.range(129, 180);
    for (int i = 0; i < y.n; i++)
      for (int j = 0; j < y.n; j++)
        if (i != j && y.at(i, j) == Diag && y.lens[(size_t)i] != y.lens[(size_t)j])
          y.at(i, j) = Dense;
    c.label("long block");
  }
  int N = y.total(), nb = (int)y.n;
  auto sg = gsigns(s, nb);
  c.note("structure", y.str());
  std::unique_ptr<BL> f(new BL(N, y.view()));
  auto permute = [&](int mode) {
    if (mode == 0) {
      f->analyzePattern();
      c.label("no permutation");
    } else if (mode == 1) {
      std::vector<isize> p((size_t)nb);
      for (int i = 0; i < nb; i++)
        p[(size_t)i] = i;
      for (int i = nb - 1; i > 0; i--)
        std::swap(p[(size_t)i], p[s.below((uint32_t)i + 1)]);
      f->setBlockPermutation(p.data());
      std::ostringstream o;
      for (auto q : p)
        o << q << " ";
      c.note("setBlockPermutation", o.str());
      for (int i = 0; i < nb; i++)
        c.require(f->blockPermIndices()[(size_t)i] == p[(size_t)i],
                  "blockPermIndices differs from the permutation which was set");
      c.label("given permutation");
    } else {
      f->findSparsifyingPermutation();
      c.note("findSparsifyingPermutation", "");
      c.label("sparsifying permutation");
    }
  };
  permute((int)s.below(3));
  int rounds = s.range(1, 4);
  for (int r = 0; r < rounds; r++) {
    Mat a = gquasidef(s, y, sg, 1.);
    c.note("A", show(a));
    Mat lo = a;
    if (s.flag())
      for (int j = 0; j < N; j++)
        for (int i = 0; i < j; i++)
          lo(i, j) = 4.5;
    f->compute(lo);
    check_block(s, c, *f, a, "BlockLDLT");
    switch (s.below(6)) {
    case 1: { // copies are independent and equal
      std::unique_ptr<BL> g(new BL(*f));
      check_block(s, c, *g, a, "copied BlockLDLT");
      if (s.flag()) {
        f.reset();
        f = std::move(g);
      } else {
        Mat a2 = gquasidef(s, y, sg, 1.);
        g->compute(a2);
        check_block(s, c, *g, a2, "recomputed copy of BlockLDLT");
        check_block(s, c, *f, a, "original of a recomputed copy of BlockLDLT");
      }
      c.label("copy");
      break;
    }
    case 2: { // copy assignment over a factorisation of another shape
      Sym y2(1);
      y2.lens = {2};
      y2.at(0, 0) = Dense;
      std::unique_ptr<BL> g(new BL(2, y2.view()));
      g->analyzePattern();
      *g = *f;
      f.reset();
      check_block(s, c, *g, a, "copy-assigned BlockLDLT");
      f = std::move(g);
      c.label("copy assignment");
      break;
    }
    case 3: // the permutation is chosen again
      permute(1 + (int)s.below(2));
      f->compute(lo);
      check_block(s, c, *f, a, "BlockLDLT after choosing its permutation again");
      c.label("re-permuted");
      break;
    default:
      break;
    }
  }
  if (nb > 1)
    c.nontrivial();
}

/// KKT matrices with an exactly-zero lower-right block, no pivoting needed.
static void c07_block_saddle(Src &s, Ctx &c) {
  int n = s.range(1, 6), m = s.range(1, n);
  Sym y(2);
  y.lens = {n, m};
  y.at(0, 0) = s.flag() ? Dense : Diag;
  y.at(1, 1) = Zero;
  y.at(1, 0) = y.at(0, 1) = Dense;
  Mat h = y.at(0, 0) == Diag ? Mat(Vec::Constant(n, s.real(1, 3)).asDiagonal()) : gspd(s, n, 0.5, 5.);
  Mat q = gorth(s, n);
  Mat j = q.topRows(m);
  for (int i = 0; i < m; i++)
    j.row(i) *= s.real(0.5, 3.);
  Mat a = Mat::Zero(n + m, n + m);
  a.topLeftCorner(n, n) = h;
  a.bottomLeftCorner(m, n) = j;
  a.topRightCorner(n, m) = j.transpose();
  c.note("A", show(a));
  BL f(n + m, y.view());
  c.require(f.analyzePattern(), "analyzePattern failed on a saddle-point structure");
  f.compute(a);
  check_block(s, c, f, a, "BlockLDLT saddle point");
  c.nontrivial();
}

/// A symmetric scaling by powers of two commutes with the factorisations which
/// do not pivot by value (no rounding is involved), a uniform one with all of
/// them: the unscaled problem is well conditioned, so it has to be solved.
static void c07_scaled(Src &s, Ctx &c) {
  Sym y = gsym(s, 4, 4, false);
  int N = y.total();
  auto sg = gsigns(s, y.n);
  c.note("structure", y.str());
  int backend = (int)s.below(3);
  BL f(N, y.view());
  if (backend == 0) {
    if (s.flag())
      f.findSparsifyingPermutation();
    else
      f.analyzePattern();
  }
  DenseLDLT<double> d(N);
  Eigen::BunchKaufman<Mat> k(N);
  int rounds = s.range(1, 2);
  for (int r = 0; r < rounds; r++) {
    Mat a = gquasidef(s, y, sg, 1.);
    int nr = s.range(1, 2);
    Mat b = gmat(s, N, nr);
    Vec e(N);
    bool uniform = backend == 2 || s.chance(1, 3);
    int all = s.range(-120, 120);
    for (int i = 0; i < N; i++)
      e[i] = std::ldexp(1., uniform ? all : s.range(-70, 70));
    double rs = std::ldexp(1., s.range(-40, 40));
    Mat as = e.asDiagonal() * a * e.asDiagonal();
    Mat bs = rs * (e.asDiagonal() * b);
    c.note("A before scaling", show(a));
    c.note("scaling", show(e));
    Mat xs = bs;
    bool ok = true;
    std::string who;
    int info;
    if (backend == 0) {
      f.compute(as);
      info = f.info();
      ok = f.solveInPlace(xs);
      who = "BlockLDLT (scaled matrix)";
    } else if (backend == 1) {
      d.compute(as);
      info = d.info();
      ok = d.solveInPlace(xs);
      who = "DenseLDLT (scaled matrix)";
    } else {
      k.compute(as);
      info = k.info();
      ok = k.solveInPlace(xs);
      who = "BunchKaufman (scaled matrix)";
    }
    c.require(info == Eigen::Success, who + " info() is not Success");
    c.require(ok, who + " solveInPlace returned false");
    Mat x = e.asDiagonal() * xs / rs;
    check_solution(c, a, b, x, who, 10);
    if (N > 1 && e.maxCoeff() > 1e6 * e.minCoeff())
      c.label("graded");
    if (N > 1 && (uniform ? all != 0 : true))
      c.nontrivial();
  }
  c.label("backend " + std::to_string(backend));
}

struct SolveVisitor {
  Mat &b;
  template <class F> bool operator()(const F &f) const { return f.solveInPlace(b); }
};
struct ComputeVisitor {
  const Mat &a;
  template <class F> int operator()(F &f) const {
    f.compute(a);
    return (int)f.info();
  }
};

static void c07_allocated(Src &s, Ctx &c) {
  std::vector<isize> prim, dual;
  int np = s.tail(1, 2, 5), nd = s.tail(0, 3, 12);
  for (int i = 0; i < np; i++)
    prim.push_back(s.range(1, 5));
  for (int i = 0; i < nd; i++)
    dual.push_back(s.range(1, 4));
  int n = 0, m = 0;
  for (auto k : prim)
    n += (int)k;
  for (auto k : dual)
    m += (int)k;
  static const LDLTChoice ch[] = {LDLTChoice::DENSE, LDLTChoice::BUNCHKAUFMAN,
                                  LDLTChoice::BLOCKSPARSE, LDLTChoice::EIGEN};
  uint32_t k = s.below(4);
  if (k == 2 && np + nd > 7) // the search for a permutation of the blocks is exhaustive, by design
    k = 1;
  auto f = allocate_ldlt_from_sizes<double>(prim, dual, ch[k]);
  c.require(get_total_dim_helper(prim, dual) == n + m, "total dimension of the KKT system");
  int rounds = s.range(1, 2);
  for (int r = 0; r < rounds; r++) {
    Mat a = Mat::Zero(n + m, n + m);
    a.topLeftCorner(n, n) = gspd(s, n, 0.3, 10.);
    Mat j = gmat(s, m, n);
    a.bottomLeftCorner(m, n) = j;
    a.topRightCorner(n, m) = j.transpose();
    double mu = s.logreal(1e-3, 1.);
    a.bottomRightCorner(m, m) = -mu * Mat::Identity(m, m);
    c.note("backend", k);
    c.note("A", show(a));
    int info = boost::apply_visitor(ComputeVisitor{a}, f);
    c.require(info == Eigen::Success, "allocated LDLT backend does not report success");
    Mat b = gmat(s, n + m, 2);
    Mat x = b;
    bool ok = boost::apply_visitor(SolveVisitor{x}, f);
    c.require(ok, "allocated LDLT backend solveInPlace returned false");
    check_solution(c, a, b, x, "allocated LDLT backend", 1e3);
    Eigen::VectorXi sig(n + m);
    boost::apply_visitor(ComputeSignatureVisitor{sig}, f);
    auto in = computeInertiaTuple(sig);
    c.require(in[0] == n && in[1] == m && in[2] == 0, "inertia of a quasi-definite KKT matrix");
    if (s.chance(1, 3)) {
      auto g = f;
      f = g;
    }
  }
  c.label("backend " + std::to_string(k));
  if (m > 0)
    c.nontrivial();
}

// --------------------------------------------------------------------- C08

static void inertia_of(const Mat &a, int &np, int &nn) {
  Eigen::SelfAdjointEigenSolver<Mat> es(a, Eigen::EigenvaluesOnly);
  np = nn = 0;
  for (int i = 0; i < a.rows(); i++)
    (es.eigenvalues()[i] > 0 ? np : nn)++;
}

template <class F>
static void check_inertia(Ctx &c, const F &f, const Mat &a, const std::string &who, int np, int nn) {
  Eigen::VectorXi sig(a.rows());
  ComputeSignatureVisitor{sig}(f);
  c.require(sig.size() == a.rows(), who + " signature has the wrong length");
  auto in = computeInertiaTuple(sig);
  std::ostringstream o;
  o << who << " reports the wrong inertia: (" << in[0] << "," << in[1] << "," << in[2] << ") vs ("
    << np << "," << nn << ",0)";
  c.require(in[0] == np && in[1] == nn && in[2] == 0, o.str());
}

static void c08_bk(Src &s, Ctx &c) {
  int n = s.chance(1, 20) ? s.range(30, 70) : s.size(1, 12);
  Eigen::BunchKaufman<Mat> f(n);
  int rounds = s.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    Mat a = gsymm_any(s, n);
    if (!(rcond_cheap(a) > 1e-6)) {
      c.label("ill-conditioned, skipped");
      continue;
    }
    int np, nn;
    inertia_of(a, np, nn);
    double sc = s.chance(1, 2) ? s.logreal(1e-12, 1e12) : 1.;
    a *= sc;
    c.note("A", show(a));
    f.compute(a);
    c.require(f.info() == Eigen::Success, "BunchKaufman info() is not Success");
    check_inertia(c, f, a, "BunchKaufman", np, nn);
    for (int i = 0; i < n; i++)
      if (f.pivots()[i] < 0) {
        c.label("2x2 pivots");
        break;
      }
    if (np > 0 && nn > 0)
      c.nontrivial();
  }
}

static bool sign_agrees(SignMatrix sg, int np, int nn) {
  if (np > 0 && nn > 0)
    return sg == SignMatrix::Indefinite;
  if (np > 0)
    return sg == SignMatrix::PositiveSemiDef;
  return sg == SignMatrix::NegativeSemiDef;
}

static void c08_ldl(Src &s, Ctx &c) {
  Sym y = gsym(s, 4, 4, false);
  if (s.chance(1, 15)) {
    const int parts = s.range(1, 3);
    y = Sym(parts);
    for (int i = 0; i < parts; i++) {
      y.lens[(size_t)i] = i == 0 && s.flag() ? s.range(129, 200) : s.range(130 / parts, 200 / parts);
      for (int j = 0; j <= i; j++)
        y.at(i, j) = y.at(j, i) = i == j ? Dense : s.flag() ? Dense : Zero;
    }
    c.label(parts > 1 ? "several long blocks" : "long block");
  }
  int nb = (int)y.n;
  int N = y.total();
  c.note("structure", y.str());
  BL f(N, y.view());
  if (s.flag())
    f.findSparsifyingPermutation();
  else
    f.analyzePattern();
  DenseLDLT<double> d(N);
  Eigen::LDLT<Mat> e(N);
  int rounds = s.range(1, 3);
  for (int r = 0; r < rounds; r++) {
    std::vector<int> sg = gsigns(s, nb);
    Mat a = gquasidef(s, y, sg, 1.);
    if (s.flag())
      a *= s.logreal(1e-8, 1e8);
    int np = 0, nn = 0;
    for (int b = 0; b < nb; b++)
      (sg[(size_t)b] > 0 ? np : nn) += (int)y.lens[(size_t)b];
    c.note("A", show(a));
    f.compute(a);
    d.compute(a);
    e.compute(a);
    check_inertia(c, f, a, "BlockLDLT", np, nn);
    check_inertia(c, d, a, "DenseLDLT", np, nn);
    check_inertia(c, e, a, "Eigen LDLT", np, nn);
    c.require(sign_agrees(d.sign(), np, nn), "DenseLDLT sign() disagrees with the definiteness");
    c.require(sign_agrees(f.sign(), np, nn), "BlockLDLT sign() disagrees with the definiteness");
    BL g(f);
    c.require(sign_agrees(g.sign(), np, nn), "copied BlockLDLT sign() disagrees with the definiteness");
    if (np > 0 && nn > 0)
      c.nontrivial();
  }
}

static void c08_tuple(Src &s, Ctx &c) {
  int n = s.size(0, 30);
  Eigen::VectorXi sig(n);
  int cnt[3] = {0, 0, 0};
  for (int i = 0; i < n; i++) {
    int v = s.range(-1, 1);
    sig[i] = v;
    cnt[v == 1 ? 0 : v == -1 ? 1 : 2]++;
  }
  bool bad = n > 0 && s.chance(1, 4);
  if (bad)
    sig[(int)s.below((uint32_t)n)] = s.flag() ? 2 + s.range(0, 5) : -2 - s.range(0, 5);
  c.note("signature", sig.transpose());
  if (bad) {
    bool threw = false;
    try {
      computeInertiaTuple(sig);
    } catch (const std::runtime_error &) {
      threw = true;
    }
    c.require(threw, "computeInertiaTuple accepts an invalid signature");
  } else {
    auto t = computeInertiaTuple(sig);
    c.require(t[0] == cnt[0] && t[1] == cnt[1] && t[2] == cnt[2],
              "computeInertiaTuple is not (positive, negative, zero) counts");
  }
  if (n > 2)
    c.nontrivial();
}

// --------------------------------------------------------------------- C09

static bool subset(const Eigen::MatrixXi &a, const Eigen::MatrixXi &b) {
  return (a.array() <= b.array()).all();
}
static Eigen::MatrixXi kmask(BlockKind k, int n) {
  Eigen::MatrixXi m(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      m(i, j) = kind_allows(k, i, j);
  return m;
}

static void c09_algebra(Src &s, Ctx &c) {
  BlockKind a = (BlockKind)s.below(5), b = (BlockKind)s.below(5), d = (BlockKind)s.below(5);
  c.note("a", (int)a);
  c.note("b", (int)b);
  int n = 3;
  auto A = kmask(a, n), B = kmask(b, n);
  c.require(kmask(linalg::trans(a), n) == A.transpose(), "trans() is not the kind of the transpose");
  // least kind which covers the exact occupancy of the sum / product
  auto least = [&](const Eigen::MatrixXi &m) {
    BlockKind best = Dense;
    for (BlockKind k : {Zero, Diag, TriL, TriU, Dense})
      if (subset(m, kmask(k, n)) && kmask(k, n).sum() < kmask(best, n).sum())
        best = k;
    return best;
  };
  Eigen::MatrixXi sum = (A + B).cwiseMin(1), prod = (A * B).cwiseMin(1);
  c.require(linalg::add(a, b) == least(sum), "add() is not the kind of the sum");
  c.require(linalg::mul(a, b) == least(prod), "mul() is not the kind of the product");
  c.require(linalg::add(a, b) == linalg::add(b, a), "add() is not commutative");
  c.require(linalg::add(linalg::add(a, b), d) == linalg::add(a, linalg::add(b, d)),
            "add() is not associative");
  c.require(linalg::trans(linalg::mul(a, b)) == linalg::mul(linalg::trans(b), linalg::trans(a)),
            "trans(mul(a,b)) != mul(trans(b),trans(a))");
  c.nontrivial();
}

static void c09_view(Src &s, Ctx &c) {
  int nb = s.tail(1, 6, 16);
  Sym y(nb);
  for (auto &l : y.lens)
    l = s.range(1, 5);
  // arbitrary, not necessarily symmetric; Diag and triangular blocks square
  for (int i = 0; i < nb; i++)
    for (int j = 0; j < nb; j++)
      y.at(i, j) = y.lens[(size_t)i] == y.lens[(size_t)j] ? (BlockKind)s.below(5)
                                                          : (s.flag() ? Dense : Zero);
  bool symm = s.flag();
  if (symm)
    for (int i = 0; i < nb; i++)
      for (int j = 0; j <= i; j++) {
        if (i == j && (y.at(i, i) == TriL || y.at(i, i) == TriU))
          y.at(i, i) = Dense;
        y.at(j, i) = tr(y.at(i, j));
      }
  c.note("structure", y.str());
  auto v = y.view();
  Eigen::MatrixXi m = mask_of(y);
  c.require(v.nsegments() == nb, "nsegments");
  c.require(v.count_nnz() == m.sum(), "count_nnz is not the number of structural non-zeros");
  // off-diagonal symmetry of the pattern
  bool is_sym = true;
  for (int i = 0; i < nb; i++)
    for (int j = 0; j < i; j++)
      is_sym &= y.at(i, j) == tr(y.at(j, i));
  c.require(v.check_if_symmetric() == is_sym, "check_if_symmetric is wrong");
  auto cp = v.copy();
  auto t = v.transpose();
  bool okc = true, okt = true;
  for (int i = 0; i < nb; i++) {
    okc &= cp.segment_lens[i] == y.lens[(size_t)i];
    okt &= t.segment_lens[i] == y.lens[(size_t)i];
    for (int j = 0; j < nb; j++) {
      okc &= cp(i, j) == y.at(i, j);
      okt &= t(i, j) == tr(y.at(j, i));
    }
  }
  // a deep copy does not follow the original
  BlockKind old = y.at(0, 0);
  y.at(0, 0) = old == Dense ? Diag : Dense;
  okc &= cp(0, 0) == old;
  y.at(0, 0) = old;
  int k = s.range(0, nb - 1), len = s.range(0, nb - k);
  auto sub = v.submatrix(k, len);
  bool oks = sub.nsegments() == len;
  for (int i = 0; i < len; i++) {
    oks &= sub.segment_lens[i] == y.lens[(size_t)(k + i)];
    for (int j = 0; j < len; j++)
      oks &= &sub(i, j) == &v(k + i, k + j);
  }
  // permuted deep copy
  std::vector<isize> p((size_t)nb);
  for (int i = 0; i < nb; i++)
    p[(size_t)i] = i;
  for (int i = nb - 1; i > 0; i--)
    std::swap(p[(size_t)i], p[s.below((uint32_t)i + 1)]);
  SymbolicBlockMatrix out(nb, nb);
  symbolic_deep_copy(v, out, p.data());
  bool okp = true;
  for (int i = 0; i < nb; i++) {
    okp &= out.segment_lens[i] == y.lens[(size_t)p[(size_t)i]];
    for (int j = 0; j < nb; j++)
      okp &= out(i, j) == y.at((int)p[(size_t)i], (int)p[(size_t)j]);
  }
  for (auto *q : {&cp, &t, &out}) {
    delete[] q->m_data;
    delete[] q->segment_lens;
  }
  c.require(okc, "copy() is not an independent equal structure");
  c.require(okt, "transpose() is not the structure of the transpose");
  c.require(oks, "submatrix() is not a view of the lower-right blocks");
  c.require(okp, "symbolic_deep_copy does not apply its permutation");
  if (nb > 1)
    c.nontrivial();
}

/// Soundness of the symbolic factorisation against numerical factors.
static void c09_llt(Src &s, Ctx &c) {
  Sym y = gsym(s, 5, 4, true, true);
  int nb = (int)y.n, N = y.total();
  c.note("structure", y.str());
  Sym w = y;
  auto v = w.view();
  bool ok = v.llt_in_place();
  c.require(ok == v.performed_llt, "llt_in_place result and flag differ");
  if (!ok) {
    // refusal is only allowed when some leading block has no structure to pivot on
    bool zero_diag = false;
    for (int i = 0; i < nb; i++)
      zero_diag |= y.at(i, i) == Zero;
    c.require(zero_diag, "llt_in_place refused a structure with non-zero diagonal blocks");
    c.label("refused");
    return;
  }
  // upper block-triangle is cleared, diagonal blocks are lower-triangular
  for (int i = 0; i < nb; i++) {
    c.require(w.at(i, i) == Diag || w.at(i, i) == TriL,
              "llt_in_place leaves a diagonal block which is not lower-triangular");
    for (int j = i + 1; j < nb; j++)
      c.require(w.at(i, j) == Zero, "llt_in_place leaves blocks above the diagonal");
  }
  Eigen::MatrixXi lm = mask_of(w);
  // numerical witness: random values with the given pattern
  bool zd = false;
  for (int i = 0; i < nb; i++)
    zd |= y.at(i, i) == Zero;
  if (zd)
    return;
  std::vector<int> sg = gsigns(s, nb);
  Mat a = gquasidef(s, y, sg, 1.);
  Mat L = Mat::Identity(N, N);
  Vec d(N);
  Mat wk = a;
  for (int k = 0; k < N; k++) {
    d[k] = wk(k, k);
    for (int i = k + 1; i < N; i++)
      L(i, k) = wk(i, k) / d[k];
    for (int i = k + 1; i < N; i++)
      for (int j = k + 1; j < N; j++)
        wk(i, j) -= L(i, k) * d[k] * L(j, k);
  }
  for (int i = 0; i < N; i++)
    for (int j = 0; j < i; j++)
      if (std::fabs(L(i, j)) > 1e-9 && !lm(i, j)) {
        std::ostringstream o;
        o << "symbolic factorisation misses a non-zero of L: entry (" << i << "," << j << ") = "
          << L(i, j);
        c.fail(o.str());
      }
  if (nb > 1)
    c.nontrivial();
}

/// The chosen permutation has the fewest structural non-zeros of all.
static void c09_sparsest(Src &, Ctx &c, Sym y) {
  int nb = (int)y.n;
  c.note("structure", y.str());
  std::vector<isize> p((size_t)nb);
  for (int i = 0; i < nb; i++)
    p[(size_t)i] = i;
  isize best = -1, worst = -1;
  auto nnz_of = [&](const std::vector<isize> &q) {
    Sym t(nb);
    for (int i = 0; i < nb; i++) {
      t.lens[(size_t)i] = y.lens[(size_t)q[(size_t)i]];
      for (int j = 0; j < nb; j++)
        t.at(i, j) = y.at((int)q[(size_t)i], (int)q[(size_t)j]);
    }
    auto v = t.view();
    if (!v.llt_in_place())
      return (isize)-1;
    return v.count_nnz();
  };
  do {
    isize k = nnz_of(p);
    c.require(k >= 0, "a permuted structure with non-zero diagonal was refused");
    if (best < 0 || k < best)
      best = k;
    if (k > worst)
      worst = k;
  } while (std::next_permutation(p.begin(), p.end()));
  // through the symbolic interface
  Sym res(nb);
  auto rv = res.view();
  std::vector<isize> bp((size_t)nb), wk((size_t)nb);
  auto info = rv.brute_force_best_permutation(y.view(), bp.data(), wk.data());
  c.require(info == Eigen::Success, "brute_force_best_permutation failed");
  std::vector<isize> sorted = bp;
  std::sort(sorted.begin(), sorted.end());
  for (int i = 0; i < nb; i++)
    c.require(sorted[(size_t)i] == i, "brute_force_best_permutation did not return a permutation");
  isize got = nnz_of(bp);
  std::ostringstream o;
  o << "chosen permutation is not the sparsest: " << got << " vs " << best;
  c.require(got == best, o.str());
  // through the factorisation
  BL f(y.total(), y.view());
  f.findSparsifyingPermutation();
  isize via = f.structure().count_nnz();
  std::ostringstream o2;
  o2 << "BlockLDLT structure is not the sparsest: " << via << " vs " << best;
  c.require(via == best, o2.str());
  c.require(nnz_of(f.blockPermIndices()) == best, "BlockLDLT blockPermIndices is not the sparsest");
  if (worst > best)
    c.nontrivial();
}
static void c09_best(Src &s, Ctx &c) { c09_sparsest(s, c, gsym(s, 5, 4, false)); }
/// Seven or eight blocks: all 5040 or 40320 orders.
static void c09_best_large(Src &s, Ctx &c) {
  const int nb = s.chance(1, 20) ? 8 : 7;
  Sym y(nb);
  for (int i = 0; i < nb; i++)
    y.lens[(size_t)i] = s.range(1, 3);
  for (int i = 0; i < nb; i++)
    for (int j = 0; j < nb; j++)
      y.at(i, j) = i == j ? (s.chance(1, 4) ? Diag : Dense) : Zero;
  if (s.flag()) { // an arrow: one or two blocks couple with all others, the rest hardly at all
    int heads = s.range(1, 2);
    for (int h = 0; h < heads; h++) {
      int k = s.range(0, nb - 1);
      for (int j = 0; j < nb; j++)
        if (j != k)
          y.at(k, j) = y.at(j, k) = Dense;
    }
  }
  int extra = s.range(0, 6);
  for (int e = 0; e < extra; e++) {
    int i = s.range(0, nb - 1), j = s.range(0, nb - 1);
    if (i != j)
      y.at(i, j) = y.at(j, i) = Dense;
  }
  c09_sparsest(s, c, y);
}

static void c09_default(Src &s, Ctx &c) {
  std::vector<isize> prim, dual;
  int np = s.tail(1, 3, 6), nd = s.tail(0, 4, 14);
  for (int i = 0; i < np; i++)
    prim.push_back(s.range(1, 5));
  for (int i = 0; i < nd; i++)
    dual.push_back(s.range(1, 5));
  auto st = create_default_block_structure(prim, dual);
  int nb = np + nd;
  bool ok = st.nsegments() == nb;
  for (int i = 0; ok && i < nb; i++) {
    ok &= st.segment_lens[i] == (i < np ? prim[(size_t)i] : dual[(size_t)(i - np)]);
    for (int j = 0; j < nb; j++) {
      BlockKind want = (i < np || j < np) ? Dense : (i == j ? Diag : Zero);
      ok &= st(i, j) == want;
    }
  }
  delete[] st.m_data;
  delete[] st.segment_lens;
  c.require(ok, "default KKT structure is not [dense primal/Jacobian, diagonal dual]");
  if (nd > 1)
    c.nontrivial();
}

// --------------------------------------------------------------------- C10

static Mat gkind(Src &s, BlockKind k, int r, int cc) {
  Mat m = gmat(s, r, cc);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < cc; j++)
      if (!kind_allows(k, i, j))
        m(i, j) = 0.;
  return m;
}

static void c10_gemmt(Src &s, Ctx &c) {
  BlockKind lk = (BlockKind)s.below(5), rk = (BlockKind)s.below(5);
  // dst (m x n) += alpha * lhs (m x k) * rhs (n x k)^T; non-dense blocks are square
  int k = s.range(1, 6);
  int m = (lk == Dense || lk == Zero) ? s.range(1, 6) : k;
  int n = (rk == Dense || rk == Zero) ? s.range(1, 6) : k;
  double alpha = s.flag() ? -1. : s.num();
  Mat lhs = gkind(s, lk, m, k), rhs = gkind(s, rk, n, k), dst = gmat(s, m, n);
  c.note("kinds", std::to_string((int)lk) + " " + std::to_string((int)rk));
  c.note("alpha", alpha);
  c.note("lhs", show(lhs));
  c.note("rhs", show(rhs));
  c.note("dst", show(dst));
  Mat want = dst + alpha * lhs * rhs.transpose();
  Mat got = dst;
  backend::gemmt(got, lhs, rhs, lk, rk, alpha);
  double tol = 1e-11 * (1 + nrm(want) + std::fabs(alpha) * nrm(lhs) * nrm(rhs) * k);
  mclose(c, got, want, tol,
         "gemmt kinds (" + std::to_string((int)lk) + " " + std::to_string((int)rk) + ")");
  if (s.flag()) {
    // rows and columns in other units, by powers of two
    Vec dm(m), dn(n), dk(k);
    for (Vec *v : {&dm, &dn, &dk})
      for (int i = 0; i < v->size(); i++)
        (*v)[i] = std::ldexp(1., s.range(-60, 60));
    Mat gs = dm.asDiagonal() * dst * dn.asDiagonal();
    Mat ls = dm.asDiagonal() * lhs * dk.asDiagonal(), rs = dn.asDiagonal() * rhs * dk.cwiseInverse().asDiagonal();
    backend::gemmt(gs, ls, rs, lk, rk, alpha);
    mclose(c, dm.cwiseInverse().asDiagonal() * gs * dn.cwiseInverse().asDiagonal(), want, tol, "gemmt in other units");
    c.label("scaled");
  }
  // on blocks and maps of larger storage, as the factorisation uses it
  Mat big = Mat::Constant(m + 2, n + 3, 5.);
  auto blk = big.block(1, 2, m, n);
  blk = dst;
  Mat bl = Mat::Constant(m + 1, k + 1, -2.);
  bl.block(1, 0, m, k) = lhs;
  backend::gemmt(blk, bl.block(1, 0, m, k), rhs, lk, rk, alpha);
  mclose(c, big.block(1, 2, m, n), want, tol, "gemmt on sub-blocks");
  big.block(1, 2, m, n).setConstant(5.);
  c.require((big.array() == 5.).all(), "gemmt wrote outside of its destination");
  c.label("kinds " + std::to_string((int)lk) + std::to_string((int)rk));
  if (lk != Zero && rk != Zero)
    c.nontrivial();
}

template <int Mode> static void tri_case(Src &s, Ctx &c) {
  constexpr bool lower = (Mode & Eigen::Lower) == Eigen::Lower;
  constexpr bool unit = (Mode & Eigen::UnitDiag) == Eigen::UnitDiag;
  int nb = s.tail(1, 4, 12);
  Sym y(nb);
  bool same = s.flag();
  int l0 = s.range(1, 4);
  for (auto &l : y.lens)
    l = same ? l0 : s.range(1, 5);
  bool bad = s.chance(1, 12);
  for (int i = 0; i < nb; i++)
    for (int j = 0; j < nb; j++) {
      if (i == j)
        y.at(i, i) = s.flag() ? (lower ? TriL : TriU) : Diag;
      else if ((i > j) == lower)
        y.at(i, j) = y.lens[(size_t)i] == y.lens[(size_t)j] ? (BlockKind)s.below(5)
                                                            : (s.flag() ? Dense : Zero);
    }
  int N = y.total();
  Mat a = gmat(s, N, N);
  Eigen::MatrixXi m = mask_of(y);
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++)
      if (i == j)
        a(i, i) = unit ? 1. : (std::fabs(a(i, i)) + 0.7) * (s.flag() ? -1 : 1);
      else if (!m(i, j))
        a(i, j) = 0.;
  int nr = s.range(1, 3);
  Mat b = gmat(s, N, nr);
  c.note("structure", y.str());
  c.note("A", show(a));
  c.note("b", show(b));
  if (bad) {
    int k = (int)s.below((uint32_t)nb);
    y.at(k, k) = s.flag() ? Dense : Zero;
  }
  auto v = y.view();
  TriangularBlockMatrix<const Mat, Mode> T(a, v);
  Mat x = b;
  bool ok = T.solveInPlace(x);
  if (bad) {
    c.require(!ok, "block triangular solve accepts a diagonal block which is not triangular");
    c.label("rejected");
    return;
  }
  c.require(ok, "block triangular solve failed");
  double tol = 1e-9 * (1 + nrm(b) + nrm(a) * nrm(x) * N);
  mclose(c, a * x, b, tol, "block triangular solve");
  Mat x2 = b;
  bool ok2 = T.template solveInPlace<Mat, false>(x2);
  c.require(ok2, "block triangular solve (plain products) failed");
  mclose(c, a * x2, b, tol, "block triangular solve (plain products)");
  if (s.flag()) {
    // the same system with its unknowns in other units, by powers of two
    Vec e(N);
    const bool uniform = s.flag();
    const double all = std::ldexp(1., s.range(-90, 90));
    for (int i = 0; i < N; i++)
      e[i] = uniform ? all : std::ldexp(1., s.range(-60, 60));
    Mat as = e.asDiagonal() * a * e.cwiseInverse().asDiagonal(), xs = e.asDiagonal() * b;
    TriangularBlockMatrix<const Mat, Mode> Ts(as, v);
    c.require(Ts.solveInPlace(xs), "block triangular solve in other units failed");
    mclose(c, a * (e.cwiseInverse().asDiagonal() * xs), b, tol, "block triangular solve in other units");
    c.label(uniform ? "scaled" : "graded");
  }
  if (nb > 1)
    c.nontrivial();
}
static void c10_trisolve(Src &s, Ctx &c) {
  switch (s.below(4)) {
  case 0:
    c.note("mode", "Lower");
    return tri_case<Eigen::Lower>(s, c);
  case 1:
    c.note("mode", "Upper");
    return tri_case<Eigen::Upper>(s, c);
  case 2:
    c.note("mode", "UnitLower");
    return tri_case<Eigen::UnitLower>(s, c);
  default:
    c.note("mode", "UnitUpper");
    return tri_case<Eigen::UnitUpper>(s, c);
  }
}

int main(int argc, char **argv) {
  std::vector<Sub> subs = {
      {"C07", "dense", 6000, 60000, c07_dense, "matrix larger than 1x1"},
      {"C07", "bunchkaufman", 8000, 80000, c07_bk, "well-conditioned symmetric matrix larger than 1x1"},
      {"C07", "bunchkaufman_complex", 3000, 20000, c07_bk_complex, "Hermitian matrix larger than 1x1"},
      {"C07", "block", 12000, 120000, c07_block, "at least two blocks"},
      {"C07", "scaled", 6000, 60000, c07_scaled, "matrix larger than 1x1 under a proper scaling"},
      {"C07", "saddle", 3000, 20000, c07_block_saddle, "every case"},
      {"C07", "allocated", 8000, 60000, c07_allocated, "at least one dual block"},
      {"C08", "bunchkaufman", 20000, 200000, c08_bk, "both signs present"},
      {"C08", "ldl", 20000, 200000, c08_ldl, "both signs present"},
      {"C08", "tuple", 20000, 100000, c08_tuple, "more than two entries"},
      {"C09", "algebra", 8000, 8000, c09_algebra, "every triple of kinds"},
      {"C09", "views", 30000, 300000, c09_view, "at least two blocks"},
      {"C09", "llt", 30000, 300000, c09_llt, "at least two blocks, factorised"},
      {"C09", "best_permutation", 20000, 200000, c09_best,
       "permutations of different fill-in exist"},
      {"C09", "best_large", 1000, 10000, c09_best_large, "permutations of different fill-in exist"},
      {"C09", "default_structure", 3000, 10000, c09_default, "at least two dual blocks"},
      {"C10", "gemmt", 60000, 600000, c10_gemmt, "both operands non-zero"},
      {"C10", "trisolve", 40000, 400000, c10_trisolve, "at least two blocks"},
  };
  return engine_main(argc, argv, subs);
}
