// common parts of the demonstrations
#pragma once
#include "proxsuite-nlp/prox-solver.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/constraints/box-constraint.hpp"
#include "proxsuite-nlp/modelling/constraints/l1-penalty.hpp"
#include "proxsuite-nlp/modelling/constraints/constraint-set-product.hpp"
#include "proxsuite-nlp/modelling/residuals/linear.hpp"
#include "proxsuite-nlp/modelling/residuals/state-residual.hpp"
#include "proxsuite-nlp/modelling/costs/squared-distance.hpp"
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/spaces/cartesian-product.hpp"
#include "proxsuite-nlp/modelling/spaces/tangent-bundle.hpp"
#include <cstdio>
#include <random>
using namespace proxsuite::nlp;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using Space = VectorSpaceTpl<double>;
using Man = ManifoldAbstractTpl<double>;
using Set = ConstraintSetTpl<double>;
using Fun = C2FunctionTpl<double>;
using Obj = ConstraintObjectTpl<double>;
using Solver = ProxNLPSolverTpl<double>;
using Problem = ProblemTpl<double>;
static std::mt19937 gen(7);
inline double uni(double a = -1, double b = 1) { return std::uniform_real_distribution<double>(a, b)(gen); }
inline V rv(int n) { V v(n); for (int i = 0; i < n; i++) v(i) = uni(); return v; }
inline M rm(int r, int c) { M m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = uni(); return m; }
inline M spd(int n) { M a = rm(n, n); return a * a.transpose() + M::Identity(n, n); }
inline std::shared_ptr<Fun> lin(const M &A, const V &b) { return std::make_shared<LinearFunctionTpl<double>>(A, b); }
template <class S, class... A> xyz::polymorphic<Set> mkset(A &&...a) { return xyz::polymorphic<Set>(S(std::forward<A>(a)...)); }
// 1/2 (x-t)^T Q (x-t)
inline Problem qp(int n, const M &Q, const V &t, const std::vector<Obj> &cs) {
  xyz::polymorphic<Man> sp{Space(n)};
  return Problem(sp, std::make_shared<QuadraticDistanceCostTpl<double>>(sp, t, Q), cs);
}
#define CHECK(c) do { if (!(c)) { std::printf("FAILED %s:%d %s\n", __FILE__, __LINE__, #c); return 1; } } while (0)
