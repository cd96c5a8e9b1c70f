// Stand-in for the Python module of Pinocchio: the model class which the bindings take, and the operations of the
// groups which a model is made of (the reference of the checks; see stubs/pinocchio/stub.hpp).
#include <eigenpy/eigenpy.hpp>
#include <pinocchio/stub.hpp>

namespace bp = boost::python;
using Model = pinocchio::ModelTpl<double>;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using CV = Eigen::Ref<const V>;
using CM = Eigen::Ref<const M>;

static Model *make(const bp::list &joints) {
  auto *m = new Model();
  for (long i = 0; i < bp::len(joints); i++) {
    pinocchio::stub::Group g;
    g.kind = bp::extract<int>(joints[i][0]);
    g.n = bp::extract<int>(joints[i][1]);
    m->add(g);
  }
  return m;
}
struct Pickle : bp::pickle_suite {
  static bp::tuple getinitargs(const Model &m) {
    bp::list l;
    for (auto &g : m.joints)
      l.append(bp::make_tuple(g.kind, g.n));
    return bp::make_tuple(l);
  }
};
static bp::list joints(const Model &m) { return bp::list(Pickle::getinitargs(m)[0]); }
static V neutral(const Model &m) { return pinocchio::neutral(m); }
static V integrate(const Model &m, const CV &q, const CV &v) {
  V o(m.nq);
  pinocchio::integrate(m, q, v, o);
  return o;
}
static V difference(const Model &m, const CV &p, const CV &q) {
  V o(m.nv);
  pinocchio::difference(m, p, q, o);
  return o;
}
static V interpolate(const Model &m, const CV &p, const CV &q, double u) {
  V o(m.nq);
  pinocchio::interpolate(m, p, q, u, o);
  return o;
}
static M d_integrate(const Model &m, const CV &q, const CV &v, int arg) {
  M o(m.nv, m.nv);
  pinocchio::dIntegrate(m, q, v, o, (pinocchio::ArgumentPosition)arg);
  return o;
}
static M d_difference(const Model &m, const CV &p, const CV &q, int arg) {
  M o(m.nv, m.nv);
  pinocchio::dDifference(m, p, q, o, (pinocchio::ArgumentPosition)arg);
  return o;
}
static bool normalized(const Model &m, const CV &q) { return pinocchio::isNormalized(m, q); }

BOOST_PYTHON_MODULE(pinocchio) {
  eigenpy::enableEigenPy();
  bp::class_<Model>("Model", bp::init<>())
      .def("__init__", bp::make_constructor(&make))
      .def_readonly("nq", &Model::nq)
      .def_readonly("nv", &Model::nv)
      .add_property("joints", &joints)
      .def_pickle(Pickle());
  bp::def("neutral", &neutral);
  bp::def("integrate", &integrate);
  bp::def("difference", &difference);
  bp::def("interpolate", &interpolate);
  bp::def("dIntegrate", &d_integrate);
  bp::def("dDifference", &d_difference);
  bp::def("isNormalized", &normalized);
}
