// A small extension module which uses python/polymorphic.hpp the way a
// downstream library would: a C++ class extensible from Python, held by value
// through xyz::polymorphic in C++ objects.
#include "proxsuite-nlp/python/polymorphic.hpp"
#include <eigenpy/std-vector.hpp>

using namespace proxsuite::nlp::python;

static int n_alive = 0;

struct Law {
  double k;
  explicit Law(double k = 1.) : k(k) { n_alive++; }
  virtual ~Law() { n_alive--; }
  virtual double eval(double x) const { return k * x; }
  Law(const Law &o) : k(o.k) { n_alive++; }
};
struct Affine : Law {
  double c;
  explicit Affine(double k = 1., double c = 0.) : Law(k), c(c) {}
  double eval(double x) const override { return k * x + c; }
};
struct PyLaw final : Law, PolymorphicWrapper<PyLaw, Law> {
  explicit PyLaw(double k = 1.) : Law(k) {}
  double eval(double x) const override {
    if (bp::override f = get_override("eval"))
      return f(x);
    return Law::eval(x);
  }
  double default_eval(double x) const { return Law::eval(x); }
};
struct PyAffine final : Affine, PolymorphicWrapper<PyAffine, Affine> {
  explicit PyAffine(double k = 1., double c = 0.) : Affine(k, c) {}
  double eval(double x) const override {
    if (bp::override f = get_override("eval"))
      return f(x);
    return Affine::eval(x);
  }
  double default_eval(double x) const { return Affine::eval(x); }
};

namespace boost::python::objects {
template <> struct value_holder<PyLaw> : OwningNonOwningHolder<PyLaw> {
  using OwningNonOwningHolder::OwningNonOwningHolder;
};
template <> struct value_holder<PyAffine> : OwningNonOwningHolder<PyAffine> {
  using OwningNonOwningHolder::OwningNonOwningHolder;
};
} // namespace boost::python::objects

using Poly = xyz::polymorphic<Law>;

struct Store {
  Poly x;
  explicit Store(const Poly &x) : x(x) {}
  void set(const Poly &o) { x = o; }
  void take(Store &o) {
    Poly tmp(o.x);
    x = std::move(tmp);
  }
  double eval(double v) const { return x->eval(v); }
  double k() const { return x->k; }
};
struct Stores {
  std::vector<Poly> v;
  void add(const Poly &x) { v.emplace_back(x); }
  void insert(const Poly &x) { v.insert(v.begin(), x); }
  void erase(int i) { v.erase(v.begin() + i); }
  double eval(int i, double x) const { return v[(std::size_t)i]->eval(x); }
  int size() const { return (int)v.size(); }
  const std::vector<Poly> &get() const { return v; }
};
static double eval_poly(const Poly &x, double v) { return x->eval(v); }
static double eval_copy(Poly x, double v) { return Poly(x)->eval(v); }
static int alive() { return n_alive; }

BOOST_PYTHON_MODULE(MODULE_NAME) {
  register_polymorphic_to_python<Poly>();
  bp::class_<PyLaw, boost::noncopyable>("Law", bp::init<bp::optional<double>>())
      .def("eval", &Law::eval, &PyLaw::default_eval)
      .def_readwrite("k", &Law::k)
      .def(PolymorphicVisitor<Poly>());
  bp::class_<PyAffine, bp::bases<Law>, boost::noncopyable>("Affine", bp::init<bp::optional<double, double>>())
      .def("eval", &Affine::eval, &PyAffine::default_eval)
      .def_readwrite("c", &Affine::c)
      .def(PolymorphicVisitor<Poly>());
  bp::class_<Store, boost::noncopyable>("Store", bp::init<const Poly &>())
      .def("set", &Store::set)
      .def("take", &Store::take)
      .def("eval", &Store::eval)
      .def("k", &Store::k)
      .def_readonly("x", &Store::x);
  bp::class_<Stores>("Stores", bp::init<>())
      .def("add", &Stores::add)
      .def("insert", &Stores::insert)
      .def("erase", &Stores::erase)
      .def("eval", &Stores::eval)
      .def("size", &Stores::size)
      .def("get", &Stores::get, bp::return_internal_reference<>());
  eigenpy::StdVectorPythonVisitor<std::vector<Poly>>::expose(
      "VecLaw", eigenpy::details::overload_base_get_item_for_std_vector<std::vector<Poly>>());
  bp::def("eval_poly", &eval_poly);
  bp::def("eval_copy", &eval_copy);
  bp::def("alive", &alive);
}
