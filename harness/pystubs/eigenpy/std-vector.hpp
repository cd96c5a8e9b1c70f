#pragma once
#include "eigenpy/eigenpy.hpp"
#include <vector>
namespace eigenpy {
template <class T> struct IsRef : std::false_type {};
template <class M> struct IsRef<Eigen::Ref<M>> : std::true_type {};

/// Python lists (and tuples) as std::vector
template <class Vec> struct FromList {
  using T = typename Vec::value_type;
  static void *convertible(PyObject *o) {
    if (!PyList_Check(o) && !PyTuple_Check(o))
      return nullptr;
    for (Py_ssize_t i = 0; i < PySequence_Size(o); i++) {
      bp::object e{bp::handle<>(PySequence_GetItem(o, i))};
      if (!check(e))
        return nullptr;
    }
    return o;
  }
  static bool check(const bp::object &e) {
    if constexpr (IsRef<T>::value)
      return MutRef<typename T::PlainObject>::convertible(e.ptr());
    else
      return bp::extract<T>(e).check();
  }
  static void construct(PyObject *o, bp::converter::rvalue_from_python_stage1_data *d) {
    void *mem = ((bp::converter::rvalue_from_python_storage<Vec> *)(void *)d)->storage.bytes;
    Vec *v = new (mem) Vec();
    v->reserve(PySequence_Size(o));
    for (Py_ssize_t i = 0; i < PySequence_Size(o); i++) {
      bp::object e{bp::handle<>(PySequence_GetItem(o, i))};
      if constexpr (IsRef<T>::value) {
        using M = typename T::PlainObject;
        Buffer b(e.ptr(), true);
        long r, c, x, y;
        geometry<M>(b.b, r, c, x, y);
        v->push_back(T(Eigen::Map<M, 0, Eigen::OuterStride<>>((typename M::Scalar *)b.b.buf, r, c,
                                                              Eigen::OuterStride<>(std::max(y, r)))));
      } else
        v->push_back(bp::extract<T>(e)());
    }
    d->convertible = mem;
  }
};

namespace details {
template <class Vec> struct overload_base_get_item_for_std_vector {};
} // namespace details

template <class T> struct IsMatrix : std::false_type {};
template <class S, int R, int C, int O, int MR, int MC>
struct IsMatrix<Eigen::Matrix<S, R, C, O, MR, MC>> : std::true_type {};

template <class T> struct IsShared : std::false_type {};
template <class T> struct IsShared<std::shared_ptr<T>> : std::true_type {};

template <class Vec, bool NoProxy = false> struct StdVectorPythonVisitor {
  using T = typename Vec::value_type;
  static long index(const Vec &v, long i) {
    const long n = (long)v.size();
    if (i < 0)
      i += n;
    if (i < 0 || i >= n) {
      PyErr_SetString(PyExc_IndexError, "Index out of range");
      bp::throw_error_already_set();
    }
    return i;
  }
  static bp::object get(bp::back_reference<Vec &> self, long i) {
    Vec &v = self.get();
    i = index(v, i);
    if constexpr (IsMatrix<T>::value || IsRef<T>::value) {
      bp::object a{bp::handle<>(to_numpy(v[i], false, true))};
      if (bp::objects::make_nurse_and_patient(a.ptr(), self.source().ptr()) == nullptr)
        bp::throw_error_already_set();
      return a;
    } else if constexpr (std::is_class_v<T> && !IsShared<T>::value) {
      bp::object a{bp::handle<>(bp::to_python_indirect<T &, bp::detail::make_reference_holder>()(v[i]))};
      bp::objects::make_nurse_and_patient(a.ptr(), self.source().ptr());
      return a;
    } else
      return bp::object(T(v[i]));
  }
  static long len(const Vec &v) { return (long)v.size(); }
  static bp::list tolist(bp::back_reference<Vec &> self) {
    bp::list l;
    for (long i = 0; i < (long)self.get().size(); i++)
      l.append(get(self, i));
    return l;
  }
  static void append(Vec &v, const bp::object &e) {
    if constexpr (!IsRef<T>::value)
      v.push_back(bp::extract<T>(e)());
  }
  static void expose(const std::string &name) {
    bp::class_<Vec> cl(name.c_str(), bp::no_init);
    cl.def("__len__", &len).def("__getitem__", &get).def("tolist", &tolist).def("append", &append);
    if constexpr (!IsRef<T>::value)
      cl.def(bp::init<>());
    bp::converter::registry::push_back(&FromList<Vec>::convertible, &FromList<Vec>::construct, bp::type_id<Vec>());
  }
  template <class Vis> static void expose(const std::string &name, const Vis &) { expose(name); }
};
} // namespace eigenpy
