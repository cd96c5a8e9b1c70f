// Stand-in for the part of eigenpy which the bindings use: NumPy arrays from
// and to Eigen matrices and references, through Python's buffer protocol.
//
//  - matrices by value are copied in both directions;
//  - a const reference maps the array, or holds a converted copy;
//  - a mutable reference maps a writable array of the right type; when the
//    layout does not allow that, a copy is written back at the end of the call;
//  - an Eigen::Ref, or a matrix returned by (internal) reference, becomes an
//    array on the same memory.
#pragma once
#include <Python.h>
#include <boost/python.hpp>
#include <boost/python/to_python_indirect.hpp>
#include <boost/type_traits/remove_cv_ref.hpp>
#include <Eigen/Core>
#include <cstring>
#include <memory>
#include <string>

namespace eigenpy {
namespace bp = boost::python;

template <class S> struct NpType;
template <> struct NpType<double> {
  static const char *name() { return "float64"; }
  static bool is(const char *f) { return !strcmp(f, "d"); }
};
template <> struct NpType<bool> {
  static const char *name() { return "bool"; }
  static bool is(const char *f) { return !strcmp(f, "?"); }
};
template <> struct NpType<int> {
  static const char *name() { return "int32"; }
  static bool is(const char *f) { return !strcmp(f, "i"); }
};
template <> struct NpType<long> {
  static const char *name() { return "int64"; }
  static bool is(const char *f) { return !strcmp(f, "l") || !strcmp(f, "q"); }
};

inline bp::object numpy() {
  static bp::object *m = new bp::object(bp::import("numpy"));
  return *m;
}

/// An array of the given geometry on foreign memory, or a copy of it.
template <class S>
PyObject *make_array(const S *data, long rows, long cols, long rs, long cs, bool vector, bool copy, bool writable) {
  bp::object np = numpy();
  bp::tuple shape = vector ? bp::make_tuple(rows * cols) : bp::make_tuple(rows, cols);
  bp::object arr;
  if (rows * cols == 0) {
    arr = np.attr("zeros")(shape, NpType<S>::name());
  } else {
    const long e = (long)sizeof(S);
    const long span = ((rows - 1) * rs + (cols - 1) * cs + 1) * e;
    bp::object mem{bp::handle<>(
        PyMemoryView_FromMemory((char *)const_cast<S *>(data), span, writable ? PyBUF_WRITE : PyBUF_READ))};
    bp::tuple strides = vector ? bp::make_tuple((cols == 1 ? rs : cs) * e) : bp::make_tuple(rs * e, cs * e);
    arr = np.attr("ndarray")(shape, NpType<S>::name(), mem, 0, strides);
    if (copy)
      arr = arr.attr("copy")("F");
  }
  return bp::incref(arr.ptr());
}
template <class D> PyObject *to_numpy(const Eigen::DenseBase<D> &m_, bool copy, bool writable) {
  const D &m = m_.derived();
  return make_array<typename D::Scalar>(m.data(), m.rows(), m.cols(), m.rowStride(), m.colStride(),
                                        D::IsVectorAtCompileTime, copy, writable);
}

struct Buffer {
  Py_buffer b;
  bool ok = false;
  Buffer(PyObject *o, bool writable) {
    ok = PyObject_GetBuffer(o, &b, PyBUF_STRIDES | PyBUF_FORMAT | (writable ? PyBUF_WRITABLE : 0)) == 0;
    if (!ok)
      PyErr_Clear();
  }
  ~Buffer() {
    if (ok)
      PyBuffer_Release(&b);
  }
};
inline bool is_array(PyObject *o) {
  int r = PyObject_IsInstance(o, bp::object(numpy().attr("ndarray")).ptr());
  return r == 1;
}
/// Does the geometry of the buffer fit the matrix type?
template <class M> bool geometry(const Py_buffer &b, long &rows, long &cols, long &rs, long &cs) {
  const long e = b.itemsize;
  if (b.ndim == 1) {
    rows = b.shape[0], cols = 1, rs = b.strides[0] / e, cs = rs * rows;
    if (M::RowsAtCompileTime == 1 && M::ColsAtCompileTime != 1) {
      std::swap(rows, cols), std::swap(rs, cs);
    }
  } else if (b.ndim == 2) {
    rows = b.shape[0], cols = b.shape[1], rs = b.strides[0] / e, cs = b.strides[1] / e;
  } else
    return false;
  for (int i = 0; i < b.ndim; i++)
    if (b.strides[i] % e)
      return false;
  if (M::RowsAtCompileTime != Eigen::Dynamic && rows != M::RowsAtCompileTime) {
    if (M::IsVectorAtCompileTime && rows == 1 && cols > 1 && M::ColsAtCompileTime == 1)
      std::swap(rows, cols), std::swap(rs, cs);
    if (rows != M::RowsAtCompileTime)
      return false;
  }
  if (M::ColsAtCompileTime != Eigen::Dynamic && cols != M::ColsAtCompileTime) {
    if (M::ColsAtCompileTime == 1 && rows == 1)
      std::swap(rows, cols), std::swap(rs, cs);
    if (cols != M::ColsAtCompileTime)
      return false;
  }
  return true;
}
/// The array as one of type S; a new reference, or null
template <class S> PyObject *as_type(PyObject *o) {
  Buffer b(o, false);
  if (b.ok && NpType<S>::is(b.b.format))
    return bp::incref(o);
  try {
    bp::object a{bp::handle<>(bp::borrowed(o))};
    bp::object np = numpy();
    if (!bp::extract<bool>(np.attr("can_cast")(a.attr("dtype"), NpType<S>::name())))
      return nullptr;
    return bp::incref(bp::object(a.attr("astype")(NpType<S>::name())).ptr());
  } catch (bp::error_already_set &) {
    PyErr_Clear();
    return nullptr;
  }
}
template <class M> using AnyMap = Eigen::Map<M, 0, Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>>;
template <class M>
AnyMap<M> any_map(const Py_buffer &b, long rows, long cols, long rs, long cs) {
  using S = typename M::Scalar;
  const bool rm = M::IsRowMajor;
  return AnyMap<M>((S *)b.buf, rows, cols,
                   Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>(rm ? rs : cs, rm ? cs : rs));
}

/// Matrices by value.
template <class M> struct Value {
  using S = typename M::Scalar;
  static PyObject *convert(const M &m) { return to_numpy(m, true, true); }
  static void *convertible(PyObject *o) {
    if (!is_array(o))
      return nullptr;
    PyObject *a = as_type<S>(o);
    if (!a)
      return nullptr;
    bp::object hold{bp::handle<>(a)};
    Buffer b(a, false);
    long r, c, x, y;
    return b.ok && geometry<M>(b.b, r, c, x, y) ? o : nullptr;
  }
  static void construct(PyObject *o, bp::converter::rvalue_from_python_stage1_data *d) {
    void *mem = ((bp::converter::rvalue_from_python_storage<M> *)(void *)d)->storage.bytes;
    bp::object a{bp::handle<>(as_type<S>(o))};
    Buffer b(a.ptr(), false);
    long r, c, x, y;
    geometry<M>(b.b, r, c, x, y);
    new (mem) M(any_map<M>(b.b, r, c, x, y));
    d->convertible = mem;
  }
  static void reg() {
    bp::converter::registry::push_back(&convertible, &construct, bp::type_id<M>());
    bp::to_python_converter<M, Value<M>>();
  }
};

/// Const references: map the array when that is possible.
template <class M> struct ConstRef {
  using S = typename M::Scalar;
  using Rf = Eigen::Ref<const M>;
  static PyObject *convert(const Rf &m) { return to_numpy(m, false, false); }
  static void construct(PyObject *o, bp::converter::rvalue_from_python_stage1_data *d) {
    void *mem = ((bp::converter::rvalue_from_python_storage<Rf const &> *)(void *)d)->storage.bytes;
    PyObject *a = as_type<S>(o);
    bp::object hold{bp::handle<>(a)};
    Buffer b(a, false);
    long r, c, x, y;
    geometry<M>(b.b, r, c, x, y);
    if (a == o && (M::IsRowMajor ? y : x) == 1 && (M::IsVectorAtCompileTime || (M::IsRowMajor ? x : y) >= (M::IsRowMajor ? c : r)))
      new (mem) Rf(Eigen::Map<M, 0, Eigen::OuterStride<>>((S *)b.b.buf, r, c,
                                                          Eigen::OuterStride<>(M::IsRowMajor ? x : y)));
    else
      new (mem) Rf(any_map<M>(b.b, r, c, x, y));
    d->convertible = mem;
  }
  static void reg() {
    bp::converter::registry::push_back(&Value<M>::convertible, &construct, bp::type_id<Rf>());
    bp::to_python_converter<Rf, ConstRef<M>>();
  }
};

/// What a call holds for a mutable reference.
template <class M> struct RefHolder {
  using Rf = Eigen::Ref<M>;
  Rf ref;
  M *tmp;
  PyObject *arr;
  RefHolder(const Rf &r, M *tmp, PyObject *arr) : ref(r), tmp(tmp), arr(bp::incref(arr)) {}
  ~RefHolder() {
    if (tmp) {
      Buffer b(arr, true);
      long r, c, x, y;
      if (b.ok && geometry<M>(b.b, r, c, x, y))
        any_map<M>(b.b, r, c, x, y) = *tmp;
      delete tmp;
    }
    bp::decref(arr);
  }
};
template <class M> struct MutRef {
  using S = typename M::Scalar;
  using Rf = Eigen::Ref<M>;
  static PyObject *convert(const Rf &m) { return to_numpy(m, false, true); }
  static void *convertible(PyObject *o) {
    if (!is_array(o))
      return nullptr;
    Buffer b(o, true);
    long r, c, x, y;
    return b.ok && NpType<S>::is(b.b.format) && geometry<M>(b.b, r, c, x, y) ? o : nullptr;
  }
  static Rf *make(PyObject *o, void *mem) {
    Buffer b(o, true);
    long r, c, x, y;
    geometry<M>(b.b, r, c, x, y);
    const long in = M::IsRowMajor ? y : x, out = M::IsRowMajor ? x : y, len = M::IsRowMajor ? c : r;
    if ((in == 1 || r * c <= 1) && (M::IsVectorAtCompileTime || out >= len || r * c <= 1)) {
      Eigen::Map<M, 0, Eigen::OuterStride<>> m((S *)b.b.buf, r, c, Eigen::OuterStride<>(std::max(out, len)));
      return &(new (mem) RefHolder<M>(Rf(m), nullptr, o))->ref;
    }
    M *tmp = new M(any_map<M>(b.b, r, c, x, y));
    return &(new (mem) RefHolder<M>(Rf(*tmp), tmp, o))->ref;
  }
  static void construct(PyObject *o, bp::converter::rvalue_from_python_stage1_data *d) {
    void *mem = ((bp::converter::rvalue_from_python_storage<Rf &> *)(void *)d)->storage.bytes;
    d->convertible = make(o, mem);
  }
  static void reg() {
    bp::converter::registry::push_back(&convertible, &construct, bp::type_id<Rf>());
    bp::to_python_converter<Rf, MutRef<M>>();
  }
};

template <class M> bool registered() {
  const auto *r = bp::converter::registry::query(bp::type_id<M>());
  return r && r->m_to_python;
}
template <class M> void enableEigenPySpecific() {
  if (registered<M>())
    return;
  Value<M>::reg();
  ConstRef<M>::reg();
  MutRef<M>::reg();
}
inline void enableEigenPy() {
  enableEigenPySpecific<Eigen::VectorXd>();
  enableEigenPySpecific<Eigen::MatrixXd>();
  enableEigenPySpecific<Eigen::Vector3d>();
  enableEigenPySpecific<Eigen::Matrix3d>();
  enableEigenPySpecific<Eigen::VectorXi>();
  enableEigenPySpecific<Eigen::Matrix<long, -1, 1>>();
}

template <class T> struct IndirectEigen {
  template <class U> PyObject *operator()(U const &m) const { return to_numpy(m, false, !std::is_const<T>::value); }
#ifndef BOOST_PYTHON_NO_PY_SIGNATURES
  PyTypeObject const *get_pytype() const { return nullptr; }
#endif
};
} // namespace eigenpy

namespace boost {
namespace python {
template <class S, int R, int C, int O, int MR, int MC, class MakeHolder>
struct to_python_indirect<Eigen::Matrix<S, R, C, O, MR, MC> &, MakeHolder>
    : eigenpy::IndirectEigen<Eigen::Matrix<S, R, C, O, MR, MC>> {};
template <class S, int R, int C, int O, int MR, int MC, class MakeHolder>
struct to_python_indirect<const Eigen::Matrix<S, R, C, O, MR, MC> &, MakeHolder>
    : eigenpy::IndirectEigen<const Eigen::Matrix<S, R, C, O, MR, MC>> {};

namespace detail {
// room for what a call holds besides the reference itself
template <class S, int R, int C, int O, int MR, int MC>
struct referent_storage<Eigen::Ref<Eigen::Matrix<S, R, C, O, MR, MC>> &> {
  using M = Eigen::Matrix<S, R, C, O, MR, MC>;
  typedef typename aligned_storage<sizeof(eigenpy::RefHolder<M>)>::type StorageType;
  union type {
    alignas(16) char bytes[sizeof(eigenpy::RefHolder<M>)];
  };
};
} // namespace detail
namespace converter {
// `Ref<const M> &`, as deduced by function templates
template <class S, int R, int C, int O, int MR, int MC, int RO, class St>
struct reference_arg_from_python<Eigen::Ref<const Eigen::Matrix<S, R, C, O, MR, MC>, RO, St> &> {
  using Rf = Eigen::Ref<const Eigen::Matrix<S, R, C, O, MR, MC>, RO, St>;
  typedef Rf &result_type;
  arg_rvalue_from_python<Rf const &> arg;
  reference_arg_from_python(PyObject *p) : arg(p) {}
  bool convertible() const { return arg.convertible(); }
  result_type operator()() { return const_cast<Rf &>(arg()); }
};
template <class S, int R, int C, int O, int MR, int MC>
struct rvalue_from_python_data<Eigen::Ref<Eigen::Matrix<S, R, C, O, MR, MC>> &>
    : rvalue_from_python_storage<Eigen::Ref<Eigen::Matrix<S, R, C, O, MR, MC>> &> {
  using M = Eigen::Matrix<S, R, C, O, MR, MC>;
  rvalue_from_python_data(rvalue_from_python_stage1_data const &s) { this->stage1 = s; }
  rvalue_from_python_data(void *c) { this->stage1.convertible = c; }
  ~rvalue_from_python_data() {
    if (this->stage1.convertible == this->storage.bytes)
      ((eigenpy::RefHolder<M> *)(void *)this->storage.bytes)->~RefHolder();
  }
};
} // namespace converter
} // namespace python
} // namespace boost
